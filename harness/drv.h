// Conformance driver: executes API histories against pe_bliss and records the observable outcome of every call.
#pragma once
#include "json.h"
#include <memory>
#include <sstream>
#include <functional>
#include <map>
#include <list>
#include <pe_lib/pe_bliss.h>
#include <pe_lib/pe_bliss_resources.h>

namespace drv
{
using namespace pe_bliss;
static const int64_t BIG = 536870912; // values at or above this are reported as BIG (TLC integers are 32-bit)

inline J sat(uint64_t v) { return J(static_cast<int64_t>(v >= static_cast<uint64_t>(BIG) ? BIG : v)); }
inline J w2(uint16_t v) { J j = J::arr(); for(int i = 0; i < 2; i++) j.push((int)((v >> (8 * i)) & 255)); return j; }
inline J w4(uint32_t v) { J j = J::arr(); for(int i = 0; i < 4; i++) j.push((int)((v >> (8 * i)) & 255)); return j; }
inline J w8(uint64_t v) { J j = J::arr(); for(int i = 0; i < 8; i++) j.push((int)((v >> (8 * i)) & 255)); return j; }
inline J by(const void* p, size_t n) { J j = J::arr(); const unsigned char* c = static_cast<const unsigned char*>(p); j.a.reserve(n); for(size_t i = 0; i < n; i++) j.a.push_back(J((int)c[i])); return j; }
inline J by(const std::string& s) { return by(s.data(), s.size()); }
inline J ws16(const u16string& s) { J j = J::arr(); for(size_t i = 0; i < s.size(); i++) j.push((int)static_cast<uint16_t>(s[i])); return j; }
inline J ws(const std::wstring& s) { J j = J::arr(); for(size_t i = 0; i < s.size(); i++) j.push(sat(static_cast<uint32_t>(s[i]))); return j; }
inline std::wstring towstr(const J& j) { std::wstring r; for(size_t i = 0; i < j.a.size(); i++) r.push_back(static_cast<wchar_t>(j.a[i].i)); return r; }

struct Ctx
{
    std::map<int64_t, std::shared_ptr<pe_base> > imgs;
    std::map<int64_t, std::string> files;
    std::map<int64_t, std::shared_ptr<section> > det;         // detached sections
    std::map<int64_t, std::shared_ptr<resource_directory> > res;  // resource trees
    std::map<std::string, std::shared_ptr<void> > misc;
    pe_base& img(const J& a, const char* key = "img") { int64_t k = a.n(key, 0); if(!imgs[k]) throw std::logic_error("driver: no image"); return *imgs[k]; }
    section& sec(const J& a, const char* key = "sec") { // 0-based attached index, or {"det":n}
        if(a.has("det")) { std::shared_ptr<section>& p = det[a.n("det")]; if(!p) p.reset(new section); return *p; }
        section_list& l = img(a).get_image_sections(); size_t i = static_cast<size_t>(a.n(key)); if(i >= l.size()) throw std::logic_error("driver: no section"); return l[i]; }
    resource_directory& tree(const J& a, const char* key = "tree") { std::shared_ptr<resource_directory>& p = res[a.n(key, 0)]; if(!p) p.reset(new resource_directory); return *p; }
};
typedef std::function<void(Ctx&, const J&, J&)> Op;
std::map<std::string, Op>& ops();
struct Reg { Reg(const char* n, Op f) { ops()[n] = f; } };
#define DRV_CAT2(a,b) a##b
#define DRV_CAT(a,b) DRV_CAT2(a,b)
#define OP(name) static void op_##name(Ctx& c, const J& a, J& r); static drv::Reg DRV_CAT(reg_,name)(#name, op_##name); static void op_##name(Ctx& c, const J& a, J& r)

J project(pe_base& pe);       // full observable image state
J project_secmeta(const pe_base& pe);
const char* excname(pe_exception::exception_id id);
}
