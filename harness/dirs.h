// Shared by the directory operations: every rebuild reports the returned directory and the image after the call, refused or not.
#pragma once
#include "drv.h"
namespace drv
{
struct St { pe_base& p; J& r; bool on; St(pe_base& p_, J& r_, const J& a) : p(p_), r(r_), on(!a.b("nost", false)) {} ~St() { if(on) r.set("st", project(p)); } };
inline void dirret(J& r, const image_directory& d) { r.set("drva", sat(d.get_rva())); r.set("dsize", sat(d.get_size())); }
inline uint32_t n4(const J& a, const char* k, uint32_t d = 0) { return a.has(k) ? (uint32_t)a.n(k) : d; }
inline std::string bs(const J& a, const char* k) { return a.has(k) ? a[k].bytes() : std::string(); }
}
