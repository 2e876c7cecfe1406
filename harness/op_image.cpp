// Image-level operations: creation, loading, rebuilding, sections, addresses, directories, header fields.
#include "drv.h"
#include <cstring>
using namespace drv;
using namespace pe_bliss::pe_win;
namespace drv
{
J project(pe_base& pe)
{
    J s = J::obj();
    s.set("fmt", pe.get_pe_type() == pe_type_32 ? 32 : 64);
    s.set("dos", by(&static_cast<const pe_base&>(pe).get_dos_header(), sizeof(image_dos_header)));
    s.set("stub", by(pe.get_stub_overlay()));
    s.set("hdr", by(pe.get_full_headers_data()));
    s.set("nt", by(static_cast<const pe_base&>(pe).get_nt_headers_ptr(), pe.get_sizeof_nt_header()));
    s.set("ovl", pe.has_overlay());
    J secs = J::arr();
    const section_list& l = static_cast<const pe_base&>(pe).get_image_sections();
    for(size_t i = 0; i < l.size(); i++) { J e = J::obj(); e.set("h", by(&l[i].get_raw_header(), sizeof(image_section_header))); e.set("d", by(l[i].get_raw_data())); secs.push(e); }
    s.set("secs", secs);
    J dbg = J::arr();
    const pe_base::debug_data_list& d = pe.get_raw_debug_data_list();
    for(pe_base::debug_data_list::const_iterator it = d.begin(); it != d.end(); ++it) { J e = J::obj(); e.set("p", w4(it->first)); e.set("d", by(it->second)); dbg.push(e); }
    s.set("dbg", dbg);
    return s;
}
}
static int sec_index(const pe_base& pe, const section& s) { const section_list& l = pe.get_image_sections(); for(size_t i = 0; i < l.size(); i++) if(&l[i] == &s) return (int)i; return -1; }

OP(new) {
    std::shared_ptr<pe_base> p;
    uint32_t sa = (uint32_t)a.n("sa", 0x1000); bool dll = a.b("dll", false); uint16_t ss = (uint16_t)a.n("subsys", 2);
    if(a.n("fmt") == 32) p.reset(new pe_base(pe_properties_32(), sa, dll, ss)); else p.reset(new pe_base(pe_properties_64(), sa, dll, ss));
    c.imgs[a.n("img", 0)] = p;
}
// load an image from bytes ("data") or a file slot; reports the stream afterwards
struct Rep { std::stringstream& s; std::ios_base::iostate m; J& r;
    Rep(std::stringstream& ss, const J& a, J& rr) : s(ss), m(std::ios_base::goodbit), r(rr) { int k = (int)a.n("mask", 0); // 1 bad, 2 eof, 4 fail
        if(k & 1) m |= std::ios_base::badbit; if(k & 2) m |= std::ios_base::eofbit; if(k & 4) m |= std::ios_base::failbit;
        ss.seekg(a.n("pos", 0)); ss.clear(); ss.exceptions(m); }
    ~Rep() { bool mk = s.exceptions() == m; bool cl = s.rdstate() == 0; s.exceptions(std::ios_base::goodbit); s.clear(); r.set("spos", sat((uint64_t)(std::streamoff)s.tellg())); r.set("smask", mk); r.set("sclear", cl); } };
OP(load) {
    std::string data = a.has("data") ? a["data"].bytes() : c.files[a.n("file", 0)];
    std::stringstream ss(data, std::ios::in | std::ios::out | std::ios::binary);
    Rep rep(ss, a, r);
    std::string how = a.str("how", "factory");
    std::shared_ptr<pe_base> p;
    if(how == "type") { r.set("ty", pe_base::get_pe_type(ss) == pe_type_32 ? 32 : 64); return; }
    if(how == "factory") p.reset(new pe_base(pe_factory::create_pe(ss, a.b("mem", false), a.b("dbg", true))));
    else if(how == "32") p.reset(new pe_base(ss, pe_properties_32(), a.b("mem", false), a.b("dbg", true)));
    else p.reset(new pe_base(ss, pe_properties_64(), a.b("mem", false), a.b("dbg", true)));
    c.imgs[a.n("img", 0)] = p;
    r.set("st", project(*p));
}
OP(st) { r.set("st", project(c.img(a))); }
OP(checksum) {
    std::string data = a.has("data") ? a["data"].bytes() : c.files[a.n("file", 0)];
    std::stringstream ss(data, std::ios::in | std::ios::out | std::ios::binary);
    Rep rep(ss, a, r);
    r.set("sum", w4(calculate_checksum(ss)));
}
struct nosk : std::streambuf { // an output that cannot tell its position, like a pipe
    std::string d;
    int overflow(int ch) { if(ch != EOF) d += (char)ch; return ch; }
    std::streamsize xsputn(const char* p, std::streamsize n) { d.append(p, (size_t)n); return n; } };
OP(rebuild) {
    pe_base& pe = c.img(a);
    std::string pre = a.has("pre") ? a["pre"].bytes() : std::string(), res;
    nosk nb; std::stringbuf sb(std::ios::out | std::ios::binary);
    std::ostream out(a.b("nosk", false) ? (std::streambuf*)&nb : (std::streambuf*)&sb);
    out.write(pre.data(), pre.size());
    try { rebuild_pe(pe, out, a.b("strip", false), a.b("soh", true), a.b("bound", true)); }
    catch(...) { if(a.b("nost", false) == false) r.set("st", project(pe)); throw; }
    res = a.b("nosk", false) ? nb.d : sb.str();
    if(res.compare(0, pre.size(), pre) == 0) res.erase(0, pre.size());
    c.files[a.n("file", 0)] = res;
    if(!a.b("nofile", false)) r.set("out", by(res));
    if(!a.b("nost", false)) r.set("st", project(pe));
}
OP(file_set) { c.files[a.n("file", 0)] = a["b"].bytes(); }
OP(setfa_raw) { uint32_t fa = (uint32_t)a.n("fa"); memcpy(c.img(a).get_nt_headers_ptr() + 60, &fa, 4); }
OP(file_patch) { std::string& f = c.files[a.n("file", 0)]; std::string b = a["b"].bytes(); size_t off = (size_t)a.n("off"); if(off + b.size() <= f.size()) f.replace(off, b.size(), b); }
OP(file_cut) { std::string& f = c.files[a.n("file", 0)]; size_t n = (size_t)a.n("n"); if(n < f.size()) f.resize(n); }
OP(file_app) { c.files[a.n("file", 0)] += a["b"].bytes(); }
OP(file_get) { r.set("out", by(c.files[a.n("file", 0)])); }
OP(img_copy) { c.imgs[a.n("to")] = std::shared_ptr<pe_base>(new pe_base(c.img(a, "from"))); r.set("st", project(*c.imgs[a.n("to")])); }
OP(img_assign) { c.img(a, "to") = c.img(a, "from"); r.set("st", project(c.img(a, "to"))); }
OP(img_drop) { c.imgs.erase(a.n("img", 0)); }

// ---- sections
static section mksec(const J& a) {
    section s; if(a.has("name")) s.set_name(a["name"].bytes());
    if(a.has("raw")) { if(a.b("setraw", false)) s.set_raw_data(a["raw"].bytes()); else s.get_raw_data() = a["raw"].bytes(); }
    if(a.has("vs")) s.set_virtual_size((uint32_t)a.n("vs")); if(a.has("va")) s.set_virtual_address((uint32_t)a.n("va"));
    if(a.has("ch")) s.set_characteristics((uint32_t)a.n("ch")); return s; }
static J secst(const section& s) { J e = J::obj(); e.set("h", by(&s.get_raw_header(), sizeof(image_section_header))); e.set("d", by(s.get_raw_data())); return e; }
OP(addsec) { pe_base& pe = c.img(a); section s = mksec(a); if(a.b("premap", false)) s.get_virtual_data(pe.get_section_alignment()); section& n = pe.add_section(s, a.b("auto", true)); r.set("idx", sec_index(pe, n)); }
OP(adddet) { pe_base& pe = c.img(a); section& n = pe.add_section(*c.det[a.n("det")], a.b("auto", true)); r.set("idx", sec_index(pe, n)); }
OP(det_new) { c.det[a.n("det")] = std::shared_ptr<section>(new section(mksec(a))); }
OP(det_st) { r.set("s", secst(c.sec(a))); }
OP(prepare) { struct R { section& s; J& r; ~R() { r.set("s", secst(s)); } } rep = { c.sec(a), r }; c.img(a).prepare_section(rep.s); }
OP(recalc) { c.img(a).recalculate_section_sizes(c.sec(a), a.b("strip", false)); }
OP(setvs) { c.img(a).set_section_virtual_size(c.sec(a), (uint32_t)a.n("vs")); }
OP(expand) { r.set("ret", c.img(a).expand_section(c.sec(a), a.has("rel") ? c.sec(a).get_virtual_address() + (uint32_t)a.n("rel") : (uint32_t)a.n("rva"), (uint32_t)a.n("size"), a.str("kind") == "raw" ? pe_base::expand_section_raw : pe_base::expand_section_virtual)); }
OP(realign_sec) { c.img(a).realign_section((uint32_t)a.n("idx")); }
OP(realign_all) { c.img(a).realign_all_sections(); }
OP(realign_file) { c.img(a).realign_file((uint32_t)a.n("fa")); }
OP(setfa) { c.img(a).set_file_alignment((uint32_t)a.n("fa")); }
OP(upd_size) { c.img(a).update_image_size(); }
OP(upd_num) { r.set("ret", (int)c.img(a).update_number_of_sections()); }
OP(attached) { r.set("ret", c.img(a).section_attached(c.sec(a))); }
OP(sec_edit) { std::string& d = c.sec(a).get_raw_data(); std::string b = a["b"].bytes(); size_t off = (size_t)a.n("off"); if(off + b.size() <= d.size()) d.replace(off, b.size(), b); }
OP(sec_resize) { c.sec(a).get_raw_data().resize((size_t)a.n("n"), (char)a.n("fill", 0)); }
OP(sec_setraw) { c.sec(a).set_raw_data(a["raw"].bytes()); }
OP(sec_virt) { const std::string& v = a.b("const", false) ? static_cast<const section&>(c.sec(a)).get_virtual_data(c.img(a).get_section_alignment()) : c.sec(a).get_virtual_data(c.img(a).get_section_alignment());
    std::string::size_type n = v.size(); while(n && !v[n - 1]) n--; r.set("len", sat(v.size())); r.set("nz", by(v.data(), n)); }
OP(sec_vwrite) { std::string& d = c.sec(a).get_virtual_data(c.img(a).get_section_alignment()); std::string b = a["b"].bytes(); size_t off = (size_t)a.n("off"); if(off + b.size() <= d.size()) d.replace(off, b.size(), b); }
OP(sec_rawget) { const std::string& v = a.b("const", false) ? static_cast<const section&>(c.sec(a)).get_raw_data() : c.sec(a).get_raw_data(); r.set("d", by(v)); }
OP(sec_empty) { r.set("ret", c.sec(a).empty()); }
OP(sec_copy) { c.det[a.n("to")] = std::shared_ptr<section>(new section(c.sec(a))); }
OP(sec_remove_last) { c.img(a).get_image_sections().pop_back(); }
OP(sec_hdr) { // raw header patch (what a caller may do with the public raw-header access)
    char* h = reinterpret_cast<char*>(&c.sec(a).get_raw_header()); std::string b = a["b"].bytes(); memcpy(h + a.n("off"), b.data(), b.size()); }
OP(sec_setters) { section& s = c.sec(a);
    if(a.has("name")) s.set_name(a["name"].bytes());
    if(a.has("flag")) { std::string f = a.str("flag"); bool on = a.b("on", true); if(f == "r") s.readable(on); else if(f == "w") s.writeable(on); else if(f == "x") s.executable(on); else if(f == "s") s.shared(on); else s.discardable(on); }
    if(a.has("ch")) s.set_characteristics((uint32_t)a.n("ch")); if(a.has("ptr")) s.set_pointer_to_raw_data((uint32_t)a.n("ptr"));
    if(a.has("va")) s.set_virtual_address((uint32_t)a.n("va")); if(a.has("vs")) s.set_virtual_size((uint32_t)a.n("vs")); if(a.has("rs")) s.set_size_of_raw_data((uint32_t)a.n("rs")); }
OP(sec_getters) { const section& s = c.sec(a); const pe_base& pe = c.img(a);
    r.set("name", by(s.get_name())); r.set("r", s.readable()); r.set("w", s.writeable()); r.set("x", s.executable()); r.set("s", s.shared()); r.set("dd", s.discardable());
    r.set("vs", w4(s.get_virtual_size())); r.set("va", w4(s.get_virtual_address())); r.set("rs", w4(s.get_size_of_raw_data())); r.set("ptr", w4(s.get_pointer_to_raw_data())); r.set("ch", w4(s.get_characteristics()));
    r.set("avs", sat(s.get_aligned_virtual_size(pe.get_section_alignment()))); r.set("ars", sat(s.get_aligned_raw_size(pe.get_file_alignment()))); }

// ---- addresses
OP(conv) {
    const pe_base& pe = c.img(a); std::string k = a.str("k"); uint64_t v = (uint64_t)a.n("v"); uint32_t v4 = (uint32_t)v; bool bc = a.b("bc", true);
    if(k == "va2rva32") r.set("w", w4(pe.va_to_rva(v4, bc)));
    else if(k == "va2rva64") r.set("w", w4(pe.va_to_rva(v, bc)));
    else if(k == "rva2va32") { uint32_t x; pe.rva_to_va(v4, x); r.set("w", w4(x)); r.set("w2", w4(pe.rva_to_va_32(v4))); }
    else if(k == "rva2va64") { uint64_t x; pe.rva_to_va(v4, x); r.set("w", w8(x)); r.set("w2", w8(pe.rva_to_va_64(v4))); }
    else if(k == "rva2off") r.set("w", w4(pe.rva_to_file_offset(v4)));
    else if(k == "off2rva") r.set("w", w4(pe.file_offset_to_rva(v4)));
    else if(k == "sec_rva") { r.set("idx", sec_index(pe, pe.section_from_rva(v4))); r.set("idx2", sec_index(pe, c.img(a).section_from_rva(v4))); }
    else if(k == "sec_va32") { r.set("idx", sec_index(pe, pe.section_from_va(v4))); r.set("idx2", sec_index(pe, c.img(a).section_from_va(v4))); }
    else if(k == "sec_va64") { r.set("idx", sec_index(pe, pe.section_from_va(v))); r.set("idx2", sec_index(pe, c.img(a).section_from_va(v))); }
    else if(k == "sec_off") { r.set("idx", sec_index(pe, pe.section_from_file_offset(v4))); r.set("idx2", sec_index(pe, c.img(a).section_from_file_offset(v4))); }
    else if(k == "sec_dir") { r.set("idx", sec_index(pe, pe.section_from_directory(v4))); r.set("idx2", sec_index(pe, c.img(a).section_from_directory(v4))); }
    else if(k == "sec_and_off") { std::pair<uint32_t, const section*> x = pe.section_and_offset_from_rva(v4); r.set("w", w4(x.first)); r.set("idx", sec_index(pe, *x.second)); }
    else if(k == "sec_rva_off") { const section& s = c.sec(a); r.set("w", w4(pe_base::rva_from_section_offset(s, v4))); }
    else throw std::logic_error("driver: conv kind");
}
template<typename T> static void rdT(Ctx& c, const J& a, J& r)
{
    const pe_base& pe = c.img(a); section_data_type dt = a.str("view") == "virt" ? section_data_virtual : section_data_raw; bool h = a.b("hdrs", false); std::string via = a.str("via", "rva"); uint64_t v = (uint64_t)a.n("v"); T t;
    if(a.has("sec")) { const section& s = c.sec(a); t = via == "rva" ? pe.section_data_from_rva<T>(s, (uint32_t)v, dt) : via == "va32" ? pe.section_data_from_va<T>(s, (uint32_t)v, dt) : pe.section_data_from_va<T>(s, v, dt); }
    else t = via == "rva" ? pe.section_data_from_rva<T>((uint32_t)v, dt, h) : via == "va32" ? pe.section_data_from_va<T>((uint32_t)v, dt, h) : pe.section_data_from_va<T>(v, dt, h);
    r.set("b", by(&t, sizeof t));
}
struct s20_ { char b[20]; }; struct s40_ { char b[40]; };
OP(rd) { switch(a.n("n")) { case 1: rdT<uint8_t>(c, a, r); break; case 2: rdT<uint16_t>(c, a, r); break; case 4: rdT<uint32_t>(c, a, r); break; case 8: rdT<uint64_t>(c, a, r); break; case 20: rdT<s20_>(c, a, r); break; default: rdT<s40_>(c, a, r); } }
// pointer accessors: the pointer must address the byte at that RVA; "k" bytes are read (the caller asks only for bytes inside the view)
OP(ptr) {
    pe_base& pe = c.img(a); const pe_base& cpe = pe; section_data_type dt = a.str("view") == "virt" ? section_data_virtual : section_data_raw; bool h = a.b("hdrs", false); uint64_t v = (uint64_t)a.n("v"); uint32_t v4 = (uint32_t)v; std::string via = a.str("via", "rva"); const char* p = 0;
    bool mut = a.b("mut", false);
    if(a.has("sec")) { section& s = c.sec(a); p = mut ? (via == "rva" ? pe.section_data_from_rva(s, v4) : via == "va32" ? pe.section_data_from_va(s, v4) : pe.section_data_from_va(s, v)) : (via == "rva" ? cpe.section_data_from_rva(static_cast<const section&>(s), v4, dt) : via == "va32" ? cpe.section_data_from_va(static_cast<const section&>(s), v4, dt) : cpe.section_data_from_va(static_cast<const section&>(s), v, dt)); }
    else p = mut ? (via == "rva" ? pe.section_data_from_rva(v4, h) : via == "va32" ? pe.section_data_from_va(v4, h) : pe.section_data_from_va(v, h)) : (via == "rva" ? cpe.section_data_from_rva(v4, dt, h) : via == "va32" ? cpe.section_data_from_va(v4, dt, h) : cpe.section_data_from_va(v, dt, h));
    //Only bytes that belong to the section (or the header area) are dereferenced
    bool found = false; size_t n = (size_t)a.n("cnt", 1), av = 0;
    const std::string& hd = cpe.get_full_headers_data();
    if(!a.has("sec") && p >= hd.data() && p < hd.data() + hd.size()) { av = hd.data() + hd.size() - p; found = true; }
    section_list& L = pe.get_image_sections();
    for(size_t i = 0; !found && i <= L.size(); i++) {
        if(a.has("sec") != (i == L.size())) continue;
        const section& s = i == L.size() ? c.sec(a) : L[i];
        if(s.get_raw_data().empty() && dt == section_data_raw) continue;
        const std::string& d = mut || dt == section_data_raw ? s.get_raw_data() : s.get_virtual_data(cpe.get_section_alignment());
        if(p >= d.data() && p < d.data() + d.size()) { av = d.data() + d.size() - p; found = true; }
    }
    r.set("b", by(p, std::min(n, av)));
}
// every conversion, lookup and read at every address below n
template<typename F> static int64_t num_or(F f) {
    try { return (int64_t)f(); } catch(const pe_exception& e) { return e.get_id() == pe_exception::no_section_found ? -1 : e.get_id() == pe_exception::rva_not_exists ? -2 : e.get_id() == pe_exception::incorrect_address_conversion ? -3 : -9; } }
template<typename F> static J words_or(F f) {
    try { return f(); } catch(const pe_exception& e) { J v = J::arr(); v.push(e.get_id() == pe_exception::no_section_found ? -1 : e.get_id() == pe_exception::rva_not_exists ? -2 : e.get_id() == pe_exception::incorrect_address_conversion ? -3 : -9); return v; } }
template<typename T> static J sweep_read(const pe_base& pe, uint32_t x, section_data_type t, bool h) { return words_or([&] { T v = pe.section_data_from_rva<T>(x, t, h); return by(&v, sizeof v); }); }
OP(sweep) {
    const pe_base& pe = c.img(a); uint32_t n = (uint32_t)a.n("n"); uint64_t base = pe.get_image_base_64();
    J off = J::arr(), rva = J::arr(), sr = J::arr(), so = J::arr(), va = J::arr(), bk = J::arr();
    for(uint32_t x = 0; x < n; x++) {
        off.push((num_or([&] { return pe.rva_to_file_offset(x); }))); rva.push((num_or([&] { return pe.file_offset_to_rva(x); })));
        sr.push((num_or([&] { return sec_index(pe, pe.section_from_rva(x)); }))); so.push((num_or([&] { return sec_index(pe, pe.section_from_file_offset(x)); })));
        va.push(words_or([&] { uint32_t v; pe.rva_to_va(x, v); return w4(v); })); bk.push(words_or([&] { return w4(pe.va_to_rva(base + x)); })); }
    r.set("off", off); r.set("rva", rva); r.set("sr", sr); r.set("so", so); r.set("va", va); r.set("bk", bk);
    J rd = J::arr(), ln = J::arr();
    for(int t = 0; t < 2; t++) for(int h = 0; h < 2; h++) { J q = J::arr(), l = J::arr(); section_data_type y = t ? section_data_virtual : section_data_raw;
        for(uint32_t x = 0; x < n; x++) { q.push(sweep_read<uint8_t>(pe, x, y, h)); q.push(sweep_read<uint32_t>(pe, x, y, h)); q.push(sweep_read<uint64_t>(pe, x, y, h)); l.push((num_or([&] { return pe.section_data_length_from_rva(x, y, h); }))); }
        rd.push(q); ln.push(l); }
    r.set("rd", rd); r.set("ln", ln);
}
OP(len) {
    const pe_base& pe = c.img(a); section_data_type dt = a.str("view") == "virt" ? section_data_virtual : section_data_raw; bool h = a.b("hdrs", false); uint64_t v = (uint64_t)a.n("v"); uint32_t v4 = (uint32_t)v; std::string via = a.str("via", "rva");
    if(a.has("sec")) { const section& s = c.sec(a); r.set("len", sat(via == "rva" ? pe.section_data_length_from_rva(s, v4, dt) : via == "va32" ? pe.section_data_length_from_va(s, v4, dt) : pe.section_data_length_from_va(s, v, dt))); }
    else if(a.has("v2")) { uint64_t x = (uint64_t)a.n("v2"); uint32_t x4 = (uint32_t)x; r.set("len", sat(via == "rva" ? pe.section_data_length_from_rva(v4, x4, dt, h) : via == "va32" ? pe.section_data_length_from_va(v4, x4, dt, h) : pe.section_data_length_from_va(v, x, dt, h))); }
    else r.set("len", sat(via == "rva" ? pe.section_data_length_from_rva(v4, dt, h) : via == "va32" ? pe.section_data_length_from_va(v4, dt, h) : pe.section_data_length_from_va(v, dt, h)));
}

// ---- data directories
OP(dir_exists) { r.set("ret", c.img(a).directory_exists((uint32_t)a.n("id"))); }
OP(dir_get) { r.set("rva", w4(c.img(a).get_directory_rva((uint32_t)a.n("id")))); r.set("size", w4(c.img(a).get_directory_size((uint32_t)a.n("id")))); }
OP(dir_setrva) { c.img(a).set_directory_rva((uint32_t)a.n("id"), (uint32_t)a.n("v")); }
OP(dir_setsize) { c.img(a).set_directory_size((uint32_t)a.n("id"), (uint32_t)a.n("v")); }
OP(dir_remove) { c.img(a).remove_directory((uint32_t)a.n("id")); }
OP(dir_strip) { r.set("ret", sat(c.img(a).strip_data_directories((uint32_t)a.n("min"), a.b("iat", true)))); }
OP(dir_has) { const pe_base& p = c.img(a); J v = J::arr();
    v.push(p.has_exports()); v.push(p.has_imports()); v.push(p.has_resources()); v.push(p.has_exception_directory()); v.push(p.has_security()); v.push(p.has_reloc()); v.push(p.has_debug()); v.push(p.has_tls()); v.push(p.has_config()); v.push(p.has_bound_import()); v.push(p.has_delay_import()); v.push(p.is_dotnet()); r.set("ret", v); }
OP(nt_patch) { char* h = c.img(a).get_nt_headers_ptr(); std::string b = a["b"].bytes(); memcpy(h + a.n("off"), b.data(), b.size()); }
OP(dos_patch) { char* h = reinterpret_cast<char*>(&c.img(a).get_dos_header()); std::string b = a["b"].bytes(); memcpy(h + a.n("off"), b.data(), b.size()); }

// ---- stub
OP(stub_set) { c.img(a).set_stub_overlay(a["b"].bytes()); }
OP(stub_strip) { c.img(a).strip_stub_overlay(); }
OP(stub_fill) { c.img(a).fill_stub_overlay((char)a.n("ch")); }
OP(stub_get) { r.set("b", by(c.img(a).get_stub_overlay())); }
OP(rich) { const rich_data_list l = get_rich_data(c.img(a)); J v = J::arr(); for(size_t i = 0; i < l.size(); i++) { J e = J::obj(); e.set("n", w4(l[i].get_number())); e.set("v", w4(l[i].get_version())); e.set("t", w4(l[i].get_times())); v.push(e); } r.set("recs", v); }

// ---- header fields
OP(getf) { const pe_base& p = c.img(a); J g = J::obj();
    g.set("lfanew", w4((uint32_t)p.get_pe_header_start())); g.set("fa", w4(p.get_file_alignment())); g.set("sa", w4(p.get_section_alignment())); g.set("soi", w4(p.get_size_of_image())); g.set("ep", w4(p.get_ep()));
    g.set("nrva", w4(p.get_number_of_rvas_and_sizes())); g.set("ch", w2(p.get_characteristics())); g.set("dch", w2(p.get_dll_characteristics())); g.set("soh", w4(p.get_size_of_headers())); g.set("sooh", w2(p.get_size_of_optional_header()));
    g.set("sig", w4(p.get_pe_signature())); g.set("magic", w4(p.get_magic())); g.set("sum", w4(p.get_checksum())); g.set("ts", w4(p.get_time_date_stamp())); g.set("mach", w2(p.get_machine())); g.set("subsys", w2(p.get_subsystem()));
    g.set("osmaj", w2(p.get_major_os_version())); g.set("osmin", w2(p.get_minor_os_version())); g.set("ssmaj", w2(p.get_major_subsystem_version())); g.set("ssmin", w2(p.get_minor_subsystem_version())); g.set("nos", w2(p.get_number_of_sections())); g.set("boc", w4(p.get_base_of_code()));
    uint32_t x; uint64_t y; p.get_image_base(x); p.get_image_base(y); g.set("base4", w4(x)); g.set("base8", w8(y));
    p.get_stack_size_reserve(x); p.get_stack_size_reserve(y); g.set("sr4", w4(x)); g.set("sr8", w8(y));
    p.get_stack_size_commit(x); p.get_stack_size_commit(y); g.set("sc4", w4(x)); g.set("sc8", w8(y));
    p.get_heap_size_reserve(x); p.get_heap_size_reserve(y); g.set("hr4", w4(x)); g.set("hr8", w8(y));
    p.get_heap_size_commit(x); p.get_heap_size_commit(y); g.set("hc4", w4(x)); g.set("hc8", w8(y));
    g.set("gui", p.is_gui()); g.set("con", p.is_console()); g.set("ty", p.get_pe_type() == pe_type_32 ? 32 : 64); g.set("soN", sat(p.get_sizeof_nt_header())); g.set("soO", sat(p.get_sizeof_opt_headers()));
    r.set("g", g); }
OP(setf) { pe_base& p = c.img(a); std::string f = a.str("f"); uint64_t v = (uint64_t)a.n("v"); uint32_t v4 = (uint32_t)v; uint16_t v2 = (uint16_t)v;
    if(f == "ep") p.set_ep(v4); else if(f == "ch") p.set_characteristics(v2); else if(f == "chset") p.set_characteristics_flags(v2); else if(f == "chclr") p.clear_characteristics_flags(v2); else if(f == "dch") p.set_dll_characteristics(v2);
    else if(f == "subsys") p.set_subsystem(v2); else if(f == "os") p.set_os_version((uint16_t)(v & 0xffff), (uint16_t)(v >> 16)); else if(f == "ss") p.set_subsystem_version((uint16_t)(v & 0xffff), (uint16_t)(v >> 16));
    else if(f == "base4") p.set_image_base(v4); else if(f == "base8") p.set_image_base_64(v);
    else if(f == "sr4") p.set_stack_size_reserve(v4); else if(f == "sr8") p.set_stack_size_reserve(v); else if(f == "sc4") p.set_stack_size_commit(v4); else if(f == "sc8") p.set_stack_size_commit(v);
    else if(f == "hr4") p.set_heap_size_reserve(v4); else if(f == "hr8") p.set_heap_size_reserve(v); else if(f == "hc4") p.set_heap_size_commit(v4); else if(f == "hc8") p.set_heap_size_commit(v);
    else if(f == "sum") p.set_checksum(v4); else if(f == "ts") p.set_time_date_stamp(v4); else if(f == "mach") p.set_machine(v2); else if(f == "boc") p.set_base_of_code(v4);
    else if(f == "nrva") p.set_number_of_rvas_and_sizes(v4); else if(f == "soh") p.set_size_of_headers(v4); else if(f == "sooh") p.set_size_of_optional_header(v2);
    else throw std::logic_error("driver: setf field"); }
OP(chflag) { r.set("ret", c.img(a).check_characteristics_flag((uint16_t)a.n("v"))); }
OP(entropy) { double d; std::string k = a.str("k", "str"); std::string data = a.has("data") ? a["data"].bytes() : std::string();
    if(k == "str") d = entropy_calculator::calculate_entropy(data.data(), data.size());
    else if(k == "stream") { std::stringstream ss(data, std::ios::in | std::ios::out | std::ios::binary); Rep rep(ss, a, r); d = entropy_calculator::calculate_entropy(ss); }
    else if(k == "sec") d = entropy_calculator::calculate_entropy(c.sec(a));
    else d = entropy_calculator::calculate_entropy(c.img(a));
    // fixed point, 2^-16 units, rounded
    r.set("e", (int64_t)(d * 65536.0 + (d < 0 ? -0.5 : 0.5))); r.set("neg", d < 0); }
