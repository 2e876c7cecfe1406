// Version information: fixed fields, string tables, translations; writer, reader, viewer, editor.
#include "res.h"
#include <pe_lib/resource_version_info_reader.h>
#include <pe_lib/resource_version_info_writer.h>
using namespace drv;
namespace {
struct Ver { file_version_info f; lang_string_values_map s; translation_values_map t; };
Ver& ver(Ctx& c) { std::shared_ptr<void>& p = c.misc["ver"]; if(!p) p.reset(new Ver, [](void* q) { delete static_cast<Ver*>(q); }); return *static_cast<Ver*>(p.get()); }
J fx_json(const file_version_info& f)
{
    J v = J::arr(); v.push(w4(f.get_file_version_ms())); v.push(w4(f.get_file_version_ls())); v.push(w4(f.get_product_version_ms())); v.push(w4(f.get_product_version_ls()));
    v.push(w4(f.get_file_flags())); v.push(w4(f.get_file_os_raw())); v.push(w4(f.get_file_type_raw())); v.push(w4(f.get_file_subtype())); v.push(w4(f.get_file_date_ms())); v.push(w4(f.get_file_date_ls())); return v;
}
J strs_json(const lang_string_values_map& s)
{
    J v = J::arr();
    for(lang_string_values_map::const_iterator i = s.begin(); i != s.end(); ++i) { J t = J::obj(); t.set("k", ws(i->first)); J q = J::arr();
        for(string_values_map::const_iterator k = i->second.begin(); k != i->second.end(); ++k) { J e = J::obj(); e.set("k", ws(k->first)); e.set("v", ws(k->second)); q.push(e); } t.set("v", q); v.push(t); }
    return v;
}
J tr_json(const translation_values_map& t) { J v = J::arr(); for(translation_values_map::const_iterator i = t.begin(); i != t.end(); ++i) { J e = J::arr(); e.push((int)i->first); e.push((int)i->second); v.push(e); } return v; }
J ver_json(const Ver& q) { J v = J::obj(); v.set("fx", fx_json(q.f)); v.set("strs", strs_json(q.s)); v.set("tr", tr_json(q.t)); return v; }
struct Vr { const Ver& q; J& r; Vr(const Ver& q_, J& r_) : q(q_), r(r_) {} ~Vr() { r.set("ver", ver_json(q)); } };
void raw(file_version_info& f, size_t i, uint32_t v)
{
    switch(i) { case 0: f.set_file_version_ms(v); break; case 1: f.set_file_version_ls(v); break; case 2: f.set_product_version_ms(v); break; case 3: f.set_product_version_ls(v); break; case 4: f.set_file_flags(v); break;
    case 5: f.set_file_os_raw(v); break; case 6: f.set_file_type_raw(v); break; case 7: f.set_file_subtype(v); break; case 8: f.set_file_date_ms(v); break; case 9: f.set_file_date_ls(v); break; }
}
}
OP(ver_set) {
    Ver& q = ver(c); Vr vr(q, r); q = Ver(); for(size_t i = 0; i < 10; i++) raw(q.f, i, (uint32_t)a["fx"].a[i].num());
    const J& s = a["strs"]; for(size_t i = 0; i < s.a.size(); i++) { string_values_map& m = q.s[towstr(s.a[i]["k"])]; const J& v = s.a[i]["v"]; for(size_t k = 0; k < v.a.size(); k++) m[towstr(v.a[k]["k"])] = towstr(v.a[k]["v"]); }
    const J& t = a["tr"]; for(size_t i = 0; i < t.a.size(); i++) q.t.insert(std::make_pair((uint16_t)t.a[i].a[0].i, (uint16_t)t.a[i].a[1].i)); }
OP(ver_write) { resource_directory& t = c.tree(a); Tr tr(t, r); pe_resource_manager m(t); resource_version_info_writer w(m); Ver& q = ver(c);
    if(a.has("cp")) w.set_version_info(q.f, q.s, q.t, n4(a, "lang"), n4(a, "cp"), n4(a, "ts")); else w.set_version_info(q.f, q.s, q.t, n4(a, "lang")); }
OP(ver_rem) { resource_directory& t = c.tree(a); Tr tr(t, r); pe_resource_manager m(t); resource_version_info_writer w(m); r.set("ret", w.remove_version_info(n4(a, "lang"))); }
OP(ver_read) { const resource_directory& t = c.tree(a); pe_resource_viewer m(t); resource_version_info_reader w(m); Ver q;
    q.f = a.has("lang") ? w.get_version_info_by_lang(q.s, q.t, n4(a, "lang")) : w.get_version_info(q.s, q.t, n4(a, "index")); r.set("ver", ver_json(q)); ver(c) = q; }
OP(ver_edit) {
    Ver& q = ver(c); Vr vr(q, r); version_info_editor e(q.s, q.t); std::string f = a.str("fn"); std::wstring tr = a.has("tr") ? towstr(a["tr"]) : L"", v = a.has("v") ? towstr(a["v"]) : L"";
    bool d = !a.has("tr");
    if(f == "prop") { if(d) e.set_property(towstr(a["n"]), v); else e.set_property(towstr(a["n"]), v, tr); }
    else if(f == "company") { if(d) e.set_company_name(v); else e.set_company_name(v, tr); }
    else if(f == "desc") { if(d) e.set_file_description(v); else e.set_file_description(v, tr); }
    else if(f == "fver") { if(d) e.set_file_version(v); else e.set_file_version(v, tr); }
    else if(f == "internal") { if(d) e.set_internal_name(v); else e.set_internal_name(v, tr); }
    else if(f == "copyright") { if(d) e.set_legal_copyright(v); else e.set_legal_copyright(v, tr); }
    else if(f == "original") { if(d) e.set_original_filename(v); else e.set_original_filename(v, tr); }
    else if(f == "pname") { if(d) e.set_product_name(v); else e.set_product_name(v, tr); }
    else if(f == "pver") { if(d) e.set_product_version(v); else e.set_product_version(v, tr); }
    else if(f == "add") { if(d) e.add_translation((uint16_t)a.n("l"), (uint16_t)a.n("c")); else e.add_translation(tr); }
    else if(f == "rem") { if(d) e.remove_translation((uint16_t)a.n("l"), (uint16_t)a.n("c")); else e.remove_translation(tr); }
    else throw std::logic_error("ver_edit"); }
OP(ver_look) {
    const Ver& q = ver(c); version_info_viewer e(q.s, q.t); std::string f = a.str("fn"); std::wstring tr = a.has("tr") ? towstr(a["tr"]) : L""; bool d = !a.has("tr");
    if(f == "prop") r.set("v", ws(a.has("throw") ? e.get_property(towstr(a["n"]), tr, a["throw"].i != 0) : d ? e.get_property(towstr(a["n"])) : e.get_property(towstr(a["n"]), tr)));
    else if(f == "company") r.set("v", ws(d ? e.get_company_name() : e.get_company_name(tr)));
    else if(f == "desc") r.set("v", ws(d ? e.get_file_description() : e.get_file_description(tr)));
    else if(f == "fver") r.set("v", ws(d ? e.get_file_version() : e.get_file_version(tr)));
    else if(f == "internal") r.set("v", ws(d ? e.get_internal_name() : e.get_internal_name(tr)));
    else if(f == "copyright") r.set("v", ws(d ? e.get_legal_copyright() : e.get_legal_copyright(tr)));
    else if(f == "original") r.set("v", ws(d ? e.get_original_filename() : e.get_original_filename(tr)));
    else if(f == "pname") r.set("v", ws(d ? e.get_product_name() : e.get_product_name(tr)));
    else if(f == "pver") r.set("v", ws(d ? e.get_product_version() : e.get_product_version(tr)));
    else if(f == "list") { J v = J::arr(); version_info_viewer::translation_list l = e.get_translation_list(); for(size_t i = 0; i < l.size(); i++) v.push(ws(l[i])); r.set("v", v); }
    else if(f == "pair") { version_info_viewer::translation_pair p = version_info_viewer::translation_from_string(tr); J v = J::arr(); v.push((int)p.first); v.push((int)p.second); r.set("v", v); }
    else throw std::logic_error("ver_look"); }
OP(fvi) {
    Ver& q = ver(c); file_version_info& f = q.f; std::string k = a.str("fn"); bool b = a.b("v", false);
    if(k == "raw") raw(f, (size_t)a.n("i"), n4(a, "v"));
    else if(k == "debug") f.set_debug(b); else if(k == "prerelease") f.set_prerelease(b); else if(k == "patched") f.set_patched(b);
    else if(k == "private") f.set_private_build(b); else if(k == "special") f.set_special_build(b); else if(k == "inferred") f.set_info_inferred(b);
    else if(k == "os") f.set_file_os((file_version_info::file_os_type)a.n("v")); else if(k == "type") f.set_file_type((file_version_info::file_type)a.n("v"));
    const file_version_info g(f); r.set("fx", fx_json(g));
    J l = J::arr(); l.push(g.is_debug()); l.push(g.is_prerelease()); l.push(g.is_patched()); l.push(g.is_private_build()); l.push(g.is_special_build()); l.push(g.is_info_inferred()); r.set("flags", l);
    r.set("os", (int)g.get_file_os()); r.set("type", (int)g.get_file_type());
    r.set("fs", by(g.get_file_version_string<char>())); r.set("fw", ws(g.get_file_version_string<wchar_t>())); r.set("ps", by(g.get_product_version_string<char>())); r.set("pw", ws(g.get_product_version_string<wchar_t>())); }
