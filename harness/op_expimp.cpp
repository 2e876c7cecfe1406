// Export and import directories.
#include "dirs.h"
using namespace drv;
static J exp_json(const exported_functions_list& l) {
    J v = J::arr();
    for(size_t i = 0; i < l.size(); i++) { J e = J::obj(); e.set("ord", (int)l[i].get_ordinal()); e.set("rva", w4(l[i].get_rva())); e.set("name", by(l[i].get_name())); e.set("hn", l[i].has_name());
        e.set("no", l[i].has_name() ? (int)l[i].get_name_ordinal() : 0); e.set("fwd", by(l[i].get_forwarded_name())); e.set("isf", l[i].is_forwarded()); v.push(e); }
    return v; }
static exported_functions_list exp_list(const J& a) {
    exported_functions_list l; const J& f = a["funcs"];
    for(size_t i = 0; i < f.a.size(); i++) { exported_function e; e.set_ordinal((uint16_t)f.a[i].n("ord")); e.set_rva((uint32_t)f.a[i].n("rva", 0)); e.set_name(bs(f.a[i], "name")); e.set_forwarded_name(bs(f.a[i], "fwd"));
        if(f.a[i].has("no")) e.set_name_ordinal((uint16_t)f.a[i].n("no")); l.push_back(e); }
    return l; }
static J info_json(const export_info& i) {
    J e = J::obj(); e.set("ch", w4(i.get_characteristics())); e.set("ts", w4(i.get_timestamp())); e.set("maj", w2(i.get_major_version())); e.set("min", w2(i.get_minor_version())); e.set("name", by(i.get_name()));
    e.set("base", w4(i.get_ordinal_base())); e.set("nf", w4(i.get_number_of_functions())); e.set("nn", w4(i.get_number_of_names())); e.set("rf", w4(i.get_rva_of_functions())); e.set("rn", w4(i.get_rva_of_names())); e.set("ro", w4(i.get_rva_of_name_ordinals()));
    return e; }
static export_info info_of(const J& a) { export_info i; i.set_characteristics(n4(a, "ch")); i.set_timestamp(n4(a, "ts")); i.set_major_version((uint16_t)n4(a, "maj")); i.set_minor_version((uint16_t)n4(a, "min")); i.set_name(bs(a, "name")); i.set_ordinal_base(n4(a, "base"));
    i.set_number_of_functions(77); i.set_number_of_names(78); return i; }
OP(exp_read) { const pe_base& p = c.img(a);
    if(a.b("info_wanted", true)) { export_info i; exported_functions_list l = get_exported_functions(p, i); r.set("info", info_json(i)); r.set("funcs", exp_json(l)); }
    else r.set("funcs", exp_json(get_exported_functions(p))); }
OP(exp_rebuild) { pe_base& p = c.img(a); section& s = c.sec(a); St st(p, r, a);
    dirret(r, rebuild_exports(p, info_of(a["info"]), exp_list(a), s, n4(a, "off"), a.b("save", true), a.b("strip", true))); }
// reads the exports and writes them back, at the end of the section or in place
OP(exp_helpers) { exported_functions_list l = exp_list(a); std::pair<uint16_t, uint16_t> m = get_export_ordinal_limits(l); r.set("min", (int)m.first); r.set("max", (int)m.second);
    r.set("hasname", exported_name_exists(bs(a, "name"), l)); r.set("hasord", exported_ordinal_exists((uint16_t)a.n("ord"), l)); }

static J imp_json(const imported_functions_list& l) {
    J v = J::arr();
    for(size_t i = 0; i < l.size(); i++) { J e = J::obj(); e.set("name", by(l[i].get_name())); e.set("iat", w4(l[i].get_rva_to_iat())); e.set("oiat", w4(l[i].get_rva_to_original_iat())); e.set("ts", w4(l[i].get_timestamp()));
        J fs = J::arr(); const import_library::imported_list& f = l[i].get_imported_functions();
        for(size_t k = 0; k < f.size(); k++) { J g = J::obj(); g.set("hn", f[k].has_name()); g.set("name", by(f[k].get_name())); g.set("hint", (int)f[k].get_hint()); g.set("ord", (int)f[k].get_ordinal()); g.set("va", w8(f[k].get_iat_va())); fs.push(g); }
        e.set("funcs", fs); v.push(e); }
    return v; }
static imported_functions_list imp_list(const J& a) {
    imported_functions_list l; const J& v = a["libs"];
    for(size_t i = 0; i < v.a.size(); i++) { const J& b = v.a[i]; import_library lib; lib.set_name(bs(b, "name")); if(n4(b, "iat")) lib.set_rva_to_iat(n4(b, "iat")); if(n4(b, "oiat")) lib.set_rva_to_original_iat(n4(b, "oiat")); if(n4(b, "ts")) lib.set_timestamp(n4(b, "ts"));
        const J& f = b["funcs"];
        for(size_t k = 0; k < f.a.size(); k++) { imported_function x; const J& g = f.a[k]; if(g.has("name")) x.set_name(bs(g, "name")); if(g.has("hint")) x.set_hint((uint16_t)g.n("hint")); if(g.has("ord")) x.set_ordinal((uint16_t)g.n("ord")); if(g.has("va")) x.set_iat_va((uint64_t)g.n("va")); lib.add_import(x); }
        l.push_back(lib); }
    return l; }
static import_rebuilder_settings imp_settings(const J& a) {
    import_rebuilder_settings s(a.b("save", true), a.b("zeroiat", false)); s.set_offset_from_section_start(n4(a, "off"));
    s.build_original_iat(a.b("build", true)); s.save_iat_and_original_iat_rvas(a.b("keep", true), a.b("rewrite", false)); s.fill_missing_original_iats(a.b("fill", false)); s.enable_auto_strip_last_section(a.b("strip", true)); return s; }
OP(imp_read) { r.set("libs", imp_json(get_imported_functions(c.img(a)))); }
OP(imp_rebuild) { pe_base& p = c.img(a); section& s = c.sec(a); St st(p, r, a); dirret(r, rebuild_imports(p, imp_list(a), s, imp_settings(a))); }
// reads the imports of one image and rebuilds them (with libraries of "libs" appended)
OP(imp_append) { pe_base& p = c.img(a); section& s = c.sec(a); imported_functions_list l = get_imported_functions(p); imported_functions_list m = imp_list(a); r.set("read", imp_json(l)); l.insert(l.end(), m.begin(), m.end()); St st(p, r, a); dirret(r, rebuild_imports(p, l, s, imp_settings(a))); }
