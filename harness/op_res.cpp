// Resource trees: reader, writer, manager and viewer.
#include "res.h"
using namespace drv;
namespace drv
{
static int depth = 0;   // trees nested deeper than any legal one are cut (the JSON reader of TLC has a nesting limit)
struct Deeper { Deeper() { depth++; } ~Deeper() { depth--; } };
J ent_json(const resource_directory_entry& e)
{
    Deeper dp;
    J j = J::obj(); j.set("named", e.is_named()); j.set("id", w4(e.get_id())); j.set("name", ws(e.get_name()));
    std::string k = "none"; J cp = w4(0), data = J::arr(), sub = J::arr();
    if(e.includes_data()) { try { const resource_data_entry& d = e.get_data_entry(); cp = w4(d.get_codepage()); data = by(d.get_data()); k = "data"; } catch(const pe_exception&) {} }
    else if(depth > 45) k = "deep";
    else { try { sub.push(dir_json(e.get_resource_directory())); k = "dir"; } catch(const pe_exception&) {} }
    j.set("k", k); j.set("cp", cp); j.set("data", data); j.set("sub", sub); return j;
}
J dir_json(const resource_directory& d)
{
    J j = J::obj(); j.set("ch", w4(d.get_characteristics())); j.set("ts", w4(d.get_timestamp())); j.set("maj", w2(d.get_major_version())); j.set("min", w2(d.get_minor_version()));
    j.set("nn", sat(d.get_number_of_named_entries())); j.set("ni", sat(d.get_number_of_id_entries()));
    J v = J::arr(); for(size_t i = 0; i < d.get_entry_list().size(); i++) v.a.push_back(ent_json(d.get_entry_list()[i])); j.set("ents", v); return j;
}
resource_directory dir_of(const J& a)
{
    resource_directory d; if(a.n("ch")) d.set_characteristics((uint32_t)a.n("ch")); if(a.n("ts")) d.set_timestamp((uint32_t)a.n("ts")); if(a.n("maj")) d.set_major_version((uint16_t)a.n("maj")); if(a.n("min")) d.get_minor_version((uint16_t)a.n("min"));
    const J& v = a["ents"];
    for(size_t i = 0; i < v.a.size(); i++) { const J& x = v.a[i]; resource_directory_entry e;
        if(x["named"].i) e.set_name(towstr(x["name"])); else if(x.n("id") || i % 2) e.set_id((uint32_t)x.n("id"));
        std::string k = x.str("k");
        if(k == "data") { resource_data_entry q; if(x.n("cp")) q.set_codepage((uint32_t)x.n("cp")); q.set_data(x["data"].bytes()); e.add_data_entry(i % 2 ? q : resource_data_entry(x["data"].bytes(), (uint32_t)x.n("cp"))); }
        else if(k == "dir") e.add_resource_directory(dir_of(x["sub"].a[0]));
        d.add_resource_directory_entry(e); }
    return d;
}
}
OP(res_read) { resource_directory d = get_resources(c.img(a)); r.set("dir", dir_json(d)); c.tree(a) = d; }
OP(tree_set) { Tr tr(c.tree(a), r); resource_directory d = dir_of(a["dir"]); if(a.b("clear", false)) { d.clear_resource_directory_entry_list(); const J& v = a["dir"]["ents"]; for(size_t i = 0; i < v.a.size(); i++) { J one = a["dir"]; J l = J::arr(); l.push(v.a[i]); one.set("ents", l); d.add_resource_directory_entry(dir_of(one).get_entry_list()[0]); } } c.tree(a) = d; }
OP(tree_get) { Tr tr(c.tree(a), r); }
OP(tree_by) { const resource_directory* d = &c.tree(a); const J& p = a["path"];
    for(size_t i = 0; i < p.a.size(); i++) { const resource_directory_entry& e = p.a[i].has("n") ? d->entry_by_name(towstr(p.a[i]["n"])) : d->entry_by_id((uint32_t)p.a[i].n("id"));
        if(i + 1 == p.a.size()) r.set("v", ent_json(e)); else d = &e.get_resource_directory(); } }
OP(res_rebuild) { pe_base& p = c.img(a); section& s = c.sec(a); resource_directory& d = c.tree(a); St st(p, r, a); Tr tr(d, r); dirret(r, rebuild_resources(p, d, s, n4(a, "off"), a.b("save", true), a.b("strip", true))); }
OP(rm_add) {
    resource_directory& t = c.tree(a); Tr tr(t, r); pe_resource_manager m(t); std::string own = bs(a, "data"); const std::string* d = &own;
    if(a.has("from")) { resource_directory* q = &t; const J& f = a["from"]; for(size_t i = 0; i + 1 < f.a.size(); i++) q = &q->get_entry_list()[f.a[i].i].get_resource_directory(); d = &q->get_entry_list()[f.a[f.a.size() - 1].i].get_data_entry().get_data(); }
    uint32_t lang = n4(a, "lang"), cp = n4(a, "cp"), ts = n4(a, "ts"); pe_resource_viewer::resource_type ty = (pe_resource_viewer::resource_type)a.n("t", 1);
    bool dflt = !a.has("cp") && !a.has("ts");
    if(a.has("rn")) { if(a.has("n")) { if(dflt) m.add_resource(*d, towstr(a["rn"]), towstr(a["n"]), lang); else m.add_resource(*d, towstr(a["rn"]), towstr(a["n"]), lang, cp, ts); }
                      else m.add_resource(*d, towstr(a["rn"]), n4(a, "id"), lang, cp, ts); }
    else { if(a.has("n")) m.add_resource(*d, ty, towstr(a["n"]), lang, cp, ts); else { if(dflt) m.add_resource(*d, ty, n4(a, "id"), lang); else m.add_resource(*d, ty, n4(a, "id"), lang, cp, ts); } } }
OP(rm_rem) {
    resource_directory& t = c.tree(a); Tr tr(t, r); pe_resource_manager m(t); pe_resource_viewer::resource_type ty = (pe_resource_viewer::resource_type)a.n("t", 1); uint32_t lang = n4(a, "lang"), id = n4(a, "id"); bool v;
    if(!a.has("n") && !a.has("id")) v = a.has("rn") ? m.remove_resource(towstr(a["rn"])) : m.remove_resource_type(ty);
    else if(!a.has("lang")) { if(a.has("rn")) v = a.has("n") ? m.remove_resource(towstr(a["rn"]), towstr(a["n"])) : m.remove_resource(towstr(a["rn"]), id); else v = a.has("n") ? m.remove_resource(ty, towstr(a["n"])) : m.remove_resource(ty, id); }
    else { if(a.has("rn")) v = a.has("n") ? m.remove_resource(towstr(a["rn"]), towstr(a["n"]), lang) : m.remove_resource(towstr(a["rn"]), id, lang); else v = a.has("n") ? m.remove_resource(ty, towstr(a["n"]), lang) : m.remove_resource(ty, id, lang); }
    r.set("ret", v); }
static J ids(const std::vector<uint32_t>& q) { J v = J::arr(); for(size_t i = 0; i < q.size(); i++) v.push(w4(q[i])); return v; }
static J nms(const std::vector<std::wstring>& q) { J v = J::arr(); for(size_t i = 0; i < q.size(); i++) v.push(ws(q[i])); return v; }
OP(rv) {
    const resource_directory& t = c.tree(a); pe_resource_viewer m(t); pe_resource_viewer::resource_type ty = (pe_resource_viewer::resource_type)a.n("t", 1); std::string f = a.str("fn"); uint32_t lang = n4(a, "lang"), id = n4(a, "id"), ix = n4(a, "index");
    bool R = a.has("rn"), N = a.has("n"); std::wstring rn, n; if(R) rn = towstr(a["rn"]); if(N) n = towstr(a["n"]);
    if(f == "types") r.set("v", ids(m.list_resource_types()));
    else if(f == "exists") r.set("v", R ? m.resource_exists(rn) : m.resource_exists(ty));
    else if(f == "names") r.set("v", nms(R ? m.list_resource_names(rn) : m.list_resource_names(ty)));
    else if(f == "ids") r.set("v", ids(R ? m.list_resource_ids(rn) : m.list_resource_ids(ty)));
    else if(f == "count") r.set("v", sat(R ? m.get_resource_count(rn) : m.get_resource_count(ty)));
    else if(f == "lcount") r.set("v", sat(R ? (N ? m.get_language_count(rn, n) : m.get_language_count(rn, id)) : (N ? m.get_language_count(ty, n) : m.get_language_count(ty, id))));
    else if(f == "langs") r.set("v", ids(R ? (N ? m.list_resource_languages(rn, n) : m.list_resource_languages(rn, id)) : (N ? m.list_resource_languages(ty, n) : m.list_resource_languages(ty, id))));
    else if(f == "get") { resource_data_info d = R ? (N ? m.get_resource_data_by_name(lang, rn, n) : m.get_resource_data_by_id(lang, rn, id)) : (N ? m.get_resource_data_by_name(lang, ty, n) : m.get_resource_data_by_id(lang, ty, id)); r.set("cp", w4(d.get_codepage())); r.set("v", by(d.get_data())); }
    else if(f == "geti") { resource_data_info d = R ? (N ? m.get_resource_data_by_name(rn, n, ix) : m.get_resource_data_by_id(rn, id, ix)) : (N ? m.get_resource_data_by_name(ty, n, ix) : m.get_resource_data_by_id(ty, id, ix)); r.set("cp", w4(d.get_codepage())); r.set("v", by(d.get_data())); }
}
