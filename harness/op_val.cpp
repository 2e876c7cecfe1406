// Copies and assignments of resource trees and their parts, of sections and of images: values that own nested parts.
#include "res.h"
using namespace drv;
static resource_directory& dirat(resource_directory& t, const J& p, size_t n) { resource_directory* d = &t; for(size_t i = 0; i < n; i++) d = &d->get_entry_list().at(p.a[i].i).get_resource_directory(); return *d; }
static resource_directory& D(Ctx& c, const J& a, const char* t, const char* p) { return dirat(c.tree(a, t), a[p], a[p].a.size()); }
static resource_directory_entry& E(Ctx& c, const J& a, const char* t, const char* p) { const J& q = a[p]; return dirat(c.tree(a, t), q, q.a.size() - 1).get_entry_list().at(q.a[q.a.size() - 1].i); }
// all trees after the operation
struct All { Ctx& c; J& r; All(Ctx& c_, J& r_) : c(c_), r(r_) {} ~All() { J v = J::arr(); for(std::map<int64_t, std::shared_ptr<resource_directory> >::iterator i = c.res.begin(); i != c.res.end(); ++i) { J e = J::obj(); e.set("t", i->first); e.set("d", dir_json(*i->second)); v.push(e); } r.set("all", v); } };
OP(tree_copy) { All l(c, r); std::shared_ptr<resource_directory> p(new resource_directory(c.tree(a, "from"))); c.res[a.n("to")] = p; }
OP(tree_drop) { c.tree(a); c.res[a.n("tree")].reset(new resource_directory); All l(c, r); }
OP(dir_assign) { c.tree(a, "from"); c.tree(a, "to"); All l(c, r); D(c, a, "to", "tp") = D(c, a, "from", "fp"); }
OP(ent_assign) { All l(c, r); E(c, a, "to", "tp") = E(c, a, "from", "fp"); }
OP(ent_push) { All l(c, r); D(c, a, "to", "tp").add_resource_directory_entry(E(c, a, "from", "fp")); }
OP(ent_adddir) { All l(c, r); E(c, a, "to", "tp").add_resource_directory(D(c, a, "from", "fp")); }
OP(ent_adddata) { All l(c, r); E(c, a, "to", "tp").add_data_entry(E(c, a, "from", "fp").get_data_entry()); }
OP(ent_swap) { All l(c, r); std::swap(E(c, a, "to", "tp"), E(c, a, "from", "fp")); }
OP(ent_key) { All l(c, r); resource_directory_entry& e = E(c, a, "to", "tp"); if(a.has("n")) e.set_name(towstr(a["n"])); else e.set_id(n4(a, "id")); }
OP(ent_data) { All l(c, r); resource_data_entry& e = E(c, a, "to", "tp").get_data_entry(); e.set_data(bs(a, "data")); e.set_codepage(n4(a, "cp")); }
OP(ent_del) { All l(c, r); const J& q = a["tp"]; resource_directory& d = dirat(c.tree(a, "to"), q, q.a.size() - 1); d.get_entry_list().erase(d.get_entry_list().begin() + q.a[q.a.size() - 1].i); }
OP(dir_ch) { All l(c, r); resource_directory& d = D(c, a, "to", "tp"); d.set_characteristics(n4(a, "ch")); d.set_timestamp(n4(a, "ts")); }
OP(dir_clear) { All l(c, r); D(c, a, "to", "tp").clear_resource_directory_entry_list(); }
// sections: a detached copy of an attached or detached one; assignment of contents
OP(sec_copy) { section& s = c.sec(a); if(a.b("virt", false)) s.get_virtual_data(a.has("det") ? 512 : c.img(a).get_section_alignment()); c.det[a.n("to")] = std::shared_ptr<section>(new section(s)); }
OP(sec_assign) { std::shared_ptr<section>& p = c.det[a.n("to")]; if(!p) p.reset(new section); *p = c.sec(a); }
