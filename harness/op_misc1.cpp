// Relocations, rebasing, TLS, load configuration and bound imports.
#include "dirs.h"
using namespace drv;
static J rel_json(const relocation_table_list& l) {
    J v = J::arr();
    for(size_t i = 0; i < l.size(); i++) { J e = J::obj(); e.set("rva", w4(l[i].get_rva())); J q = J::arr(); const relocation_table::relocation_list& f = l[i].get_relocations();
        for(size_t k = 0; k < f.size(); k++) { J t = J::arr(); t.push((int)f[k].get_rva()); t.push((int)f[k].get_type()); q.push(t); } e.set("items", q); v.push(e); }
    return v; }
static relocation_table_list rel_list(const J& a) {
    relocation_table_list l; const J& t = a["tables"];
    for(size_t i = 0; i < t.a.size(); i++) { relocation_table r; if(i % 2 || t.a[i].n("rva")) r = relocation_table((uint32_t)t.a[i].n("rva")); const J& q = t.a[i]["items"];
        for(size_t k = 0; k < q.a.size(); k++) { uint16_t o = (uint16_t)q.a[k].a[0].i, y = (uint16_t)q.a[k].a[1].i;
            if(k % 3 == 0) r.add_relocation(relocation_entry(o, y)); else if(k % 3 == 1) r.get_relocations().push_back(relocation_entry((uint16_t)(o | (y << 12)))); else { relocation_entry e; if(o) e.set_rva(o); if(y) e.set_type(y); r.add_relocation(e); } }
        l.push_back(r); }
    return l; }
OP(rel_read) { r.set("tables", rel_json(get_relocations(c.img(a), a.b("abs", false)))); }
OP(rel_rebuild) { pe_base& p = c.img(a); section& s = c.sec(a); St st(p, r, a); dirret(r, rebuild_relocations(p, rel_list(a), s, n4(a, "off"), a.b("save", true), a.b("strip", true))); }
// rebases with the given tables, or with those of the image
OP(rebase) { pe_base& p = c.img(a); relocation_table_list l = a.has("tables") ? rel_list(a) : get_relocations(p, a.b("abs", false)); if(!a.has("tables")) r.set("read", rel_json(l)); St st(p, r, a); rebase_image(p, l, (uint64_t)a.n("base")); }

static J tls_json(const tls_info& i) {
    J e = J::obj(); e.set("start", w4(i.get_raw_data_start_rva())); e.set("end", w4(i.get_raw_data_end_rva())); e.set("index", w4(i.get_index_rva())); e.set("cb", w4(i.get_callbacks_rva())); e.set("zf", w4(i.get_size_of_zero_fill())); e.set("ch", w4(i.get_characteristics()));
    e.set("data", by(i.get_raw_data())); J v = J::arr(); for(size_t k = 0; k < i.get_tls_callbacks().size(); k++) v.push(w4(i.get_tls_callbacks()[k])); e.set("cbs", v); return e; }
static tls_info tls_of(const J& a) { // fields given as zero are left as constructed
    tls_info i; if(n4(a, "start")) i.set_raw_data_start_rva(n4(a, "start")); if(n4(a, "end")) i.set_raw_data_end_rva(n4(a, "end")); if(n4(a, "index")) i.set_index_rva(n4(a, "index")); if(n4(a, "cb")) i.set_callbacks_rva(n4(a, "cb")); if(n4(a, "zf")) i.set_size_of_zero_fill(n4(a, "zf")); if(n4(a, "ch")) i.set_characteristics(n4(a, "ch")); i.set_raw_data(bs(a, "data"));
    const J& v = a["cbs"]; for(size_t k = 0; k < v.a.size(); k++) i.add_tls_callback((uint32_t)v.a[k].num()); return i; }
OP(tls_read) { r.set("tls", tls_json(get_tls_info(c.img(a)))); }
OP(tls_rebuild) { pe_base& p = c.img(a); section& s = c.sec(a); St st(p, r, a);
    dirret(r, rebuild_tls(p, tls_of(a["tls"]), s, n4(a, "off"), a.b("wcb", true), a.b("wdata", true), a.str("expand", "raw") == "raw" ? tls_data_expand_raw : tls_data_expand_virtual, a.b("save", true), a.b("strip", true))); }
OP(tls_helpers) { tls_info i = tls_of(a["tls"]); i.recalc_raw_data_end_rva(); r.set("r", tls_json(i)); i.clear_tls_callbacks(); r.set("r2", tls_json(i)); i.get_tls_callbacks().push_back(7); r.set("r3", tls_json(i)); }

static J cfg_json(const image_config_info& i) {
    J e = J::obj(); e.set("ts", w4(i.get_time_stamp())); e.set("maj", w2(i.get_major_version())); e.set("min", w2(i.get_minor_version())); e.set("gfc", w4(i.get_global_flags_clear())); e.set("gfs", w4(i.get_global_flags_set())); e.set("cst", w4(i.get_critical_section_default_timeout()));
    e.set("dfb", w8(i.get_decommit_free_block_threshold())); e.set("dtf", w8(i.get_decommit_total_free_threshold())); e.set("lpt", w8(i.get_lock_prefix_table_va())); e.set("mas", w8(i.get_max_allocation_size())); e.set("vmt", w8(i.get_virtual_memory_threshold()));
    e.set("pam", w8(i.get_process_affinity_mask())); e.set("phf", w4(i.get_process_heap_flags())); e.set("csd", w2(i.get_service_pack_version())); e.set("edl", w8(i.get_edit_list_va())); e.set("sck", w8(i.get_security_cookie_va())); e.set("set", w8(i.get_se_handler_table_va())); e.set("sec", w8(i.get_se_handler_count()));
    J v = J::arr(); for(size_t k = 0; k < i.get_se_handler_rvas().size(); k++) v.push(w4(i.get_se_handler_rvas()[k])); e.set("seh", v);
    J u = J::arr(); for(size_t k = 0; k < i.get_lock_prefix_rvas().size(); k++) u.push(w4(i.get_lock_prefix_rvas()[k])); e.set("lock", u); return e; }
static image_config_info cfg_of(const J& a) {
    image_config_info i; if(a.n("ts", 0)) i.set_time_stamp((uint32_t)a.n("ts", 0)); if(a.n("maj", 0)) i.set_major_version((uint16_t)a.n("maj", 0)); if(a.n("min", 0)) i.set_minor_version((uint16_t)a.n("min", 0)); if(a.n("gfc", 0)) i.set_global_flags_clear((uint32_t)a.n("gfc", 0)); if(a.n("gfs", 0)) i.set_global_flags_set((uint32_t)a.n("gfs", 0)); if(a.n("cst", 0)) i.set_critical_section_default_timeout((uint32_t)a.n("cst", 0));
    if(a.n("dfb", 0)) i.set_decommit_free_block_threshold((uint64_t)a.n("dfb", 0)); if(a.n("dtf", 0)) i.set_decommit_total_free_threshold((uint64_t)a.n("dtf", 0)); if(a.n("lpt", 0)) i.set_lock_prefix_table_va((uint64_t)a.n("lpt", 0)); if(a.n("mas", 0)) i.set_max_allocation_size((uint64_t)a.n("mas", 0)); if(a.n("vmt", 0)) i.set_virtual_memory_threshold((uint64_t)a.n("vmt", 0));
    if(a.n("pam", 0)) i.set_process_affinity_mask((uint64_t)a.n("pam", 0)); if(a.n("phf", 0)) i.set_process_heap_flags((uint32_t)a.n("phf", 0)); if(a.n("csd", 0)) i.set_service_pack_version((uint16_t)a.n("csd", 0)); if(a.n("edl", 0)) i.set_edit_list_va((uint64_t)a.n("edl", 0)); if(a.n("sck", 0)) i.set_security_cookie_va((uint64_t)a.n("sck", 0)); if(a.n("set", 0)) i.set_se_handler_table_va((uint64_t)a.n("set", 0));
    const J& v = a["seh"]; for(size_t k = 0; k < v.a.size(); k++) if(k % 2) i.add_se_handler_rva((uint32_t)v.a[k].num()); else i.get_se_handler_rvas().push_back((uint32_t)v.a[k].num());
    const J& u = a["lock"]; for(size_t k = 0; k < u.a.size(); k++) if(k % 2) i.add_lock_prefix_rva((uint32_t)u.a[k].num()); else i.get_lock_prefix_rvas().push_back((uint32_t)u.a[k].num());
    return i; }
OP(cfg_read) { r.set("cfg", cfg_json(get_image_config(c.img(a)))); }
OP(cfg_rebuild) { pe_base& p = c.img(a); section& s = c.sec(a); St st(p, r, a); dirret(r, rebuild_image_config(p, cfg_of(a["cfg"]), s, n4(a, "off"), a.b("wse", true), a.b("wlp", true), a.b("save", true), a.b("strip", true))); }
OP(cfg_helpers) { image_config_info i = cfg_of(a["cfg"]); r.set("r", cfg_json(i)); i.clear_se_handler_list(); i.clear_lock_prefix_list(); r.set("r2", cfg_json(i)); }

static J bound_json(const bound_import_module_list& l) {
    J v = J::arr();
    for(size_t i = 0; i < l.size(); i++) { J e = J::obj(); e.set("name", by(l[i].get_module_name())); e.set("ts", w4(l[i].get_timestamp())); e.set("n", (int)l[i].get_module_ref_count()); J q = J::arr();
        const bound_import::ref_list& f = l[i].get_module_ref_list(); for(size_t k = 0; k < f.size(); k++) { J t = J::obj(); t.set("name", by(f[k].get_module_name())); t.set("ts", w4(f[k].get_timestamp())); q.push(t); } e.set("refs", q); v.push(e); }
    return v; }
OP(bound_read) { r.set("mods", bound_json(get_bound_import_module_list(c.img(a)))); }
OP(bound_rebuild) { pe_base& p = c.img(a); section& s = c.sec(a); bound_import_module_list l; const J& m = a["mods"];
    for(size_t i = 0; i < m.a.size(); i++) { bound_import b; b.set_module_name(bs(m.a[i], "name")); if(n4(m.a[i], "ts")) b.set_timestamp(n4(m.a[i], "ts")); const J& q = m.a[i]["refs"];
        b.add_module_ref(bound_import_ref("x", 1)); b.clear_module_refs();
        for(size_t k = 0; k < q.a.size(); k++) if(k % 2) b.add_module_ref(bound_import_ref(bs(q.a[k], "name"), n4(q.a[k], "ts"))); else { bound_import_ref f; f.set_module_name(bs(q.a[k], "name")); if(n4(q.a[k], "ts")) f.set_timestamp(n4(q.a[k], "ts")); b.get_module_ref_list().push_back(f); }
        l.push_back(i % 2 ? b : bound_import(b)); }
    St st(p, r, a); dirret(r, rebuild_bound_imports(p, l, s, n4(a, "off"), a.b("save", true), a.b("strip", true))); }
