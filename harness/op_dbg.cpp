// Debug, exception and .NET directories.
#include "dirs.h"
#include <cstring>
using namespace drv;
template<typename T> static bool refuses(const debug_info& d) { try { d.get_advanced_debug_info<T>(); } catch(const pe_exception& e) { return e.get_id() == pe_exception::advanced_debug_information_request_error; } return false; }
static J w4s(std::initializer_list<uint32_t> l) { J j = J::arr(); for(uint32_t x : l) j.push(w4(x)); return j; }
static J dbg_json(const debug_info& d)
{
    J e = J::obj(); e.set("h", w4s({ d.get_characteristics(), d.get_time_stamp(), d.get_major_version(), d.get_minor_version(), d.get_type_raw(), d.get_size_of_data(), d.get_rva_of_raw_data(), d.get_pointer_to_raw_data() }));
    e.set("ty", (int)d.get_type()); int t = (int)d.get_advanced_info_type(); e.set("adv", t);
    J i = J::obj();
    if(t == debug_info::advanced_info_pdb_7_0) { pdb_7_0_info x = d.get_advanced_debug_info<pdb_7_0_info>(); pe_win::guid g = x.get_guid(); J b = w4(g.Data1); for(int k = 0; k < 2; k++) b.push((g.Data2 >> (8 * k)) & 255); for(int k = 0; k < 2; k++) b.push((g.Data3 >> (8 * k)) & 255); for(int k = 0; k < 8; k++) b.push((int)g.Data4[k]); i.set("guid", b); i.set("age", w4(x.get_age())); i.set("s", by(x.get_pdb_file_name())); }
    else if(t == debug_info::advanced_info_pdb_2_0) { pdb_2_0_info x = d.get_advanced_debug_info<pdb_2_0_info>(); i.set("sig", w4(x.get_signature())); i.set("age", w4(x.get_age())); i.set("s", by(x.get_pdb_file_name())); }
    else if(t == debug_info::advanced_info_misc) { misc_debug_info x = d.get_advanced_debug_info<misc_debug_info>(); i.set("dt", w4(x.get_data_type())); i.set("exe", x.is_exe_name()); i.set("uni", x.is_unicode()); i.set("s", x.is_unicode() ? ws(x.get_data_unicode()) : by(x.get_data_ansi())); }
    else if(t == debug_info::advanced_info_coff) { coff_debug_info x = d.get_advanced_debug_info<coff_debug_info>();
        i.set("h", w4s({ x.get_number_of_symbols(), x.get_lva_to_first_symbol(), x.get_number_of_line_numbers(), x.get_lva_to_first_line_number(), x.get_rva_to_first_byte_of_code(), x.get_rva_to_last_byte_of_code(), x.get_rva_to_first_byte_of_data(), x.get_rva_to_last_byte_of_data() }));
        J v = J::arr(); const coff_debug_info::coff_symbols_list& l = x.get_symbols();
        for(size_t k = 0; k < l.size(); k++) { const coff_debug_info::coff_symbol& s = l[k]; J q = J::obj(); q.set("i", sat(s.get_index())); q.set("cls", sat(s.get_storage_class())); q.set("type", (int)s.get_type()); q.set("file", s.is_file()); if(!s.is_file()) { q.set("sec", sat(s.get_section_number())); q.set("rva", w4(s.get_rva())); } q.set("s", by(s.get_symbol())); v.push(q); }
        i.set("syms", v); }
    e.set("info", i);
    e.set("only", (t == debug_info::advanced_info_pdb_7_0 || refuses<pdb_7_0_info>(d)) && (t == debug_info::advanced_info_pdb_2_0 || refuses<pdb_2_0_info>(d)) && (t == debug_info::advanced_info_misc || refuses<misc_debug_info>(d)) && (t == debug_info::advanced_info_coff || refuses<coff_debug_info>(d)));
    return e;
}
static J dbg_list(const debug_info_list& l) { J v = J::arr(); for(size_t i = 0; i < l.size(); i++) v.push(dbg_json(l[i])); return v; }
OP(dbg_read) { pe_base& p = c.img(a); r.set("has", p.has_debug()); debug_info_list l = get_debug_information(p); r.set("v", dbg_list(l)); if(a.has("keep")) c.misc["dbg" + std::to_string(a.n("keep"))] = std::shared_ptr<void>(new debug_info_list(l)); }
// records as values: copy, assign, drop
static debug_info_list& rec(Ctx& c, int64_t n) { std::shared_ptr<void>& p = c.misc["dbg" + std::to_string(n)]; if(!p) p.reset(new debug_info_list); return *static_cast<debug_info_list*>(p.get()); }
OP(dbg_copy) { debug_info_list& s = rec(c, a.n("from")); std::shared_ptr<void> p(new debug_info_list(s)); c.misc["dbg" + std::to_string(a.n("to"))] = p; }
OP(dbg_assign) { debug_info_list& s = rec(c, a.n("from")); debug_info_list& t = rec(c, a.n("to")); size_t i = (size_t)a.n("i"), j = (size_t)a.n("j"); bool ok = i < t.size() && j < s.size(); r.set("ok", ok); if(ok) t[i] = s[j]; }
// a record made of a description of the kind the driver itself prints
static void advance(debug_info& d, const J& q)
{
    const J& i = q["info"]; int t = (int)q.n("adv"); std::vector<uint32_t> mem(64 + (i.has("s") ? i["s"].a.size() : 0)); char* m = reinterpret_cast<char*>(&mem[0]);
    if(t == debug_info::advanced_info_pdb_7_0) { memcpy(m, "RSDS", 4); std::string g = bs(i, "guid"), n = bs(i, "s"); memcpy(m + 4, g.data(), 16); uint32_t age = n4(i, "age"); memcpy(m + 20, &age, 4); memcpy(m + 24, n.data(), n.length()); d.set_advanced_debug_info(pdb_7_0_info(reinterpret_cast<const pe_win::CV_INFO_PDB70*>(m))); }
    else if(t == debug_info::advanced_info_pdb_2_0) { memcpy(m, "NB10", 4); uint32_t sig = n4(i, "sig"), age = n4(i, "age"); std::string n = bs(i, "s"); memcpy(m + 8, &sig, 4); memcpy(m + 12, &age, 4); memcpy(m + 16, n.data(), n.length()); d.set_advanced_debug_info(pdb_2_0_info(reinterpret_cast<const pe_win::CV_INFO_PDB20*>(m))); }
    else if(t == debug_info::advanced_info_misc) { uint32_t dt = n4(i, "dt"); memcpy(m, &dt, 4); bool u = i.b("uni", false); const J& v = i["s"]; uint32_t n = 12 + (uint32_t)v.a.size() * (u ? 2 : 1); memcpy(m + 4, &n, 4); m[8] = u; for(size_t k = 0; k < v.a.size(); k++) if(u) { uint16_t c = (uint16_t)v.a[k].i; memcpy(m + 12 + 2 * k, &c, 2); } else m[12 + k] = (char)v.a[k].i; d.set_advanced_debug_info(misc_debug_info(reinterpret_cast<const pe_win::image_debug_misc*>(m))); }
    else if(t == debug_info::advanced_info_coff) { for(int k = 0; k < 8; k++) { std::string w = i["h"].a[k].bytes(); memcpy(m + 4 * k, w.data(), 4); } coff_debug_info x(reinterpret_cast<const pe_win::image_coff_symbols_header*>(m)); const J& v = i["syms"];
        for(size_t k = 0; k < v.a.size(); k++) { const J& y = v.a[k]; coff_debug_info::coff_symbol z; z.set_index((uint32_t)y.n("i")); z.set_storage_class((uint32_t)y.n("cls")); z.set_type((uint16_t)y.n("type")); std::string n = bs(y, "s"); if(y.b("file", false)) z.set_file_name(n); else { z.set_symbol_name(n); z.set_section_number((uint32_t)y.n("sec")); z.set_rva(n4(y, "rva")); } x.add_symbol(z); }
        d.set_advanced_debug_info(x); }
    else if(t) d.set_advanced_info_type((debug_info::advanced_info_type)t);
}
OP(dbg_make) { const J& q = a["rec"]; std::string w; for(size_t k = 0; k < 8; k++) { std::string x = q["h"].a[k].bytes(); w += k == 2 || k == 3 ? x.substr(0, 2) : x; } debug_info d(*reinterpret_cast<const pe_win::image_debug_directory*>(w.data())); advance(d, q); rec(c, a.n("to")).push_back(d); }
OP(dbg_set) { debug_info_list& t = rec(c, a.n("to")); size_t i = (size_t)a.n("i"); bool ok = i < t.size(); r.set("ok", ok); if(ok) { if(a["rec"].n("adv")) advance(t[i], a["rec"]); else t[i].set_advanced_info_type(debug_info::advanced_info_none); } }
OP(dbg_push) { debug_info_list& s = rec(c, a.n("from")); debug_info_list& t = rec(c, a.n("to")); size_t j = (size_t)a.n("j"); bool ok = j < s.size(); r.set("ok", ok); if(ok) { debug_info d(s[j]); t.insert(t.begin(), d); } }
OP(dbg_del) { debug_info_list& t = rec(c, a.n("to")); size_t i = (size_t)a.n("i"); bool ok = i < t.size(); r.set("ok", ok); if(ok) t.erase(t.begin() + i); }
OP(dbg_move) { rec(c, a.n("to")) = rec(c, a.n("from")); }
OP(dbg_swap) { debug_info_list& s = rec(c, a.n("from")); debug_info_list& t = rec(c, a.n("to")); size_t i = (size_t)a.n("i"), j = (size_t)a.n("j"); bool ok = i < t.size() && j < s.size(); r.set("ok", ok); if(ok) std::swap(t[i], s[j]); }
OP(dbg_list) { r.set("v", dbg_list(rec(c, a.n("from")))); }
OP(dbg_drop) { rec(c, a.n("from")).clear(); }

OP(exc_read) { pe_base& p = c.img(a); r.set("has", p.has_exception_directory()); exception_entry_list l = get_exception_directory_data(p); J v = J::arr();
    for(size_t i = 0; i < l.size(); i++) { const exception_entry& x = l[i]; J e = J::obj(); e.set("a", w4s({ x.get_begin_address(), x.get_end_address(), x.get_unwind_info_address() }));
        J u = J::arr(); u.push((int)x.get_unwind_info_version()); u.push((int)x.get_flags()); u.push((int)x.get_size_of_prolog()); u.push((int)x.get_number_of_unwind_slots()); u.push((int)x.get_frame_pointer_register_number()); u.push((int)x.get_scaled_rsp_offset()); e.set("u", u);
        J f = J::arr(); f.push(x.has_exception_handler()); f.push(x.has_termination_handler()); f.push(x.is_chaininfo()); f.push(x.uses_frame_pointer()); e.set("f", f); v.push(e); } r.set("v", v); }
OP(net_read) { pe_base& p = c.img(a); r.set("has", p.is_dotnet()); basic_dotnet_info x = get_basic_dotnet_info(p);
    J m = J::arr(); m.push((int)x.get_major_runtime_version()); m.push((int)x.get_minor_runtime_version()); r.set("ver", m);
    r.set("w", w4s({ x.get_rva_of_metadata(), x.get_size_of_metadata(), x.get_flags(), x.get_entry_point_rva_or_token(), x.get_rva_of_resources(), x.get_size_of_resources(), x.get_rva_of_strong_name_signature(), x.get_size_of_strong_name_signature(),
        x.get_rva_of_code_manager_table(), x.get_size_of_code_manager_table(), x.get_rva_of_vtable_fixups(), x.get_size_of_vtable_fixups(), x.get_rva_of_export_address_table_jumps(), x.get_size_of_export_address_table_jumps(), x.get_rva_of_managed_native_header(), x.get_size_of_managed_native_header() }));
    J f = J::arr(); f.push(x.is_native_entry_point()); f.push(x.is_32bit_required()); f.push(x.is_il_library()); f.push(x.is_il_only()); r.set("f", f); }
