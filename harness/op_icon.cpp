// Icons and cursors in the resource tree.
#include "res.h"
using namespace drv;
OP(ico_add) {
    resource_directory& t = c.tree(a); Tr tr(t, r); pe_resource_manager m(t); resource_cursor_icon_writer w(m); uint32_t lang = n4(a, "lang"), cp = n4(a, "cp"), ts = n4(a, "ts"); std::string f = bs(a, "file");
    resource_cursor_icon_writer::icon_place_mode md = a.str("mode", "max") == "max" ? resource_cursor_icon_writer::icon_place_after_max_icon_id : resource_cursor_icon_writer::icon_place_free_ids;
    if(a.str("kind") == "cursor") { if(a.has("n")) w.add_cursor(f, towstr(a["n"]), lang, md, cp, ts); else w.add_cursor(f, n4(a, "id"), lang, md, cp, ts); }
    else { if(a.has("n")) w.add_icon(f, towstr(a["n"]), lang, md, cp, ts); else w.add_icon(f, n4(a, "id"), lang, md, cp, ts); } }
OP(ico_rem) {
    resource_directory& t = c.tree(a); Tr tr(t, r); pe_resource_manager m(t); resource_cursor_icon_writer w(m); uint32_t lang = n4(a, "lang"); bool v;
    if(a.str("kind") == "cursor") v = a.has("n") ? w.remove_cursor_group(towstr(a["n"]), lang) : w.remove_cursor_group(n4(a, "id"), lang);
    else v = a.has("n") ? w.remove_icon_group(towstr(a["n"]), lang) : w.remove_icon_group(n4(a, "id"), lang);
    r.set("ret", v); }
OP(ico_get) {
    const resource_directory& t = c.tree(a); pe_resource_viewer m(t); resource_cursor_icon_reader w(m); uint32_t lang = n4(a, "lang"), ix = n4(a, "index"), id = n4(a, "id"); bool I = a.has("index"); std::string v;
    if(a.str("kind") == "cursor") v = a.has("n") ? (I ? w.get_cursor_by_name(towstr(a["n"]), ix) : w.get_cursor_by_name(lang, towstr(a["n"]))) : (I ? w.get_cursor_by_id(id, ix) : w.get_cursor_by_id_lang(lang, id));
    else v = a.has("n") ? (I ? w.get_icon_by_name(towstr(a["n"]), ix) : w.get_icon_by_name(lang, towstr(a["n"]))) : (I ? w.get_icon_by_id(id, ix) : w.get_icon_by_id_lang(lang, id));
    r.set("v", by(v)); }
OP(ico_single) {
    const resource_directory& t = c.tree(a); pe_resource_viewer m(t); resource_cursor_icon_reader w(m); uint32_t lang = n4(a, "lang"), ix = n4(a, "index"), id = n4(a, "id"); bool I = a.has("index"); std::string v;
    if(a.str("kind") == "cursor") v = I ? w.get_single_cursor_by_id(id, ix) : w.get_single_cursor_by_id_lang(lang, id);
    else v = I ? w.get_single_icon_by_id(id, ix) : w.get_single_icon_by_id_lang(lang, id);
    r.set("v", by(v)); }
