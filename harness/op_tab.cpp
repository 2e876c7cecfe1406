// String tables, message tables and bitmaps in the resource tree.
#include "res.h"
using namespace drv;
OP(str_table) { const resource_directory& t = c.tree(a); pe_resource_viewer m(t); resource_string_table_reader w(m);
    resource_string_list l = a.has("lang") ? w.get_string_table_by_id_lang(n4(a, "lang"), n4(a, "id")) : w.get_string_table_by_id(n4(a, "id"), n4(a, "index"));
    J v = J::arr(); for(resource_string_list::const_iterator i = l.begin(); i != l.end(); ++i) { J e = J::obj(); e.set("id", (int)i->first); e.set("s", ws(i->second)); v.push(e); } r.set("v", v); }
OP(str_get) { const resource_directory& t = c.tree(a); pe_resource_viewer m(t); resource_string_table_reader w(m);
    r.set("v", ws(a.has("lang") ? w.get_string_by_id_lang(n4(a, "lang"), (uint16_t)a.n("sid")) : w.get_string_by_id((uint16_t)a.n("sid"), n4(a, "index")))); }
OP(msg_table) { const resource_directory& t = c.tree(a); pe_resource_viewer m(t); resource_message_list_reader w(m);
    resource_message_list l = a.has("lang") ? w.get_message_table_by_id_lang(n4(a, "lang"), n4(a, "id")) : w.get_message_table_by_id(n4(a, "id"), n4(a, "index"));
    J v = J::arr(); for(resource_message_list::const_iterator i = l.begin(); i != l.end(); ++i) { J e = J::obj(); const message_table_item& x = i->second; e.set("id", w4(i->first)); e.set("uni", x.is_unicode()); e.set("s", x.is_unicode() ? ws(x.get_unicode_string()) : by(x.get_ansi_string())); v.push(e); } r.set("v", v); }
OP(bmp_add) { resource_directory& t = c.tree(a); Tr tr(t, r); pe_resource_manager m(t); resource_bitmap_writer w(m);
    if(a.has("n")) { if(a.has("cp")) w.add_bitmap(bs(a, "file"), towstr(a["n"]), n4(a, "lang"), n4(a, "cp"), n4(a, "ts")); else w.add_bitmap(bs(a, "file"), towstr(a["n"]), n4(a, "lang")); }
    else { if(a.has("cp")) w.add_bitmap(bs(a, "file"), n4(a, "id"), n4(a, "lang"), n4(a, "cp"), n4(a, "ts")); else w.add_bitmap(bs(a, "file"), n4(a, "id"), n4(a, "lang")); } }
OP(bmp_rem) { resource_directory& t = c.tree(a); Tr tr(t, r); pe_resource_manager m(t); resource_bitmap_writer w(m); r.set("ret", a.has("n") ? w.remove_bitmap(towstr(a["n"]), n4(a, "lang")) : w.remove_bitmap(n4(a, "id"), n4(a, "lang"))); }
OP(bmp_get) { const resource_directory& t = c.tree(a); pe_resource_viewer m(t); resource_bitmap_reader w(m); uint32_t lang = n4(a, "lang"), ix = n4(a, "index"); bool I = a.has("index");
    r.set("v", by(a.has("n") ? (I ? w.get_bitmap_by_name(towstr(a["n"]), ix) : w.get_bitmap_by_name(lang, towstr(a["n"]))) : (I ? w.get_bitmap_by_id(n4(a, "id"), ix) : w.get_bitmap_by_id_lang(lang, n4(a, "id"))))); }
