import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe:a["observe_at"]=observe
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))
L="src/pe_lib/"
p("C01","Loading accepts exactly the well-formed images and rejects the rest cleanly",
"Loading a byte stream as a PE image succeeds if and only if it satisfies every loader condition (DOS/PE signatures, DWORD-aligned PE header, magic matching, at most 96 sections, power-of-two and mutually compatible alignments, non-zero image size, sections whose sizes are not both zero, that fit the image size and the file, and that follow each other contiguously in memory, headers not overlapping the first section). Every rejected stream yields a library exception whose id names a condition that really is violated; no stream crashes the process, reads out of bounds or escapes with another exception type.",
["inputs"],"all byte streams: well-formed images, images with any header or section field set to a boundary or hostile value, and truncations at any length, PE32 and PE32+, read as file image or memory image",
"The tests load seven well-formed sample files and never present a malformed header or a truncated stream.",
[L+"pe_base.cpp",L+"pe_factory.cpp",L+"utils.h",L+"utils.cpp"],[("pe_base::read_pe / read_dos_header / get_pe_type","pe_base.cpp"),("pe_factory::create_pe","pe_factory.cpp")],["pe_factory::create_pe","pe_base::pe_base(istream&)"])
p("C02","A loaded image is exactly what the file contains",
"After a successful load, the headers, data directories, DOS stub bytes, header area, section headers, section contents, the overlay flag and every header getter report exactly the bytes at their place in the file (section data at its pointer rounded down to the file alignment, or at its address when read as a memory image; an over-long raw size clipped to the virtual size, directory count clipped to 16). Setting a header field changes that field and nothing else.",
["inputs","histories"],"all loadable images (PE32, PE32+, file and memory layout), and all sequences of header setter calls",
"Tests compare a handful of fields of the sample files; they never compare the whole projection, odd layouts (unaligned pointers, oversized raw data, zero virtual size, fewer than 16 directories) or the field written by each setter for both formats.",
[L+"pe_base.cpp",L+"pe_properties_generic.cpp",L+"pe_section.cpp"],[("pe_base::read_pe","pe_base.cpp"),("pe_properties_generic accessors","pe_properties_generic.cpp")],["create_pe","header getters/setters"])
p("C03","Section table stays contiguous and aligned under every editing sequence",
"Whatever sequence of section operations (adding, preparing, recalculating, resizing the virtual size, expanding, realigning a section or the file) is applied to an image, its sections keep strictly increasing, section-aligned, gap-free addresses, never a raw size exceeding their address space, and a section count equal to the number of sections. An operation that would move or resize a section other than the last one, add a section beyond the limit of 96, use a section with no raw and no virtual size, or set an invalid file alignment is refused with its library exception and leaves the image unchanged; accepted operations preserve all section contents except for zero bytes trimmed from or appended to the end.",
["histories"],"all sequences of section operations, over PE32/PE32+ images created or loaded, all section and file alignments, raw/virtual sizes around alignment multiples",
"Tests execute one fixed sequence with one alignment; the invariant is over all histories and all sizes relative to the two alignments.",
[L+"pe_base.cpp",L+"pe_section.cpp"],[("add_section/prepare_section/recalculate_section_sizes/set_section_virtual_size/expand_section/realign_section","pe_base.cpp")],["section API of pe_base"],[("sections_","ordered section list","pe_base.h")])
p("C04","A rebuilt file is well-formed and reloads to the same image",
"Writing an image (with or without DOS-header stripping, header-size recalculation and bound-import preservation) produces a file whose DOS, NT and section headers describe that very file: aligned, non-overlapping, in-order section data inside the file, header sizes that cover the headers, zero-filled gaps, and every byte of every section and of the stub in place. Loading the file yields an image with the same sections, directories, contents and header fields, and rebuilding that one reproduces the same bytes; an image whose headers do not fit before the first section is refused with an exception.",
["inputs","histories","configurations"],"all images obtained by creating or loading and editing (section and directory operations), times the rebuild options, PE32 and PE32+, all alignments, empty and virtual-only sections in any position",
"Tests rebuild two sample files with default options; no test checks file structure for generated layouts, stripped directories, virtual-only or shrunken sections, or the rebuild flags.",
[L+"pe_rebuilder.cpp",L+"pe_base.cpp",L+"pe_section.cpp"],[("rebuild_pe","pe_rebuilder.cpp")],["rebuild_pe output stream"])
p("C05","Address conversions agree with the section map and invert each other",
"Conversions between virtual addresses, relative virtual addresses and file offsets, and the lookups of a section by any of them, return the answer given by the section table: an address belongs to the unique section whose section-aligned virtual range (or raw file range) contains it, header addresses map to themselves, and RVA-to-offset and offset-to-RVA are inverse on raw-backed bytes. Addresses that belong to nothing, or whose conversion does not fit 32 bits, are refused with the documented exception instead of wrapping around, for 32-bit and 64-bit image bases (the 32-bit form of an RVA of a PE32+ image uses the low half of its base).",
["inputs"],"all images (section layouts, image bases up to 2^64) and all addresses, notably section edges +-1, header edges and values whose sum or difference overflows 32 bits",
"Tests probe a few addresses in one image; the property ranges over every address and layout including the wrap-around corner.",
[L+"pe_base.cpp",L+"pe_properties_generic.cpp",L+"pe_section.cpp"],[("va_to_rva/rva_to_va/rva_to_file_offset/file_offset_to_rva/section_from_*","pe_base.cpp, pe_properties_generic.cpp")],["address conversion API"])
p("C06","Section data access is bounds-checked and the raw/virtual views are transparent",
"Typed reads through an RVA or VA return exactly the little-endian bytes stored there in the chosen view (raw file data, or virtual data zero-extended to the aligned virtual size, or the header area when headers are included) if the whole object lies inside the view, and throw a library exception otherwise; the reported data lengths (total and remaining) agree with that view. Obtaining the virtual view of a section, in any interleaving with raw accesses, changes neither its raw contents and length nor the emptiness test nor what is written when the image is rebuilt.",
["inputs","histories"],"all images, all addresses and object sizes (1,2,4,8 and structure sizes), all interleavings of raw and virtual accesses and edits on each section",
"Tests read a few in-range values in one order; the property is about every offset around the end of each view and every interleaving of mapping and unmapping.",
[L+"pe_base.h",L+"pe_base.cpp",L+"pe_section.cpp"],[("section_data_from_rva<T>, section_data_length_from_rva","pe_base.h/.cpp"),("map_virtual/unmap_virtual","pe_section.cpp")],["section_data_* API","section::get_raw_data/get_virtual_data"],[("old_size_","raw length while the virtual view is mapped","pe_section.h")])
p("C07","The data-directory table behaves as a bounded map with its header side effects",
"Directory getters and setters act on exactly the addressed entry and refuse indexes outside the declared count; a directory exists exactly when its index is inside the count and its address is non-zero, and the has-X predicates agree with that (relocations additionally require that they are not marked stripped). Removing a directory clears only that entry (plus the relocs-stripped and dynamic-base flags for relocations and the DLL flag for exports), and stripping lowers the count to the last existing directory but never below the requested minimum, never dropping an existing directory other than the IAT when allowed.",
["histories","inputs"],"all sequences of directory operations on tables with any declared count 0..16 and any set of occupied entries",
"Tests use a 16-entry table and a couple of indexes; count 0, partial counts, and stripping with each minimum and each trailing pattern are unreached.",
[L+"pe_properties_generic.cpp",L+"pe_base.cpp"],[("directory_exists/remove_directory/strip_data_directories","pe_properties_generic.cpp")],["directory API"])
p("C08","Export tables round-trip and are read according to the format",
"Rebuilding exports from a list of functions (ordinals with gaps, named or not, forwarded or not, in any order) and reading them back, also after writing and reloading the file, gives the same functions with the same ordinals, RVAs, names and forwarders and the same library information, with names stored sorted and all structures inside the directory range; duplicate names or ordinals and an insufficient space are refused without touching the image. Reading any other export directory returns the function list the format defines or throws a library exception, never an out-of-bounds access.",
["inputs","histories"],"all export lists (ordinals 0..65535 sparse, named/unnamed/forwarded), target offsets inside a section, new or shared sections, rebuild options; plus all corrupted export directories",
"Tests rebuild one list with distinct names; gaps, unnamed and forwarded functions, target offsets, tight space and malformed tables are not sampled.",
[L+"pe_exports.cpp"],[("rebuild_exports / get_exported_functions","pe_exports.cpp")],["get_exported_functions","rebuild_exports"])
p("C09","Import tables round-trip and are read according to the format",
"Rebuilding imports from any list of libraries and functions (by name with hint or by ordinal, PE32 and PE32+), under every combination of the rebuilder options, yields a directory that the format decodes to the same libraries, names, hints and ordinals in order, in the lookup table and/or the address table as the options ask, also after writing and reloading; bytes of the hosting section before the target offset are preserved and too small a target is refused. Reading any other import directory returns the list the format defines or throws a library exception, never an out-of-bounds access.",
["inputs","configurations"],"all import lists times rebuilder settings (save IAT/original IAT, fill, zero fields, offset, rewrite IAT), both formats; plus all corrupted import directories",
"Tests rebuild one or two lists with two settings; ordinals without original IAT, empty libraries, options in combination and corrupt tables are not reached.",
[L+"pe_imports.cpp"],[("rebuild_imports / get_imported_functions","pe_imports.cpp")],["get_imported_functions","rebuild_imports"])
p("C10","Relocation tables round-trip and are read according to the format",
"Rebuilding relocations from a list of tables and reading them back, also after writing and reloading, yields the same tables with the same RVAs, types and items in the same order, each block 4-byte aligned (padded with an absolute entry that the reader hides unless asked for), with the directory size equal to the bytes written and the stripped flag cleared. Reading any other relocation directory returns the blocks the format defines or throws a library exception, and always terminates.",
["inputs"],"all lists of relocation tables (any entry count parity, all types), target offsets; plus all corrupted relocation directories (zero, short or huge block sizes)",
"Tests rebuild a single list; parity and empty-table cases, malformed block sizes and reading beyond the directory are not sampled.",
[L+"pe_relocations.cpp"],[("rebuild_relocations / get_relocations","pe_relocations.cpp")],["get_relocations","rebuild_relocations"])
p("C11","Rebasing shifts exactly the relocated addresses, by exactly the base difference",
"Rebasing an image to a new base adds (new base - old base), modulo the item width, to every address named by a HIGHLOW or DIR64 item (the high or low half of it for HIGH and LOW items) and to nothing else, and sets the image base; every other byte of every section is unchanged, and rebasing back restores the original image. Items whose target does not lie completely in raw section data or the header area, or whose type is not supported, are refused with a library exception and change nothing.",
["inputs","histories"],"all relocatable images (PE32, PE32+, all relocation types, items at section edges), all new bases below and above the old one, and sequences of rebases",
"Tests rebase one file to one base; carry propagation, downward rebasing, edge items and untouched bytes are not checked.",
[L+"pe_relocations.cpp"],[("rebase_image","pe_relocations.cpp")],["rebase_image"])
p("C12","TLS directories round-trip",
"Rebuilding TLS information (raw data range, index address, characteristics, callbacks, zero-fill size) under every combination of the write options and reading it back, also after writing and reloading, gives the same values: callback lists in order, raw data equal to the supplied bytes, VAs formed with the image base, and nothing written outside the target ranges. Reading any other TLS directory returns what the format defines or throws a library exception, never an out-of-bounds access.",
["inputs","configurations"],"all TLS descriptions (0..n callbacks, raw data shorter/longer than the declared range), expand types, write flags, PE32 and PE32+; plus corrupted directories",
"Tests rebuild one description; zero or many callbacks, virtual-only ranges, tight sections and bad VAs are not reached.",
[L+"pe_tls.cpp"],[("get_tls_info/rebuild_tls","pe_tls.cpp")],["get_tls_info","rebuild_tls"])
p("C13","Load-configuration directories round-trip",
"Rebuilding a load configuration (all scalar fields, SE handler table, lock-prefix table) with every combination of write options and reading it back, also after writing and reloading, gives the same field values and the same sorted SE-handler and lock-prefix lists, in both formats. Reading any other load-config directory returns what the format defines (older, shorter structures included) or throws a library exception.",
["inputs","configurations"],"all field values incl. 64-bit ones, 0..n SE handlers and lock prefixes, write flags, PE32/PE32+; plus corrupted directories",
"Tests rebuild one configuration per format; per-field independence, empty vs. absent tables, and malformed tables are not sampled.",
[L+"pe_load_config.cpp"],[("get_image_config/rebuild_image_config","pe_load_config.cpp")],["get_image_config","rebuild_image_config"])
p("C14","Bound-import directories round-trip",
"Rebuilding bound imports from any list of modules with forwarder references and reading them back, also after writing and reloading, yields the same module names, timestamps and forwarders in order, with the directory size covering exactly the records and names. A bound-import directory placed in the headers survives a rebuild of the file that preserves it, and reading any other directory returns what the format defines or throws a library exception.",
["inputs","configurations"],"all module lists with 0..n references, names of any length, target offsets, auto-strip on/off; header-resident directories; plus corrupted directories",
"Tests rebuild one list; header-resident directories rebuilt with different options and malformed records are not reached.",
[L+"pe_bound_import.cpp",L+"pe_rebuilder.cpp"],[("get_bound_import_module_list/rebuild_bound_imports","pe_bound_import.cpp")],["get_bound_import_module_list","rebuild_bound_imports","rebuild_pe"])
p("C15","Resource trees round-trip and are written in the canonical order",
"Writing any resource tree (named entries and entries numbered with up to 31 bits, directories nested up to 32 levels, data leaves of any size with codepage) into a section at any offset and reading it back, also after writing and reloading the file, yields the same tree with the same attributes, names, ids and data bytes; in the image, named entries precede numbered ones, each group sorted ascending, the entry counts match, the structures stay inside the directory range and the rest of the section is preserved. Reading any other resource directory returns the tree the format defines or throws a library exception; it always terminates and never reads out of bounds.",
["inputs"],"all resource trees up to the explored bounds (depth, fan-out, names incl. empty and non-ASCII, empty data), offsets and section kinds; plus corrupted trees incl. cycles and bad offsets",
"Tests round-trip the tree of one sample file; ordering, name lengths, deep or unbalanced trees, and cyclic or truncated trees are not sampled.",
[L+"pe_resources.cpp"],[("get_resources/rebuild_resources","pe_resources.cpp")],["get_resources","rebuild_resources"])
p("C16","Resource edits act as a map from (type, name, language) to data",
"Through the resource manager and viewer, the resource tree behaves as a finite map keyed by type, name-or-id and language: adding then looking up by name, id, index or language returns the added bytes, codepage and timestamp, replacing overwrites, removing deletes that entry only and reports whether it existed, and the listings and counts enumerate exactly the entries present. Looking up what is absent throws the documented exception and changes nothing.",
["histories"],"all sequences of add/replace/remove/list/look-up operations over types, names, ids and languages",
"Tests perform a short fixed sequence; interleavings of names and ids, removal of the last entry of a level, and re-adding are not explored.",
[L+"pe_resource_manager.cpp",L+"pe_resource_viewer.cpp",L+"pe_resources.cpp"],[("add_resource/remove_resource*/get_resource_data_*","pe_resource_manager.cpp, pe_resource_viewer.cpp")],["pe_resource_manager","pe_resource_viewer"])
p("C17","Icon and cursor groups round-trip through the resource tree",
"Adding an icon or cursor file to a resource tree and reading the group back (by name or id, index or language) yields a file with the same pictures: same directory entries, sizes, hotspots and picture bytes in the same order (the colour count of a cursor has no place in a resource and reads 0); the member ids chosen are free ones, so that pictures of other groups are never overwritten. Removing a group removes exactly its own pictures, and malformed icon or cursor data is refused with a library exception, never read out of bounds.",
["inputs","histories"],"all icon/cursor files with 1..n pictures, both placement policies, sequences of adds/replacements/removals over several groups; plus truncated or corrupt files",
"Tests add and read back fixed pictures in a fresh tree; id allocation with gaps, several groups, removal and malformed input are not explored.",
[L+"resource_cursor_icon_reader.cpp",L+"resource_cursor_icon_writer.cpp"],[("add_icon/add_cursor/get_icon_by_*/remove_icon_group","resource_cursor_icon_*.cpp")],["resource_cursor_icon_reader/writer"])
p("C18","Version information round-trips and its viewer/editor act as maps",
"Writing version information (fixed file info, string tables of UCS-2 text, translations; up to 64 KB) to the resource tree and reading it back yields the same fixed fields, the same strings for every language table and the same translations, and the stored block follows the format (lengths, DWORD alignment, UTF-16 keys). The viewer and editor get and set properties, translations and tables as a map keyed by translation and name, and malformed version blocks are refused with a library exception, never read out of bounds.",
["inputs","histories"],"all fixed infos, string tables (empty and long values, several languages), translation lists, editing sequences; plus corrupted version blocks",
"Tests write one version block; alignment of odd-length strings, several tables, and malformed lengths are not sampled.",
[L+"resource_version_info_reader.cpp",L+"resource_version_info_writer.cpp",L+"version_info_viewer.cpp",L+"version_info_editor.cpp",L+"file_version_info.cpp"],[("get_version_info/set_version_info","resource_version_info_*.cpp")],["resource_version_info_reader/writer","version_info_viewer/editor"])
p("C19","String tables, message tables and bitmaps are decoded as the formats define",
"Reading a string-table block returns string (id-1)*16+n at slot n and omits exactly the empty slots; reading a message table returns for every id in every block range the message text with its encoding; a well-formed bitmap file written to and read from the resource tree is the same file, its file header being computed on reading. Malformed tables and bitmaps are refused with a library exception, never read out of bounds, and always terminate.",
["inputs"],"all string blocks, message tables (ANSI/Unicode, several blocks) and bitmaps; plus truncated or corrupt ones",
"Tests read one sample of each; slot/id arithmetic over all ids, block ranges and malformed lengths are not sampled.",
[L+"resource_string_table_reader.cpp",L+"resource_message_list_reader.cpp",L+"resource_bitmap_reader.cpp",L+"resource_bitmap_writer.cpp"],[("parse_string_list, parse_message_list, get_bitmap_by_*","resource_*_reader.cpp")],["resource_string_table_reader","resource_message_list_reader","resource_bitmap_reader/writer"])
p("C20","Debug, exception and .NET directories are decoded as the formats define",
"The debug directory reader returns one record per directory entry (up to the first entry without file data, or the end of the directory) with its header fields and, for CodeView (PDB 2.0 and 7.0), misc and COFF data, the identifiers, paths and symbols stored in the raw data; the exception-directory reader returns every runtime-function record (up to a null one or the end of the directory) with its addresses and unwind info; the .NET reader returns the CLI header fields. Corrupted directories or raw data give a library exception or an entry without advanced information, never an out-of-bounds access or non-termination.",
["inputs"],"all debug/exception/.NET directories with any record counts and types, plus corrupted ones and truncated raw data",
"Tests read one sample file per directory; other record types, counts and malformed data are not sampled.",
[L+"pe_debug.cpp",L+"pe_exception_directory.cpp",L+"pe_dotnet.cpp"],[("get_debug_information/get_exception_directory_data/get_basic_dotnet_info","pe_debug.cpp, pe_exception_directory.cpp, pe_dotnet.cpp")],["get_debug_information","get_exception_directory_data","get_basic_dotnet_info"])
p("C21","The file checksum equals the PE checksum of the bytes",
"For every file, of any length, with a DWORD-aligned PE header, the calculated checksum equals the end-around-carry sum of its 16-bit little-endian words (an odd tail zero-padded, the stored checksum field counted as zero) plus the file length; hence it does not depend on the stored checksum value. Storing it and recalculating gives the same value.",
["inputs"],"all files (any length modulo 4, any header position, contents with long carry chains)",
"Tests check the checksum of two files; carries, odd lengths and header positions are not varied.",
[L+"pe_checksum.cpp"],[("calculate_checksum","pe_checksum.cpp")],["calculate_checksum"])
p("C22","Readers have no side effects on the image or the stream",
"No reading operation (any directory or resource reader, getter, conversion, checksum, loading) changes the image it reads: a rebuild before and after gives the same bytes and repeated reads give the same answer. Reading operations on a caller's stream leave its position and exception mask as they were and its state clear, whether they succeed or throw.",
["histories","inputs"],"all sequences of reading operations on well-formed and on corrupted images, on streams at any position with any exception mask, successful or failing",
"Tests never compare the image or the stream state before and after reading, in particular on failing reads.",
[L+"pe_base.cpp",L+"pe_section.cpp",L+"pe_checksum.cpp",L+"pe_factory.cpp"],[("stream save/restore","pe_base.cpp, pe_checksum.cpp"),("map_virtual/unmap_virtual","pe_section.cpp")],["all const readers","istream state"])
p("C23","Copies of images, sections, resources and debug records are independent values",
"Copying or assigning an image, a section, a resource directory or entry, a debug record or an icon/version container yields an equal value, and later changing or destroying either one never affects the other; self-assignment changes nothing. This holds for containers with nested owned parts at any depth and in any order of copies, edits and destructions.",
["histories"],"all sequences of copy, assign, self-assign, modify and destroy over values with nested ownership",
"Tests copy rarely and never modify or destroy the original afterwards; aliasing and use-after-free need particular sequences.",
[L+"pe_base.cpp",L+"pe_resources.cpp",L+"pe_debug.cpp",L+"pe_properties_generic.cpp"],[("copy constructors and operator=","pe_base.cpp, pe_resources.cpp, pe_debug.cpp")],["pe_base, resource_directory_entry, debug_info copy/assign"])
p("C24","Refused rebuilds leave the image unchanged",
"When a directory rebuild, a section edit, a relocation rebase or a header change is refused with an exception (detached section, insufficient space, duplicate names, invalid argument), the image is the same as before the call: same section contents and sizes, same directory table, same header fields. Rebuilding a directory that succeeds changes only the target section, the directory entry (when requested) and the image size.",
["histories","fault_sequences"],"all directory rebuild operations with every reason for refusal, on images with one or more sections and any prior edits",
"Tests only check that an exception is thrown, never the image afterwards, nor that other sections stay untouched.",
[L+"pe_exports.cpp",L+"pe_imports.cpp",L+"pe_relocations.cpp",L+"pe_tls.cpp",L+"pe_load_config.cpp",L+"pe_bound_import.cpp",L+"pe_resources.cpp",L+"pe_base.cpp"],[("space checks before writing","rebuild_* functions")],["rebuild_* functions"])
p("C25","DOS stub and Rich records are preserved and decoded",
"The stub area between the DOS and PE headers is kept byte for byte (padded to a DWORD) through load and rebuild unless it is explicitly replaced, filled or stripped. Reading Rich records returns the decoded (number, version, count) triples between the DanS and Rich markers under the stored XOR key, and an empty list when either marker is missing, without reading past the stub.",
["inputs"],"all stub contents and lengths, with markers at every offset (including truncated at the end of the stub), all keys",
"Tests read one file's Rich data; truncated markers, missing keys, and stub edits with odd lengths are not sampled.",
[L+"pe_rich_data.cpp",L+"pe_base.cpp",L+"pe_rebuilder.cpp"],[("get_rich_data","pe_rich_data.cpp"),("stub overlay","pe_base.cpp")],["get_rich_data","get_stub_overlay"])
p("C26","Entropy obeys its definition",
"The entropy of a byte sequence, stream, section or file is the Shannon entropy of its byte histogram in bits: it depends only on the histogram, is 0 exactly for sequences with one distinct byte, is k for a uniform distribution over 2^k values, is additive in the exact dyadic cases and the value for a stream, string or section with the same bytes is the same; empty data is refused (an image without section data counts as 0).",
["inputs"],"all byte sequences (checked at the histograms whose entropy is an exact dyadic rational, and for order/representation independence on all)",
"Tests compare three fixed inputs.",
[L+"entropy.cpp"],[("entropy_calculator","entropy.cpp")],["entropy_calculator"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:f.write(json.dumps(x)+"\n")
print(len(P))
