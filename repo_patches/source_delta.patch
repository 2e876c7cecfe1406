From 40c0b5ed2325c60ee9acd0561e26d8b36d9a7ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:29 +0000
Subject: [PATCH 01/62] fix: rebuild_pe read past the end of section data
 shorter than SizeOfRawData

---
 src/pe_lib/pe_rebuilder.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index eb9888d..e9759e6 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include "pe_rebuilder.h"
 #include "pe_base.h"
 #include "pe_structures.h"
@@ -165,7 +166,12 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
             out.put(0);
 
         //Write raw section data
-        out.write(s.get_raw_data().data(), s.get_size_of_raw_data());
+        //SizeOfRawData may be greater than actual data length (it is file-aligned), the rest is filled with null bytes
+        const std::string& raw_data = s.get_raw_data();
+        size_t data_length = std::min<size_t>(raw_data.length(), s.get_size_of_raw_data());
+        out.write(raw_data.data(), data_length);
+        for(size_t i = data_length; i < s.get_size_of_raw_data(); i++)
+            out.put(0);
     }
 }
 }
-- 
2.43.0


From b86fd339f92c290b4747e8f168a6b434258450bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:29 +0000
Subject: [PATCH 02/62] fix: rebuild_pe padded the file up to a stale
 PointerToRawData of a section without raw data

---
 src/pe_lib/pe_rebuilder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index e9759e6..0c129e5 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -159,6 +159,10 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
     {
         const section& s = *it;
 
+        //Sections without raw data have no place in the file (their PointerToRawData has not been recalculated)
+        if(!s.get_size_of_raw_data())
+            continue;
+
         std::streamoff wpos = out.tellp();
 
         //Fill unused overlay data between sections with null bytes
-- 
2.43.0


From 5cc1463e0f249fc1d6b57fa9948ff4969d86c79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 03/62] fix: data of sections with zero virtual size was
 dropped on load

---
 src/pe_lib/pe_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 7dcff57..6be5b4e 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -889,7 +889,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
 
             //If section raw data size is greater than virtual, fix it
             last_raw_size = s.get_size_of_raw_data();
-            if(pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment()) > pe_utils::align_up(s.get_virtual_size(), get_section_alignment()))
+            if(pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment()) > s.get_aligned_virtual_size(get_section_alignment()))
                 s.set_size_of_raw_data(s.get_virtual_size());
 
             //Check virtual and raw section sizes and addresses
-- 
2.43.0


From 86dc4fc1f8517e631679d1f84d3c114255ac5a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 04/62] fix: section whose aligned end wraps around 32 bits
 passed the image size check

---
 src/pe_lib/pe_base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 6be5b4e..6d46724 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -927,7 +927,8 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
         }
 
         //Check virtual address and size of section
-        if(s.get_virtual_address() + s.get_aligned_virtual_size(get_section_alignment()) > pe_utils::align_up(get_size_of_image(), get_section_alignment()))
+        if(!pe_utils::is_sum_safe(s.get_virtual_address(), s.get_aligned_virtual_size(get_section_alignment()))
+            || s.get_virtual_address() + s.get_aligned_virtual_size(get_section_alignment()) > pe_utils::align_up(get_size_of_image(), get_section_alignment()))
             throw pe_exception("Incorrect section address or size", pe_exception::section_incorrect_addr_or_size);
 
         //Save section
-- 
2.43.0


From c88a8ae7fcb8b7d93b68c5ad87ca725f9a96a151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 05/62] fix: overlay detection was wrong if the last section
 has no raw data

---
 src/pe_lib/pe_base.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 6d46724..8113bfe 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -860,7 +860,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
             throw pe_exception("Cannot reach section headers", pe_exception::image_section_headers_not_found);
     }
 
-    uint32_t last_raw_size = 0;
+    uint32_t raw_data_end = 0;
 
     //Read all sections
     for(int i = 0; i < get_number_of_sections(); i++)
@@ -887,8 +887,9 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
         {
             //If section has raw data
 
+            raw_data_end = std::max<uint32_t>(raw_data_end, s.get_pointer_to_raw_data() + s.get_size_of_raw_data());
+
             //If section raw data size is greater than virtual, fix it
-            last_raw_size = s.get_size_of_raw_data();
             if(pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment()) > s.get_aligned_virtual_size(get_section_alignment()))
                 s.set_size_of_raw_data(s.get_virtual_size());
 
@@ -954,7 +955,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
     }
 
     //Check if image has overlay in the end of file
-    has_overlay_ = !sections_.empty() && filesize > static_cast<std::streamoff>(sections_.back().get_pointer_to_raw_data() + last_raw_size);
+    has_overlay_ = !sections_.empty() && filesize > static_cast<std::streamoff>(raw_data_end);
 
     {
         //Additionally, read data from the beginning of istream to size of headers
-- 
2.43.0


From 8d2a34fe94b3bbf59ed02946001e817c5b1abf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 06/62] fix: directory_exists read out of bounds if there are
 no data directories

---
 src/pe_lib/pe_properties_generic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_properties_generic.cpp b/src/pe_lib/pe_properties_generic.cpp
index 40abf8c..a842206 100755
--- a/src/pe_lib/pe_properties_generic.cpp
+++ b/src/pe_lib/pe_properties_generic.cpp
@@ -44,7 +44,7 @@ pe_properties_generic<PEClassType>::~pe_properties_generic()
 template<typename PEClassType>
 bool pe_properties_generic<PEClassType>::directory_exists(uint32_t id) const
 {
-    return (nt_headers_.OptionalHeader.NumberOfRvaAndSizes - 1) >= id &&
+    return nt_headers_.OptionalHeader.NumberOfRvaAndSizes > id &&
         nt_headers_.OptionalHeader.DataDirectory[id].VirtualAddress;
 }
 
-- 
2.43.0


From 0039ac336e292d79df6237eadb3e297ea475a648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 07/62] fix: stream position was not restored after a read
 reached the end of file

---
 src/pe_lib/pe_base.cpp     | 12 ++++++------
 src/pe_lib/pe_checksum.cpp |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 8113bfe..46d30c0 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -32,17 +32,17 @@ pe_base::pe_base(std::istream& file, const pe_properties& props, bool is_file_fr
     catch(const std::exception&)
     {
         //If something went wrong, restore istream state
+        file.clear();
         file.seekg(old_offset);
         file.exceptions(state);
-        file.clear();
         //Rethrow
         throw;
     }
 
     //Restore istream state
+    file.clear();
     file.seekg(old_offset);
     file.exceptions(state);
-    file.clear();
 }
 
 pe_base::pe_base(const pe_properties& props, uint32_t section_alignment, bool dll, uint16_t subsystem)
@@ -1076,17 +1076,17 @@ pe_type pe_base::get_pe_type(std::istream& file)
     catch(const std::exception&)
     {
         //If something went wrong, restore istream state
-        file.exceptions(state);
-        file.seekg(old_offset);
         file.clear();
+        file.seekg(old_offset);
+        file.exceptions(state);
         //Retrhow exception
         throw;
     }
 
     //Restore stream state
-    file.exceptions(state);
-    file.seekg(old_offset);
     file.clear();
+    file.seekg(old_offset);
+    file.exceptions(state);
 
     //Determine PE type and return it
     return nt_headers.OptionalHeader.Magic == image_nt_optional_hdr64_magic ? pe_type_64 : pe_type_32;
diff --git a/src/pe_lib/pe_checksum.cpp b/src/pe_lib/pe_checksum.cpp
index 2125780..c855fec 100644
--- a/src/pe_lib/pe_checksum.cpp
+++ b/src/pe_lib/pe_checksum.cpp
@@ -64,17 +64,17 @@ uint32_t calculate_checksum(std::istream& file)
     catch(const std::exception&)
     {
         //If something went wrong, restore istream state
-        file.exceptions(state);
-        file.seekg(old_offset);
         file.clear();
+        file.seekg(old_offset);
+        file.exceptions(state);
         //Rethrow
         throw;
     }
 
     //Restore istream state
-    file.exceptions(state);
-    file.seekg(old_offset);
     file.clear();
+    file.seekg(old_offset);
+    file.exceptions(state);
 
     //Return checksum
     return static_cast<uint32_t>(checksum);    
-- 
2.43.0


From 8034012ced3147ead177f07971965e14a6663df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 08/62] fix: typed read of the last bytes of the headers was
 refused

---
 src/pe_lib/pe_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.h b/src/pe_lib/pe_base.h
index 5642147..b340824 100644
--- a/src/pe_lib/pe_base.h
+++ b/src/pe_lib/pe_base.h
@@ -388,7 +388,7 @@ public: //IMAGE SECTIONS
     T section_data_from_rva(uint32_t rva, section_data_type datatype = section_data_raw, bool include_headers = false) const
     {
         //if RVA is inside of headers and we're searching them too...
-        if(include_headers && pe_utils::is_sum_safe(rva, sizeof(T)) && (rva + sizeof(T) < full_headers_data_.length()))
+        if(include_headers && pe_utils::is_sum_safe(rva, sizeof(T)) && (rva + sizeof(T) <= full_headers_data_.length()))
             return *reinterpret_cast<const T*>(&full_headers_data_[rva]);
 
         const section& s = section_from_rva(rva);
-- 
2.43.0


From 586eec8bee45900a42d0088dd4e2c197c4ad7d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 09/62] fix: virtual data of a mapped section did not follow
 later changes of its virtual size

---
 src/pe_lib/pe_section.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/pe_section.cpp b/src/pe_lib/pe_section.cpp
index bd5079d..aed3aa0 100644
--- a/src/pe_lib/pe_section.cpp
+++ b/src/pe_lib/pe_section.cpp
@@ -145,11 +145,13 @@ std::string& section::get_virtual_data(uint32_t section_alignment)
 //Maps virtual section data
 void section::map_virtual(uint32_t section_alignment) const
 {
-    uint32_t aligned_virtual_size = get_aligned_virtual_size(section_alignment);
-    if(old_size_ == static_cast<size_t>(-1) && aligned_virtual_size && aligned_virtual_size > raw_data_.length())
+    size_t raw_size = old_size_ == static_cast<size_t>(-1) ? raw_data_.length() : old_size_;
+    //Virtual size may have been changed since the data was mapped
+    size_t mapped_size = std::max<size_t>(raw_size, get_aligned_virtual_size(section_alignment));
+    if(mapped_size != raw_data_.length())
     {
-        old_size_ = raw_data_.length();
-        raw_data_.resize(aligned_virtual_size, 0);
+        old_size_ = raw_size;
+        raw_data_.resize(mapped_size, 0);
     }
 }
 
-- 
2.43.0


From ecc7f6d7ecad71504cea97cc1ca142633155d563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:39 +0000
Subject: [PATCH 10/62] fix: Rich data reader read past the end of the stub

---
 src/pe_lib/pe_rich_data.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pe_lib/pe_rich_data.cpp b/src/pe_lib/pe_rich_data.cpp
index 807915c..4db3a49 100644
--- a/src/pe_lib/pe_rich_data.cpp
+++ b/src/pe_lib/pe_rich_data.cpp
@@ -1,3 +1,4 @@
+#include <cstddef>
 #include "pe_rich_data.h"
 
 namespace pe_bliss
@@ -60,7 +61,7 @@ const rich_data_list get_rich_data(const pe_base& pe)
     //Search for rich data overlay ID
     const char* begin = &rich_overlay[0];
     const char* end = begin + rich_overlay.length();
-    for(; begin != end; ++begin)
+    for(; end - begin >= static_cast<std::ptrdiff_t>(sizeof(uint32_t)); ++begin)
     {
         if(*reinterpret_cast<const uint32_t*>(begin) == rich_overlay_id)
         {
@@ -73,7 +74,7 @@ const rich_data_list get_rich_data(const pe_base& pe)
     if(found)
     {
         //Check remaining length
-        if(static_cast<size_t>(end - begin) < sizeof(uint32_t))
+        if(static_cast<size_t>(end - begin) < sizeof(uint32_t) * 2)
             return ret;
 
         //The XOR key is after "Rich" word, we should get it
@@ -84,7 +85,7 @@ const rich_data_list get_rich_data(const pe_base& pe)
 
         //Second search for signature "DanS"
         begin = &rich_overlay[0];
-        for(; begin != end; ++begin)
+        for(; end - begin >= static_cast<std::ptrdiff_t>(sizeof(uint32_t)); ++begin)
         {
             if((*reinterpret_cast<const uint32_t*>(begin) ^ xorkey) == 0x536e6144) //"DanS"
             {
@@ -101,7 +102,7 @@ const rich_data_list get_rich_data(const pe_base& pe)
             while(begin < end)
             {
                 begin += sizeof(uint32_t);
-                if(begin >= end)
+                if(end - begin < static_cast<std::ptrdiff_t>(sizeof(uint32_t)))
                     break;
 
                 //Check for rich overlay data end ("Rich" word reached)
@@ -114,7 +115,7 @@ const rich_data_list get_rich_data(const pe_base& pe)
                 data.set_version((*reinterpret_cast<const uint32_t*>(begin) ^ xorkey) & 0xFFFF);
 
                 begin += sizeof(uint32_t);
-                if(begin >= end)
+                if(end - begin < static_cast<std::ptrdiff_t>(sizeof(uint32_t)))
                     break;
 
                 data.set_times(*reinterpret_cast<const uint32_t*>(begin) ^ xorkey);
-- 
2.43.0


From b41daddff5a9780d69184fe2c13313f1a86cb70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:23 +0000
Subject: [PATCH 11/62] fix: strip_data_directories left one directory less
 than the requested minimum

---
 src/pe_lib/pe_properties_generic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_properties_generic.cpp b/src/pe_lib/pe_properties_generic.cpp
index a842206..aa01242 100755
--- a/src/pe_lib/pe_properties_generic.cpp
+++ b/src/pe_lib/pe_properties_generic.cpp
@@ -127,7 +127,7 @@ uint32_t pe_properties_generic<PEClassType>::strip_data_directories(uint32_t min
         if(nt_headers_.OptionalHeader.DataDirectory[i].VirtualAddress && (static_cast<uint32_t>(i) != image_directory_entry_iat || !strip_iat_directory))
             break;
 
-        if(i <= static_cast<int>(min_count) - 2)
+        if(i <= static_cast<int>(min_count) - 1)
             break;
     }
 
-- 
2.43.0


From 7e4ce5adf7a463646d70d23dab416c5abae5b396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 12/62] fix: name of a forwarded export without a name was not
 read

---
 src/pe_lib/pe_exports.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/pe_lib/pe_exports.cpp b/src/pe_lib/pe_exports.cpp
index 10ee7f0..8a29fd9 100644
--- a/src/pe_lib/pe_exports.cpp
+++ b/src/pe_lib/pe_exports.cpp
@@ -383,26 +383,26 @@ const exported_functions_list get_exported_functions(const pe_base& pe, export_i
                     func.set_name(func_name);
                     func.set_name_ordinal(ordinal2);
 
-                    //If the function is just a redirect, save its name
-                    if(rva >= pe.get_directory_rva(image_directory_entry_export) + sizeof(image_directory_entry_export) &&
-                        rva < pe.get_directory_rva(image_directory_entry_export) + pe.get_directory_size(image_directory_entry_export))
-                    {
-                        if((max_name_length = pe.section_data_length_from_rva(rva, rva, section_data_virtual, true)) < 2)
-                            throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
+                    break;
+                }
+            }
 
-                        //Get forwarded function name pointer
-                        const char* forwarded_func_name = pe.section_data_from_rva(rva, section_data_virtual, true);
+            //If the function is just a redirect, save its name
+            if(rva >= pe.get_directory_rva(image_directory_entry_export) + sizeof(image_directory_entry_export) &&
+                rva < pe.get_directory_rva(image_directory_entry_export) + pe.get_directory_size(image_directory_entry_export))
+            {
+                if((max_name_length = pe.section_data_length_from_rva(rva, rva, section_data_virtual, true)) < 2)
+                    throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
 
-                        //Check for null-termination
-                        if(!pe_utils::is_null_terminated(forwarded_func_name, max_name_length))
-                            throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
+                //Get forwarded function name pointer
+                const char* forwarded_func_name = pe.section_data_from_rva(rva, section_data_virtual, true);
 
-                        //Set the name of forwarded function
-                        func.set_forwarded_name(forwarded_func_name);
-                    }
+                //Check for null-termination
+                if(!pe_utils::is_null_terminated(forwarded_func_name, max_name_length))
+                    throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
 
-                    break;
-                }
+                //Set the name of forwarded function
+                func.set_forwarded_name(forwarded_func_name);
             }
 
             //Add function info to output array
-- 
2.43.0


From 9ae9da46ede285a106ac69f2974f6081c3eebc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 13/62] fix: export directory of an empty function list had a
 wrong number of functions

---
 src/pe_lib/pe_exports.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_exports.cpp b/src/pe_lib/pe_exports.cpp
index 8a29fd9..a9fed7f 100644
--- a/src/pe_lib/pe_exports.cpp
+++ b/src/pe_lib/pe_exports.cpp
@@ -537,7 +537,9 @@ const image_directory rebuild_exports(pe_base& pe, const export_info& info, expo
     needed_size_for_strings += needed_size_for_function_forwards;
     uint32_t needed_size_for_function_name_ordinals = number_of_names * sizeof(uint16_t);
     uint32_t needed_size_for_function_name_rvas = number_of_names * sizeof(uint32_t);
-    uint32_t needed_size_for_function_addresses = (max_ordinal - ordinal_base + 1) * sizeof(uint32_t);
+    //There are no function addresses if there are no functions
+    uint32_t number_of_functions = exports.empty() ? 0 : max_ordinal - ordinal_base + 1;
+    uint32_t needed_size_for_function_addresses = number_of_functions * sizeof(uint32_t);
     
     //Export directory header will be placed first
     uint32_t directory_pos = pe_utils::align_up(offset_from_section_start, sizeof(uint32_t));
@@ -580,7 +582,7 @@ const image_directory rebuild_exports(pe_base& pe, const export_info& info, expo
         dir.MajorVersion = info.get_major_version();
         dir.MinorVersion = info.get_minor_version();
         dir.TimeDateStamp = info.get_timestamp();
-        dir.NumberOfFunctions = max_ordinal - ordinal_base + 1;
+        dir.NumberOfFunctions = number_of_functions;
         dir.NumberOfNames = number_of_names;
         dir.Base = ordinal_base;
         dir.AddressOfFunctions = pe.rva_from_section_offset(exports_section, current_pos_of_function_addresses);
-- 
2.43.0


From a22286414930742fdd2abd55459a5b845424833b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 14/62] fix: functions imported by ordinal overwrote each other
 in a rebuilt IAT without original IAT

---
 src/pe_lib/pe_imports.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index 51b5b3f..7cdd434 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -656,6 +656,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                         else
                         {
                             memcpy(&raw_data[current_pos_for_iat], &thunk_value, sizeof(thunk_value));
+                            current_pos_for_iat += sizeof(thunk_value);
                         }
                     }
                 }
-- 
2.43.0


From f0f6413871a9114648fb207bd069c31956c9acd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 15/62] fix: rebuild_imports dropped data placed in the section
 after the imports

---
 src/pe_lib/pe_imports.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index 7cdd434..8ed40eb 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -460,6 +460,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
         throw pe_exception("Insufficient space for import directory", pe_exception::insufficient_space);
 
     std::string& raw_data = import_section.get_raw_data();
+    const size_t initial_raw_size = raw_data.length();
 
     //This will be done only if image_section is the last section of image or for section with unaligned raw length of data
     if(raw_data.length() < needed_size + import_settings.get_offset_from_section_start())
@@ -734,7 +735,8 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
 
     //Strip data a little, if we saved some place
     //We're allocating more space than needed, if present original IAT and IAT are saved
-    raw_data.resize(current_pos_for_original_iat);
+    //Data placed in the section after the imports must be kept
+    raw_data.resize(std::max<size_t>(initial_raw_size, current_pos_for_original_iat));
 
     //Adjust section raw and virtual sizes
     pe.recalculate_section_sizes(import_section, import_settings.auto_strip_last_section_enabled());
-- 
2.43.0


From 499b09efbf4de143998384b8d3d0ec59493f670f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 16/62] fix: rebuilt IAT had no function names if original IATs
 are not built but missing ones are asked to be filled

---
 src/pe_lib/pe_imports.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index 8ed40eb..c02ca3f 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -487,7 +487,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
         //If we should save IAT for current import descriptor
         bool save_iats_for_this_descriptor = import_settings.save_iat_and_original_iat_rvas() && (*it).get_rva_to_iat() != 0;
         //If we should write original IAT
-        bool write_original_iat = (!save_iats_for_this_descriptor && import_settings.build_original_iat()) || import_settings.fill_missing_original_iats();
+        bool write_original_iat = import_settings.build_original_iat() && (!save_iats_for_this_descriptor || import_settings.fill_missing_original_iats());
 
         //If we should rewrite saved original IAT for current import descriptor (without changing its position)
         bool rewrite_saved_original_iat = save_iats_for_this_descriptor && import_settings.rewrite_iat_and_original_iat_contents() && import_settings.build_original_iat();
-- 
2.43.0


From baa62e52ec813de9e8ffb178b5a00dce695cb750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 17/62] fix: rebuild_imports changed the image before refusing
 to rewrite a too small IAT

---
 src/pe_lib/pe_imports.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index c02ca3f..d380d3c 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -1,4 +1,5 @@
 #include <string.h>
+#include <algorithm>
 #include "pe_imports.h"
 #include "pe_properties_generic.h"
 
@@ -459,6 +460,23 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
         (import_section.empty() || pe_utils::align_up(import_section.get_size_of_raw_data(), pe.get_file_alignment()) < needed_size + import_settings.get_offset_from_section_start()))
         throw pe_exception("Insufficient space for import directory", pe_exception::insufficient_space);
 
+    //Check if there's enough place inside existing IATs and original IATs before changing anything, if they will be rewritten
+    if(import_settings.save_iat_and_original_iat_rvas() && import_settings.rewrite_iat_and_original_iat_contents())
+    {
+        for(imported_functions_list::const_iterator it = imports.begin(); it != imports.end(); ++it)
+        {
+            const uint32_t iat = (*it).get_rva_to_iat(), original_iat = (*it).get_rva_to_original_iat();
+            const uint32_t thunks_size = static_cast<uint32_t>(sizeof(typename PEClassType::BaseSize) * (1 /*ending null */ + (*it).get_imported_functions().size()));
+
+            if(iat && pe.section_data_length_from_rva(iat, iat, section_data_raw, true) <= thunks_size)
+                throw pe_exception("Insufficient space inside initial IAT", pe_exception::insufficient_space);
+
+            if(iat && original_iat && import_settings.build_original_iat()
+                && pe.section_data_length_from_rva(original_iat, original_iat, section_data_raw, true) <= thunks_size)
+                throw pe_exception("Insufficient space inside initial original IAT", pe_exception::insufficient_space);
+        }
+    }
+
     std::string& raw_data = import_section.get_raw_data();
     const size_t initial_raw_size = raw_data.length();
 
-- 
2.43.0


From c549b6212a70d3d5a8e6d18f9aef70470d637b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 18/62] fix: only the first relocation block was checked for a
 correct size

---
 src/pe_lib/pe_relocations.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_relocations.cpp b/src/pe_lib/pe_relocations.cpp
index 331ea46..5d53a74 100644
--- a/src/pe_lib/pe_relocations.cpp
+++ b/src/pe_lib/pe_relocations.cpp
@@ -119,15 +119,16 @@ const relocation_table_list get_relocations(const pe_base& pe, bool list_absolut
     //First IMAGE_BASE_RELOCATION table
     image_base_relocation reloc_table = pe.section_data_from_rva<image_base_relocation>(current_pos, section_data_virtual, true);
 
-    if(reloc_table.SizeOfBlock % 2)
-        throw pe_exception("Incorrect relocation directory", pe_exception::incorrect_relocation_directory);
-
     uint32_t reloc_size = pe.get_directory_size(image_directory_entry_basereloc);
     uint32_t read_size = 0;
 
     //reloc_table.VirtualAddress is not checked (not so important)
     while(reloc_table.SizeOfBlock && read_size < reloc_size)
     {
+        //Each block must contain at least its header and a whole number of items
+        if(reloc_table.SizeOfBlock < sizeof(image_base_relocation) || reloc_table.SizeOfBlock % 2)
+            throw pe_exception("Incorrect relocation directory", pe_exception::incorrect_relocation_directory);
+
         //Create relocation table
         relocation_table table;
         //Save RVA
-- 
2.43.0


From 7184217f5cf8de45fc5cb75089ddc1a1530df9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 19/62] fix: rebase_image ignored relocation types and could
 leave image half-rebased

---
 src/pe_lib/pe_relocations.cpp | 74 +++++++++++++++++++++++++++++++----
 1 file changed, 66 insertions(+), 8 deletions(-)

diff --git a/src/pe_lib/pe_relocations.cpp b/src/pe_lib/pe_relocations.cpp
index 5d53a74..6cbd973 100644
--- a/src/pe_lib/pe_relocations.cpp
+++ b/src/pe_lib/pe_relocations.cpp
@@ -250,6 +250,14 @@ const image_directory rebuild_relocations(pe_base& pe, const relocation_table_li
     return ret;
 }
 
+//Adds value "delta" to the value of type T situated at RVA "rva"
+template<typename T>
+static void relocate_value(pe_base& pe, uint32_t rva, uint64_t delta)
+{
+    T value = static_cast<T>(pe.section_data_from_rva<T>(rva, section_data_raw, true) + delta);
+    memcpy(pe.section_data_from_rva(rva, true), &value, sizeof(value));
+}
+
 //Recalculates image base with the help of relocation tables
 void rebase_image(pe_base& pe, const relocation_table_list& tables, uint64_t new_base)
 {
@@ -272,7 +280,42 @@ void rebase_image_base(pe_base& pe, const relocation_table_list& tables, uint64_
     pe.get_image_base(image_base);
 
     //ImageBase difference
-    typename PEClassType::BaseSize base_rel = static_cast<typename PEClassType::BaseSize>(static_cast<int64_t>(new_base) - image_base);
+    uint64_t base_rel = static_cast<uint64_t>(static_cast<typename PEClassType::BaseSize>(new_base)) - image_base;
+
+    //First, check that every relocation can be applied, so image will not be left half-rebased
+    for(relocation_table_list::const_iterator it = tables.begin(); it != tables.end(); ++it)
+    {
+        const relocation_table::relocation_list& relocs = (*it).get_relocations();
+
+        for(relocation_table::relocation_list::const_iterator rel = relocs.begin(); rel != relocs.end(); ++rel)
+        {
+            if((*rel).get_type() == pe_win::image_rel_based_absolute)
+                continue;
+
+            if(!pe_utils::is_sum_safe((*it).get_rva(), (*rel).get_rva()))
+                throw pe_exception("Incorrect relocation directory", pe_exception::incorrect_relocation_directory);
+
+            uint32_t current_rva = (*it).get_rva() + (*rel).get_rva();
+            switch((*rel).get_type())
+            {
+            case pe_win::image_rel_based_high:
+            case pe_win::image_rel_based_low:
+                pe.section_data_from_rva<uint16_t>(current_rva, section_data_raw, true);
+                break;
+
+            case pe_win::image_rel_based_highlow:
+                pe.section_data_from_rva<uint32_t>(current_rva, section_data_raw, true);
+                break;
+
+            case pe_win::image_rel_based_dir64:
+                pe.section_data_from_rva<uint64_t>(current_rva, section_data_raw, true);
+                break;
+
+            default:
+                throw pe_exception("Unsupported relocation type", pe_exception::incorrect_relocation_directory);
+            }
+        }
+    }
 
     //We need to fix addresses from relocation tables
     //Enumerate relocation tables
@@ -285,15 +328,30 @@ void rebase_image_base(pe_base& pe, const relocation_table_list& tables, uint64_
         //Enumerate relocations
         for(relocation_table::relocation_list::const_iterator rel = relocs.begin(); rel != relocs.end(); ++rel)
         {
-            //Skip ABSOLUTE entries
-            if((*rel).get_type() == pe_win::image_rel_based_absolute)
-                continue;
-            
             //Recalculate value by RVA and rewrite it
+            //Size of the value depends on relocation type
             uint32_t current_rva = base_rva + (*rel).get_rva();
-            typename PEClassType::BaseSize value = pe.section_data_from_rva<typename PEClassType::BaseSize>(current_rva, section_data_raw, true);
-            value += base_rel;
-            memcpy(pe.section_data_from_rva(current_rva, true), &value, sizeof(value));
+            switch((*rel).get_type())
+            {
+            case pe_win::image_rel_based_high:
+                relocate_value<uint16_t>(pe, current_rva, base_rel >> 16);
+                break;
+
+            case pe_win::image_rel_based_low:
+                relocate_value<uint16_t>(pe, current_rva, base_rel);
+                break;
+
+            case pe_win::image_rel_based_highlow:
+                relocate_value<uint32_t>(pe, current_rva, base_rel);
+                break;
+
+            case pe_win::image_rel_based_dir64:
+                relocate_value<uint64_t>(pe, current_rva, base_rel);
+                break;
+
+            default: //Skip ABSOLUTE entries
+                break;
+            }
         }
     }
 
-- 
2.43.0


From 268e1bb3d00c99ca9b298878f2cfb99fd84fa579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:24 +0000
Subject: [PATCH 20/62] fix: rebuild_tls read and wrote out of bounds and
 changed the image before refusing

---
 src/pe_lib/pe_tls.cpp | 144 ++++++++++++++++++++++++------------------
 1 file changed, 82 insertions(+), 62 deletions(-)

diff --git a/src/pe_lib/pe_tls.cpp b/src/pe_lib/pe_tls.cpp
index e639cb0..8cc040f 100644
--- a/src/pe_lib/pe_tls.cpp
+++ b/src/pe_lib/pe_tls.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <string.h>
 #include "pe_tls.h"
 #include "pe_properties_generic.h"
@@ -218,6 +219,31 @@ const tls_info get_tls_info_base(const pe_base& pe)
     return ret;
 }
 
+//Returns true if RVA belongs to the last section of image (which can be expanded)
+static bool is_in_last_section(const pe_base& pe, uint32_t rva)
+{
+    try
+    {
+        return &pe.section_from_rva(rva) == &*(pe.get_image_sections().end() - 1);
+    }
+    catch(const pe_exception&)
+    {
+        //No section is presented by RVA (it may belong to PE headers)
+        return false;
+    }
+}
+
+//Returns raw data length which will be available from RVA when tls_section is enlarged to tls_section_raw_length bytes
+static uint32_t available_raw_length(const pe_base& pe, uint32_t rva, const section& tls_section, uint32_t tls_section_raw_length)
+{
+    uint32_t length = pe.section_data_length_from_rva(rva, rva, section_data_raw, true);
+    if(rva >= pe.get_full_headers_data().length() && &pe.section_from_rva(rva) == &tls_section
+        && tls_section_raw_length > rva - tls_section.get_virtual_address())
+        length = std::max(length, tls_section_raw_length - (rva - tls_section.get_virtual_address()));
+
+    return length;
+}
+
 //Rebuilder of TLS structures
 //If write_tls_callbacks = true, TLS callbacks VAs will be written to their place
 //If write_tls_data = true, TLS data will be written to its place
@@ -244,12 +270,6 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
     if(info.get_raw_data_end_rva() < info.get_raw_data_start_rva() || info.get_index_rva() == 0)
         throw pe_exception("Incorrect TLS directory", pe_exception::incorrect_tls_directory);
 
-    std::string& raw_data = tls_section.get_raw_data();
-
-    //This will be done only if tls_section is the last section of image or for section with unaligned raw length of data
-    if(raw_data.length() < needed_size + tls_data_pos)
-        raw_data.resize(needed_size + tls_data_pos); //Expand section raw data
-
     //Create and fill TLS structure
     typename PEClassType::TLSStruct tls_struct = {0};
     
@@ -278,69 +298,33 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
 
     tls_struct.Characteristics = info.get_characteristics();
 
-    //Save TLS structure
-    memcpy(&raw_data[tls_data_pos], &tls_struct, sizeof(tls_struct));
-
-    //If we are asked to rewrite TLS raw data
-    if(write_tls_data && info.get_raw_data_start_rva() && info.get_raw_data_start_rva() != info.get_raw_data_end_rva())
-    {
-        try
-        {
-            //Check if we're going to write TLS raw data to an existing section (not to PE headers)
-            section& raw_data_section = pe.section_from_rva(info.get_raw_data_start_rva());
-            pe.expand_section(raw_data_section, info.get_raw_data_start_rva(), info.get_raw_data_end_rva() - info.get_raw_data_start_rva(), expand == tls_data_expand_raw ? pe_base::expand_section_raw : pe_base::expand_section_virtual);
-        }
-        catch(const pe_exception&)
-        {
-            //If no section is presented by StartAddressOfRawData, just go to next step
-        }
-
-        uint32_t write_raw_data_size = info.get_raw_data_end_rva() - info.get_raw_data_start_rva();
-        uint32_t available_raw_length = 0;
+    //Check everything else we are asked to write before image is changed
+    write_tls_data = write_tls_data && info.get_raw_data_start_rva() && info.get_raw_data_start_rva() != info.get_raw_data_end_rva();
+    write_tls_callbacks = write_tls_callbacks && info.get_callbacks_rva();
 
+    uint32_t tls_raw_data_size = info.get_raw_data_end_rva() - info.get_raw_data_start_rva();
+    if(write_tls_data && !is_in_last_section(pe, info.get_raw_data_start_rva())
         //Check if there's enough RAW space to write raw TLS data...
-        if((available_raw_length = pe.section_data_length_from_rva(info.get_raw_data_start_rva(), info.get_raw_data_start_rva(), section_data_raw, true))
-            < info.get_raw_data_end_rva() - info.get_raw_data_start_rva())
-        {
-            //Check if there's enough virtual space for it...
-            if(pe.section_data_length_from_rva(info.get_raw_data_start_rva(), info.get_raw_data_start_rva(), section_data_virtual, true)
-                < info.get_raw_data_end_rva() - info.get_raw_data_start_rva())
-                throw pe_exception("Insufficient space for TLS raw data", pe_exception::insufficient_space);
-            else
-                write_raw_data_size = available_raw_length; //We'll write just a part of full raw data
-        }
+        && available_raw_length(pe, info.get_raw_data_start_rva(), tls_section, needed_size + tls_data_pos) < tls_raw_data_size
+        //Check if there's enough virtual space for it...
+        && pe.section_data_length_from_rva(info.get_raw_data_start_rva(), info.get_raw_data_start_rva(), section_data_virtual, true) < tls_raw_data_size)
+        throw pe_exception("Insufficient space for TLS raw data", pe_exception::insufficient_space);
 
-        //Write raw TLS data, if any
-        if(write_raw_data_size != 0)
-            memcpy(pe.section_data_from_rva(info.get_raw_data_start_rva(), true), info.get_raw_data().data(), write_raw_data_size);
-    }
+    std::vector<typename PEClassType::BaseSize> callbacks_virtual_addresses;
+    uint32_t needed_callback_size = static_cast<uint32_t>((info.get_tls_callbacks().size() + 1 /* last null element */) * sizeof(typename PEClassType::BaseSize));
 
-    //If we are asked to rewrite TLS callbacks addresses
-    if(write_tls_callbacks && info.get_callbacks_rva())
+    if(write_tls_callbacks)
     {
-        uint32_t needed_callback_size = static_cast<uint32_t>((info.get_tls_callbacks().size() + 1 /* last null element */) * sizeof(typename PEClassType::BaseSize));
-
-        try
-        {
-            //Check if we're going to write TLS callbacks VAs to an existing section (not to PE headers)
-            section& raw_data_section = pe.section_from_rva(info.get_callbacks_rva());
-            pe.expand_section(raw_data_section, info.get_callbacks_rva(), needed_callback_size, pe_base::expand_section_raw);
-        }
-        catch(const pe_exception&)
-        {
-            //If no section is presented by RVA of callbacks, just go to next step
-        }
+        uint32_t available_length = available_raw_length(pe, info.get_callbacks_rva(), tls_section, needed_size + tls_data_pos);
+        bool will_be_expanded = is_in_last_section(pe, info.get_callbacks_rva()) && available_length < needed_callback_size;
 
         //Check if there's enough space to write callbacks TLS data...
-        if(pe.section_data_length_from_rva(info.get_callbacks_rva(), info.get_callbacks_rva(), section_data_raw, true)
-            < needed_callback_size - sizeof(typename PEClassType::BaseSize) /* last zero element can be virtual only */)
-            throw pe_exception("Insufficient space for TLS callbacks data", pe_exception::insufficient_space);
-        
-        if(pe.section_data_length_from_rva(info.get_callbacks_rva(), info.get_callbacks_rva(), section_data_virtual, true)
-            < needed_callback_size /* check here full virtual data length available */)
+        if(!will_be_expanded
+            && (available_length < needed_callback_size - sizeof(typename PEClassType::BaseSize) /* last zero element can be virtual only */
+            || pe.section_data_length_from_rva(info.get_callbacks_rva(), info.get_callbacks_rva(), section_data_virtual, true)
+            < needed_callback_size /* check here full virtual data length available */))
             throw pe_exception("Insufficient space for TLS callbacks data", pe_exception::insufficient_space);
 
-        std::vector<typename PEClassType::BaseSize> callbacks_virtual_addresses;
         callbacks_virtual_addresses.reserve(info.get_tls_callbacks().size() + 1 /* last null element */);
 
         //Convert TLS RVAs to VAs
@@ -353,9 +337,45 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
 
         //Ending null element
         callbacks_virtual_addresses.push_back(0);
+    }
+
+    std::string& raw_data = tls_section.get_raw_data();
+
+    //This will be done only if tls_section is the last section of image or for section with unaligned raw length of data
+    if(raw_data.length() < needed_size + tls_data_pos)
+        raw_data.resize(needed_size + tls_data_pos); //Expand section raw data
+
+    //Save TLS structure
+    memcpy(&raw_data[tls_data_pos], &tls_struct, sizeof(tls_struct));
+
+    //If we are asked to rewrite TLS raw data
+    if(write_tls_data)
+    {
+        //Expand the section if it's possible
+        if(is_in_last_section(pe, info.get_raw_data_start_rva()))
+            pe.expand_section(pe.section_from_rva(info.get_raw_data_start_rva()), info.get_raw_data_start_rva(), tls_raw_data_size, expand == tls_data_expand_raw ? pe_base::expand_section_raw : pe_base::expand_section_virtual);
 
-        //Write callbacks TLS data
-        memcpy(pe.section_data_from_rva(info.get_callbacks_rva(), true), &callbacks_virtual_addresses[0], needed_callback_size);
+        //We'll write just a part of full raw data, if there's no more RAW space or no more data
+        uint32_t write_raw_data_size = std::min(tls_raw_data_size, pe.section_data_length_from_rva(info.get_raw_data_start_rva(), info.get_raw_data_start_rva(), section_data_raw, true));
+        if(write_raw_data_size > info.get_raw_data().length())
+            write_raw_data_size = static_cast<uint32_t>(info.get_raw_data().length());
+
+        //Write raw TLS data, if any
+        if(write_raw_data_size != 0)
+            memcpy(pe.section_data_from_rva(info.get_raw_data_start_rva(), true), info.get_raw_data().data(), write_raw_data_size);
+    }
+
+    //If we are asked to rewrite TLS callbacks addresses
+    if(write_tls_callbacks)
+    {
+        //Expand the section if it's possible
+        if(is_in_last_section(pe, info.get_callbacks_rva()))
+            pe.expand_section(pe.section_from_rva(info.get_callbacks_rva()), info.get_callbacks_rva(), needed_callback_size, pe_base::expand_section_raw);
+
+        //Write callbacks TLS data (last null element can be virtual only)
+        uint32_t write_callbacks_size = std::min(needed_callback_size, pe.section_data_length_from_rva(info.get_callbacks_rva(), info.get_callbacks_rva(), section_data_raw, true));
+        if(write_callbacks_size != 0)
+            memcpy(pe.section_data_from_rva(info.get_callbacks_rva(), true), &callbacks_virtual_addresses[0], write_callbacks_size);
     }
     
     //Adjust section raw and virtual sizes
-- 
2.43.0


From fe3ba8a763934f12e8181213b0acf3d7946e32fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 21/62] fix: rebuild_image_config changed the image before
 refusing addresses which do not fit

---
 src/pe_lib/pe_load_config.cpp | 39 ++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/pe_lib/pe_load_config.cpp b/src/pe_lib/pe_load_config.cpp
index 10a79bc..c332ecf 100644
--- a/src/pe_lib/pe_load_config.cpp
+++ b/src/pe_lib/pe_load_config.cpp
@@ -417,12 +417,6 @@ const image_directory rebuild_image_config_base(pe_base& pe, const image_config_
         (image_config_section.empty() || pe_utils::align_up(image_config_section.get_size_of_raw_data(), pe.get_file_alignment()) < needed_size + image_config_data_pos))
         throw pe_exception("Insufficient space for TLS directory", pe_exception::insufficient_space);
 
-    std::string& raw_data = image_config_section.get_raw_data();
-
-    //This will be done only if image_config_section is the last section of image or for section with unaligned raw length of data
-    if(raw_data.length() < needed_size + image_config_data_pos)
-        raw_data.resize(needed_size + image_config_data_pos); //Expand section raw data
-
     //Create and fill Image Config structure
     typename PEClassType::ConfigStruct image_config_section_struct = {0};
     image_config_section_struct.Size = sizeof(image_config_section_struct);
@@ -463,6 +457,8 @@ const image_directory rebuild_image_config_base(pe_base& pe, const image_config_
         image_config_section_struct.SEHandlerTable = static_cast<typename PEClassType::BaseSize>(info.get_se_handler_table_va());
     }
 
+    std::vector<typename PEClassType::BaseSize> lock_prefix_vas;
+
     if(write_lock_prefixes)
     {
         if(info.get_lock_prefix_rvas().empty())
@@ -475,6 +471,17 @@ const image_directory rebuild_image_config_base(pe_base& pe, const image_config_
             typename PEClassType::BaseSize va;
             pe.rva_to_va(pe.rva_from_section_offset(image_config_section, current_pos_of_lock_prefixes), va);
             image_config_section_struct.LockPrefixTable = va;
+
+            //Convert Lock Prefixes RVAs to VAs
+            for(image_config_info::lock_prefix_rva_list::const_iterator it = info.get_lock_prefix_rvas().begin(); it != info.get_lock_prefix_rvas().end(); ++it)
+            {
+                typename PEClassType::BaseSize lock_prefix_va;
+                pe.rva_to_va(*it, lock_prefix_va);
+                lock_prefix_vas.push_back(lock_prefix_va);
+            }
+
+            //Ending null VA
+            lock_prefix_vas.push_back(0);
         }
     }
     else
@@ -482,6 +489,12 @@ const image_directory rebuild_image_config_base(pe_base& pe, const image_config_
         image_config_section_struct.LockPrefixTable = static_cast<typename PEClassType::BaseSize>(info.get_lock_prefix_table_va());
     }
 
+    std::string& raw_data = image_config_section.get_raw_data();
+
+    //This will be done only if image_config_section is the last section of image or for section with unaligned raw length of data
+    if(raw_data.length() < needed_size + image_config_data_pos)
+        raw_data.resize(needed_size + image_config_data_pos); //Expand section raw data
+
     //Write image config section
     memcpy(&raw_data[image_config_data_pos], &image_config_section_struct, sizeof(image_config_section_struct));
 
@@ -503,19 +516,7 @@ const image_directory rebuild_image_config_base(pe_base& pe, const image_config_
     if(write_lock_prefixes)
     {
         //Write Lock Prefixes VA list
-        for(image_config_info::lock_prefix_rva_list::const_iterator it = info.get_lock_prefix_rvas().begin(); it != info.get_lock_prefix_rvas().end(); ++it)
-        {
-            typename PEClassType::BaseSize lock_prefix_va;
-            pe.rva_to_va(*it, lock_prefix_va);
-            memcpy(&raw_data[current_pos_of_lock_prefixes], &lock_prefix_va, sizeof(lock_prefix_va));
-            current_pos_of_lock_prefixes += sizeof(lock_prefix_va);
-        }
-
-        {
-            //Ending null VA
-            typename PEClassType::BaseSize lock_prefix_va = 0;
-            memcpy(&raw_data[current_pos_of_lock_prefixes], &lock_prefix_va, sizeof(lock_prefix_va));
-        }
+        memcpy(&raw_data[current_pos_of_lock_prefixes], &lock_prefix_vas[0], lock_prefix_vas.size() * sizeof(lock_prefix_vas[0]));
     }
 
     //Adjust section raw and virtual sizes
-- 
2.43.0


From 64b87379be506598a26cb2ff6f016685fec81cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 22/62] fix: rebuild_bound_imports truncated name offsets which
 do not fit 16 bits

---
 src/pe_lib/pe_bound_import.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pe_lib/pe_bound_import.cpp b/src/pe_lib/pe_bound_import.cpp
index 985ebf4..0586c96 100644
--- a/src/pe_lib/pe_bound_import.cpp
+++ b/src/pe_lib/pe_bound_import.cpp
@@ -209,22 +209,29 @@ const image_directory rebuild_bound_imports(pe_base& pe, const bound_import_modu
     uint32_t directory_pos = pe_utils::align_up(offset_from_section_start, sizeof(uint32_t));
     uint32_t needed_size = sizeof(image_bound_import_descriptor) /* Ending null descriptor */;
     uint32_t needed_size_for_strings = 0;
+    uint32_t last_string_offset = 0;
 
     //Calculate needed size for bound import data
     for(bound_import_module_list::const_iterator it = imports.begin(); it != imports.end(); ++it)
     {
         const bound_import& import = *it;
         needed_size += sizeof(image_bound_import_descriptor);
+        last_string_offset = needed_size_for_strings;
         needed_size_for_strings += static_cast<uint32_t>((*it).get_module_name().length()) + 1 /* nullbyte */;
 
         const bound_import::ref_list& refs = import.get_module_ref_list();
         for(bound_import::ref_list::const_iterator ref_it = refs.begin(); ref_it != refs.end(); ++ref_it)
         {
+            last_string_offset = needed_size_for_strings;
             needed_size_for_strings += static_cast<uint32_t>((*ref_it).get_module_name().length()) + 1 /* nullbyte */;
             needed_size += sizeof(image_bound_forwarder_ref);
         }
     }
     
+    //Offsets of module names are stored as WORDs
+    if(needed_size + last_string_offset > static_cast<uint16_t>(-1))
+        throw pe_exception("Insufficient space for bound import directory", pe_exception::insufficient_space);
+
     needed_size += needed_size_for_strings;
     
     //Check if imports_section is last one. If it's not, check if there's enough place for bound import data
-- 
2.43.0


From 9918dd854f1a8085277d98f60675e022e772e8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 23/62] fix: rebuild_bound_imports did not write the ending
 null descriptor

---
 src/pe_lib/pe_bound_import.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pe_lib/pe_bound_import.cpp b/src/pe_lib/pe_bound_import.cpp
index 0586c96..1791760 100644
--- a/src/pe_lib/pe_bound_import.cpp
+++ b/src/pe_lib/pe_bound_import.cpp
@@ -280,6 +280,9 @@ const image_directory rebuild_bound_imports(pe_base& pe, const bound_import_modu
         }
     }
 
+    //Ending null descriptor
+    memset(&raw_data[current_pos_for_structures], 0, sizeof(image_bound_import_descriptor));
+
     //Adjust section raw and virtual sizes
     pe.recalculate_section_sizes(imports_section, auto_strip_last_section);
     
-- 
2.43.0


From c76f459d00e61370da68036bc0a395cfc7b9a1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:32 +0000
Subject: [PATCH 24/62] fix: check the length of resource names in bytes, not
 in characters

---
 src/pe_lib/pe_resources.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index c4dfec8..ff2895f 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -367,7 +367,7 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
 
             //Check name length
             if(pe.section_data_length_from_rva(res_rva + nameEntry.NameOffset + sizeof(uint16_t), res_rva + nameEntry.NameOffset + sizeof(uint16_t), section_data_virtual, true)
-                < directory_name_length)
+                < static_cast<uint32_t>(directory_name_length) * sizeof(uint16_t) /* unicode */)
                 throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
 
 #ifdef PE_BLISS_WINDOWS
-- 
2.43.0


From 0571a1d2cf880afb20fd59a1752729c325051835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:32 +0000
Subject: [PATCH 25/62] fix: read resource identifiers as 32-bit values

---
 src/pe_lib/pe_resources.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index ff2895f..d8251bd 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -385,7 +385,7 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
         else
         {
             //Else - set directory ID
-            entry.set_id(dir_entry.NameItem.Id);
+            entry.set_id(dir_entry.NameItem.Name);
         }
 
         //If directory entry has another resource directory
-- 
2.43.0


From 10a61c08333d9faf9944a6a460e45e7ae5d4189d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:42 +0000
Subject: [PATCH 26/62] fix: limit the nesting level of resource directories on
 reading

---
 src/pe_lib/pe_resources.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index d8251bd..a70fe30 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -320,11 +320,19 @@ void resource_directory::get_minor_version(uint16_t minor_version)
     minor_version_ = minor_version;
 }
 
+//Maximum nesting level of resource directories (usually there are three levels)
+//Resource directories are processed recursively, so the level must be limited
+static const uint32_t max_resource_directory_level = 32;
+
 //Processes resource directory
-const resource_directory process_resource_directory(const pe_base& pe, uint32_t res_rva, uint32_t offset_to_directory, std::set<uint32_t>& processed)
+const resource_directory process_resource_directory(const pe_base& pe, uint32_t res_rva, uint32_t offset_to_directory, std::set<uint32_t>& processed, uint32_t level)
 {
     resource_directory ret;
     
+    //Check nesting level
+    if(level > max_resource_directory_level)
+        throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
+
     //Check for resource loops
     if(!processed.insert(offset_to_directory).second)
         throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
@@ -392,7 +400,7 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
         const auto& dirEntry = dir_entry.DirItem.DirEntry;
         if(dirEntry.DataIsDirectory)
         {
-            entry.add_resource_directory(process_resource_directory(pe, res_rva, dirEntry.OffsetToDirectory, processed));
+            entry.add_resource_directory(process_resource_directory(pe, res_rva, dirEntry.OffsetToDirectory, processed, level + 1));
         }
         else
         {
@@ -643,7 +651,7 @@ const resource_directory get_resources(const pe_base& pe)
     std::set<uint32_t> processed;
     
     //Process all directories (recursion)
-    ret = process_resource_directory(pe, res_rva, 0, processed);
+    ret = process_resource_directory(pe, res_rva, 0, processed, 1);
 
     return ret;
 }
-- 
2.43.0


From be4b9c2e2a78c36195f5e515ea77530952819526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 27/62] fix: sort resource entries before calculating the size
 of the directory

---
 src/pe_lib/pe_resources.cpp | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index a70fe30..c2dc254 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -426,6 +426,26 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
     return ret;
 }
 
+//Helper: sorts resource directory entries
+struct entry_sorter
+{
+public:
+    bool operator()(const resource_directory_entry& entry1, const resource_directory_entry& entry2) const;
+};
+
+//Helper function to sort resource directory and all of its subdirectories
+static void sort_resource_directory(resource_directory& root)
+{
+    resource_directory::entry_list& entries = root.get_entry_list();
+    std::sort(entries.begin(), entries.end(), entry_sorter());
+
+    for(resource_directory::entry_list::iterator it = entries.begin(); it != entries.end(); ++it)
+    {
+        if(!(*it).includes_data())
+            sort_resource_directory((*it).get_resource_directory());
+    }
+}
+
 //Helper function to calculate needed space for resource data
 void calculate_resource_data_space(const resource_directory& root, uint32_t aligned_offset_from_section_start, uint32_t& needed_size_for_structures, uint32_t& needed_size_for_strings)
 {
@@ -462,13 +482,6 @@ void calculate_resource_data_space(const resource_directory& root, uint32_t need
     }
 }
 
-//Helper: sorts resource directory entries
-struct entry_sorter
-{
-public:
-    bool operator()(const resource_directory_entry& entry1, const resource_directory_entry& entry2) const;
-};
-
 //Helper function to rebuild resource directory
 void rebuild_resource_directory(pe_base& pe, section& resource_section, resource_directory& root, uint32_t& current_structures_pos, uint32_t& current_data_pos, uint32_t& current_strings_pos, uint32_t offset_from_section_start)
 {
@@ -479,11 +492,6 @@ void rebuild_resource_directory(pe_base& pe, section& resource_section, resource
     dir.MinorVersion = root.get_minor_version();
     dir.TimeDateStamp = root.get_timestamp();
     
-    {
-        resource_directory::entry_list& entries = root.get_entry_list();
-        std::sort(entries.begin(), entries.end(), entry_sorter());
-    }
-
     //Calculate number of named and ID entries
     for(resource_directory::entry_list::const_iterator it = root.get_entry_list().begin(); it != root.get_entry_list().end(); ++it)
     {
@@ -590,6 +598,9 @@ const image_directory rebuild_resources(pe_base& pe, resource_directory& info, s
     if(info.get_entry_list().empty())
         throw pe_exception("Empty resource directory", pe_exception::incorrect_resource_directory);
     
+    //Sort entries before calculating sizes (space for data alignment depends on the order)
+    sort_resource_directory(info);
+
     uint32_t aligned_offset_from_section_start = pe_utils::align_up(offset_from_section_start, sizeof(uint32_t));
     uint32_t needed_size_for_structures = aligned_offset_from_section_start - offset_from_section_start; //Calculate needed size for resource tables and data
     uint32_t needed_size_for_strings = 0;
-- 
2.43.0


From 98eabfc8c8a1ad729ff306d0d68069031b874f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:36 +0000
Subject: [PATCH 28/62] fix: read empty resource data placed at the end of a
 section

---
 src/pe_lib/pe_resources.cpp | 40 ++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index c2dc254..04ae286 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -408,13 +408,13 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
             image_resource_data_entry data_entry = pe.section_data_from_rva<image_resource_data_entry>(
                 res_rva + dir_entry.DirItem.OffsetToData, section_data_virtual, true);
 
-            //Check byte count that stated by data entry
-            if(pe.section_data_length_from_rva(data_entry.OffsetToData, data_entry.OffsetToData, section_data_virtual, true) < data_entry.Size)
+            //Check byte count that stated by data entry (empty data may be placed at the end of section)
+            if(data_entry.Size && pe.section_data_length_from_rva(data_entry.OffsetToData, data_entry.OffsetToData, section_data_virtual, true) < data_entry.Size)
                 throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
 
             //Add data entry to directory entry
             entry.add_data_entry(resource_data_entry(
-                std::string(pe.section_data_from_rva(data_entry.OffsetToData, section_data_virtual, true), data_entry.Size),
+                data_entry.Size ? std::string(pe.section_data_from_rva(data_entry.OffsetToData, section_data_virtual, true), data_entry.Size) : std::string(),
                 data_entry.CodePage));
         }
 
@@ -433,6 +433,38 @@ public:
     bool operator()(const resource_directory_entry& entry1, const resource_directory_entry& entry2) const;
 };
 
+//Helper function to check that resource directory and all of its subdirectories can be saved
+static void check_resource_directory(const resource_directory& root, uint32_t level)
+{
+    const resource_directory::entry_list& entries = root.get_entry_list();
+    if(level > max_resource_directory_level || entries.size() > static_cast<uint16_t>(-1))
+        throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
+
+    for(resource_directory::entry_list::const_iterator it = entries.begin(); it != entries.end(); ++it)
+    {
+        if((*it).is_named())
+        {
+            //Name length is stored in a WORD
+            if((*it).get_name().length() > static_cast<uint16_t>(-1))
+                throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
+
+#ifndef PE_BLISS_WINDOWS
+            pe_utils::to_ucs2((*it).get_name()); //Throws an exception if name can't be converted
+#endif
+        }
+        else if((*it).get_id() & 0x80000000) //High bit is set for named entries only
+        {
+            throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
+        }
+
+        //These functions throw exceptions if entry is empty
+        if((*it).includes_data())
+            (*it).get_data_entry();
+        else
+            check_resource_directory((*it).get_resource_directory(), level + 1);
+    }
+}
+
 //Helper function to sort resource directory and all of its subdirectories
 static void sort_resource_directory(resource_directory& root)
 {
@@ -598,6 +630,8 @@ const image_directory rebuild_resources(pe_base& pe, resource_directory& info, s
     if(info.get_entry_list().empty())
         throw pe_exception("Empty resource directory", pe_exception::incorrect_resource_directory);
     
+    check_resource_directory(info, 1);
+
     //Sort entries before calculating sizes (space for data alignment depends on the order)
     sort_resource_directory(info);
 
-- 
2.43.0


From 0f6d968faf504070f064d79c1aaf9b5fcfa1755c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:24 +0000
Subject: [PATCH 29/62] fix: copy resource data before editing the resource
 tree it may come from

---
 src/pe_lib/pe_resource_manager.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/pe_resource_manager.cpp b/src/pe_lib/pe_resource_manager.cpp
index ca0a335..58e9d2e 100644
--- a/src/pe_lib/pe_resource_manager.cpp
+++ b/src/pe_lib/pe_resource_manager.cpp
@@ -187,6 +187,12 @@ void pe_resource_manager::add_resource(const std::string& data, const std::wstri
 //Helper to add/replace resource
 void pe_resource_manager::add_resource(const std::string& data, resource_directory_entry& new_root_entry, const resource_directory::entry_finder& root_finder, resource_directory_entry& new_entry, const resource_directory::entry_finder& finder, uint32_t language, uint32_t codepage, uint32_t timestamp)
 {
+    //Create new data entry first: data may refer to a data entry of this resource directory
+    resource_directory_entry new_dir_data_entry;
+    resource_data_entry data_dir(data, codepage);
+    new_dir_data_entry.add_data_entry(data_dir);
+    new_dir_data_entry.set_id(language);
+
     //Search for resource type
     resource_directory::entry_list* entries = &root_dir_edit_.get_entry_list();
     resource_directory::entry_list::iterator it = std::find_if(entries->begin(), entries->end(), root_finder);
@@ -220,10 +226,6 @@ void pe_resource_manager::add_resource(const std::string& data, resource_directo
         entries->erase(it); //Erase it, if found
 
     //Add new data entry
-    resource_directory_entry new_dir_data_entry;
-    resource_data_entry data_dir(data, codepage);
-    new_dir_data_entry.add_data_entry(data_dir);
-    new_dir_data_entry.set_id(language);
     entries->push_back(new_dir_data_entry);
 }
 
-- 
2.43.0


From e86037113cb23e6d219984ab8c2ba46ea80b2c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:46 +0000
Subject: [PATCH 30/62] fix: keep cursor heights of 128 and more when reading
 cursors

---
 src/pe_lib/resource_cursor_icon_reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/resource_cursor_icon_reader.cpp b/src/pe_lib/resource_cursor_icon_reader.cpp
index c519124..7f73ef7 100644
--- a/src/pe_lib/resource_cursor_icon_reader.cpp
+++ b/src/pe_lib/resource_cursor_icon_reader.cpp
@@ -298,7 +298,7 @@ uint16_t resource_cursor_icon_reader::format_cursor_headers(std::string& cur_dat
         cursordirentry direntry;
         direntry.ColorCount = 0; //OK
         direntry.Width = static_cast<uint8_t>(group->Width);
-        direntry.Height = static_cast<uint8_t>(group->Height)  / 2;
+        direntry.Height = static_cast<uint8_t>(group->Height / 2);
         direntry.Reserved = 0;
 
         //Now read hotspot data from cursor data directory
@@ -441,7 +441,7 @@ bool resource_cursor_icon_reader::check_cursor_presence(const std::string& curso
             cursordirentry direntry;
             direntry.ColorCount = 0; //OK
             direntry.Width = static_cast<uint8_t>(group->Width);
-            direntry.Height = static_cast<uint8_t>(group->Height)  / 2;
+            direntry.Height = static_cast<uint8_t>(group->Height / 2);
             direntry.Reserved = 0;
 
             if(raw_cursor_data.length() < 2 * sizeof(uint16_t))
-- 
2.43.0


From 42e8a23714677428648103d9dcc70e04dc137f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:46 +0000
Subject: [PATCH 31/62] fix: check the size of the whole cursor group on
 looking up a cursor

---
 src/pe_lib/resource_cursor_icon_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_cursor_icon_reader.cpp b/src/pe_lib/resource_cursor_icon_reader.cpp
index 7f73ef7..128b789 100644
--- a/src/pe_lib/resource_cursor_icon_reader.cpp
+++ b/src/pe_lib/resource_cursor_icon_reader.cpp
@@ -420,7 +420,7 @@ bool resource_cursor_icon_reader::check_cursor_presence(const std::string& curso
     const cursor_header* info = reinterpret_cast<const cursor_header*>(cursor_group_resource_data.data());
 
     //Check resource data length
-    if(cursor_group_resource_data.length() < sizeof(cursor_header) + sizeof(cursor_group))
+    if(cursor_group_resource_data.length() < sizeof(cursor_header) + sizeof(cursor_group) * info->Count)
         throw pe_exception("Incorrect resource cursor", pe_exception::resource_incorrect_cursor);
 
     //Iterate over all cursors listed in cursor group
-- 
2.43.0


From 3e23e1748c227e67e8d4886492a3db060821f37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:04 +0000
Subject: [PATCH 32/62] fix: read pictures of an icon or cursor group in the
 language of the group

---
 src/pe_lib/resource_cursor_icon_reader.cpp | 42 +++++++++++++++++-----
 src/pe_lib/resource_cursor_icon_reader.h   | 10 ++++--
 2 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/pe_lib/resource_cursor_icon_reader.cpp b/src/pe_lib/resource_cursor_icon_reader.cpp
index 128b789..28db6ff 100644
--- a/src/pe_lib/resource_cursor_icon_reader.cpp
+++ b/src/pe_lib/resource_cursor_icon_reader.cpp
@@ -11,6 +11,28 @@ resource_cursor_icon_reader::resource_cursor_icon_reader(const pe_resource_viewe
     :res_(res)
 {}
 
+//Returns language by index in language directory or 0xFFFFFFFF
+uint32_t resource_cursor_icon_reader::get_language_by_index(const pe_resource_viewer::resource_language_list& languages, uint32_t index)
+{
+    return index < languages.size() ? languages[index] : 0xFFFFFFFF;
+}
+
+//Returns data of a single picture of a group
+//If index of the group in its language directory is given, picture is taken in language of the group
+//or, if there is no such picture, by the same index
+const std::string resource_cursor_icon_reader::get_group_member_data(pe_resource_viewer::resource_type type, uint32_t id, uint32_t language, uint32_t index) const
+{
+    if(index != 0xFFFFFFFF)
+    {
+        //Language directories of group and picture may differ
+        const pe_resource_viewer::resource_language_list languages(res_.list_resource_languages(type, id));
+        if(std::find(languages.begin(), languages.end(), language) == languages.end())
+            return res_.get_resource_data_by_id(type, id, index).get_data();
+    }
+
+    return res_.get_resource_data_by_id(language, type, id).get_data();
+}
+
 //Helper function of creating icon headers from ICON_GROUP resource data
 //Returns icon count
 uint16_t resource_cursor_icon_reader::format_icon_headers(std::string& ico_data, const std::string& resource_data)
@@ -88,6 +110,7 @@ const std::string resource_cursor_icon_reader::get_icon_by_name(const std::wstri
 
     //Get resource by name and index
     const std::string data = res_.get_resource_data_by_name(pe_resource_viewer::resource_icon_group, name, index).get_data();
+    const uint32_t language = get_language_by_index(res_.list_resource_languages(pe_resource_viewer::resource_icon_group, name), index);
 
     //Create icon headers
     uint16_t icon_count = format_icon_headers(ret, data);
@@ -96,7 +119,7 @@ const std::string resource_cursor_icon_reader::get_icon_by_name(const std::wstri
     for(uint16_t i = 0; i != icon_count; ++i)
     {
         const icon_group* group = reinterpret_cast<const icon_group*>(data.data() + sizeof(ico_header) + i * sizeof(icon_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_icon, group->Number, index).get_data();
+        ret += get_group_member_data(pe_resource_viewer::resource_icon, group->Number, language, index);
     }
 
     return ret;
@@ -151,6 +174,7 @@ const std::string resource_cursor_icon_reader::get_icon_by_id(uint32_t id, uint3
 
     //Get resource by id and index
     const std::string data = res_.get_resource_data_by_id(pe_resource_viewer::resource_icon_group, id, index).get_data();
+    const uint32_t language = get_language_by_index(res_.list_resource_languages(pe_resource_viewer::resource_icon_group, id), index);
 
     //Create icon headers
     uint16_t icon_count = format_icon_headers(ret, data);
@@ -159,7 +183,7 @@ const std::string resource_cursor_icon_reader::get_icon_by_id(uint32_t id, uint3
     for(uint16_t i = 0; i != icon_count; ++i)
     {
         const icon_group* group = reinterpret_cast<const icon_group*>(data.data() + sizeof(ico_header) + i * sizeof(icon_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_icon, group->Number, index).get_data();
+        ret += get_group_member_data(pe_resource_viewer::resource_icon, group->Number, language, index);
     }
 
     return ret;
@@ -302,9 +326,7 @@ uint16_t resource_cursor_icon_reader::format_cursor_headers(std::string& cur_dat
         direntry.Reserved = 0;
 
         //Now read hotspot data from cursor data directory
-        const std::string cursor = index == 0xFFFFFFFF
-            ? res_.get_resource_data_by_id(language, pe_resource_viewer::resource_cursor, group->Number).get_data()
-            : res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor, group->Number, index).get_data();
+        const std::string cursor = get_group_member_data(pe_resource_viewer::resource_cursor, group->Number, language, index);
         if(cursor.length() < 2 * sizeof(uint16_t))
             throw pe_exception("Incorrect resource cursor", pe_exception::resource_incorrect_cursor);
 
@@ -354,15 +376,16 @@ const std::string resource_cursor_icon_reader::get_cursor_by_name(const std::wst
 
     //Get resource by name and index
     const std::string resource_data = res_.get_resource_data_by_name(pe_resource_viewer::resource_cursor_group, name, index).get_data();
+    const uint32_t language = get_language_by_index(res_.list_resource_languages(pe_resource_viewer::resource_cursor_group, name), index);
 
     //Create cursor headers
-    uint16_t cursor_count = format_cursor_headers(ret, resource_data, 0, index);
+    uint16_t cursor_count = format_cursor_headers(ret, resource_data, language, index);
 
     //Add cursor data
     for(uint16_t i = 0; i != cursor_count; ++i)
     {
         const cursor_group* group = reinterpret_cast<const cursor_group*>(resource_data.data() + sizeof(cursor_header) + i * sizeof(cursor_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor, group->Number, index).get_data().substr(2 * sizeof(uint16_t));
+        ret += get_group_member_data(pe_resource_viewer::resource_cursor, group->Number, language, index).substr(2 * sizeof(uint16_t));
     }
 
     return ret;
@@ -396,15 +419,16 @@ const std::string resource_cursor_icon_reader::get_cursor_by_id(uint32_t id, uin
 
     //Get resource by ID and index
     const std::string resource_data = res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor_group, id, index).get_data();
+    const uint32_t language = get_language_by_index(res_.list_resource_languages(pe_resource_viewer::resource_cursor_group, id), index);
 
     //Create cursor headers
-    uint16_t cursor_count = format_cursor_headers(ret, resource_data, 0, index);
+    uint16_t cursor_count = format_cursor_headers(ret, resource_data, language, index);
 
     //Add cursor data
     for(uint16_t i = 0; i != cursor_count; ++i)
     {
         const cursor_group* group = reinterpret_cast<const cursor_group*>(resource_data.data() + sizeof(cursor_header) + i * sizeof(cursor_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor, group->Number, index).get_data().substr(2 * sizeof(uint16_t));
+        ret += get_group_member_data(pe_resource_viewer::resource_cursor, group->Number, language, index).substr(2 * sizeof(uint16_t));
     }
 
     return ret;
diff --git a/src/pe_lib/resource_cursor_icon_reader.h b/src/pe_lib/resource_cursor_icon_reader.h
index 7bd5ce4..efbc4d8 100644
--- a/src/pe_lib/resource_cursor_icon_reader.h
+++ b/src/pe_lib/resource_cursor_icon_reader.h
@@ -1,11 +1,10 @@
 #pragma once
 #include <string>
 #include "stdint_defs.h"
+#include "pe_resource_viewer.h"
 
 namespace pe_bliss
 {
-class pe_resource_viewer;
-
 class resource_cursor_icon_reader
 {
 public:
@@ -42,6 +41,13 @@ public:
 private:
     const pe_resource_viewer& res_;
 
+    //Returns data of a single picture of a group
+    //If index of the group in its language directory is given, picture is taken in language of the group
+    //or, if there is no such picture, by the same index
+    const std::string get_group_member_data(pe_resource_viewer::resource_type type, uint32_t id, uint32_t language, uint32_t index = 0xFFFFFFFF) const;
+    //Returns language by index in language directory or 0xFFFFFFFF
+    static uint32_t get_language_by_index(const pe_resource_viewer::resource_language_list& languages, uint32_t index);
+
     //Helper function of creating icon headers from ICON_GROUP resource data
     //Returns icon count
     static uint16_t format_icon_headers(std::string& ico_data, const std::string& resource_data);
-- 
2.43.0


From 303a3a2e87add106dc0667fa984cde1205baa9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:27 +0000
Subject: [PATCH 33/62] fix: never give icon or cursor numbers which are
 already used

---
 src/pe_lib/resource_cursor_icon_writer.cpp | 74 ++++++++++------------
 1 file changed, 32 insertions(+), 42 deletions(-)

diff --git a/src/pe_lib/resource_cursor_icon_writer.cpp b/src/pe_lib/resource_cursor_icon_writer.cpp
index faae7bd..14049e7 100755
--- a/src/pe_lib/resource_cursor_icon_writer.cpp
+++ b/src/pe_lib/resource_cursor_icon_writer.cpp
@@ -108,61 +108,51 @@ const std::vector<uint16_t> resource_cursor_icon_writer::get_icon_or_cursor_free
     //Search for available icon/cursor IDs
     std::vector<uint16_t> icon_cursor_id_list;
 
+    //IDs are listed in groups as 16-bit numbers
+    const uint32_t max_possible_id = 0xFFFF;
+    std::vector<bool> used_ids(max_possible_id + 1);
+    uint32_t max_id = 0;
+
     try
     {
         //If any icon exists
         //List icon IDs
-        std::vector<uint32_t> id_list(res_.list_resource_ids(type));
-        std::sort(id_list.begin(), id_list.end());
-
-        //If we are placing icon on free spaces
-        //I.e., icon IDs 1, 3, 4, 7, 8 already exist
-        //We'll place five icons on IDs 2, 5, 6, 9, 10
-        if(mode != icon_place_after_max_icon_id)
+        const std::vector<uint32_t> id_list(res_.list_resource_ids(type));
+        for(std::vector<uint32_t>::const_iterator it = id_list.begin(); it != id_list.end(); ++it)
         {
-            if(!id_list.empty())
+            if(*it <= max_possible_id)
             {
-                //Determine and list free icon IDs
-                for(std::vector<uint32_t>::const_iterator it = id_list.begin(); it != id_list.end(); ++it)
-                {
-                    if(it == id_list.begin())
-                    {
-                        if(*it > 1)
-                        {
-                            for(uint16_t i = 1; i != *it; ++i)
-                            {
-                                icon_cursor_id_list.push_back(i);
-                                if(icon_cursor_id_list.size() == count)
-                                    break;
-                            }
-                        }
-                    }
-                    else if(*(it - 1) - *it > 1)
-                    {
-                        for(uint16_t i = static_cast<uint16_t>(*(it - 1) + 1); i != static_cast<uint16_t>(*it); ++i)
-                        {
-                            icon_cursor_id_list.push_back(i);
-                            if(icon_cursor_id_list.size() == count)
-                                break;
-                        }
-                    }
-
-                    if(icon_cursor_id_list.size() == count)
-                        break;
-                }
+                used_ids[*it] = true;
+                max_id = std::max<uint32_t>(max_id, *it);
             }
         }
-
-        uint32_t max_id = id_list.empty() ? 0 : *std::max_element(id_list.begin(), id_list.end());
-        for(uint32_t i = static_cast<uint32_t>(icon_cursor_id_list.size()); i != count; ++i)
-            icon_cursor_id_list.push_back(static_cast<uint16_t>(++max_id));
     }
     catch(const pe_exception&) //Entry not found
     {
-        for(uint16_t i = 1; i != count + 1; ++i)
-            icon_cursor_id_list.push_back(i);
     }
 
+    //If we are placing icon on free spaces
+    //I.e., icon IDs 1, 3, 4, 7, 8 already exist
+    //We'll place five icons on IDs 2, 5, 6, 9, 10
+    //Otherwise, free spaces are used only if there are no more IDs after the maximum one
+    if(mode == icon_place_after_max_icon_id)
+    {
+        for(uint32_t i = max_id + 1; i <= max_possible_id && icon_cursor_id_list.size() != count; ++i)
+        {
+            icon_cursor_id_list.push_back(static_cast<uint16_t>(i));
+            used_ids[i] = true;
+        }
+    }
+
+    for(uint32_t i = 1; i <= max_possible_id && icon_cursor_id_list.size() != count; ++i)
+    {
+        if(!used_ids[i])
+            icon_cursor_id_list.push_back(static_cast<uint16_t>(i));
+    }
+
+    if(icon_cursor_id_list.size() != count)
+        throw pe_exception("Not enough free icon or cursor IDs", pe_exception::insufficient_space);
+
     return icon_cursor_id_list;
 }
 
-- 
2.43.0


From 1298bd65e0116ad12c070af5a13f62fd44ab07a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:00 +0000
Subject: [PATCH 34/62] fix: version info reader never ended on blocks with
 length over 0xFFFC

---
 src/pe_lib/resource_version_info_reader.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/resource_version_info_reader.cpp b/src/pe_lib/resource_version_info_reader.cpp
index 404914e..2c8c957 100644
--- a/src/pe_lib/resource_version_info_reader.cpp
+++ b/src/pe_lib/resource_version_info_reader.cpp
@@ -182,7 +182,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
 #endif
 
                     //Navigate to next string block
-                    string_pos += pe_utils::align_up(string_block->Length, sizeof(uint32_t));
+                    string_pos += pe_utils::align_up(static_cast<uint32_t>(string_block->Length), sizeof(uint32_t));
                 }
 
 #ifdef PE_BLISS_WINDOWS
@@ -192,7 +192,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
 #endif
 
                 //Navigate to next string table block
-                string_table_pos += pe_utils::align_up(string_table->Length, sizeof(uint32_t));
+                string_table_pos += pe_utils::align_up(static_cast<uint32_t>(string_table->Length), sizeof(uint32_t));
             }
         }
         else if(info_type == VarFileInfo) //If we encountered VarFileInfo
@@ -236,7 +236,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                 }
 
                 //Navigate to next var block
-                var_table_pos += pe_utils::align_up(var_table->Length, sizeof(uint32_t));
+                var_table_pos += pe_utils::align_up(static_cast<uint32_t>(var_table->Length), sizeof(uint32_t));
             }
         }
         else
@@ -245,7 +245,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
         }
 
         //Navigate to next element in root block
-        child_pos += pe_utils::align_up(block->Length, sizeof(uint32_t));
+        child_pos += pe_utils::align_up(static_cast<uint32_t>(block->Length), sizeof(uint32_t));
     }
 
     return ret;
-- 
2.43.0


From ae64c844f61bd387887202ec048c0c62aa45af29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:00 +0000
Subject: [PATCH 35/62] fix: check the length of version info strings in bytes,
 not in characters

---
 src/pe_lib/resource_version_info_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_version_info_reader.cpp b/src/pe_lib/resource_version_info_reader.cpp
index 2c8c957..7c2e425 100644
--- a/src/pe_lib/resource_version_info_reader.cpp
+++ b/src/pe_lib/resource_version_info_reader.cpp
@@ -165,7 +165,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                         //Get value position
                         uint32_t value_pos = get_version_block_value_pos(string_pos, reinterpret_cast<const unicode16_t*>(string_block->Key));
                         //Check it
-                        if(resource_data.length() < value_pos + string_block->ValueLength)
+                        if(resource_data.length() < value_pos + string_block->ValueLength * sizeof(unicode16_t))
                             throw pe_exception("Incorrect resource version info", pe_exception::resource_incorrect_version_info);
 
                         //Get UNICODE string value
-- 
2.43.0


From bbae765d0bc21a80caae019010f7c9e924696565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:00 +0000
Subject: [PATCH 36/62] fix: refuse version info translations which are not
 whole pairs

---
 src/pe_lib/resource_version_info_reader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_version_info_reader.cpp b/src/pe_lib/resource_version_info_reader.cpp
index 7c2e425..b7cdfd1 100644
--- a/src/pe_lib/resource_version_info_reader.cpp
+++ b/src/pe_lib/resource_version_info_reader.cpp
@@ -221,7 +221,8 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                     //Get its value position
                     uint32_t value_pos = get_version_block_value_pos(var_table_pos, reinterpret_cast<const unicode16_t*>(var_table->Key));
                     //Cherck value length
-                    if(resource_data.length() < value_pos + var_table->ValueLength)
+                    if(resource_data.length() < value_pos + var_table->ValueLength
+                        || var_table->ValueLength % (sizeof(uint16_t) * 2))
                         throw_incorrect_version_info();
 
                     //Get list of translations: pairs of LANGUAGE_ID - CODEPAGE_ID
-- 
2.43.0


From 342feb44a34c9b894b9ec7d0df82ebe6785c21b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:00 +0000
Subject: [PATCH 37/62] fix: refuse to write version info which is longer than
 64 KB

---
 src/pe_lib/resource_version_info_writer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/resource_version_info_writer.cpp b/src/pe_lib/resource_version_info_writer.cpp
index 5456bf8..57a85ac 100644
--- a/src/pe_lib/resource_version_info_writer.cpp
+++ b/src/pe_lib/resource_version_info_writer.cpp
@@ -62,6 +62,10 @@ void resource_version_info_writer::set_version_info(const file_version_info& fil
         total_version_info_length += static_cast<uint32_t>(translations.size() * sizeof(uint16_t) * 2);
     }
 
+    //Lengths of blocks are stored as 16-bit values
+    if(total_version_info_length > 0xFFFF)
+        throw pe_exception("Version info is too long", pe_exception::resource_incorrect_version_info);
+
     //Resize version data buffer
     version_data.resize(total_version_info_length);
 
-- 
2.43.0


From 919e5fe8bc6103105629dabf9ab1ddc45c0f52e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:03 +0000
Subject: [PATCH 38/62] fix: remove string tables of a removed translation
 which are named in upper case

---
 src/pe_lib/version_info_editor.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/version_info_editor.cpp b/src/pe_lib/version_info_editor.cpp
index 8bc8403..a3a76a3 100644
--- a/src/pe_lib/version_info_editor.cpp
+++ b/src/pe_lib/version_info_editor.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <sstream>
 #include <iomanip>
 #include "version_info_types.h"
@@ -6,6 +7,12 @@
 
 namespace pe_bliss
 {
+//Converts latin letter to lower case
+static wchar_t to_lower_latin(wchar_t c)
+{
+    return c >= L'A' && c <= L'Z' ? static_cast<wchar_t>(c - L'A' + L'a') : c;
+}
+
 //Default constructor
 //strings - version info strings with charsets
 //translations - version info translations map
@@ -144,7 +151,18 @@ void version_info_editor::remove_translation(uint16_t language_id, uint16_t code
             << std::setw(4) << std::setfill(L'0') << language_id
             << std::setw(4) << std::setfill(L'0') << codepage_id;
         
-        strings_edit_.erase(ss.str());
+        const std::wstring translation(ss.str());
+
+        //Hexadecimal digits of language strings may be both lower and upper case
+        for(lang_string_values_map::iterator it = strings_edit_.begin(); it != strings_edit_.end();)
+        {
+            std::wstring key((*it).first);
+            std::transform(key.begin(), key.end(), key.begin(), to_lower_latin);
+            if(key == translation)
+                strings_edit_.erase(it++);
+            else
+                ++it;
+        }
     }
 
     //Find and erase translation from translations table
-- 
2.43.0


From 4c2f21db1da9afc3be04b860a2442f9fe05bf2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 39/62] fix: offset to bitmap bits ignored color masks and
 longer info headers

---
 src/pe_lib/resource_bitmap_reader.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_bitmap_reader.cpp b/src/pe_lib/resource_bitmap_reader.cpp
index a3952d4..3dcf15a 100644
--- a/src/pe_lib/resource_bitmap_reader.cpp
+++ b/src/pe_lib/resource_bitmap_reader.cpp
@@ -7,6 +7,10 @@ namespace pe_bliss
 {
 using namespace pe_win;
 
+//Values of bitmapinfoheader::biCompression for bitmaps with color masks
+static const uint32_t bitmap_bitfields = 3;
+static const uint32_t bitmap_alphabitfields = 6;
+
 resource_bitmap_reader::resource_bitmap_reader(const pe_resource_viewer& res)
     :res_(res)
 {}
@@ -52,10 +56,19 @@ const std::string resource_bitmap_reader::create_bitmap(const std::string& resou
         //Get bitmap info header
         const bitmapinfoheader* info = reinterpret_cast<const bitmapinfoheader*>(resource_data.data());
 
+        //Info header of later versions is longer
+        if(info->biSize > sizeof(bitmapinfoheader))
+            header.bfOffBits += info->biSize - sizeof(bitmapinfoheader);
+        //If color masks follow info header, skip them
+        else if(info->biCompression == bitmap_bitfields)
+            header.bfOffBits += 3 * sizeof(uint32_t);
+        else if(info->biCompression == bitmap_alphabitfields)
+            header.bfOffBits += 4 * sizeof(uint32_t);
+
         //If color table is present, skip it
         if(info->biClrUsed != 0)
             header.bfOffBits += 4 * info->biClrUsed; //Add this size to offset to bitmap bits
-        else if(info->biBitCount <= 8)
+        else if(info->biBitCount != 0 && info->biBitCount <= 8)
             header.bfOffBits += 4 * static_cast<uint32_t>(std::pow(2.f, info->biBitCount)); //Add this size to offset to bitmap bits
     }
 
-- 
2.43.0


From ee3a14386064efd5e3c8ab0a198d7040aded3abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 40/62] fix: check the length of string table strings in bytes,
 not in characters

---
 src/pe_lib/resource_string_table_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_string_table_reader.cpp b/src/pe_lib/resource_string_table_reader.cpp
index 5ebbe61..0e8501d 100644
--- a/src/pe_lib/resource_string_table_reader.cpp
+++ b/src/pe_lib/resource_string_table_reader.cpp
@@ -38,7 +38,7 @@ const resource_string_list resource_string_table_reader::parse_string_list(uint3
         passed_bytes += sizeof(uint16_t); //WORD containing string length
 
         //Check resource data length again
-        if(resource_data.length() < string_length + passed_bytes)
+        if(resource_data.length() < string_length * sizeof(unicode16_t) + passed_bytes)
             throw pe_exception("Incorrect resource string table", pe_exception::resource_incorrect_string_table);
 
         if(string_length)
-- 
2.43.0


From 6345989817114adf0290a0458086702ab26404d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 41/62] fix: message tables with short messages were refused

---
 src/pe_lib/resource_message_list_reader.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/resource_message_list_reader.cpp b/src/pe_lib/resource_message_list_reader.cpp
index a94f297..7a976b2 100644
--- a/src/pe_lib/resource_message_list_reader.cpp
+++ b/src/pe_lib/resource_message_list_reader.cpp
@@ -15,15 +15,16 @@ const resource_message_list resource_message_list_reader::parse_message_list(con
     resource_message_list ret;
 
     //Check resource data length
-    if(resource_data.length() < sizeof(message_resource_data))
+    static const uint32_t size_of_table_header = sizeof(uint32_t); //Number of blocks
+    if(resource_data.length() < size_of_table_header)
         throw pe_exception("Incorrect resource message table", pe_exception::resource_incorrect_message_table);
 
     const message_resource_data* message_data = reinterpret_cast<const message_resource_data*>(resource_data.data());
 
     //Check resource data length more carefully and some possible overflows
     if(message_data->NumberOfBlocks >= pe_utils::max_dword / sizeof(message_resource_block)
-        || !pe_utils::is_sum_safe(message_data->NumberOfBlocks * sizeof(message_resource_block), sizeof(message_resource_data))
-        || resource_data.length() < message_data->NumberOfBlocks * sizeof(message_resource_block) + sizeof(message_resource_data))
+        || !pe_utils::is_sum_safe(message_data->NumberOfBlocks * sizeof(message_resource_block), size_of_table_header)
+        || resource_data.length() < message_data->NumberOfBlocks * sizeof(message_resource_block) + size_of_table_header)
         throw pe_exception("Incorrect resource message table", pe_exception::resource_incorrect_message_table);
 
     //Iterate over all message resource blocks
@@ -31,7 +32,7 @@ const resource_message_list resource_message_list_reader::parse_message_list(con
     {
         //Get block
         const message_resource_block* block =
-            reinterpret_cast<const message_resource_block*>(resource_data.data() + sizeof(message_resource_data) - sizeof(message_resource_block) + sizeof(message_resource_block) * i);
+            reinterpret_cast<const message_resource_block*>(resource_data.data() + size_of_table_header + sizeof(message_resource_block) * i);
 
         //Check resource data length and IDs
         if(resource_data.length() < block->OffsetToEntries || block->LowId > block->HighId)
-- 
2.43.0


From f4621dd1a919648ad45311c68611fd0ab9f641f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 42/62] fix: message block which ends with ID 0xFFFFFFFF was
 read past its end

---
 src/pe_lib/resource_message_list_reader.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_message_list_reader.cpp b/src/pe_lib/resource_message_list_reader.cpp
index 7a976b2..e2bc78b 100644
--- a/src/pe_lib/resource_message_list_reader.cpp
+++ b/src/pe_lib/resource_message_list_reader.cpp
@@ -41,7 +41,7 @@ const resource_message_list resource_message_list_reader::parse_message_list(con
         uint32_t current_pos = 0;
         static const uint32_t size_of_entry_headers = 4;
         //List all message resource entries in block
-        for(uint32_t curr_id = block->LowId; curr_id <= block->HighId; curr_id++)
+        for(uint32_t curr_id = block->LowId;; curr_id++)
         {
             //Check resource data length and some possible overflows
             if(!pe_utils::is_sum_safe(block->OffsetToEntries, current_pos)
@@ -91,6 +91,10 @@ const resource_message_list resource_message_list_reader::parse_message_list(con
 
             //Go to next entry
             current_pos += entry->Length;
+
+            //Block may end with the maximum possible ID
+            if(curr_id == block->HighId)
+                break;
         }
     }
 
-- 
2.43.0


From df9402ca751d8e0df6089241f816d6f3d23b7f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 43/62] fix: report CodeView types of debug records

---
 src/pe_lib/pe_debug.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 5dc2f6e..79ea134 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -298,7 +298,7 @@ const coff_debug_info debug_info::get_advanced_debug_info<coff_debug_info>() con
 void debug_info::set_advanced_info_type(advanced_info_type type)
 {
     free_present_advanced_info();
-    if(advanced_info_type_ >= advanced_info_codeview_4_0) //Don't set info type for those types, which have advanced info structures
+    if(type >= advanced_info_codeview_4_0) //Don't set info type for those types, which have advanced info structures
         advanced_info_type_ = type;
 }
 
-- 
2.43.0


From f869a91bd807b3310f809a07f9186d4088e0ba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 44/62] fix: refuse misc debug records shorter than their
 header

---
 src/pe_lib/pe_debug.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 79ea134..314a6d9 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -817,7 +817,8 @@ const debug_info_list get_debug_information(const pe_base& pe)
                     const image_debug_misc* misc_data = reinterpret_cast<const image_debug_misc*>(debug_data.data());
 
                     //Check misc data length
-                    if(debug_data.length() < misc_data->Length /* Total length of record */)
+                    if(misc_data->Length < sizeof(image_debug_misc) - 1 /* BYTE[1] in the end of structure */
+                        || debug_data.length() < misc_data->Length /* Total length of record */)
                         throw pe_exception("Incorrect debug directory", pe_exception::incorrect_debug_directory);
 
                     //Save advanced information
-- 
2.43.0


From 142d2907ad810c6fe20b781c115263ad4d650b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 45/62] fix: read COFF file names relative to the symbol table

---
 src/pe_lib/pe_debug.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 314a6d9..45fbbd5 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -677,7 +677,7 @@ const debug_info_list get_debug_information(const pe_base& pe)
                         if(sym->StorageClass == image_sym_class_file)
                         {
                             //Save file name, it is situated just after this IMAGE_SYMBOL structure
-                            std::string file_name(reinterpret_cast<const char*>(debug_data.data() + (i + 1) * sizeof(image_symbol)), sym->NumberOfAuxSymbols * sizeof(image_symbol));
+                            std::string file_name(reinterpret_cast<const char*>(debug_data.data() + (i + 1) * sizeof(image_symbol) + coff->LvaToFirstSymbol), sym->NumberOfAuxSymbols * sizeof(image_symbol));
                             pe_utils::strip_nullbytes(file_name);
                             symbol.set_file_name(file_name);
 
-- 
2.43.0


From a27d1ea0bf44261a519a91434a23ddb66d8f1ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 46/62] fix: skip auxiliary records of all COFF debug symbols

---
 src/pe_lib/pe_debug.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 45fbbd5..8e07af5 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -669,7 +669,7 @@ const debug_info_list get_debug_information(const pe_base& pe)
 
                         //Check data length again
                         if(!pe_utils::is_sum_safe(i, sym->NumberOfAuxSymbols)
-                            || (i + sym->NumberOfAuxSymbols) > coff->NumberOfSymbols
+                            || (i + sym->NumberOfAuxSymbols) >= coff->NumberOfSymbols
                             || debug_data.length() < (i + 1) * sizeof(image_symbol) + coff->LvaToFirstSymbol + sym->NumberOfAuxSymbols * sizeof(image_symbol))
                             throw pe_exception("Incorrect debug directory", pe_exception::incorrect_debug_directory);
 
@@ -738,10 +738,10 @@ const debug_info_list get_debug_information(const pe_base& pe)
                             //Save symbol info
                             coff_info.add_symbol(symbol);
 
-                            //Move to next symbol
-                            i += sym->NumberOfAuxSymbols;
-                            continue;
                         }
+
+                        //Move to next symbol, skipping auxiliary ones
+                        i += sym->NumberOfAuxSymbols;
                     }
 
                     info.set_advanced_debug_info(coff_info);
-- 
2.43.0


From 25fa061272634cd5ac4479d9ff9d6f118019513c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 47/62] fix: do not read past the end of the debug directory

---
 src/pe_lib/pe_base.cpp  | 3 +++
 src/pe_lib/pe_debug.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 46d30c0..7ccda43 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -1016,6 +1016,9 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
 
                 //Go to next debug entry
                 current_pos += sizeof(image_debug_directory);
+                if(current_pos >= get_directory_rva(image_directory_entry_debug) + get_directory_size(image_directory_entry_debug))
+                    break; //No more entries in directory
+
                 directory = section_data_from_rva<image_debug_directory>(current_pos, section_data_virtual, true);
             }
 
diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 8e07af5..1304e81 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -837,6 +837,9 @@ const debug_info_list get_debug_information(const pe_base& pe)
 
         //Go to next debug entry
         current_pos += sizeof(image_debug_directory);
+        if(current_pos >= pe.get_directory_rva(image_directory_entry_debug) + pe.get_directory_size(image_directory_entry_debug))
+            break; //No more entries in directory
+
         directory = pe.section_data_from_rva<image_debug_directory>(current_pos, section_data_virtual, true);
     }
 
-- 
2.43.0


From a95504b3fee0ae0f43d156618c6de5a2b10282a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 48/62] fix: do not take zeros for debug data that is not in
 the file

---
 src/pe_lib/pe_base.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 7ccda43..9a02e69 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -1004,11 +1004,15 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
                     || directory.Type == image_debug_type_coff)
                     && directory.SizeOfData)
                 {
+                    //Check that the data is inside the file
+                    if(static_cast<std::streamoff>(directory.PointerToRawData) + static_cast<std::streamoff>(directory.SizeOfData) > filesize)
+                        throw pe_exception("Error reading file", pe_exception::error_reading_file);
+
                     std::string data;
                     data.resize(directory.SizeOfData);
                     file.seekg(directory.PointerToRawData);
                     file.read(&data[0], directory.SizeOfData);
-                    if(file.bad() || file.eof())
+                    if(file.bad() || file.fail() || file.eof())
                         throw pe_exception("Error reading file", pe_exception::error_reading_file);
 
                     debug_data_.insert(std::make_pair(directory.PointerToRawData, data));
-- 
2.43.0


From c74519d09efc19bd366b89192bee2f425003a560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 49/62] fix: find debug data of memory images at its virtual
 address

---
 src/pe_lib/pe_base.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 9a02e69..ffec9c5 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -1004,13 +1004,16 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
                     || directory.Type == image_debug_type_coff)
                     && directory.SizeOfData)
                 {
+                    //If image is loaded from memory, data is situated at its virtual address (if it is mapped)
+                    uint32_t data_pos = is_file_from_mem ? directory.AddressOfRawData : directory.PointerToRawData;
+
                     //Check that the data is inside the file
-                    if(static_cast<std::streamoff>(directory.PointerToRawData) + static_cast<std::streamoff>(directory.SizeOfData) > filesize)
+                    if(!data_pos || static_cast<std::streamoff>(data_pos) + static_cast<std::streamoff>(directory.SizeOfData) > filesize)
                         throw pe_exception("Error reading file", pe_exception::error_reading_file);
 
                     std::string data;
                     data.resize(directory.SizeOfData);
-                    file.seekg(directory.PointerToRawData);
+                    file.seekg(data_pos);
                     file.read(&data[0], directory.SizeOfData);
                     if(file.bad() || file.fail() || file.eof())
                         throw pe_exception("Error reading file", pe_exception::error_reading_file);
-- 
2.43.0


From b54f687d2416c916dea3a7bdc94911b72554779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 50/62] fix: stop reading runtime functions at the end of the
 exception directory

---
 src/pe_lib/pe_exception_directory.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_exception_directory.cpp b/src/pe_lib/pe_exception_directory.cpp
index f613746..f1f6ec0 100644
--- a/src/pe_lib/pe_exception_directory.cpp
+++ b/src/pe_lib/pe_exception_directory.cpp
@@ -1,4 +1,5 @@
 #include "pe_exception_directory.h"
+#include "utils.h"
 
 namespace pe_bliss
 {
@@ -124,6 +125,9 @@ const exception_entry_list get_exception_directory_data(const pe_base& pe)
         < sizeof(image_runtime_function_entry))
         throw pe_exception("Incorrect exception directory", pe_exception::incorrect_exception_directory);
 
+    if(!pe_utils::is_sum_safe(pe.get_directory_rva(image_directory_entry_exception), pe.get_directory_size(image_directory_entry_exception)))
+        throw pe_exception("Incorrect exception directory", pe_exception::incorrect_exception_directory);
+
     uint32_t current_pos = pe.get_directory_rva(image_directory_entry_exception);
 
     //Check if structures are DWORD-aligned
@@ -134,7 +138,8 @@ const exception_entry_list get_exception_directory_data(const pe_base& pe)
     image_runtime_function_entry exception_table = pe.section_data_from_rva<image_runtime_function_entry>(current_pos, section_data_virtual, true);
 
     //todo: virtual addresses BeginAddress and EndAddress are not checked to be inside image
-    while(exception_table.BeginAddress)
+    while(exception_table.BeginAddress
+        && current_pos < pe.get_directory_rva(image_directory_entry_exception) + pe.get_directory_size(image_directory_entry_exception))
     {
         //Check addresses
         if(exception_table.BeginAddress > exception_table.EndAddress)
@@ -148,6 +153,9 @@ const exception_entry_list get_exception_directory_data(const pe_base& pe)
 
         //Go to next exception entry
         current_pos += sizeof(image_runtime_function_entry);
+        if(current_pos >= pe.get_directory_rva(image_directory_entry_exception) + pe.get_directory_size(image_directory_entry_exception))
+            break; //No more entries in directory
+
         exception_table = pe.section_data_from_rva<image_runtime_function_entry>(current_pos, section_data_virtual, true);
     }
 
-- 
2.43.0


From 81463145bd22b434cf2953ae671029f1e376beac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 51/62] fix: accept unwind info without unwind codes at the end
 of a section

---
 src/pe_lib/pe_exception_directory.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_exception_directory.cpp b/src/pe_lib/pe_exception_directory.cpp
index f1f6ec0..06a285d 100644
--- a/src/pe_lib/pe_exception_directory.cpp
+++ b/src/pe_lib/pe_exception_directory.cpp
@@ -1,3 +1,4 @@
+#include <string.h>
 #include "pe_exception_directory.h"
 #include "utils.h"
 
@@ -146,7 +147,14 @@ const exception_entry_list get_exception_directory_data(const pe_base& pe)
             throw pe_exception("Incorrect exception directory", pe_exception::incorrect_exception_directory);
 
         //Get unwind information
-        unwind_info info = pe.section_data_from_rva<unwind_info>(exception_table.UnwindInfoAddress, section_data_virtual, true);
+        //Unwind codes may be absent, so only the structure header is read
+        const size_t unwind_info_header_size = sizeof(unwind_info) - sizeof(unwind_code);
+        unwind_info info;
+        memset(&info, 0, sizeof(info));
+        if(pe.section_data_length_from_rva(exception_table.UnwindInfoAddress, exception_table.UnwindInfoAddress, section_data_virtual, true) < unwind_info_header_size)
+            throw pe_exception("Incorrect exception directory", pe_exception::incorrect_exception_directory);
+
+        memcpy(&info, pe.section_data_from_rva(exception_table.UnwindInfoAddress, section_data_virtual, true), unwind_info_header_size);
 
         //Create exception entry and save it
         ret.push_back(exception_entry(exception_table, info));
-- 
2.43.0


From d5fc161c2e9bcb621fda3e2c5e11edd9d89df08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 52/62] fix: keep debug information assigned to itself

---
 src/pe_lib/pe_debug.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 1304e81..3ce8c05 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -138,6 +138,9 @@ debug_info::debug_info(const debug_info& info)
 //Copy assignment operator
 debug_info& debug_info::operator=(const debug_info& info)
 {
+    if(this == &info)
+        return *this;
+
     copy_advanced_info(info);
 
     characteristics_ = info.characteristics_;
-- 
2.43.0


From 4a55d61ee86b8a53b23372496d26cbca344366b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 53/62] fix: keep images assigned to themselves

---
 src/pe_lib/pe_base.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index ffec9c5..eefc6e5 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -88,6 +88,9 @@ pe_base::pe_base(const pe_base& pe)
 
 pe_base& pe_base::operator=(const pe_base& pe)
 {
+    if(this == &pe)
+        return *this;
+
     dos_header_ = pe.dos_header_;
     rich_overlay_ = pe.rich_overlay_;
     sections_ = pe.sections_;
-- 
2.43.0


From 9037df464dbf098c4dec42917761b5296882f183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 54/62] fix: allow resource entries to be assigned to
 themselves and from their own parts

---
 src/pe_lib/pe_resources.cpp | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 04ae286..3ec9999 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -68,21 +68,14 @@ resource_directory_entry::resource_directory_entry(const resource_directory_entr
 //Copy assignment operator
 resource_directory_entry& resource_directory_entry::operator=(const resource_directory_entry& other)
 {
-    release();
-
-    id_ = other.id_;
-    name_ = other.name_;
-    includes_data_ = other.includes_data_;
-    named_ = other.named_;
+    //Copy other entry first: it can be the same entry or a part of this entry
+    resource_directory_entry copy(other);
 
-    //If other union'ed pointer is not zero
-    if(other.ptr_.data_)
-    {
-        if(other.includes_data())
-            ptr_.data_ = new resource_data_entry(*other.ptr_.data_);
-        else
-            ptr_.dir_ = new resource_directory(*other.ptr_.dir_);
-    }
+    std::swap(id_, copy.id_);
+    name_.swap(copy.name_);
+    std::swap(includes_data_, copy.includes_data_);
+    std::swap(named_, copy.named_);
+    std::swap(ptr_, copy.ptr_);
 
     return *this;
 }
@@ -189,16 +182,20 @@ void resource_directory_entry::set_id(uint32_t id)
 //Adds resource_data_entry
 void resource_directory_entry::add_data_entry(const resource_data_entry& entry)
 {
+    //Copy entry first: it can be a part of this entry
+    resource_data_entry* data = new resource_data_entry(entry);
     release();
-    ptr_.data_ = new resource_data_entry(entry);
+    ptr_.data_ = data;
     includes_data_ = true;
 }
 
 //Adds resource_directory
 void resource_directory_entry::add_resource_directory(const resource_directory& dir)
 {
+    //Copy directory first: it can be a part of this entry
+    resource_directory* new_dir = new resource_directory(dir);
     release();
-    ptr_.dir_ = new resource_directory(dir);
+    ptr_.dir_ = new_dir;
     includes_data_ = false;
 }
 
-- 
2.43.0


From 3c54963a92a2108f60a2015e28d16d7f9a6ca8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 55/62] fix: allow a resource directory entry to be added to
 its own directory

---
 src/pe_lib/pe_resources.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 3ec9999..690e05b 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -266,8 +266,10 @@ resource_directory::entry_list& resource_directory::get_entry_list()
 //Adds resource_directory_entry
 void resource_directory::add_resource_directory_entry(const resource_directory_entry& entry)
 {
+    //Entry can be situated in the same list, which is reallocated when growing
+    bool is_named = entry.is_named();
     entries_.push_back(entry);
-    if(entry.is_named())
+    if(is_named)
         ++number_of_named_entries_;
     else
         ++number_of_id_entries_;
-- 
2.43.0


From 0a3801568737af0844181430a42df3a5c8b5f2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 56/62] fix: allow resource directories to be assigned from
 their own parts

---
 src/pe_lib/pe_resources.cpp | 26 ++++++++++++++++++++++++++
 src/pe_lib/pe_resources.h   |  4 ++++
 2 files changed, 30 insertions(+)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 690e05b..32a83e7 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -215,6 +215,32 @@ resource_directory::resource_directory(const image_resource_directory& dir)
     number_of_named_entries_(0), number_of_id_entries_(0) //Set to zero here, calculate on add
 {}
 
+//Copy constructor
+resource_directory::resource_directory(const resource_directory& other)
+    :characteristics_(other.characteristics_),
+    timestamp_(other.timestamp_),
+    major_version_(other.major_version_), minor_version_(other.minor_version_),
+    number_of_named_entries_(other.number_of_named_entries_), number_of_id_entries_(other.number_of_id_entries_),
+    entries_(other.entries_)
+{}
+
+//Copy assignment operator
+resource_directory& resource_directory::operator=(const resource_directory& other)
+{
+    //Copy other directory first: it can be the same directory or a part of this directory
+    resource_directory copy(other);
+
+    characteristics_ = copy.characteristics_;
+    timestamp_ = copy.timestamp_;
+    major_version_ = copy.major_version_;
+    minor_version_ = copy.minor_version_;
+    number_of_named_entries_ = copy.number_of_named_entries_;
+    number_of_id_entries_ = copy.number_of_id_entries_;
+    entries_.swap(copy.entries_);
+
+    return *this;
+}
+
 //Returns characteristics of directory
 uint32_t resource_directory::get_characteristics() const
 {
diff --git a/src/pe_lib/pe_resources.h b/src/pe_lib/pe_resources.h
index 7035907..f761f1a 100644
--- a/src/pe_lib/pe_resources.h
+++ b/src/pe_lib/pe_resources.h
@@ -120,6 +120,10 @@ public:
     resource_directory();
     //Constructor from data
     explicit resource_directory(const pe_win::image_resource_directory& dir);
+    //Copy constructor
+    resource_directory(const resource_directory& other);
+    //Copy assignment operator
+    resource_directory& operator=(const resource_directory& other);
 
     //Returns characteristics of directory
     uint32_t get_characteristics() const;
-- 
2.43.0


From d61f8942acece2cf3ed5342395acf3461ce8af23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 57/62] fix: check that headers fit before changing anything in
 rebuild_pe

---
 src/pe_lib/pe_rebuilder.cpp | 54 +++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index 0c129e5..6643780 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -14,6 +14,31 @@ using namespace pe_win;
 //If save_bound_import == true, existing bound import directory will be saved correctly (because some compilers and bind.exe put it to PE headers)
 void rebuild_pe(pe_base& pe, image_dos_header& dos_header, bool strip_dos_header, bool change_size_of_headers, bool save_bound_import)
 {
+    section_list& sections = pe.get_image_sections();
+
+    //Stub overlay is not written if DOS header is stripped
+    const size_t stub_size = strip_dos_header ? 0 : pe_utils::align_up(pe.get_stub_overlay().size(), sizeof(uint32_t));
+
+    //Calculate pointer to section data
+    size_t ptr_to_section_data = (strip_dos_header ? 8 * sizeof(uint16_t) : sizeof(image_dos_header)) + pe.get_sizeof_nt_header()
+        + stub_size
+        - sizeof(image_data_directory) * (image_numberof_directory_entries - pe.get_number_of_rvas_and_sizes())
+        + sections.size() * sizeof(image_section_header);
+
+    //Bound import directory will be placed right after section headers
+    //It will be aligned to DWORD, because we're aligning to DWORD everything above it
+    const bool move_bound_import = save_bound_import && pe.has_bound_import();
+    const uint32_t bound_import_rva = static_cast<uint32_t>(ptr_to_section_data);
+    if(move_bound_import)
+        ptr_to_section_data += pe.get_directory_size(image_directory_entry_bound_import);
+
+    ptr_to_section_data = pe_utils::align_up(ptr_to_section_data, pe.get_file_alignment());
+
+    //Check size of headers before anything is changed
+    if(change_size_of_headers && !sections.empty()
+        && static_cast<uint32_t>(ptr_to_section_data) > (*sections.begin()).get_virtual_address())
+        throw pe_exception("Headers of PE file are too long. Try to strip STUB or don't build bound import", pe_exception::cannot_rebuild_image);
+
     dos_header = pe.get_dos_header();
 
     if(strip_dos_header)
@@ -28,38 +53,15 @@ void rebuild_pe(pe_base& pe, image_dos_header& dos_header, bool strip_dos_header
     else
     {
         //Set start of PE headers
-        dos_header.e_lfanew = sizeof(image_dos_header)
-            + pe_utils::align_up(static_cast<uint32_t>(pe.get_stub_overlay().size()), sizeof(uint32_t));
+        dos_header.e_lfanew = sizeof(image_dos_header) + static_cast<uint32_t>(stub_size);
     }
 
-    section_list& sections = pe.get_image_sections();
-
-    //Calculate pointer to section data
-    size_t ptr_to_section_data = (strip_dos_header ? 8 * sizeof(uint16_t) : sizeof(image_dos_header)) + pe.get_sizeof_nt_header()
-        + pe_utils::align_up(pe.get_stub_overlay().size(), sizeof(uint32_t))
-        - sizeof(image_data_directory) * (image_numberof_directory_entries - pe.get_number_of_rvas_and_sizes())
-        + sections.size() * sizeof(image_section_header);
-
-    if(save_bound_import && pe.has_bound_import())
-    {
-        //It will be aligned to DWORD, because we're aligning to DWORD everything above it
-        pe.set_directory_rva(image_directory_entry_bound_import, static_cast<uint32_t>(ptr_to_section_data));
-        ptr_to_section_data += pe.get_directory_size(image_directory_entry_bound_import);    
-    }
-    
-    ptr_to_section_data = pe_utils::align_up(ptr_to_section_data, pe.get_file_alignment());
+    if(move_bound_import)
+        pe.set_directory_rva(image_directory_entry_bound_import, bound_import_rva);
 
     //Set size of headers and size of optional header
     if(change_size_of_headers)
-    {
-        if(!pe.get_image_sections().empty())
-        {
-            if(static_cast<uint32_t>(ptr_to_section_data) > (*sections.begin()).get_virtual_address())
-                throw pe_exception("Headers of PE file are too long. Try to strip STUB or don't build bound import", pe_exception::cannot_rebuild_image);
-        }
-
         pe.set_size_of_headers(static_cast<uint32_t>(ptr_to_section_data));
-    }
 
     //Set number of sections in PE header
     pe.update_number_of_sections();
-- 
2.43.0


From 16bae006c39bd7ad35f158a5062d86955544b563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 58/62] fix: count written bytes instead of asking the output
 stream in rebuild_pe

---
 src/pe_lib/pe_rebuilder.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index 6643780..8345fea 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -112,6 +112,10 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
         save_bound_import = false;
     }
 
+    //Position inside of the image being written
+    //(output stream may contain some data already or be unable to tell its position)
+    size_t wpos;
+
     {
         image_dos_header dos_header;
 
@@ -119,7 +123,8 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
         rebuild_pe(pe, dos_header, strip_dos_header, change_size_of_headers, save_bound_import);
 
         //Write DOS header
-        out.write(reinterpret_cast<const char*>(&dos_header), strip_dos_header ? 8 * sizeof(uint16_t) : sizeof(image_dos_header));
+        wpos = strip_dos_header ? 8 * sizeof(uint16_t) : sizeof(image_dos_header);
+        out.write(reinterpret_cast<const char*>(&dos_header), wpos);
     }
 
     //If we have stub overlay, write it too
@@ -129,6 +134,7 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
         {
             out.write(stub.data(), stub.size());
             size_t aligned_size = pe_utils::align_up(stub.size(), sizeof(uint32_t));
+            wpos += aligned_size;
             //Align PE header, which is right after rich overlay
             while(aligned_size > stub.size())
             {
@@ -139,14 +145,17 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
     }
     
     //Write NT headers
-    out.write(static_cast<const pe_base&>(pe).get_nt_headers_ptr(), pe.get_sizeof_nt_header()
-        - sizeof(image_data_directory) * (image_numberof_directory_entries - pe.get_number_of_rvas_and_sizes()));
+    const size_t nt_headers_size = pe.get_sizeof_nt_header()
+        - sizeof(image_data_directory) * (image_numberof_directory_entries - pe.get_number_of_rvas_and_sizes());
+    out.write(static_cast<const pe_base&>(pe).get_nt_headers_ptr(), nt_headers_size);
+    wpos += nt_headers_size;
 
     //Write section headers
     const section_list& sections = pe.get_image_sections();
     for(section_list::const_iterator it = sections.begin(); it != sections.end(); ++it)
     {
         out.write(reinterpret_cast<const char*>(&(*it).get_raw_header()), sizeof(image_section_header));
+        wpos += sizeof(image_section_header);
     }
 
     //Write bound import data if requested
@@ -154,6 +163,7 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
     {
         out.write(pe.section_data_from_rva(original_bound_import_rva, section_data_raw, true),
             pe.get_directory_size(image_directory_entry_bound_import));
+        wpos += pe.get_directory_size(image_directory_entry_bound_import);
     }
 
     //Write section data finally
@@ -165,10 +175,8 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
         if(!s.get_size_of_raw_data())
             continue;
 
-        std::streamoff wpos = out.tellp();
-
         //Fill unused overlay data between sections with null bytes
-        for(unsigned int i = 0; i < s.get_pointer_to_raw_data() - wpos; i++)
+        for(; wpos < s.get_pointer_to_raw_data(); ++wpos)
             out.put(0);
 
         //Write raw section data
@@ -178,6 +186,7 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
         out.write(raw_data.data(), data_length);
         for(size_t i = data_length; i < s.get_size_of_raw_data(); i++)
             out.put(0);
+        wpos += s.get_size_of_raw_data();
     }
 }
 }
-- 
2.43.0


From e0b414cffdb9bf722c84bac5be3facf364bd9e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:42 +0000
Subject: [PATCH 59/62] fix: bound imports rebuilt into a section whose
 trailing null bytes were stripped could not be read back

---
 src/pe_lib/pe_bound_import.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_bound_import.cpp b/src/pe_lib/pe_bound_import.cpp
index 1791760..0541d05 100644
--- a/src/pe_lib/pe_bound_import.cpp
+++ b/src/pe_lib/pe_bound_import.cpp
@@ -115,14 +115,14 @@ const bound_import_module_list get_bound_import_module_list(const pe_base& pe)
         return ret;
 
     uint32_t bound_import_data_len =
-        pe.section_data_length_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), pe.get_directory_rva(image_directory_entry_bound_import), section_data_raw, true);
+        pe.section_data_length_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), pe.get_directory_rva(image_directory_entry_bound_import), section_data_virtual, true);
 
     if(bound_import_data_len < pe.get_directory_size(image_directory_entry_bound_import))
         throw pe_exception("Incorrect bound import directory", pe_exception::incorrect_bound_import_directory);
     
-    const char* bound_import_data = pe.section_data_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), section_data_raw, true);
+    const char* bound_import_data = pe.section_data_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), section_data_virtual, true);
 
-    //Check read in "read_pe" function raw bound import data size
+    //Check bound import data size
     if(bound_import_data_len < sizeof(image_bound_import_descriptor))
         throw pe_exception("Incorrect bound import directory", pe_exception::incorrect_bound_import_directory);
 
-- 
2.43.0


From 8290defbe6c5ddd23060a6fa48102580766d07de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:42 +0000
Subject: [PATCH 60/62] fix: rebuild_pe refused images whose bound imports lie
 in a section with stripped trailing null bytes

---
 src/pe_lib/pe_rebuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index 8345fea..2d82f01 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -94,7 +94,7 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
 
     if(save_bound_import && pe.has_bound_import())
     {
-        if(pe.section_data_length_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), pe.get_directory_rva(image_directory_entry_bound_import), section_data_raw, true)
+        if(pe.section_data_length_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), pe.get_directory_rva(image_directory_entry_bound_import), section_data_virtual, true)
             < pe.get_directory_size(image_directory_entry_bound_import))
             throw pe_exception("Incorrect bound import directory", pe_exception::incorrect_bound_import_directory);
     }
@@ -161,7 +161,7 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
     //Write bound import data if requested
     if(save_bound_import && pe.has_bound_import())
     {
-        out.write(pe.section_data_from_rva(original_bound_import_rva, section_data_raw, true),
+        out.write(pe.section_data_from_rva(original_bound_import_rva, section_data_virtual, true),
             pe.get_directory_size(image_directory_entry_bound_import));
         wpos += pe.get_directory_size(image_directory_entry_bound_import);
     }
-- 
2.43.0


From 2c822f40ab8d0cc680c54d4b6dd5966a664daea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:42 +0000
Subject: [PATCH 61/62] fix: SE handler and lock prefix tables reaching into
 stripped trailing null bytes could not be read

---
 src/pe_lib/pe_load_config.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_load_config.cpp b/src/pe_lib/pe_load_config.cpp
index c332ecf..46c3216 100644
--- a/src/pe_lib/pe_load_config.cpp
+++ b/src/pe_lib/pe_load_config.cpp
@@ -359,7 +359,7 @@ const image_config_info get_image_config_base(const pe_base& pe)
 
     //Read sorted SE handler RVA list (if any)
     for(typename PEClassType::BaseSize i = 0; i != config_info.SEHandlerCount; ++i)
-        ret.add_se_handler_rva(pe.section_data_from_va<uint32_t>(static_cast<typename PEClassType::BaseSize>(config_info.SEHandlerTable + i * sizeof(uint32_t))));
+        ret.add_se_handler_rva(pe.section_data_from_va<uint32_t>(static_cast<typename PEClassType::BaseSize>(config_info.SEHandlerTable + i * sizeof(uint32_t)), section_data_virtual));
 
     if(config_info.LockPrefixTable)
     {
@@ -367,7 +367,7 @@ const image_config_info get_image_config_base(const pe_base& pe)
         uint32_t current = 0;
         while(true)
         {
-            typename PEClassType::BaseSize lock_prefix_va = pe.section_data_from_va<typename PEClassType::BaseSize>(static_cast<typename PEClassType::BaseSize>(config_info.LockPrefixTable + current * sizeof(typename PEClassType::BaseSize)));
+            typename PEClassType::BaseSize lock_prefix_va = pe.section_data_from_va<typename PEClassType::BaseSize>(static_cast<typename PEClassType::BaseSize>(config_info.LockPrefixTable + current * sizeof(typename PEClassType::BaseSize)), section_data_virtual);
             if(!lock_prefix_va)
                 break;
 
-- 
2.43.0


From 5b4ede590f8af49e50c81e469cba55b6972e2996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:07 +0000
Subject: [PATCH 62/62] fix: read exports without names whose name tables lie
 at the end of a section

---
 src/pe_lib/pe_exports.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_exports.cpp b/src/pe_lib/pe_exports.cpp
index a9fed7f..e0edf24 100644
--- a/src/pe_lib/pe_exports.cpp
+++ b/src/pe_lib/pe_exports.cpp
@@ -326,7 +326,7 @@ const exported_functions_list get_exported_functions(const pe_base& pe, export_i
             < exports.NumberOfFunctions * sizeof(uint32_t))
             throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
 
-        if(exports.AddressOfNames)
+        if(exports.AddressOfNames && exports.NumberOfNames)
         {
             //Check if it is enough bytes to hold name and ordinal tables
             if(pe.section_data_length_from_rva(exports.AddressOfNameOrdinals, exports.AddressOfNameOrdinals, section_data_virtual, true)
-- 
2.43.0

