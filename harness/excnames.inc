X(unknown_error)
X(bad_pe_file)
X(bad_dos_header)
X(image_nt_headers_not_found)
X(error_reading_image_nt_headers)
X(error_reading_data_directories)
X(error_reading_file)
X(pe_signature_incorrect)
X(incorrect_number_of_rva_and_sizes)
X(error_changing_section_virtual_size)
X(section_number_incorrect)
X(section_table_incorrect)
X(incorrect_section_alignment)
X(incorrect_file_alignment)
X(incorrect_size_of_image)
X(incorrect_size_of_headers)
X(image_section_headers_not_found)
X(zero_section_sizes)
X(section_incorrect_addr_or_size)
X(section_not_found)
X(image_section_data_not_found)
X(no_section_found)
X(image_section_table_incorrect)
X(directory_does_not_exist)
X(rva_not_exists)
X(error_reading_section_header)
X(error_reading_overlay)
X(incorrect_address_conversion)
X(incorrect_export_directory)
X(incorrect_import_directory)
X(incorrect_relocation_directory)
X(incorrect_tls_directory)
X(incorrect_config_directory)
X(incorrect_bound_import_directory)
X(incorrect_resource_directory)
X(incorrect_exception_directory)
X(incorrect_debug_directory)
X(resource_directory_entry_error)
X(resource_directory_entry_not_found)
X(resource_data_entry_not_found)
X(resource_incorrect_bitmap)
X(resource_incorrect_icon)
X(resource_incorrect_cursor)
X(resource_incorrect_string_table)
X(resource_string_not_found)
X(resource_incorrect_message_table)
X(resource_incorrect_version_info)
X(advanced_debug_information_request_error)
X(image_does_not_have_managed_code)
X(section_is_empty)
X(data_is_empty)
X(stream_is_bad)
X(section_is_not_attached)
X(insufficient_space)
X(cannot_rebase_relocations)
X(exports_list_is_empty)
X(duplicate_exported_function_ordinal)
X(duplicate_exported_function_name)
X(version_info_string_does_not_exist)
X(no_more_sections_can_be_added)
X(no_icon_group_found)
X(no_cursor_group_found)
X(encoding_convertion_error)
X(error_expanding_section)
X(cannot_rebuild_image)
