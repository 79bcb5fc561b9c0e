/* api_calls.h - one call of every reader/expect function and every tree/node function. The includer
 * supplies R, T, NODE and the macros that judge the results: EQ(value, expected in error state), Z, NUL (pointer
 * that is not allocated), ANUL (allocated pointer), STR, KEEPN, ALLOC8. WCALLS: the same for a writer W. */
#define RCALLS(X) \
 X(EQ(nilt(mpack_read_tag(&R)), true)) X(EQ(nilt(mpack_peek_tag(&R)), true)) X(mpack_skip_bytes(&R, 1)) X(mpack_skip_bytes(&R, 100)) X(mpack_skip_bytes(&R, 0)) \
 X(KEEPN(mpack_read_bytes(&R, buf, 3), 3)) X(KEEPN(mpack_read_bytes(&R, buf, 40), 40)) X(KEEPN(mpack_read_utf8(&R, buf, 3), 3)) X(STR(mpack_read_cstr(&R, buf, 10, 3))) X(STR(mpack_read_cstr(&R, buf, 2, 9))) X(STR(mpack_read_utf8_cstr(&R, buf, 10, 3))) \
 X(ANUL(mpack_read_bytes_alloc(&R, 3))) X(ANUL(mpack_read_bytes_alloc(&R, 0))) X(NUL(mpack_read_bytes_inplace(&R, 3))) X(NUL(mpack_read_bytes_inplace(&R, 0))) X(NUL(mpack_read_bytes_inplace(&R, 5000))) X(NUL(mpack_read_utf8_inplace(&R, 3))) X(NUL(mpack_read_utf8_inplace(&R, 0))) \
 X(mpack_done_array(&R)) X(mpack_done_map(&R)) X(mpack_done_str(&R)) X(mpack_done_bin(&R)) X(mpack_done_ext(&R)) X(mpack_done_type(&R, mpack_type_array)) \
 X(EQ(zts(mpack_read_timestamp(&R, 4)), true)) X(EQ(zts(mpack_read_timestamp(&R, 5)), true)) X(mpack_discard(&R)) X(Z(mpack_reader_remaining(&R, &cpv))) X(Z(mpack_reader_remaining(&R, NULL))) \
 X(mpack_reader_flag_error(&R, mpack_error_eof)) X(mpack_reader_flag_error(&R, mpack_error_type)) X(mpack_reader_flag_error(&R, mpack_error_bug)) X(EQ(mpack_reader_flag_if_error(&R, mpack_ok), first)) X(EQ(mpack_reader_flag_if_error(&R, mpack_error_data), first)) X(EQ(mpack_reader_error(&R), first)) \
 X(Z(mpack_expect_u8(&R))) X(Z(mpack_expect_u16(&R))) X(Z(mpack_expect_u32(&R))) X(Z(mpack_expect_u64(&R))) X(Z(mpack_expect_i8(&R))) X(Z(mpack_expect_i16(&R))) X(Z(mpack_expect_i32(&R))) X(Z(mpack_expect_i64(&R))) \
 X(Z(mpack_expect_float(&R))) X(Z(mpack_expect_double(&R))) X(Z(mpack_expect_float_strict(&R))) X(Z(mpack_expect_double_strict(&R))) X(Z(mpack_expect_uint(&R))) X(Z(mpack_expect_int(&R))) \
 X(EQ(mpack_expect_u8_range(&R, 3, 9), 3)) X(EQ(mpack_expect_u16_range(&R, 3, 900), 3)) X(EQ(mpack_expect_u32_range(&R, 3, 90000), 3)) X(EQ(mpack_expect_u64_range(&R, 3, 900), 3)) X(EQ(mpack_expect_uint_range(&R, 3, 9), 3)) \
 X(Z(mpack_expect_u8_max(&R, 9))) X(Z(mpack_expect_u16_max(&R, 9))) X(Z(mpack_expect_u32_max(&R, 9))) X(Z(mpack_expect_u64_max(&R, 9))) X(Z(mpack_expect_uint_max(&R, 9))) \
 X(EQ(mpack_expect_i8_range(&R, -3, 9), -3)) X(EQ(mpack_expect_i16_range(&R, 2, 9), 2)) X(EQ(mpack_expect_i32_range(&R, -70000, 9), -70000)) X(EQ(mpack_expect_i64_range(&R, -3, 9), -3)) X(EQ(mpack_expect_int_range(&R, -3, 9), -3)) \
 X(Z(mpack_expect_i8_max(&R, 9))) X(Z(mpack_expect_i16_max(&R, 9))) X(Z(mpack_expect_i32_max(&R, 9))) X(Z(mpack_expect_i64_max(&R, 9))) X(Z(mpack_expect_int_max(&R, 9))) \
 X(EQ(mpack_expect_float_range(&R, 1.5f, 9.0f), 1.5f)) X(EQ(mpack_expect_double_range(&R, -1.5, 9.0), -1.5)) \
 X(mpack_expect_uint_match(&R, 5)) X(mpack_expect_int_match(&R, 0)) X(mpack_expect_int_match(&R, -5)) X(mpack_expect_nil(&R)) X(EQ(mpack_expect_bool(&R), false)) X(mpack_expect_true(&R)) X(mpack_expect_false(&R)) \
 X(EQ(zts(mpack_expect_timestamp(&R)), true)) X(Z(mpack_expect_timestamp_truncate(&R))) \
 X(Z(mpack_expect_map(&R))) X(EQ(mpack_expect_map_range(&R, 2, 4), 2)) X(Z(mpack_expect_map_max(&R, 4))) X(mpack_expect_map_match(&R, 0)) X(mpack_expect_map_match(&R, 3)) X(u32v = 7; EQ(mpack_expect_map_or_nil(&R, &u32v), false); Z(u32v)) X(u32v = 7; EQ(mpack_expect_map_max_or_nil(&R, 4, &u32v), false); Z(u32v)) \
 X(Z(mpack_expect_array(&R))) X(EQ(mpack_expect_array_range(&R, 2, 4), 2)) X(Z(mpack_expect_array_max(&R, 4))) X(mpack_expect_array_match(&R, 0)) X(u32v = 7; EQ(mpack_expect_array_or_nil(&R, &u32v), false); Z(u32v)) X(u32v = 7; EQ(mpack_expect_array_max_or_nil(&R, 4, &u32v), false); Z(u32v)) \
 X(ALLOC8(mpack_expect_array_alloc(&R, int, 10, &u32v))) X(ALLOC8(mpack_expect_array_or_nil_alloc(&R, int, 10, &u32v))) \
 X(Z(mpack_expect_str(&R))) X(KEEPN(Z(mpack_expect_str_buf(&R, buf, 9)), 9)) X(KEEPN(Z(mpack_expect_utf8(&R, buf, 9)), 9)) X(Z(mpack_expect_str_max(&R, 9))) X(mpack_expect_str_length(&R, 0)) X(mpack_expect_str_length(&R, 3)) X(STR(mpack_expect_cstr(&R, buf, 9))) X(STR(mpack_expect_cstr(&R, buf, 1))) X(STR(mpack_expect_utf8_cstr(&R, buf, 9))) \
 X(ANUL(mpack_expect_cstr_alloc(&R, 9))) X(ANUL(mpack_expect_cstr_alloc(&R, 1))) X(ANUL(mpack_expect_utf8_cstr_alloc(&R, 9))) X(mpack_expect_str_match(&R, "abc", 3)) X(mpack_expect_str_match(&R, "", 0)) X(mpack_expect_cstr_match(&R, "abc")) \
 X(Z(mpack_expect_bin(&R))) X(Z(mpack_expect_bin_max(&R, 9))) X(mpack_expect_bin_size(&R, 3)) X(mpack_expect_bin_size(&R, 0)) X(KEEPN(Z(mpack_expect_bin_buf(&R, buf, 9)), 9)) X(KEEPN(mpack_expect_bin_size_buf(&R, buf, 3), 3)) X(szv = 7; ANUL(mpack_expect_bin_alloc(&R, 9, &szv)); Z(szv)) \
 X(i8v = 7; Z(mpack_expect_ext(&R, &i8v)); Z(i8v)) X(i8v = 7; Z(mpack_expect_ext_max(&R, &i8v, 4)); Z(i8v)) X(i8v = 7; mpack_expect_ext_size(&R, &i8v, 4); Z(i8v)) X(i8v = 7; mpack_expect_ext_size(&R, &i8v, 0); Z(i8v)) X(i8v = 7; KEEPN(Z(mpack_expect_ext_buf(&R, &i8v, buf, 9)), 9); Z(i8v)) X(i8v = 7; szv = 7; ANUL(mpack_expect_ext_alloc(&R, &i8v, 9, &szv)); Z(szv); Z(i8v)) \
 X(mpack_expect_tag(&R, mpack_tag_nil())) X(mpack_expect_tag(&R, mpack_tag_uint(5))) X(EQ(mpack_expect_enum(&R, words, 4), 4)) X(EQ(mpack_expect_enum_optional(&R, words, 4), 4)) \
 X(memset(fnd, 0, 4); EQ(mpack_expect_key_cstr(&R, words, fnd, 4), 4); Z(fnd[0] | fnd[1] | fnd[2] | fnd[3])) X(memset(fnd, 0, 4); EQ(mpack_expect_key_uint(&R, fnd, 4), 4); Z(fnd[0] | fnd[1] | fnd[2] | fnd[3])) X(memset(fnd, 1, 4); EQ(mpack_expect_key_uint(&R, fnd, 4), 4))

#define TCALLS(X) \
 X(mpack_tree_parse(&T)) X(EQ(mpack_tree_try_parse(&T), false)) X(EQ(niln(mpack_tree_root(&T)), true)) X(EQ(mpack_tree_size(&T), tsize)) X(EQ(mpack_tree_error(&T), first)) X(mpack_tree_flag_error(&T, mpack_error_data)) X(mpack_tree_flag_error(&T, mpack_error_io)) X(mpack_node_flag_error(NODE, mpack_error_eof)) X(EQ(mpack_node_error(NODE), first)) \
 X(EQ(nilt(mpack_node_tag(NODE)), true)) X(EQ(mpack_node_type(NODE), mpack_type_nil)) X(EQ(mpack_node_is_nil(NODE), true)) X(EQ(mpack_node_is_missing(NODE), false)) X(mpack_node_nil(NODE)) X(mpack_node_missing(NODE)) X(EQ(mpack_node_bool(NODE), false)) X(mpack_node_true(NODE)) X(mpack_node_false(NODE)) \
 X(Z(mpack_node_u8(NODE))) X(Z(mpack_node_i8(NODE))) X(Z(mpack_node_u16(NODE))) X(Z(mpack_node_i16(NODE))) X(Z(mpack_node_u32(NODE))) X(Z(mpack_node_i32(NODE))) X(Z(mpack_node_u64(NODE))) X(Z(mpack_node_i64(NODE))) X(Z(mpack_node_uint(NODE))) X(Z(mpack_node_int(NODE))) \
 X(Z(mpack_node_float(NODE))) X(Z(mpack_node_double(NODE))) X(Z(mpack_node_float_strict(NODE))) X(Z(mpack_node_double_strict(NODE))) X(EQ(zts(mpack_node_timestamp(NODE)), true)) X(Z(mpack_node_timestamp_seconds(NODE))) X(Z(mpack_node_timestamp_nanoseconds(NODE))) \
 X(mpack_node_check_utf8(NODE)) X(mpack_node_check_utf8_cstr(NODE)) X(Z(mpack_node_exttype(NODE))) X(Z(mpack_node_bin_size(NODE))) X(Z(mpack_node_data_len(NODE))) X(Z(mpack_node_strlen(NODE))) X(NUL(mpack_node_str(NODE))) X(NUL(mpack_node_data(NODE))) X(NUL(mpack_node_bin_data(NODE))) \
 X(KEEPN(Z(mpack_node_copy_data(NODE, buf, 9)), 0)) X(KEEPN(Z(mpack_node_copy_utf8(NODE, buf, 9)), 0)) X(STR(mpack_node_copy_cstr(NODE, buf, 9))) X(STR(mpack_node_copy_utf8_cstr(NODE, buf, 9))) X(STR(mpack_node_copy_cstr(NODE, buf, 1))) X(ANUL(mpack_node_data_alloc(NODE, 9))) X(ANUL(mpack_node_cstr_alloc(NODE, 9))) X(ANUL(mpack_node_utf8_cstr_alloc(NODE, 9))) \
 X(EQ(mpack_node_enum(NODE, words, 4), 4)) X(EQ(mpack_node_enum_optional(NODE, words, 4), 4)) X(Z(mpack_node_array_length(NODE))) X(EQ(niln(mpack_node_array_at(NODE, 0)), true)) X(EQ(niln(mpack_node_array_at(NODE, 99)), true)) X(Z(mpack_node_map_count(NODE))) X(EQ(niln(mpack_node_map_key_at(NODE, 0)), true)) X(EQ(niln(mpack_node_map_value_at(NODE, 0)), true)) X(EQ(niln(mpack_node_map_value_at(NODE, 9)), true)) \
 X(EQ(niln(mpack_node_map_int(NODE, 1)), true)) X(EQ(niln(mpack_node_map_int_optional(NODE, 1)), true)) X(EQ(niln(mpack_node_map_uint(NODE, 1)), true)) X(EQ(niln(mpack_node_map_uint_optional(NODE, 9)), true)) X(EQ(niln(mpack_node_map_str(NODE, "a", 1)), true)) X(EQ(niln(mpack_node_map_str_optional(NODE, "zz", 2)), true)) X(EQ(niln(mpack_node_map_cstr(NODE, "a")), true)) X(EQ(niln(mpack_node_map_cstr_optional(NODE, "a")), true)) \
 X(EQ(mpack_node_map_contains_int(NODE, 1), false)) X(EQ(mpack_node_map_contains_uint(NODE, 1), false)) X(EQ(mpack_node_map_contains_str(NODE, "a", 1), false)) X(EQ(mpack_node_map_contains_cstr(NODE, "a"), false))

#define WCALLS(X) \
 X(mpack_write_i8(&W, -1)) X(mpack_write_i16(&W, 300)) X(mpack_write_i32(&W, -70000)) X(mpack_write_i64(&W, INT64_MIN)) X(mpack_write_int(&W, 5)) X(mpack_write_u8(&W, 200)) X(mpack_write_u16(&W, 1)) X(mpack_write_u32(&W, 70000)) X(mpack_write_u64(&W, UINT64_MAX)) X(mpack_write_uint(&W, 1)) \
 X(mpack_write_float(&W, 1.0f)) X(mpack_write_double(&W, 1.0)) X(mpack_write_bool(&W, true)) X(mpack_write_true(&W)) X(mpack_write_false(&W)) X(mpack_write_nil(&W)) X(mpack_write_object_bytes(&W, "\xc3", 1)) X(mpack_write_object_bytes(&W, (const char*)payload(), 400)) \
 X(mpack_write_timestamp(&W, 5, 6)) X(mpack_write_timestamp(&W, -5, 2000000000u)) X(mpack_write_timestamp_seconds(&W, 6)) X(mpack_write_tag(&W, mpack_tag_uint(4))) X(mpack_write_tag(&W, mpack_tag_array(2))) \
 X(mpack_start_array(&W, 0)) X(mpack_start_array(&W, 3)) X(mpack_start_map(&W, 0)) X(mpack_start_map(&W, 3)) X(mpack_finish_array(&W)) X(mpack_finish_map(&W)) X(mpack_finish_str(&W)) X(mpack_finish_bin(&W)) X(mpack_finish_ext(&W)) X(mpack_finish_type(&W, mpack_type_map)) \
 X(mpack_build_array(&W)) X(mpack_build_map(&W)) X(mpack_complete_array(&W)) X(mpack_complete_map(&W)) \
 X(mpack_write_str(&W, "abc", 3)) X(mpack_write_str(&W, NULL, 0)) X(mpack_write_utf8(&W, "abc", 3)) X(mpack_write_utf8(&W, "\xff", 1)) X(mpack_write_cstr(&W, "hello")) X(mpack_write_cstr_or_nil(&W, NULL)) X(mpack_write_cstr_or_nil(&W, "x")) X(mpack_write_utf8_cstr(&W, "\xff")) X(mpack_write_utf8_cstr_or_nil(&W, NULL)) X(mpack_write_bin(&W, "ab", 2)) X(mpack_write_bin(&W, (const char*)payload(), 400)) X(mpack_write_ext(&W, 3, "ab", 2)) \
 X(mpack_start_str(&W, 4)) X(mpack_start_bin(&W, 4)) X(mpack_start_ext(&W, 3, 4)) X(mpack_write_bytes(&W, "abcd", 4)) X(mpack_write_bytes(&W, (const char*)payload(), 300)) X(mpack_write_bytes(&W, NULL, 0)) X(mpack_flush_message_(&W)) \
 X(mpack_writer_flag_error(&W, mpack_error_data)) X(mpack_writer_flag_error(&W, mpack_error_io)) X(mpack_writer_flag_error(&W, mpack_error_bug)) X(EQ(mpack_writer_error(&W), first))
