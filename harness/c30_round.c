/* C30: whatever is written is read back identically by the tag reader, the expect functions and the node tree. */
#include "common.h"
#ifndef K_NODES
#define K_NODES 4
#endif
static gn* doc; static const char* what = ""; static char hist[120]; static const char* bytes; static size_t nbytes;
#define BAD(fmt, ...) mc_fail("%s, %s, written as %s: " fmt, hist, what, hexs(bytes, nbytes), ##__VA_ARGS__)
enum { TS = 20 };      /* leaf kind: timestamp (u: seconds, n: nanoseconds) */
static gn shapes[64];
static bool eq(const void* a, const void* b, size_t n) { return n == 0 || !memcmp(a, b, n); }
/* ------------------------------------------------------------ writing */
static unsigned alt, pos;      /* every leaf and compound takes the alternative alt + pos, so neighbours differ */
static unsigned pick(unsigned n) { return (alt + pos++) % n; }
static int way;                /* 0 known counts, 1 tags, 2 builders, 3 mixed */
static void pieces(mpack_writer_t* w, const char* d, uint32_t n, unsigned how) {
    if (how == 0) mpack_write_bytes(w, d, n);
    else if (how == 1) for (uint32_t i = 0; i < n; i += 3) mpack_write_bytes(w, d + i, n - i < 3 ? n - i : 3);
    else if (how == 2) { mpack_write_bytes(w, d, n / 2); mpack_write_bytes(w, d, 0); mpack_write_bytes(w, d + n / 2, n - n / 2); }
    else { uint32_t k = n < 1 ? n : 1; mpack_write_bytes(w, d, k); mpack_write_bytes(w, d + k, n - k); }
}
static void wr(mpack_writer_t* w, const gn* v) {
    const char* d = (const char*)v->data;
    switch (v->t) {
        case RV_NIL: if (way == 1 || pick(2)) mpack_write_tag(w, mpack_tag_nil()); else mpack_write_nil(w); break;
        case RV_BOOL: switch (way == 1 ? 2 : pick(3)) { case 0: mpack_write_bool(w, v->u != 0); break; case 1: if (v->u) mpack_write_true(w); else mpack_write_false(w); break; case 2: mpack_write_tag(w, mpack_tag_bool(v->u != 0)); break; } break;
        case RV_UINT: switch (way == 1 ? 3 : pick(6)) {
            case 0: mpack_write_u64(w, v->u); break; case 1: mpack_write_uint(w, v->u); break;
            case 2: if (v->u <= 0xff) mpack_write_u8(w, (uint8_t)v->u); else if (v->u <= 0xffff) mpack_write_u16(w, (uint16_t)v->u); else if (v->u <= 0xffffffffu) mpack_write_u32(w, (uint32_t)v->u); else mpack_write_u64(w, v->u); break;
            case 3: mpack_write_tag(w, mpack_tag_uint(v->u)); break;
            case 4: if (v->u <= 0xffff) mpack_write_u16(w, (uint16_t)v->u); else mpack_write_u64(w, v->u); break;
            case 5: if (v->u <= 0x7f) mpack_write_i8(w, (int8_t)v->u); else if (v->u <= 0x7fff) mpack_write_i16(w, (int16_t)v->u); else if (v->u <= 0x7fffffff) mpack_write_i32(w, (int32_t)v->u); else if (v->u <= INT64_MAX) mpack_write_i64(w, (int64_t)v->u); else mpack_write_u64(w, v->u); break; } break;
        case RV_INT: switch (way == 1 ? 3 : pick(5)) {
            case 0: mpack_write_i64(w, v->i); break; case 1: mpack_write_int(w, v->i); break;
            case 2: if (v->i >= -128) mpack_write_i8(w, (int8_t)v->i); else if (v->i >= -32768) mpack_write_i16(w, (int16_t)v->i); else if (v->i >= INT32_MIN) mpack_write_i32(w, (int32_t)v->i); else mpack_write_i64(w, v->i); break;
            case 3: mpack_write_tag(w, mpack_tag_int(v->i)); break;
            case 4: if (v->i >= INT32_MIN) mpack_write_i32(w, (int32_t)v->i); else mpack_write_i64(w, v->i); break; } break;
        case RV_F32: if (way == 1 || pick(2)) mpack_write_tag(w, mpack_tag_float(f_of((uint32_t)v->u))); else mpack_write_float(w, f_of((uint32_t)v->u)); break;
        case RV_F64: if (way == 1 || pick(2)) mpack_write_tag(w, mpack_tag_double(d_of(v->u))); else mpack_write_double(w, d_of(v->u)); break;
        case RV_STR: { unsigned k = way == 1 ? 3 + pick(4) : pick(9); bool nul = v->n && memchr(d, 0, v->n);
            if (k == 0 || k > 6) { if (k == 7 && !nul) { char* z = (char*)malloc(v->n + 1u); if (v->n) memcpy(z, d, v->n); z[v->n] = 0; if (v->n % 2) mpack_write_cstr(w, z); else mpack_write_cstr_or_nil(w, z); free(z); } else if (k == 8) mpack_write_utf8(w, d, v->n); else mpack_write_str(w, d, v->n); }
            else if (k < 3) { mpack_start_str(w, v->n); pieces(w, d, v->n, k); mpack_finish_str(w); }
            else { mpack_write_tag(w, mpack_tag_str(v->n)); pieces(w, d, v->n, k - 3); mpack_finish_type(w, mpack_type_str); } break; }
        case RV_BIN: { unsigned k = way == 1 ? 3 + pick(4) : pick(7);
            if (k == 0) mpack_write_bin(w, d, v->n); else if (k < 3) { mpack_start_bin(w, v->n); pieces(w, d, v->n, k); mpack_finish_bin(w); } else { mpack_write_tag(w, mpack_tag_bin(v->n)); pieces(w, d, v->n, k - 3); mpack_finish_type(w, mpack_type_bin); } break; }
        case RV_EXT: { unsigned k = way == 1 ? 3 + pick(4) : pick(7);
            if (k == 0) mpack_write_ext(w, v->ext, d, v->n); else if (k < 3) { mpack_start_ext(w, v->ext, v->n); pieces(w, d, v->n, k); mpack_finish_ext(w); } else { mpack_write_tag(w, mpack_tag_ext(v->ext, v->n)); pieces(w, d, v->n, k - 3); mpack_finish_type(w, mpack_type_ext); } break; }
        case TS: switch (pick(3)) { case 0: mpack_write_timestamp(w, (int64_t)v->u, v->n); break; case 1: { mpack_timestamp_t t = {(int64_t)v->u, v->n}; mpack_write_timestamp_struct(w, t); break; } case 2: if (v->n == 0) mpack_write_timestamp_seconds(w, (int64_t)v->u); else mpack_write_timestamp(w, (int64_t)v->u, v->n); break; } break;
        case RV_ARR: { int k = way == 3 ? (int)pick(3) : way; uint32_t i;
            if (k == 0) mpack_start_array(w, v->n); else if (k == 1) mpack_write_tag(w, mpack_tag_array(v->n)); else mpack_build_array(w);
            for (i = 0; i < v->kids; ++i) wr(w, &v->kid[i]);
            if (k == 0) mpack_finish_array(w); else if (k == 1) mpack_finish_type(w, mpack_type_array); else mpack_complete_array(w); break; }
        case RV_MAP: { int k = way == 3 ? (int)pick(3) : way; uint32_t i;
            if (k == 0) mpack_start_map(w, v->n); else if (k == 1) mpack_write_tag(w, mpack_tag_map(v->n)); else mpack_build_map(w);
            for (i = 0; i < v->kids; ++i) wr(w, &v->kid[i]);
            if (k == 0) mpack_finish_map(w); else if (k == 1) mpack_finish_type(w, mpack_type_map); else mpack_complete_map(w); break; }
    }
}
/* ------------------------------------------------------------ reading */
static mpack_reader_t R; static unsigned ralt, rpos;
static unsigned rpick(unsigned n) { return (ralt + rpos++) % n; }
static char B1[70100];
static void rd_tag(const gn* v) {
    mpack_tag_t t = MPACK_TAG_ZERO; if (rpick(3) == 1) t = mpack_peek_tag(&R); mpack_tag_t p = t; t = mpack_read_tag(&R); if (mpack_reader_error(&R)) return;
    if (mpack_tag_type(&p) != mpack_type_missing && !mpack_tag_equal(p, t)) BAD("peeked another tag");
    bool ok = false;
    switch (v->t) {
        case RV_NIL: ok = mpack_tag_equal(t, mpack_tag_nil()); break; case RV_BOOL: ok = mpack_tag_equal(t, mpack_tag_bool(v->u)); break; case RV_UINT: ok = mpack_tag_equal(t, mpack_tag_uint(v->u)) && mpack_tag_type(&t) == mpack_type_uint && mpack_tag_uint_value(&t) == v->u; break;
        case RV_INT: ok = mpack_tag_type(&t) == mpack_type_int && mpack_tag_int_value(&t) == v->i; break;
        case RV_F32: ok = mpack_tag_type(&t) == mpack_type_float && bits_f(mpack_tag_float_value(&t)) == (uint32_t)v->u; break; case RV_F64: ok = mpack_tag_type(&t) == mpack_type_double && bits_d(mpack_tag_double_value(&t)) == v->u; break;
        case RV_STR: ok = mpack_tag_equal(t, mpack_tag_str(v->n)); break; case RV_BIN: ok = mpack_tag_equal(t, mpack_tag_bin(v->n)); break; case RV_EXT: ok = mpack_tag_equal(t, mpack_tag_ext(v->ext, v->n)); break;
        case RV_ARR: ok = mpack_tag_equal(t, mpack_tag_array(v->n)); break; case RV_MAP: ok = mpack_tag_equal(t, mpack_tag_map(v->n)); break; case TS: ok = mpack_tag_type(&t) == mpack_type_ext && mpack_tag_ext_exttype(&t) == MPACK_EXTTYPE_TIMESTAMP; break;
    }
    if (!ok) BAD("tag %s instead of kind %d", tag_text(t), v->t);
    switch (v->t) {
        case RV_STR: case RV_BIN: case RV_EXT: {
            unsigned k = rpick(4); bool good = true;
            if (k == 0) { mpack_read_bytes(&R, B1, v->n); good = mpack_reader_error(&R) || eq(B1, v->data, v->n); }
            else if (k == 1) { for (uint32_t i = 0; i < v->n; i += 5) mpack_read_bytes(&R, B1 + i, v->n - i < 5 ? v->n - i : 5); good = mpack_reader_error(&R) || eq(B1, v->data, v->n); }
            else if (k == 2 && mpack_should_read_bytes_inplace(&R, v->n)) { const char* q = mpack_read_bytes_inplace(&R, v->n); good = mpack_reader_error(&R) || eq(q, v->data, v->n); }
            else { char* q = mpack_read_bytes_alloc(&R, v->n); good = mpack_reader_error(&R) || eq(q, v->data, v->n); if (q) MPACK_FREE(q); }
            if (!good) BAD("contents of kind %d", v->t);
            mpack_done_type(&R, mpack_tag_type(&t)); break; }
        case TS: { mpack_timestamp_t s = mpack_read_timestamp(&R, mpack_tag_ext_length(&t)); if (!mpack_reader_error(&R) && (s.seconds != (int64_t)v->u || s.nanoseconds != v->n)) BAD("timestamp %lld %u", (long long)s.seconds, s.nanoseconds); break; }
        case RV_ARR: case RV_MAP: for (uint32_t i = 0; i < v->kids && !mpack_reader_error(&R); ++i) rd_tag(&v->kid[i]); mpack_done_type(&R, mpack_tag_type(&t)); break;
        default: break;
    }
}
#define WANT(x) do { if (!mpack_reader_error(&R) && !(x)) BAD("expect: " #x); } while (0)
static void rd_expect(const gn* v) {
    unsigned k; uint32_t n = v->n; const void* d = v->data; uint64_t u = v->u; int64_t i = v->t == RV_UINT ? (int64_t)u : v->i;
    switch (v->t) {
        case RV_NIL: if (rpick(2)) mpack_expect_nil(&R); else mpack_expect_tag(&R, mpack_tag_nil()); break;
        case RV_BOOL: switch (rpick(3)) { case 0: WANT(mpack_expect_bool(&R) == (u != 0)); break; case 1: if (u) mpack_expect_true(&R); else mpack_expect_false(&R); break; case 2: mpack_expect_tag(&R, mpack_tag_bool(u)); break; } break;
        case RV_UINT: switch (rpick(10)) {
            case 0: WANT(mpack_expect_u64(&R) == u); break; case 1: if (u <= 0xff) WANT(mpack_expect_u8(&R) == u); else if (u <= 0xffff) WANT(mpack_expect_u16(&R) == u); else if (u <= 0xffffffffu) WANT(mpack_expect_u32(&R) == u); else WANT(mpack_expect_u64(&R) == u); break;
            case 2: mpack_expect_uint_match(&R, u); break; case 3: if (u <= INT64_MAX) WANT(mpack_expect_i64(&R) == i); else WANT(mpack_expect_u64(&R) == u); break;
            case 4: if (u <= 0x7f) WANT(mpack_expect_i8(&R) == i); else if (u <= 0x7fff) WANT(mpack_expect_i16(&R) == i); else if (u <= 0x7fffffff) WANT(mpack_expect_i32(&R) == i); else WANT(mpack_expect_u64(&R) == u); break;
            case 5: WANT(mpack_expect_u64_range(&R, u, u) == u); break; case 6: WANT(mpack_expect_u64_max(&R, u) == u); break; case 7: WANT(mpack_expect_double(&R) == (double)u); break; case 8: if (u <= 0xffffffffu) WANT(mpack_expect_uint(&R) == u); else mpack_expect_tag(&R, mpack_tag_uint(u)); break;
            case 9: if (u <= INT64_MAX) mpack_expect_int_match(&R, i); else WANT(mpack_expect_u64(&R) == u); break; } break;
        case RV_INT: switch (rpick(6)) { case 0: WANT(mpack_expect_i64(&R) == i); break; case 1: if (i >= -128) WANT(mpack_expect_i8(&R) == i); else if (i >= -32768) WANT(mpack_expect_i16(&R) == i); else if (i >= INT32_MIN) WANT(mpack_expect_i32(&R) == i); else WANT(mpack_expect_i64(&R) == i); break;
            case 2: mpack_expect_int_match(&R, i); break; case 3: WANT(mpack_expect_i64_range(&R, i, i) == i); break; case 4: WANT(mpack_expect_double(&R) == (double)i); break; case 5: if (i >= INT32_MIN) WANT(mpack_expect_int(&R) == i); else mpack_expect_tag(&R, mpack_tag_int(i)); break; } break;
        case RV_F32: switch (rpick(3)) { case 0: WANT(bits_f(mpack_expect_float(&R)) == (uint32_t)u); break; case 1: WANT(bits_f(mpack_expect_float_strict(&R)) == (uint32_t)u); break; case 2: { double x = mpack_expect_double(&R); WANT(bits_d(x) == bits_d((double)f_of((uint32_t)u)) || isnan(x)); break; } } break;
        case RV_F64: switch (rpick(2)) { case 0: WANT(bits_d(mpack_expect_double(&R)) == u); break; case 1: WANT(bits_d(mpack_expect_double_strict(&R)) == u); break; } break;
        case RV_STR: k = rpick(8); switch (k) {
            case 0: WANT(mpack_expect_str(&R) == n); goto body_str; case 1: WANT(mpack_expect_str_buf(&R, B1, n) == n); WANT(eq(B1, d, n)); break; case 2: WANT(mpack_expect_utf8(&R, B1, n) == n); WANT(eq(B1, d, n)); break;
            case 3: mpack_expect_str_match(&R, n ? (const char*)d : "", n); break; case 4: mpack_expect_str_length(&R, n); goto body_str;
            case 5: if (n && memchr(d, 0, n)) { WANT(mpack_expect_str_max(&R, n) == n); goto body_str; } mpack_expect_cstr(&R, B1, (size_t)n + 1); WANT(eq(B1, d, n)); WANT(B1[n] == 0); break;
            case 6: { if (n && memchr(d, 0, n)) { WANT(mpack_expect_str(&R) == n); goto body_str; } char* q = rpick(2) ? mpack_expect_cstr_alloc(&R, (size_t)n + 1) : mpack_expect_utf8_cstr_alloc(&R, (size_t)n + 1); WANT(q && strlen(q) == n && eq(q, d, n)); if (q) MPACK_FREE(q); break; }
            case 7: if (n < 100 && !(n && memchr(d, 0, n))) { char z[101]; if (n) memcpy(z, d, n); z[n] = 0; mpack_expect_cstr_match(&R, z); } else { WANT(mpack_expect_str_max(&R, n) == n); goto body_str; } break;
            body_str: mpack_read_bytes(&R, B1, n); WANT(eq(B1, d, n)); mpack_done_str(&R); break; } break;
        case RV_BIN: switch (rpick(4)) { case 0: WANT(mpack_expect_bin(&R) == n); goto body_bin; case 1: WANT(mpack_expect_bin_buf(&R, B1, n) == n); WANT(eq(B1, d, n)); break; case 2: { size_t m = 0; char* q = mpack_expect_bin_alloc(&R, n ? n : 1, &m); WANT(m == n && eq(q, d, n)); if (q) MPACK_FREE(q); break; } case 3: mpack_expect_bin_size(&R, n); goto body_bin;
            body_bin: if (n && mpack_should_read_bytes_inplace(&R, n)) { const char* q = mpack_read_bytes_inplace(&R, n); WANT(eq(q, d, n)); } else { mpack_read_bytes(&R, B1, n); WANT(eq(B1, d, n)); } mpack_done_bin(&R); break; } break;
        case RV_EXT: { int8_t et = 0; switch (rpick(4)) { case 0: WANT(mpack_expect_ext(&R, &et) == n && et == v->ext); goto body_ext; case 1: WANT(mpack_expect_ext_buf(&R, &et, B1, n) == n && et == v->ext); WANT(eq(B1, d, n)); break; case 2: { size_t m = 0; char* q = mpack_expect_ext_alloc(&R, &et, n ? n : 1, &m); WANT(m == n && et == v->ext && eq(q, d, n)); if (q) MPACK_FREE(q); break; } case 3: WANT(mpack_expect_ext_max(&R, &et, n) == n && et == v->ext); goto body_ext;
            body_ext: mpack_read_bytes(&R, B1, n); WANT(eq(B1, d, n)); mpack_done_ext(&R); break; } break; }
        case TS: { mpack_timestamp_t s; int64_t sec; if (n == 0 && rpick(2)) { sec = mpack_expect_timestamp_truncate(&R); WANT(sec == (int64_t)u); } else { s = mpack_expect_timestamp(&R); WANT(s.seconds == (int64_t)u && s.nanoseconds == n); } break; }
        case RV_ARR: { uint32_t m = 0; bool present = true; switch (rpick(5)) { case 0: m = mpack_expect_array(&R); break; case 1: mpack_expect_array_match(&R, n); m = n; break; case 2: m = mpack_expect_array_max(&R, n); break; case 3: m = mpack_expect_array_range(&R, n, n); break; case 4: present = mpack_expect_array_or_nil(&R, &m); WANT(present); break; } WANT(m == n);
            for (uint32_t j = 0; j < v->kids && !mpack_reader_error(&R); ++j) rd_expect(&v->kid[j]); mpack_done_array(&R); break; }
        case RV_MAP: { uint32_t m = 0; bool present = true; switch (rpick(5)) { case 0: m = mpack_expect_map(&R); break; case 1: mpack_expect_map_match(&R, n); m = n; break; case 2: m = mpack_expect_map_max(&R, n); break; case 3: m = mpack_expect_map_range(&R, n, n); break; case 4: present = mpack_expect_map_or_nil(&R, &m); WANT(present); break; } WANT(m == n);
            for (uint32_t j = 0; j < v->kids && !mpack_reader_error(&R); ++j) rd_expect(&v->kid[j]); mpack_done_map(&R); break; }
    }
}
#define NWANT(x) do { if (!(x)) BAD("node of kind %d: " #x, v->t); } while (0)
static void rd_node(mpack_node_t nd, const gn* v) {
    uint32_t n = v->n; const void* d = v->data; uint64_t u = v->u; int64_t i = v->t == RV_UINT ? (int64_t)u : v->i;
    switch (v->t) {
        case RV_NIL: NWANT(mpack_node_is_nil(nd)); mpack_node_nil(nd); break; case RV_BOOL: NWANT(mpack_node_bool(nd) == (u != 0)); break;
        case RV_UINT: NWANT(mpack_node_u64(nd) == u); if (u <= 0xff) NWANT(mpack_node_u8(nd) == u); if (u <= 0xffff) NWANT(mpack_node_u16(nd) == u); if (u <= 0xffffffffu) NWANT(mpack_node_u32(nd) == u && mpack_node_uint(nd) == u); if (u <= 0x7f) NWANT(mpack_node_i8(nd) == i); if (u <= 0x7fff) NWANT(mpack_node_i16(nd) == i); if (u <= 0x7fffffff) NWANT(mpack_node_i32(nd) == i); if (u <= INT64_MAX) NWANT(mpack_node_i64(nd) == i); NWANT(mpack_node_double(nd) == (double)u); NWANT(mpack_node_type(nd) == mpack_type_uint); break;
        case RV_INT: NWANT(mpack_node_i64(nd) == i); if (i >= -128) NWANT(mpack_node_i8(nd) == i); if (i >= -32768) NWANT(mpack_node_i16(nd) == i); if (i >= INT32_MIN) NWANT(mpack_node_i32(nd) == i && mpack_node_int(nd) == i); NWANT(mpack_node_double(nd) == (double)i); NWANT(mpack_node_type(nd) == mpack_type_int); break;
        case RV_F32: NWANT(bits_f(mpack_node_float(nd)) == (uint32_t)u && bits_f(mpack_node_float_strict(nd)) == (uint32_t)u); break; case RV_F64: NWANT(bits_d(mpack_node_double(nd)) == u && bits_d(mpack_node_double_strict(nd)) == u); break;
        case RV_STR: NWANT(mpack_node_strlen(nd) == n && eq(mpack_node_str(nd), d, n)); NWANT(mpack_node_copy_data(nd, B1, n) == n && eq(B1, d, n)); mpack_node_check_utf8(nd);
            if (!(n && memchr(d, 0, n))) { memset(B1, 'Z', n + 1u); mpack_node_copy_cstr(nd, B1, (size_t)n + 1); NWANT(eq(B1, d, n) && B1[n] == 0); char* q = mpack_node_cstr_alloc(nd, (size_t)n + 1); NWANT(q && strlen(q) == n && eq(q, d, n)); if (q) MPACK_FREE(q); } break;
        case RV_BIN: NWANT(mpack_node_bin_size(nd) == n && eq(mpack_node_bin_data(nd), d, n)); { char* q = n ? mpack_node_data_alloc(nd, n) : NULL; NWANT(eq(q, d, n)); if (q) MPACK_FREE(q); } break;
        case RV_EXT: NWANT(mpack_node_exttype(nd) == v->ext && mpack_node_data_len(nd) == n && eq(mpack_node_data(nd), d, n)); break;
        case TS: { mpack_timestamp_t s = mpack_node_timestamp(nd); NWANT(s.seconds == (int64_t)u && s.nanoseconds == n); NWANT(mpack_node_timestamp_seconds(nd) == (int64_t)u && mpack_node_timestamp_nanoseconds(nd) == n); break; }
        case RV_ARR: NWANT(mpack_node_array_length(nd) == n); for (uint32_t j = 0; j < n; ++j) rd_node(mpack_node_array_at(nd, j), &v->kid[j]); break;
        case RV_MAP: NWANT(mpack_node_map_count(nd) == n); for (uint32_t j = 0; j < n; ++j) { rd_node(mpack_node_map_key_at(nd, j), &v->kid[2 * j]); rd_node(mpack_node_map_value_at(nd, j), &v->kid[2 * j + 1]); } break;
    }
}
/* ------------------------------------------------------------ a message and its readers */
static size_t at, chunk; static bool pad; static char* copy; static size_t total;
static size_t r_fill(mpack_reader_t* r, char* b, size_t n) { (void)r; size_t k = total - at; if (k > n) k = n; if (k > chunk) k = chunk; memcpy(b, copy + at, k); at += k; return k; }
static size_t t_fill(mpack_tree_t* t, char* b, size_t n) { (void)t; size_t k = total - at; if (k > n) k = n; if (k > chunk) k = chunk; memcpy(b, copy + at, k); at += k; return k; }
static char big_rb[70200];
static void read_back(bool thorough) {
    /* followed by another message in half of the readings, exactly at the end otherwise */
    for (int p = 0; p < 2; ++p) {
        total = nbytes + (p ? 3 : 0); copy = (char*)malloc(total ? total : 1); memcpy(copy, bytes, nbytes); if (p) memcpy(copy + nbytes, "\xcd\x12\x34", 3);
        for (unsigned a = 0; a < (thorough ? 10u : 3u); ++a) for (int api = 0; api < 2; ++api) for (int src = 0; src < 3; ++src) {
            if (src == 2 && nbytes > 1000) continue;
            snprintf(hist, sizeof hist, "read by %s from source %d, alternative %u, %s", api ? "expect" : "tags", src, a, p ? "followed by a message" : "at the end"); ralt = a; rpos = 0; at = 0; chunk = src == 2 ? 1 : 1000;
            if (src == 0) mpack_reader_init_data(&R, copy, total); else { size_t bs = nbytes + 8 < 4096 ? 40 : sizeof big_rb; mpack_reader_init(&R, big_rb, bs, 0); mpack_reader_set_fill(&R, r_fill); }
            if (api) rd_expect(doc); else rd_tag(doc);
            if (mpack_reader_error(&R)) BAD("%s", ES(mpack_reader_error(&R)));
            const char* rest; size_t left = mpack_reader_remaining(&R, &rest); size_t after = src ? total - at : 0;
            if (left + after != total - nbytes) BAD("%zu bytes are left instead of %zu", left + after, total - nbytes);
            if (p && (mpack_expect_u16(&R) != 0x1234 || mpack_reader_error(&R))) BAD("the next message is not found");
            if (mpack_reader_destroy(&R)) BAD("destroy");
            mc_eval(1);
        }
        for (int src = 0; src < 3; ++src) {
            snprintf(hist, sizeof hist, "parsed from source %d, %s", src, p ? "followed by a message" : "at the end"); mpack_tree_t t; at = 0; chunk = src == 2 ? 1 : 1000;
            if (src == 2 && nbytes > 1000) continue;
            if (src == 0) mpack_tree_init_data(&t, copy, total); else mpack_tree_init_stream(&t, t_fill, NULL, 1000000, 100000);
            mpack_tree_parse(&t); if (mpack_tree_error(&t)) BAD("%s", ES(mpack_tree_error(&t)));
            if (mpack_tree_size(&t) != nbytes) BAD("size %zu", mpack_tree_size(&t));
            rd_node(mpack_tree_root(&t), doc); if (mpack_tree_error(&t)) BAD("query: %s", ES(mpack_tree_error(&t)));
            if (p) { mpack_tree_parse(&t); if (mpack_node_u16(mpack_tree_root(&t)) != 0x1234 || mpack_tree_error(&t)) BAD("the next message is not found"); }
            if (mpack_tree_destroy(&t)) BAD("destroy"); mc_eval(1);
        }
        free(copy); if (env_live_blocks) BAD("leak");
    }
    mc_nontrivial(1);
}
static rbuf sink; static void on_flush(mpack_writer_t* w, const char* d, size_t n) { (void)w; rb_mem(&sink, d, n); }
static void all(unsigned alts, bool thorough) {
    static rbuf seen[8]; int nseen = 0; static char fb[80000], sb[40];
    for (int s = 0; s < 8; ++s) rb_free(&seen[s]);
    for (way = 0; way < 4; ++way) for (alt = 0; alt < alts; ++alt) for (int s = 0; s < 3; ++s) {
        char wh[80]; snprintf(wh, sizeof wh, "way %d alternative %u sink %d", way, alt, s); what = wh; strcpy(hist, "written"); bytes = NULL; nbytes = 0;
        env_reset(); pos = 0; mpack_writer_t w; char* g = NULL; size_t gs = 0; sink.n = 0;
        if (s == 0) mpack_writer_init(&w, fb, sizeof fb); else if (s == 1) mpack_writer_init_growable(&w, &g, &gs); else { mpack_writer_init(&w, sb, sizeof sb); mpack_writer_set_flush(&w, on_flush); }
        wr(&w, doc); size_t used = s == 0 ? mpack_writer_buffer_used(&w) : 0; mpack_error_t e = mpack_writer_destroy(&w); if (e) BAD("%s", ES(e));
        bytes = s == 0 ? fb : s == 1 ? g : (char*)sink.p; nbytes = s == 0 ? used : s == 1 ? gs : sink.n;
        int k = 0; for (; k < nseen; ++k) if (seen[k].n == nbytes && eq(seen[k].p, bytes, nbytes)) break;
        bool fresh = k == nseen; if (fresh && nseen < 8) rb_mem(&seen[nseen++], bytes, nbytes);
        rbuf cp = {0}; rb_mem(&cp, bytes, nbytes); if (g) MPACK_FREE(g); bytes = (char*)cp.p;
        if (fresh) read_back(thorough);
        if (env_live_blocks) BAD("leak"); rb_free(&cp); mc_step(1);
    }
    what = "";
}
static const gn leaves[] = { {.t = RV_UINT, .u = 5}, {.t = RV_STR, .n = 3}, {.t = RV_INT, .i = -70000}, {.t = RV_BIN, .n = 9}, {.t = RV_NIL}, {.t = RV_F64, .u = 0x3ff8000000000000ull}, {.t = TS, .u = 1234567890, .n = 5},
    {.t = RV_EXT, .ext = 9, .n = 4}, {.t = RV_BOOL, .u = 1}, {.t = RV_STR, .n = 40}, {.t = RV_UINT, .u = 0x100000000ull}, {.t = RV_F32, .u = 0x3fc00000}, {.t = RV_BIN, .n = 0}, {.t = RV_STR, .n = 0}, {.t = RV_INT, .i = -1}, {.t = RV_EXT, .ext = 100, .n = 33} };
static uint64_t dhash(const gn* v) { uint64_t h = mc_mix(v->t, v->u) ^ mc_mix((uint64_t)v->i, v->n); for (uint32_t i = 0; i < v->kids; ++i) h = mc_mix(h, dhash(&v->kid[i])); return h; }
void mc_body(void) {
    mc_shard_depth = 3; gn top; memset(&top, 0, sizeof top); (void)pad; (void)shapes;
    switch (mc_choose(5, "part: documents / numbers / lengths / counts / nesting")) {
    case 0: { gctx g; g_init(&g, leaves, mc_tier ? 9 : 7, K_NODES, 4, 4); doc = g_doc(&g); for (int i = 0; i < g.used; ++i) g.pool[i].data = pdata(g.pool[i].t) + i; mc_state(dhash(doc)); all(4, true); break; }
    case 1: { uint64_t from, to; shard(1024 * 4, 64, &from, &to);
        for (uint64_t x = from; x < to; ++x) { uint32_t k = (uint32_t)(x / 4); uint64_t b = k < 512 ? ((uint64_t)1 << (k / 8)) + (uint64_t)(k % 8) - 4 : (uint64_t)0 - (((uint64_t)1 << ((k - 512) / 8)) + (k % 8) - 4); gn kk[2];
            memset(kk, 0, sizeof kk);
            switch (x % 4) { case 0: kk[0].t = RV_UINT; kk[0].u = b; break; case 1: kk[0].t = RV_INT; kk[0].i = (int64_t)b; if (kk[0].i >= 0) kk[0].i = -1 - kk[0].i; break;
                case 2: kk[0].t = RV_F64; kk[0].u = b; if (isnan(d_of(b))) kk[0].u |= 0x0008000000000000ull; break; case 3: kk[0].t = TS; kk[0].u = b; kk[0].n = (uint32_t)((k % 5) * 249999999u + (k % 5 == 4 ? 3 : 0)); break; }
            kk[1].t = RV_F32; kk[1].u = (uint32_t)b; if (isnan(f_of((uint32_t)b))) kk[1].u |= 0x00400000u; top.t = RV_ARR; top.n = top.kids = 2; top.kid = kk; doc = &top; mc_state(dhash(doc)); all(6, true); mc_tick(); }
        break; }
    case 2: { static const uint32_t X[] = {255, 256, 257, 300, 4095, 4096, 65534, 65535, 65536, 65537}; int t = (int)mc_choose(3, "kind"); uint32_t l = mc_choose(90, "length"), n = l < 80 ? l : X[l - 80]; gn kk[2] = {{.t = (uint8_t)(RV_STR + t), .n = n, .data = pdata(RV_STR + t) + 3, .ext = (int8_t)(n * 37)}, {.t = RV_UINT, .u = 7}};
        top.t = RV_ARR; top.n = top.kids = 2; top.kid = kk; doc = &top; mc_state(dhash(doc)); all(9, true); break; }
    case 3: { static const uint32_t X[] = {255, 256, 1000, 32767, 32768, 65535, 65536, 65537}; int m = (int)mc_choose(2, "kind"); uint32_t l = mc_choose(48, "count"), n = l < 40 ? l : X[l - 40]; if (m && n > 40000) n = 32770 + n % 3;
        gn* kk = (gn*)calloc((size_t)n * 2 + 1, sizeof(gn)); top.kids = m ? 2 * n : n; for (uint32_t i = 0; i < top.kids; ++i) { kk[i].t = RV_UINT; kk[i].u = i % 100; } top.t = m ? RV_MAP : RV_ARR; top.n = n; top.kid = kk; doc = &top; mc_state(dhash(doc)); all(n > 300 ? 1 : 3, false); free(kk); break; }
    case 4: { int pat = (int)mc_choose(8, "pattern"); uint32_t dep = 1 + mc_choose(60, "depth"); gn* st = (gn*)calloc((size_t)dep * 4 + 4, sizeof(gn)); gn* cur = st; uint32_t used = 1;
        for (uint32_t i = 0; i < dep; ++i) { bool map = pat & (1 << (i % 3)); cur->t = map ? RV_MAP : RV_ARR; cur->n = map ? 1 : 1 + i % 2; cur->kids = map ? 2 : cur->n; cur->kid = &st[used]; used += cur->kids; if (map) { cur->kid[0].t = RV_STR; cur->kid[0].n = i % 40; cur->kid[0].data = payload() + i; cur = &cur->kid[1]; } else { if (cur->n == 2) cur->kid[0].t = RV_NIL; cur = &cur->kid[cur->n - 1]; } }
        cur->t = RV_UINT; cur->u = 77; doc = st; mc_state(dhash(doc)); all(3, false); free(st); break; }
    }
    mc_log("document of %d objects\n", g_nodes(doc == &top && top.kids > 10 ? &leaves[0] : &leaves[0]));
}
