/* C32: what every node accessor accepts. Every value (and the missing node) at every place in every kind of
 * tree through every accessor: the result and the error come from the value alone. Then enums: every short
 * string and byte blob against every short list of strings. */
#include "common.h"
#include "longs.h"
#ifndef N_ENUM
#define N_ENUM 3
#endif
typedef struct { const char* e; uint8_t n; } val;
#define V(s) {s, sizeof(s) - 1}
static const val vals[] = {
    V("\xc0"), V("\xc2"), V("\xc3"), V("\x00"), V("\x01"), V("\x05"), V("\x7f"), V("\xcc\x80"), V("\xcc\xff"), V("\xcd\x01\x00"), V("\xcd\x7f\xff"), V("\xcd\x80\x00"), V("\xcd\xff\xff"),
    V("\xce\x00\x01\x00\x00"), V("\xce\x7f\xff\xff\xff"), V("\xce\x80\x00\x00\x00"), V("\xce\xff\xff\xff\xff"), V("\xcf\x00\x00\x00\x01\x00\x00\x00\x00"),
    V("\xcf\x7f\xff\xff\xff\xff\xff\xff\xff"), V("\xcf\x80\x00\x00\x00\x00\x00\x00\x00"), V("\xcf\xff\xff\xff\xff\xff\xff\xff\xff"), V("\xd0\x00"), V("\xd0\x07"), V("\xd3\x00\x00\x00\x00\x00\x00\x00\x2a"),
    V("\xff"), V("\xe0"), V("\xd0\x80"), V("\xd1\xff\x7f"), V("\xd1\x80\x00"), V("\xd2\xff\xff\x7f\xff"), V("\xd2\x80\x00\x00\x00"), V("\xd3\xff\xff\xff\xff\x7f\xff\xff\xff"), V("\xd3\x80\x00\x00\x00\x00\x00\x00\x00"),
    V("\xca\x00\x00\x00\x00"), V("\xca\x3f\x80\x00\x00"), V("\xca\xc0\x20\x00\x00"), V("\xcb\x00\x00\x00\x00\x00\x00\x00\x00"), V("\xcb\x40\x09\x21\xfb\x54\x44\x2d\x18"), V("\xcb\xbf\xf0\x00\x00\x00\x00\x00\x00"),
    V("\xa0"), V("\xa1" "a"), V("\xa2" "ab"), V("\xa3nil"), V("\xd9\x04true"), V("\xa2" "a\0"), V("\xa1\xff"), V("\xa2\xc3\xa9"), V("\xda\x00\x05" "hello"), V("\xdb\x00\x00\x00\x01z"),
    V("\xc4\x00"), V("\xc4\x01" "a"), V("\xc5\x00\x03" "abc"), V("\xc6\x00\x00\x00\x02\xff\x00"),
    V("\xd4\x05" "a"), V("\xd5\xff" "ab"), V("\xd6\xff\x00\x00\x00\x09"), V("\xd6\x00" "abcd"), V("\xd7\xff\x00\x00\x00\x04\x00\x00\x00\x07"), V("\xd7\xff\xff\xff\xff\xfc\x00\x00\x00\x07"), V("\xd7\x7f" "abcdefgh"), V("\xd7\xff\x00\x00\x00\x02\x80\x00\x00\x01"), V("\xd7\xff\xee\x6b\x27\xff\xff\xff\xff\xff"), V("\xd7\xff\xee\x6b\x28\x00\x00\x00\x00\x00"), V("\xc7\x0c\xff\x3b\x9a\xc9\xff\x80\x00\x00\x00\x00\x00\x00\x00"), V("\xc7\x0c\xff\x3b\x9a\xca\x00\x00\x00\x00\x00\x00\x00\x00\x00"), V("\xc7\x0b\xff" "abcdefghijk"), V("\xd6\xff\xff\xff\xff\xff"),
    V("\xc7\x0c\xff\x00\x00\x00\x03\xff\xff\xff\xff\xff\xff\xff\xfe"), V("\xc7\x00\x80"), V("\xc7\x00\xff"), V("\xd8\x01" "abcdefghabcdefgh"), V("\xc8\x00\x03\x02" "abc"), V("\xc9\x00\x00\x00\x01\x03" "a"),
    V("\x90"), V("\x91\xc0"), V("\x92\x01\xa1q"), V("\xdc\x00\x03\xc3\x91\x05\xc0"), V("\xdd\x00\x00\x00\x00"),
    V("\x80"), V("\x81\x05\xc3"), V("\x82\xa1" "a\x01\xff\x91\x02"), V("\xde\x00\x01\xc0\xc0"), V("\xdf\x00\x00\x00\x02\x05\x05\x06\x90"), V("\x82\x05\xc0\xa1" "a\xc2"), V("\x82\xc4\x01" "a\x01\xca\x40\xa0\x00\x00\x02"),
};
#define NV ((uint32_t)(sizeof vals / sizeof vals[0]))
enum { A_TYPE, A_TAG, A_ERROR, A_ISNIL, A_ISMISSING, A_NIL, A_MISSING, A_BOOL, A_TRUE, A_FALSE, A_U8, A_U16, A_U32, A_U64, A_UINT, A_I8, A_I16, A_I32, A_I64, A_INT,
    A_FLOAT, A_DOUBLE, A_FSTRICT, A_DSTRICT, A_TS, A_TSSEC, A_TSNANO, A_EXTTYPE, A_BINSIZE, A_DATALEN, A_STRLEN, A_STR, A_DATA, A_BINDATA,
    A_COPYDATA, A_COPYUTF8, A_COPYCSTR, A_COPYUTF8CSTR, A_DATAALLOC, A_CSTRALLOC, A_UTF8CSTRALLOC, A_UTF8, A_UTF8CSTR, A_ENUM, A_ENUMOPT, A_ARRLEN, A_MAPCOUNT,
    A_ARRAT, A_KEYAT, A_VALAT, A_MAPINT, A_MAPINTOPT, A_MAPUINT, A_MAPUINTOPT, A_MAPSTR, A_MAPSTROPT, A_MAPCSTR, A_MAPCSTROPT, A_HASINT, A_HASUINT, A_HASSTR, A_HASCSTR, A_COUNT };
static const char* const an[] = {"type", "tag", "error", "is_nil", "is_missing", "nil", "missing", "bool", "true", "false", "u8", "u16", "u32", "u64", "uint", "i8", "i16", "i32", "i64", "int",
    "float", "double", "float_strict", "double_strict", "timestamp", "timestamp_seconds", "timestamp_nanoseconds", "exttype", "bin_size", "data_len", "strlen", "str", "data", "bin_data",
    "copy_data", "copy_utf8", "copy_cstr", "copy_utf8_cstr", "data_alloc", "cstr_alloc", "utf8_cstr_alloc", "check_utf8", "check_utf8_cstr", "enum", "enum_optional", "array_length", "map_count",
    "array_at", "map_key_at", "map_value_at", "map_int", "map_int_optional", "map_uint", "map_uint_optional", "map_str", "map_str_optional", "map_cstr", "map_cstr_optional", "map_contains_int", "map_contains_uint", "map_contains_str", "map_contains_cstr"};
/* indexes for the *_at accessors: small ones and those whose double or whose size in bytes wraps to a small one */
#define H64(x) ((size_t)1 << (sizeof(size_t) * 8 - (x)))
static const size_t idx[] = {0, 1, 2, 3, 4, SIZE_MAX, SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX / 2 + 2, (size_t)0xffffffffu, (size_t)0x100000000ull, H64(4), H64(4) + 1, H64(5), H64(5) + 1};
#define NIDX ((uint32_t)(sizeof idx / sizeof idx[0]))
static uint32_t subs(uint32_t a) { return a == A_ARRAT || a == A_KEYAT || a == A_VALAT ? NIDX : 1; }
static const char* const list[] = {"b", "ab", "a", "nil", "hello"};

static mpack_tree_t T; static mpack_node_data_t pool[64]; static int handled; static mpack_error_t herr;
static void on_err(mpack_tree_t* t, mpack_error_t e) { (void)t; ++handled; herr = e; }
static rbuf doc; static size_t dpos;
static size_t rd(mpack_tree_t* t, char* b, size_t n) { (void)t; size_t k = doc.n - dpos; if (k > n) k = n; if (k > 3) k = 3; memcpy(b, doc.p + dpos, k); dpos += k; return k; }

typedef struct { mpack_error_t err; int node; uint64_t u; char s[64]; size_t sn; bool nul; } res;  /* node: 1 a node with tag text in s */
static void take_node(res* r, mpack_node_t n) {
    r->node = 1; r->u = 0;
    if (mpack_tree_error(&T) != mpack_ok) { r->u = mpack_node_type(n) == mpack_type_nil && mpack_node_is_nil(n) ? 1 : 0; return; }
    mpack_tag_t t = mpack_node_tag(n); r->u = (uint64_t)mpack_tag_type(&t);
    size_t len = 0; switch (mpack_tag_type(&t)) { case mpack_type_uint: len = (size_t)mpack_tag_uint_value(&t); break; case mpack_type_array: len = mpack_tag_array_count(&t); break; case mpack_type_map: len = mpack_tag_map_count(&t); break; case mpack_type_bool: len = mpack_tag_bool_value(&t); break; case mpack_type_str: len = mpack_tag_str_length(&t); break; default: break; }
    r->u |= (uint64_t)len << 8;
}
static uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static uint32_t fbits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static void put(res* r, const char* p, size_t n) { r->sn = n; if (p && n <= sizeof r->s) memcpy(r->s, p, n); }
static void call(uint32_t a, size_t sub, mpack_node_t n, res* r) {
    memset(r, 0, sizeof *r); char buf[64]; memset(buf, 0x55, sizeof buf); const char* p; char* q; const char** L = (const char**)(uintptr_t)list;
    switch (a) {
        case A_TYPE: r->u = (uint64_t)mpack_node_type(n); break;
        case A_TAG: { mpack_tag_t t = mpack_node_tag(n); mpack_type_t ty = mpack_tag_type(&t); uint64_t x = 0;      /* type, and everything it says */
            switch (ty) { case mpack_type_bool: x = mpack_tag_bool_value(&t); break; case mpack_type_uint: x = mpack_tag_uint_value(&t); break; case mpack_type_int: x = (uint64_t)mpack_tag_int_value(&t); break;
                case mpack_type_float: x = fbits(mpack_tag_float_value(&t)); break; case mpack_type_double: x = dbits(mpack_tag_double_value(&t)); break; case mpack_type_str: x = mpack_tag_str_length(&t); break; case mpack_type_bin: x = mpack_tag_bin_length(&t); break;
                case mpack_type_array: x = mpack_tag_array_count(&t); break; case mpack_type_map: x = mpack_tag_map_count(&t); break;
#if MPACK_EXTENSIONS
                case mpack_type_ext: x = (uint64_t)mpack_tag_ext_length(&t) << 8 | (uint8_t)mpack_tag_ext_exttype(&t); break;
#endif
                default: break; }
            r->u = mc_mix((uint64_t)ty, x); break; }
        case A_ERROR: r->u = (uint64_t)mpack_node_error(n); break;
        case A_ISNIL: r->u = mpack_node_is_nil(n); break;
        case A_ISMISSING: r->u = mpack_node_is_missing(n); break;
        case A_NIL: mpack_node_nil(n); break;
        case A_MISSING: mpack_node_missing(n); break;
        case A_BOOL: r->u = mpack_node_bool(n); break;
        case A_TRUE: mpack_node_true(n); break;
        case A_FALSE: mpack_node_false(n); break;
        case A_U8: r->u = mpack_node_u8(n); break;
        case A_U16: r->u = mpack_node_u16(n); break;
        case A_U32: r->u = mpack_node_u32(n); break;
        case A_U64: r->u = mpack_node_u64(n); break;
        case A_UINT: r->u = mpack_node_uint(n); break;
        case A_I8: r->u = (uint64_t)(int64_t)mpack_node_i8(n); break;
        case A_I16: r->u = (uint64_t)(int64_t)mpack_node_i16(n); break;
        case A_I32: r->u = (uint64_t)(int64_t)mpack_node_i32(n); break;
        case A_I64: r->u = (uint64_t)mpack_node_i64(n); break;
        case A_INT: r->u = (uint64_t)(int64_t)mpack_node_int(n); break;
        case A_FLOAT: r->u = fbits(mpack_node_float(n)); break;
        case A_DOUBLE: r->u = dbits(mpack_node_double(n)); break;
        case A_FSTRICT: r->u = fbits(mpack_node_float_strict(n)); break;
        case A_DSTRICT: r->u = dbits(mpack_node_double_strict(n)); break;
#if MPACK_EXTENSIONS
        case A_TS: { mpack_timestamp_t ts = mpack_node_timestamp(n); r->u = (uint64_t)ts.seconds; r->sn = ts.nanoseconds; break; }
        case A_TSSEC: r->u = (uint64_t)mpack_node_timestamp_seconds(n); break;
        case A_TSNANO: r->u = mpack_node_timestamp_nanoseconds(n); break;
        case A_EXTTYPE: r->u = (uint64_t)(int64_t)mpack_node_exttype(n); break;
#else
        case A_TS: case A_TSSEC: case A_TSNANO: case A_EXTTYPE: break;
#endif
        case A_BINSIZE: r->u = mpack_node_bin_size(n); break;
        case A_DATALEN: r->u = mpack_node_data_len(n); break;
        case A_STRLEN: r->u = mpack_node_strlen(n); break;
        case A_STR: p = mpack_node_str(n); r->u = p != NULL; put(r, p, p ? mpack_node_strlen(n) : 0); break;
        case A_DATA: p = mpack_node_data(n); r->u = p != NULL; put(r, p, p ? mpack_node_data_len(n) : 0); break;
        case A_BINDATA: p = mpack_node_bin_data(n); r->u = p != NULL; put(r, p, p ? mpack_node_bin_size(n) : 0); break;
        case A_COPYDATA: r->u = mpack_node_copy_data(n, buf, 40); put(r, buf, (size_t)r->u); break;
        case A_COPYUTF8: r->u = mpack_node_copy_utf8(n, buf, 40); put(r, buf, (size_t)r->u); break;
        case A_COPYCSTR: mpack_node_copy_cstr(n, buf, 40); put(r, buf, strnlen(buf, 40)); break;
        case A_COPYUTF8CSTR: mpack_node_copy_utf8_cstr(n, buf, 40); put(r, buf, strnlen(buf, 40)); break;
#ifdef MPACK_MALLOC
        case A_DATAALLOC: q = mpack_node_data_alloc(n, 40); r->u = q != NULL; put(r, q, q ? mpack_node_data_len(n) : 0); MPACK_FREE(q); break;
        case A_CSTRALLOC: q = mpack_node_cstr_alloc(n, 40); r->u = q != NULL; put(r, q, q ? strlen(q) : 0); MPACK_FREE(q); break;
        case A_UTF8CSTRALLOC: q = mpack_node_utf8_cstr_alloc(n, 40); r->u = q != NULL; put(r, q, q ? strlen(q) : 0); MPACK_FREE(q); break;
#else
        case A_DATAALLOC: case A_CSTRALLOC: case A_UTF8CSTRALLOC: (void)q; break;
#endif
        case A_UTF8: mpack_node_check_utf8(n); break;
        case A_UTF8CSTR: mpack_node_check_utf8_cstr(n); break;
        case A_ENUM: r->u = mpack_node_enum(n, L, 5); break;
        case A_ENUMOPT: r->u = mpack_node_enum_optional(n, L, 5); break;
        case A_ARRLEN: r->u = mpack_node_array_length(n); break;
        case A_MAPCOUNT: r->u = mpack_node_map_count(n); break;
        case A_ARRAT: take_node(r, mpack_node_array_at(n, idx[sub])); break;
        case A_KEYAT: take_node(r, mpack_node_map_key_at(n, idx[sub])); break;
        case A_VALAT: take_node(r, mpack_node_map_value_at(n, idx[sub])); break;
        case A_MAPINT: take_node(r, mpack_node_map_int(n, 5)); break;
        case A_MAPINTOPT: take_node(r, mpack_node_map_int_optional(n, 5)); break;
        case A_MAPUINT: take_node(r, mpack_node_map_uint(n, 5)); break;
        case A_MAPUINTOPT: take_node(r, mpack_node_map_uint_optional(n, 5)); break;
        case A_MAPSTR: take_node(r, mpack_node_map_str(n, "ax", 1)); break;
        case A_MAPSTROPT: take_node(r, mpack_node_map_str_optional(n, "ax", 1)); break;
        case A_MAPCSTR: take_node(r, mpack_node_map_cstr(n, "a")); break;
        case A_MAPCSTROPT: take_node(r, mpack_node_map_cstr_optional(n, "a")); break;
        case A_HASINT: r->u = mpack_node_map_contains_int(n, 5); break;
        case A_HASUINT: r->u = mpack_node_map_contains_uint(n, 5); break;
        case A_HASSTR: r->u = mpack_node_map_contains_str(n, "ax", 1); break;
        case A_HASCSTR: r->u = mpack_node_map_contains_cstr(n, "a"); break;
    }
    r->err = mpack_tree_error(&T);
}
/* ------------------------------------------------ the specification */
static mpack_type_t type_of(const rv* v) {
    if (!v) return mpack_type_missing;
    switch (v->t) { case RV_NIL: return mpack_type_nil; case RV_BOOL: return mpack_type_bool; case RV_UINT: return mpack_type_uint; case RV_INT: return mpack_type_int; case RV_F32: return mpack_type_float; case RV_F64: return mpack_type_double;
        case RV_STR: return mpack_type_str; case RV_BIN: return mpack_type_bin; case RV_ARR: return mpack_type_array; case RV_MAP: return mpack_type_map;
#if MPACK_EXTENSIONS
        case RV_EXT: return mpack_type_ext;
#endif
        default: return mpack_type_nil; }
}
static void spec_node(res* w, const rv* v) {
    w->node = 1; w->u = (uint64_t)type_of(v); if (!v) return;
    size_t len = v->t == RV_UINT || v->t == RV_BOOL ? (size_t)v->u : v->t == RV_ARR || v->t == RV_MAP || v->t == RV_STR ? v->n : 0; w->u |= (uint64_t)len << 8;
}
static void bad(res* w, mpack_error_t e) { memset(w, 0, sizeof *w); w->err = e; }
static bool utf8_ok(const uint8_t* p, size_t n) { for (size_t i = 0; i < n; ++i) if (p[i] == 0xff) return false; return true; }   /* the only ill-formed byte among vals */
static void spec(uint32_t a, size_t sub, const rv* v, const uint8_t* d, res* w) {
    memset(w, 0, sizeof *w); uint8_t t = v ? v->t : 200; const uint8_t* p = v ? d + v->hdr : NULL; size_t n = v ? v->n : 0; if (!v) t = 200;
    bool blob = t == RV_STR || t == RV_BIN || t == RV_EXT, isnum = t == RV_UINT || t == RV_INT;
    bool neg = t == RV_INT && v->i < 0; uint64_t mag = !isnum ? 0 : neg ? (uint64_t)v->i : t == RV_INT ? (uint64_t)v->i : v->u;
    static const int ub[] = {8, 16, 32, 64, 32};
    switch (a) {
        case A_TYPE: w->u = (uint64_t)type_of(v); return;
        case A_TAG: w->u = mc_mix((uint64_t)type_of(v), !v ? 0 : t == RV_INT ? (uint64_t)v->i : t == RV_EXT ? (uint64_t)n << 8 | (uint8_t)v->ext : blob || t == RV_ARR || t == RV_MAP ? n : t == RV_NIL ? 0 : v->u); return;
        case A_ERROR: return;
        case A_ISNIL: w->u = t == RV_NIL; return;
        case A_ISMISSING: w->u = !v; return;
        case A_NIL: if (t != RV_NIL) bad(w, mpack_error_type); return;
        case A_MISSING: if (v) bad(w, mpack_error_type); return;
        case A_BOOL: if (t != RV_BOOL) bad(w, mpack_error_type); else w->u = v->u; return;
        case A_TRUE: if (t != RV_BOOL || !v->u) bad(w, mpack_error_type); return;
        case A_FALSE: if (t != RV_BOOL || v->u) bad(w, mpack_error_type); return;
        case A_U8: case A_U16: case A_U32: case A_U64: case A_UINT: { int b = ub[a - A_U8];
            if (!isnum || neg || (b < 64 && mag >> b)) bad(w, mpack_error_type); else w->u = mag; return; }
        case A_I8: case A_I16: case A_I32: case A_I64: case A_INT: { int b = ub[a - A_I8];
            if (!isnum || (!neg && mag >> (b - 1)) || (neg && b < 64 && v->i < -((int64_t)1 << (b - 1)))) bad(w, mpack_error_type); else w->u = mag; return; }
        case A_FLOAT: case A_DOUBLE: case A_FSTRICT: case A_DSTRICT: {
            float f = 0; double x = 0; uint32_t b32 = v ? (uint32_t)v->u : 0; memcpy(&f, &b32, 4); if (v) memcpy(&x, &v->u, 8);
            if (t == RV_F32) x = (double)f; else if (t == RV_F64) f = (float)x; else if (isnum) { x = neg ? (double)v->i : (double)mag; f = neg ? (float)v->i : (float)mag; } else { bad(w, mpack_error_type); return; }
            if ((a == A_FSTRICT && t != RV_F32) || (a == A_DSTRICT && isnum)) { bad(w, mpack_error_type); return; }
            w->u = a == A_FLOAT || a == A_FSTRICT ? fbits(f) : dbits(x); return; }
        case A_TS: case A_TSSEC: case A_TSNANO: {
            if (t != RV_EXT || v->ext != -1) { bad(w, mpack_error_type); return; }
            if (n != 4 && n != 8 && n != 12) { bad(w, mpack_error_invalid); return; }
            uint64_t x = 0; for (size_t i = 0; i < (n == 12 ? 4 : n); ++i) x = x << 8 | p[i];
            int64_t s; uint32_t ns;
            if (n == 4) { s = (int64_t)x; ns = 0; } else if (n == 8) { ns = (uint32_t)(x >> 34); s = (int64_t)(x & 0x3ffffffffull); } else { ns = (uint32_t)x; uint64_t y = 0; for (int i = 4; i < 12; ++i) y = y << 8 | p[i]; s = (int64_t)y; }
            if (ns > 999999999) { bad(w, mpack_error_invalid); return; }
            if (a == A_TSNANO) w->u = ns; else { w->u = (uint64_t)s; if (a == A_TS) w->sn = ns; } return; }
        case A_EXTTYPE: if (t != RV_EXT) bad(w, mpack_error_type); else w->u = (uint64_t)(int64_t)v->ext; return;
        case A_BINSIZE: if (t != RV_BIN) bad(w, mpack_error_type); else w->u = n; return;
        case A_DATALEN: if (!blob) bad(w, mpack_error_type); else w->u = n; return;
        case A_STRLEN: if (t != RV_STR) bad(w, mpack_error_type); else w->u = n; return;
        case A_STR: case A_DATA: case A_BINDATA: if (a == A_STR ? t != RV_STR : a == A_DATA ? !blob : t != RV_BIN) bad(w, mpack_error_type); else { w->u = 1; put(w, (const char*)p, n); } return;
        case A_COPYDATA: if (!blob) bad(w, mpack_error_type); else { w->u = n; put(w, (const char*)p, n); } return;
        case A_COPYUTF8: if (t != RV_STR || !utf8_ok(p, n)) bad(w, mpack_error_type); else { w->u = n; put(w, (const char*)p, n); } return;
        case A_COPYCSTR: case A_COPYUTF8CSTR: case A_CSTRALLOC: case A_UTF8CSTRALLOC:
            if (t != RV_STR || memchr(p, 0, n) || ((a == A_COPYUTF8CSTR || a == A_UTF8CSTRALLOC) && !utf8_ok(p, n))) bad(w, mpack_error_type); else { w->u = a >= A_DATAALLOC; put(w, (const char*)p, n); } return;
        case A_DATAALLOC: if (!blob) bad(w, mpack_error_type); else { w->u = 1; put(w, (const char*)p, n); } return;
        case A_UTF8: case A_UTF8CSTR: if (t != RV_STR || !utf8_ok(p, n) || (a == A_UTF8CSTR && memchr(p, 0, n))) bad(w, mpack_error_type); return;
        case A_ENUM: case A_ENUMOPT: w->u = 5; if (t == RV_STR) for (uint64_t i = 5; i-- > 0;) if (strlen(list[i]) == n && !memcmp(list[i], p, n)) w->u = i;
            if (w->u == 5 && a == A_ENUM) { w->err = mpack_error_type; } return;
        case A_ARRLEN: if (t != RV_ARR) bad(w, mpack_error_type); else w->u = n; return;
        case A_MAPCOUNT: if (t != RV_MAP) bad(w, mpack_error_type); else w->u = n; return;
        case A_ARRAT: case A_KEYAT: case A_VALAT:
            if (t != (a == A_ARRAT ? RV_ARR : RV_MAP)) w->err = mpack_error_type; else if (idx[sub] >= n) w->err = mpack_error_data;
            if (w->err) { w->node = 1; w->u = 1; return; }
            spec_node(w, a == A_ARRAT ? &v->kid[idx[sub]] : &v->kid[2 * idx[sub] + (a == A_VALAT)]); return;
        default: {
            bool has = a >= A_HASINT, opt = a == A_MAPINTOPT || a == A_MAPUINTOPT || a == A_MAPSTROPT || a == A_MAPCSTROPT; bool str = a == A_MAPSTR || a == A_MAPSTROPT || a == A_MAPCSTR || a == A_MAPCSTROPT || a == A_HASSTR || a == A_HASCSTR;
            if (t != RV_MAP) { w->err = mpack_error_type; if (!has) { w->node = 1; w->u = 1; } return; }
            const rv* hit = NULL;
            for (uint32_t i = 0; i < v->n; ++i) { const rv* k = &v->kid[2 * i]; bool m = str ? k->t == RV_STR && k->n == 1 && d[k->start] == 0xa1 && d[k->hdr] == 'a' : (k->t == RV_UINT && k->u == 5) || (k->t == RV_INT && k->i == 5); if (m) hit = &v->kid[2 * i + 1]; }
            if (has) { w->u = hit != NULL; return; }
            if (!hit && !opt) { w->err = mpack_error_data; w->node = 1; w->u = 1; return; }
            spec_node(w, hit); return; }
    }
}


enum { P_ROOT, P_A0, P_A1, P_A2, P_VALUE, P_KEY, P_MISS, P_COUNT };
static void build(uint32_t place, const val* v) {
    doc.n = 0;
    switch (place) {
        case P_ROOT: rb_mem(&doc, v->e, v->n); break;
        case P_A0: case P_A1: case P_A2: rb_u8(&doc, 0x93); for (uint32_t i = 0; i < 3; ++i) { if (i == place - P_A0) rb_mem(&doc, v->e, v->n); else { rb_mem(&doc, "\x92\xa1q\x07", 4); } } break;
        case P_VALUE: rb_mem(&doc, "\x82\x01\x91\x02\x03", 5); rb_mem(&doc, v->e, v->n); break;
        case P_KEY: rb_u8(&doc, 0x82); rb_mem(&doc, v->e, v->n); rb_mem(&doc, "\xc0\xa1z\x90", 4); break;
        case P_MISS: rb_mem(&doc, "\x82\xa1q\x01\x02\x03", 6); break;
    }
}
static void start(uint32_t kind) {
    dpos = 0; handled = 0; herr = mpack_ok;
    if (kind == 1) mpack_tree_init_pool(&T, (const char*)doc.p, doc.n, pool, 64);
#ifdef MPACK_MALLOC
    else if (kind == 2) mpack_tree_init_stream(&T, rd, NULL, 1000, 1000);
#endif
    else
#ifdef MPACK_MALLOC
        mpack_tree_init_data(&T, (const char*)doc.p, doc.n);
#else
        mpack_tree_init_pool(&T, (const char*)doc.p, doc.n, pool, 64);
#endif
    mpack_tree_set_error_handler(&T, on_err);
    mpack_tree_parse(&T);
}
static mpack_node_t locate(uint32_t place, uint32_t way) {
    mpack_node_t r = mpack_tree_root(&T);
    switch (place) {
        case P_A0: case P_A1: case P_A2: return mpack_node_array_at(r, place - P_A0);
        case P_VALUE: return mpack_node_map_value_at(r, 1);
        case P_KEY: return mpack_node_map_key_at(r, 0);
        case P_MISS: return way == 0 ? mpack_node_map_cstr_optional(r, "zz") : way == 1 ? mpack_node_map_str_optional(r, "q\0", 2) : way == 2 ? mpack_node_map_int_optional(r, -3) : mpack_node_map_uint_optional(r, 9);
        default: return r;
    }
}
static bool same(const res* a, const res* b) { return a->err == b->err && a->node == b->node && a->u == b->u && a->sn == b->sn && !memcmp(a->s, b->s, sizeof a->s); }
static void show(const res* r, char* b, size_t n) { snprintf(b, n, "%s %s%llx %zu:%s", ES(r->err), r->node ? "node " : "", (unsigned long long)r->u, r->sn, r->sn && r->sn < 60 ? hexs(r->s, r->sn) : ""); }

static void accessors(void) {
    uint32_t place = mc_choose(P_COUNT, "place"), kind = mc_choose(3, "tree");
    uint32_t vi = place == P_MISS ? mc_choose(4, "lookup") : mc_choose(NV, "value");
    const val* v = place == P_MISS ? NULL : &vals[vi];
    size_t off = 0, nn = 0; bool he = false; rv ref; memset(&ref, 0, sizeof ref); rv* pv = NULL;
    if (v) {
        int r = ref_parse((const uint8_t*)v->e, v->n, &off, &ref, &he, &nn); if (r != REF_OK || off != v->n) mc_fail("bad value %u", vi); pv = &ref;
#if !MPACK_EXTENSIONS
        if (ref.t == RV_EXT) { ref_free(&ref); mc_done(); return; }
#endif
    }
    build(place, v);
    mc_state(mc_mix(place * 1000 + vi, kind));
    for (uint32_t a = 0; a < A_COUNT; ++a) {
#if !MPACK_EXTENSIONS
        if (a >= A_TS && a <= A_EXTTYPE) continue;
#endif
#ifndef MPACK_MALLOC
        if (a >= A_DATAALLOC && a <= A_UTF8CSTRALLOC) continue;
#endif
        for (uint32_t sub = 0; sub < subs(a); ++sub) {
            res got, want; char g[200], x[200];
            start(kind);
            mpack_node_t n = locate(place, vi);
            if (mpack_tree_error(&T) != mpack_ok) mc_fail("place %u value %u: %s before the accessor", place, vi, ES(mpack_tree_error(&T)));
            spec(a, sub, pv, v ? (const uint8_t*)v->e : NULL, &want);
            call(a, sub, n, &got); mc_step(1); mc_eval(1); if (want.err == mpack_ok) mc_nontrivial(1);
            if (!same(&got, &want)) { show(&got, g, sizeof g); show(&want, x, sizeof x); mc_fail("mpack_node_%s on %s (place %u, tree %u, index %zu): %s, must be %s", an[a], v ? hexs(v->e, v->n) : "a missing node", place, kind, subs(a) > 1 ? idx[sub] : (size_t)0, g, x); }
            if (handled != (want.err != mpack_ok) || herr != want.err) mc_fail("mpack_node_%s on %s: the handler was called %d times with %s, the error is %s", an[a], v ? hexs(v->e, v->n) : "a missing node", handled, ES(herr), ES(want.err));
            if (want.err == mpack_ok) {
                call(a, sub, n, &got); if (!same(&got, &want)) { show(&got, g, sizeof g); mc_fail("mpack_node_%s on %s: the second call gives %s", an[a], v ? hexs(v->e, v->n) : "a missing node", g); }
            }
            if (mpack_tree_destroy(&T) != want.err) mc_fail("mpack_node_%s: destroy loses the error", an[a]);
        }
    }
    if (pv) ref_free(&ref);
}

/* every string of up to N_ENUM characters over a, b and NUL against every list of up to 3 strings */
static const char* const words[] = {"", "a", "b", "ab", "aa", "aba", "abb", "bab"};
static void enums(void) {
    uint32_t len = mc_choose(N_ENUM + 1, "length"); char s[8];
    for (uint32_t i = 0; i < len; ++i) s[i] = "ab\0"[mc_choose(3, "character")];
    uint32_t type = mc_choose(3, "type");
    doc.n = 0; if (type == 0) ref_str_hdr(&doc, len, false); else if (type == 1) ref_bin_hdr(&doc, len, false); else { rb_u8(&doc, 0xd9); rb_u8(&doc, len); } rb_mem(&doc, s, len);
    mc_state(mc_hash(1, doc.p, doc.n));
    for (uint32_t count = 0; count <= 3; ++count) {
        uint32_t combos = 1; for (uint32_t i = 0; i < count; ++i) combos *= 8;
        for (uint32_t c = 0; c < combos; ++c) {
            const char* L[4] = {NULL, NULL, NULL, "a"}; uint32_t k = c; for (uint32_t i = 0; i < count; ++i, k /= 8) L[i] = words[k % 8];
            size_t want = count; if (type != 1) for (uint32_t i = count; i-- > 0;) if (strlen(L[i]) == len && !memcmp(L[i], s, len)) want = i;
            for (int opt = 0; opt < 2; ++opt) {
                start(c & 1);
                mpack_node_t n = mpack_tree_root(&T);
                size_t got = opt ? mpack_node_enum_optional(n, L, count) : mpack_node_enum(n, L, count);
                mpack_error_t e = mpack_tree_destroy(&T), we = !opt && want == count ? mpack_error_type : mpack_ok;
                mc_step(1); mc_eval(1); if (want < count) mc_nontrivial(1);
                if (got != want || e != we) mc_fail("mpack_node_enum%s of %s in {%s,%s,%s} (%u): %zu %s, must be %zu %s", opt ? "_optional" : "", hexs(doc.p, doc.n), L[0] ? L[0] : "", L[1] ? L[1] : "", L[2] ? L[2] : "", count, got, ES(e), want, ES(we));
            }
        }
    }
}
/* long strings among the strings they are easily mistaken for */
static void long_enums(void) {
    uint32_t L = LLEN[mc_choose(NLLEN, "length")]; uint32_t q = mc_choose(NLVAR, "string"), type = mc_choose(2, "type"); lv_make(L); if (!LVAR[q].there) return;
    doc.n = 0; if (type == 0) ref_str_hdr(&doc, LVAR[q].n, false); else ref_bin_hdr(&doc, LVAR[q].n, false); rb_mem(&doc, LVAR[q].p, LVAR[q].n);
    mc_state(mc_hash(2, doc.p, doc.n));
    for (int a = 0; a < NLVAR; ++a) for (int b = 0; b <= NLVAR; ++b) {
        if (!LVAR[a].there || (b < NLVAR && !LVAR[b].there)) continue;
        if (L > 1024 && q > 2 && a > 2 && b < NLVAR) continue;
        const char* S[2] = {LVAR[a].p, b < NLVAR ? LVAR[b].p : "x"}; size_t count = b < NLVAR ? 2 : 1, want = count;
        if (type == 0) { if (count == 2 && lv_same((int)q, b)) want = 1; if (lv_same((int)q, a)) want = 0; }
        for (int opt = 0; opt < 2; ++opt) {
            mpack_tree_init_pool(&T, (const char*)doc.p, doc.n, pool, 4); mpack_tree_parse(&T); mpack_node_t n = mpack_tree_root(&T);
            size_t got = opt ? mpack_node_enum_optional(n, S, count) : mpack_node_enum(n, S, count);
            mpack_error_t e = mpack_tree_destroy(&T), we = !opt && want == count ? mpack_error_type : mpack_ok;
            mc_eval(1); if (want < count) mc_nontrivial(1);
            if (got != want || e != we) mc_fail("mpack_node_enum%s of a string of %u bytes (variant %u of %u) in variants {%d,%d}: %zu %s, must be %zu %s", opt ? "_optional" : "", LVAR[q].n, q, L, a, b, got, ES(e), want, ES(we));
        }
    }
}
void mc_body(void) {
    mc_shard_depth = 3; handled = 0; doc.n = 0;
    switch (mc_choose(3, "part")) { case 0: accessors(); break; case 1: enums(); break; default: long_enums(); } if (env_live_blocks) mc_fail("%zu blocks leaked", env_live_blocks); }
