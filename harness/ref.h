/* ref.h - an independent, deliberately boring MessagePack reference written from
 * the specification. It shares no code with MPack. */
#ifndef REF_H
#define REF_H 1
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>

/* ---------------------------------------------------------------- encoder */
typedef struct { uint8_t* p; size_t n, cap; } rbuf;
static inline void rb_init(rbuf* b) { b->p = NULL; b->n = b->cap = 0; }
static inline void rb_free(rbuf* b) { free(b->p); rb_init(b); }
static inline void rb_reserve(rbuf* b, size_t k) {
    if (b->n + k > b->cap) { b->cap = (b->n + k) * 2 + 64; b->p = (uint8_t*)realloc(b->p, b->cap); }
}
static inline void rb_u8(rbuf* b, unsigned v) { rb_reserve(b, 1); b->p[b->n++] = (uint8_t)v; }
static inline void rb_be(rbuf* b, uint64_t v, int bytes) {
    for (int i = bytes - 1; i >= 0; --i) rb_u8(b, (unsigned)((v >> (8 * i)) & 0xff));
}
static inline void rb_mem(rbuf* b, const void* d, size_t n) { if (n) { rb_reserve(b, n); memcpy(b->p + b->n, d, n); b->n += n; } }

static inline void ref_uint(rbuf* b, uint64_t v) {
    if (v <= 0x7f) rb_u8(b, (unsigned)v);
    else if (v <= 0xff) { rb_u8(b, 0xcc); rb_be(b, v, 1); }
    else if (v <= 0xffff) { rb_u8(b, 0xcd); rb_be(b, v, 2); }
    else if (v <= 0xffffffffu) { rb_u8(b, 0xce); rb_be(b, v, 4); }
    else { rb_u8(b, 0xcf); rb_be(b, v, 8); }
}
static inline void ref_int(rbuf* b, int64_t v) {
    if (v >= 0) ref_uint(b, (uint64_t)v);
    else if (v >= -32) rb_u8(b, (unsigned)(0x100 + v));
    else if (v >= -128) { rb_u8(b, 0xd0); rb_be(b, (uint64_t)v, 1); }
    else if (v >= -32768) { rb_u8(b, 0xd1); rb_be(b, (uint64_t)v, 2); }
    else if (v >= -2147483648LL) { rb_u8(b, 0xd2); rb_be(b, (uint64_t)v, 4); }
    else { rb_u8(b, 0xd3); rb_be(b, (uint64_t)v, 8); }
}
static inline void ref_nil(rbuf* b) { rb_u8(b, 0xc0); }
static inline void ref_bool(rbuf* b, bool v) { rb_u8(b, v ? 0xc3 : 0xc2); }
static inline void ref_f32(rbuf* b, uint32_t bits) { rb_u8(b, 0xca); rb_be(b, bits, 4); }
static inline void ref_f64(rbuf* b, uint64_t bits) { rb_u8(b, 0xcb); rb_be(b, bits, 8); }
static inline void ref_str_hdr(rbuf* b, uint32_t n, bool v4) {
    if (n <= 31) rb_u8(b, 0xa0 + n);
    else if (n <= 0xff && !v4) { rb_u8(b, 0xd9); rb_be(b, n, 1); }
    else if (n <= 0xffff) { rb_u8(b, 0xda); rb_be(b, n, 2); }
    else { rb_u8(b, 0xdb); rb_be(b, n, 4); }
}
static inline void ref_bin_hdr(rbuf* b, uint32_t n, bool v4) {
    if (v4) { ref_str_hdr(b, n, true); return; }
    if (n <= 0xff) { rb_u8(b, 0xc4); rb_be(b, n, 1); }
    else if (n <= 0xffff) { rb_u8(b, 0xc5); rb_be(b, n, 2); }
    else { rb_u8(b, 0xc6); rb_be(b, n, 4); }
}
static inline void ref_ext_hdr(rbuf* b, int8_t type, uint32_t n) {
    switch (n) {
        case 1: rb_u8(b, 0xd4); break;
        case 2: rb_u8(b, 0xd5); break;
        case 4: rb_u8(b, 0xd6); break;
        case 8: rb_u8(b, 0xd7); break;
        case 16: rb_u8(b, 0xd8); break;
        default:
            if (n <= 0xff) { rb_u8(b, 0xc7); rb_be(b, n, 1); }
            else if (n <= 0xffff) { rb_u8(b, 0xc8); rb_be(b, n, 2); }
            else { rb_u8(b, 0xc9); rb_be(b, n, 4); }
    }
    rb_u8(b, (uint8_t)type);
}
static inline void ref_array_hdr(rbuf* b, uint32_t n) {
    if (n <= 15) rb_u8(b, 0x90 + n);
    else if (n <= 0xffff) { rb_u8(b, 0xdc); rb_be(b, n, 2); }
    else { rb_u8(b, 0xdd); rb_be(b, n, 4); }
}
static inline void ref_map_hdr(rbuf* b, uint32_t n) {
    if (n <= 15) rb_u8(b, 0x80 + n);
    else if (n <= 0xffff) { rb_u8(b, 0xde); rb_be(b, n, 2); }
    else { rb_u8(b, 0xdf); rb_be(b, n, 4); }
}
static inline void ref_timestamp(rbuf* b, int64_t s, uint32_t ns) {
    if (s >= 0 && s <= 0xffffffffLL && ns == 0) { ref_ext_hdr(b, -1, 4); rb_be(b, (uint64_t)s, 4); }
    else if (s >= 0 && s < ((int64_t)1 << 34)) { ref_ext_hdr(b, -1, 8); rb_be(b, ((uint64_t)ns << 34) | (uint64_t)s, 8); }
    else { ref_ext_hdr(b, -1, 12); rb_be(b, ns, 4); rb_be(b, (uint64_t)s, 8); }
}

/* ---------------------------------------------------------------- decoder */
enum { RV_NIL, RV_BOOL, RV_UINT, RV_INT, RV_F32, RV_F64, RV_STR, RV_BIN, RV_EXT, RV_ARR, RV_MAP };
enum { REF_OK = 0, REF_TRUNC, REF_INVALID };
typedef struct rv {
    uint8_t t;            /* RV_* ; RV_INT: encoded in a signed format */
    int8_t ext;
    uint64_t u;           /* bool / unsigned / raw bits */
    int64_t i;            /* signed */
    uint32_t n;           /* length, element count, pair count */
    size_t start, hdr, end; /* offsets: header start, header end, object end */
    struct rv* kid; size_t kids;
} rv;

static inline uint64_t ref_be(const uint8_t* p, int n) { uint64_t v = 0; while (n--) v = v << 8 | *p++; return v; }

/* decodes one header at d[*off]; advances *off past it */
static inline int ref_header(const uint8_t* d, size_t len, size_t* off, rv* v) {
    size_t o = *off;
    memset(v, 0, sizeof *v);
    v->start = o;
    if (o >= len) return REF_TRUNC;
    uint8_t b = d[o];
    size_t left = len - o - 1;
    const uint8_t* q = d + o + 1;
    size_t extra = 0;
    #define NEED(k) do { extra = (k); if (left < extra) return REF_TRUNC; } while (0)
    if (b <= 0x7f) { v->t = RV_UINT; v->u = b; }
    else if (b <= 0x8f) { v->t = RV_MAP; v->n = b & 15; }
    else if (b <= 0x9f) { v->t = RV_ARR; v->n = b & 15; }
    else if (b <= 0xbf) { v->t = RV_STR; v->n = b & 31; }
    else if (b >= 0xe0) { v->t = RV_INT; v->i = (int8_t)b; }
    else switch (b) {
        case 0xc0: v->t = RV_NIL; break;
        case 0xc1: return REF_INVALID;
        case 0xc2: v->t = RV_BOOL; v->u = 0; break;
        case 0xc3: v->t = RV_BOOL; v->u = 1; break;
        case 0xc4: NEED(1); v->t = RV_BIN; v->n = (uint32_t)ref_be(q, 1); break;
        case 0xc5: NEED(2); v->t = RV_BIN; v->n = (uint32_t)ref_be(q, 2); break;
        case 0xc6: NEED(4); v->t = RV_BIN; v->n = (uint32_t)ref_be(q, 4); break;
        case 0xc7: NEED(2); v->t = RV_EXT; v->n = (uint32_t)ref_be(q, 1); v->ext = (int8_t)q[1]; break;
        case 0xc8: NEED(3); v->t = RV_EXT; v->n = (uint32_t)ref_be(q, 2); v->ext = (int8_t)q[2]; break;
        case 0xc9: NEED(5); v->t = RV_EXT; v->n = (uint32_t)ref_be(q, 4); v->ext = (int8_t)q[4]; break;
        case 0xca: NEED(4); v->t = RV_F32; v->u = ref_be(q, 4); break;
        case 0xcb: NEED(8); v->t = RV_F64; v->u = ref_be(q, 8); break;
        case 0xcc: NEED(1); v->t = RV_UINT; v->u = ref_be(q, 1); break;
        case 0xcd: NEED(2); v->t = RV_UINT; v->u = ref_be(q, 2); break;
        case 0xce: NEED(4); v->t = RV_UINT; v->u = ref_be(q, 4); break;
        case 0xcf: NEED(8); v->t = RV_UINT; v->u = ref_be(q, 8); break;
        case 0xd0: NEED(1); v->t = RV_INT; v->i = (int8_t)ref_be(q, 1); break;
        case 0xd1: NEED(2); v->t = RV_INT; v->i = (int16_t)ref_be(q, 2); break;
        case 0xd2: NEED(4); v->t = RV_INT; v->i = (int32_t)ref_be(q, 4); break;
        case 0xd3: NEED(8); v->t = RV_INT; v->i = (int64_t)ref_be(q, 8); break;
        case 0xd4: case 0xd5: case 0xd6: case 0xd7: case 0xd8:
            NEED(1); v->t = RV_EXT; v->n = 1u << (b - 0xd4); v->ext = (int8_t)q[0]; break;
        case 0xd9: NEED(1); v->t = RV_STR; v->n = (uint32_t)ref_be(q, 1); break;
        case 0xda: NEED(2); v->t = RV_STR; v->n = (uint32_t)ref_be(q, 2); break;
        case 0xdb: NEED(4); v->t = RV_STR; v->n = (uint32_t)ref_be(q, 4); break;
        case 0xdc: NEED(2); v->t = RV_ARR; v->n = (uint32_t)ref_be(q, 2); break;
        case 0xdd: NEED(4); v->t = RV_ARR; v->n = (uint32_t)ref_be(q, 4); break;
        case 0xde: NEED(2); v->t = RV_MAP; v->n = (uint32_t)ref_be(q, 2); break;
        case 0xdf: NEED(4); v->t = RV_MAP; v->n = (uint32_t)ref_be(q, 4); break;
    }
    #undef NEED
    v->hdr = o + 1 + extra;
    v->end = v->hdr;
    *off = v->hdr;
    return REF_OK;
}

/* parses one complete object. *has_ext is set if an ext header was met before any
 * failure. nodes counts objects. Kids are allocated with malloc; ref_free(). */
static inline void ref_free(rv* v) {
    for (size_t i = 0; i < v->kids; ++i) ref_free(&v->kid[i]);
    free(v->kid); v->kid = NULL; v->kids = 0;
}
static inline int ref_parse(const uint8_t* d, size_t len, size_t* off, rv* v, bool* has_ext, size_t* nodes) {
    int r = ref_header(d, len, off, v);
    if (r != REF_OK) return r;
    ++*nodes;
    if (v->t == RV_EXT) *has_ext = true;
    if (v->t == RV_STR || v->t == RV_BIN || v->t == RV_EXT) {
        if (len - *off < v->n) return REF_TRUNC;
        *off += v->n;
    } else if (v->t == RV_ARR || v->t == RV_MAP) {
        uint64_t total = (uint64_t)v->n * (v->t == RV_MAP ? 2 : 1);
        uint64_t avail = len - *off;
        uint64_t alloc = total < avail ? total : avail;
        v->kid = (rv*)calloc(alloc ? alloc : 1, sizeof(rv));
        for (uint64_t k = 0; k < total; ++k) {
            if (k >= alloc) return REF_TRUNC; /* every object takes a byte */
            v->kids = k + 1;
            r = ref_parse(d, len, off, &v->kid[k], has_ext, nodes);
            if (r != REF_OK) return r;
        }
    }
    v->end = *off;
    return REF_OK;
}

/* ---------------------------------------------------------------- UTF-8 */
/* well-formed byte sequences, Unicode standard table 3-7 */
static inline bool ref_utf8(const uint8_t* s, size_t n) {
    size_t i = 0;
    while (i < n) {
        uint8_t a = s[i];
        if (a <= 0x7f) { ++i; continue; }
        #define CONT(k, lo, hi) (i + (k) < n && s[i + (k)] >= (lo) && s[i + (k)] <= (hi))
        if (a >= 0xc2 && a <= 0xdf) { if (!CONT(1, 0x80, 0xbf)) return false; i += 2; }
        else if (a == 0xe0) { if (!CONT(1, 0xa0, 0xbf) || !CONT(2, 0x80, 0xbf)) return false; i += 3; }
        else if ((a >= 0xe1 && a <= 0xec) || a == 0xee || a == 0xef) { if (!CONT(1, 0x80, 0xbf) || !CONT(2, 0x80, 0xbf)) return false; i += 3; }
        else if (a == 0xed) { if (!CONT(1, 0x80, 0x9f) || !CONT(2, 0x80, 0xbf)) return false; i += 3; }
        else if (a == 0xf0) { if (!CONT(1, 0x90, 0xbf) || !CONT(2, 0x80, 0xbf) || !CONT(3, 0x80, 0xbf)) return false; i += 4; }
        else if (a >= 0xf1 && a <= 0xf3) { if (!CONT(1, 0x80, 0xbf) || !CONT(2, 0x80, 0xbf) || !CONT(3, 0x80, 0xbf)) return false; i += 4; }
        else if (a == 0xf4) { if (!CONT(1, 0x80, 0x8f) || !CONT(2, 0x80, 0xbf) || !CONT(3, 0x80, 0xbf)) return false; i += 4; }
        else return false;
        #undef CONT
    }
    return true;
}
#endif
