/* common.h - shared by the harnesses: value sets, document generator, helpers */
#ifndef COMMON_H
#define COMMON_H 1
#include "mc.h"
#include "env.h"
#include "ref.h"
#include "mpack/mpack.h"
#include <stdio.h>
#include <math.h>

static inline const char* hexs(const void* p, size_t n) {
    static char buf[4][260]; static int k;
    char* b = buf[k = (k + 1) & 3];
    const uint8_t* d = (const uint8_t*)p;
    size_t m = n > 80 ? 80 : n;
    for (size_t i = 0; i < m; ++i) sprintf(b + 3 * i, "%02x ", d[i]);
    b[3 * m] = 0;
    if (m < n) strcat(b, "...");
    return b;
}
#define ES(e) mpack_error_to_string(e)

/* in release builds these are never called; in MPACK_DEBUG builds (VF_DEBUG) the
 * harness sees asserts and breaks through them */
#ifdef VF_DEBUG
#ifdef __cplusplus
extern "C" {
#endif
static unsigned dbg_breaks; static char dbg_last[256];
void mpack_assert_fail(const char* message) { mc_fail("internal assertion failed: %s", message); }
void mpack_break_hit(const char* message) { ++dbg_breaks; snprintf(dbg_last, sizeof dbg_last, "%s", message); }
#ifdef __cplusplus
}
#endif
#endif

/* ------------------------------------------------------------ value sets
 * V64: every 16-bit value zero- and sign-extended; every 2^k + d and -2^k + d with
 * |d| <= 300; every word whose 8 bytes come from {00,01,7f,80,ff}. */
#define V64_A 65536u
#define V64_B (64u * 601u)
#define V64_C 390625u
#define V64_N (2 * V64_A + 2 * V64_B + V64_C)
static inline uint64_t v64(uint64_t i) {
    if (i < V64_A) return i;
    i -= V64_A;
    if (i < V64_A) return (uint64_t)(int64_t)(int16_t)(uint16_t)i;
    i -= V64_A;
    if (i < V64_B) return ((uint64_t)1 << (i / 601)) + (uint64_t)((int64_t)(i % 601) - 300);
    i -= V64_B;
    if (i < V64_B) return (uint64_t)0 - ((uint64_t)1 << (i / 601)) + (uint64_t)((int64_t)(i % 601) - 300);
    i -= V64_B;
    static const uint8_t al[5] = {0x00, 0x01, 0x7f, 0x80, 0xff};
    uint64_t v = 0;
    for (int k = 0; k < 8; ++k) { v = v << 8 | al[i % 5]; i /= 5; }
    return v;
}
/* V32: every 16-bit value zero- and sign-extended, 2^k + d and -2^k + d with |d| <= 300, and every
 * (high half, low half) with the low half from {0,1,7fff,8000,ffff} */
#define V32_A 65536u
#define V32_B (32u * 601u)
#define V32_C (65536u * 5u)
#define V32_N (2 * V32_A + 2 * V32_B + V32_C)
static inline uint32_t v32(uint32_t i) {
    if (i < V32_A) return i;
    i -= V32_A;
    if (i < V32_A) return (uint32_t)(int32_t)(int16_t)(uint16_t)i;
    i -= V32_A;
    if (i < V32_B) return ((uint32_t)1 << (i / 601)) + (uint32_t)((int32_t)(i % 601) - 300);
    i -= V32_B;
    if (i < V32_B) return (uint32_t)0 - ((uint32_t)1 << (i / 601)) + (uint32_t)((int32_t)(i % 601) - 300);
    i -= V32_B;
    static const uint16_t lo[5] = {0, 1, 0x7fff, 0x8000, 0xffff};
    return (i / 5) << 16 | lo[i % 5];
}
/* an enumeration range cut into shards by a choice; f is the number of values */
static inline void shard(uint64_t total, uint32_t shards, uint64_t* from, uint64_t* to) {
    uint32_t s = mc_choose(shards, "shard");
    *from = total / shards * s + (total % shards < s ? total % shards : s);
    *to = *from + total / shards + (s < total % shards ? 1 : 0);
}

/* ------------------------------------------------------------ documents */
typedef struct gn {
    uint8_t t;           /* RV_* */
    int8_t ext;
    uint8_t form;        /* encoded width chosen for reading side: 0 shortest, 1.. wider */
    uint64_t u; int64_t i;
    uint32_t n;          /* payload length or count */
    const uint8_t* data;
    struct gn* kid; uint32_t kids;
} gn;
typedef struct {
    gn pool[64]; int used;
    int budget;          /* nodes that may still be generated */
    int maxkids;
    int maxdepth;
    const gn* leaves; int nleaves;
    int forms;           /* alternative encodings per object (1: shortest only) */
    bool maps, arrays;
} gctx;

static inline gn* g_doc_at(gctx* c, gn* v, int depth) {
    c->budget--;
    int kinds = c->nleaves;
    bool comp = depth < c->maxdepth;
    int na = comp && c->arrays ? (c->maxkids < c->budget ? c->maxkids : c->budget) + 1 : 0;
    int nm = comp && c->maps ? (c->maxkids < c->budget / 2 ? c->maxkids : c->budget / 2) + 1 : 0;
    uint32_t k = mc_choose((uint32_t)(kinds + na + nm), "object");
    if ((int)k < kinds) { *v = c->leaves[k]; }
    else {
        memset(v, 0, sizeof *v);
        if ((int)k < kinds + na) { v->t = RV_ARR; v->n = k - (uint32_t)kinds; v->kids = v->n; }
        else { v->t = RV_MAP; v->n = k - (uint32_t)(kinds + na); v->kids = 2 * v->n; }
        v->kid = &c->pool[c->used]; c->used += (int)v->kids;
        int reserved = (int)v->kids;
        for (uint32_t i = 0; i < v->kids; ++i) {
            --reserved;                  /* siblings still to come keep a node each */
            c->budget -= reserved;
            g_doc_at(c, &v->kid[i], depth + 1);
            c->budget += reserved;
        }
    }
    if (c->forms > 1) v->form = (uint8_t)mc_choose((uint32_t)c->forms, "encoded width");
    return v;
}
static inline void g_init(gctx* c, const gn* leaves, int nleaves, int budget, int maxkids, int maxdepth) {
    memset(c, 0, sizeof *c);
    c->leaves = leaves; c->nleaves = nleaves; c->budget = budget; c->maxkids = maxkids; c->maxdepth = maxdepth;
    c->forms = 1; c->maps = c->arrays = true;
}
static inline gn* g_doc(gctx* c) { gn* r = &c->pool[c->used++]; return g_doc_at(c, r, 0); }

/* encodes with the chosen widths; form 0 is the shortest, higher forms go wider and
 * stop at the widest the format has */
static inline void g_encode(rbuf* b, const gn* v) {
    unsigned f = v->form;
    switch (v->t) {
        case RV_NIL: ref_nil(b); break;
        case RV_BOOL: ref_bool(b, v->u != 0); break;
        case RV_F32: ref_f32(b, (uint32_t)v->u); break;
        case RV_F64: ref_f64(b, v->u); break;
        case RV_UINT: {
            if (!f) { ref_uint(b, v->u); break; }
            int w = v->u <= 0x7f ? 0 : v->u <= 0xff ? 1 : v->u <= 0xffff ? 2 : v->u <= 0xffffffffu ? 3 : 4;
            w += (int)f; if (w > 4) w = 4;
            rb_u8(b, 0xcc + (unsigned)w - 1); rb_be(b, v->u, 1 << (w - 1));
            break; }
        case RV_INT: {
            int w = v->i >= -32 && v->i < 0 ? 0 : v->i >= -128 && v->i <= 127 ? 1 : v->i >= -32768 && v->i <= 32767 ? 2 : v->i >= -2147483648LL && v->i <= 2147483647LL ? 3 : 4;
            w += (int)f; if (w > 4) w = 4;
            if (w == 0) rb_u8(b, (unsigned)(v->i & 0xff));
            else { rb_u8(b, 0xd0 + (unsigned)w - 1); rb_be(b, (uint64_t)v->i, 1 << (w - 1)); }
            break; }
        case RV_STR: {
            int w = v->n <= 31 ? 0 : v->n <= 255 ? 1 : v->n <= 65535 ? 2 : 3;
            w += (int)f; if (w > 3) w = 3;
            if (w == 0) rb_u8(b, 0xa0 + v->n); else { rb_u8(b, 0xd9 + (unsigned)w - 1); rb_be(b, v->n, 1 << (w - 1)); }
            rb_mem(b, v->data, v->n); break; }
        case RV_BIN: {
            int w = v->n <= 255 ? 0 : v->n <= 65535 ? 1 : 2;
            w += (int)f; if (w > 2) w = 2;
            rb_u8(b, 0xc4 + (unsigned)w); rb_be(b, v->n, 1 << w);
            rb_mem(b, v->data, v->n); break; }
        case RV_EXT: {
            bool fix = v->n == 1 || v->n == 2 || v->n == 4 || v->n == 8 || v->n == 16;
            if (fix && !f) { ref_ext_hdr(b, v->ext, v->n); }
            else {
                int w = v->n <= 255 ? 0 : v->n <= 65535 ? 1 : 2;
                w += (int)f - (fix ? 1 : 0); if (w > 2) w = 2;
                rb_u8(b, 0xc7 + (unsigned)w); rb_be(b, v->n, 1 << w); rb_u8(b, (uint8_t)v->ext);
            }
            rb_mem(b, v->data, v->n); break; }
        case RV_ARR: case RV_MAP: {
            int w = v->n <= 15 ? 0 : v->n <= 65535 ? 1 : 2;
            w += (int)f; if (w > 2) w = 2;
            if (w == 0) rb_u8(b, (v->t == RV_ARR ? 0x90u : 0x80u) + v->n);
            else { rb_u8(b, (v->t == RV_ARR ? 0xdcu : 0xdeu) + (unsigned)w - 1); rb_be(b, v->n, 2 << (w - 1)); }
            for (uint32_t i = 0; i < v->kids; ++i) g_encode(b, &v->kid[i]);
            break; }
    }
}
static inline int g_nodes(const gn* v) { int n = 1; for (uint32_t i = 0; i < v->kids; ++i) n += g_nodes(&v->kid[i]); return n; }
static inline bool g_has(const gn* v, uint8_t t) { if (v->t == t) return true; for (uint32_t i = 0; i < v->kids; ++i) if (g_has(&v->kid[i], t)) return true; return false; }
static inline float f_of(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static inline double d_of(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }
static inline uint32_t bits_f(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static inline uint64_t bits_d(double f) { uint64_t b; memcpy(&b, &f, 8); return b; }

/* position-dependent payload bytes */
static inline const uint8_t* payload(void) {
    static uint8_t p[70000]; static bool init;
    if (!init) { init = true; for (size_t i = 0; i < sizeof p; ++i) p[i] = (uint8_t)('a' + (i * 7 + i / 26) % 26); }
    return p;
}

/* contents for bin and ext: zeros, ones and everything between, not UTF-8 */
static inline const uint8_t* wild(void) {
    static uint8_t p[70000]; static bool init;
    if (!init) { init = true; for (size_t i = 0; i < sizeof p; ++i) p[i] = i % 3 == 2 ? (i % 2 ? 0 : 0xff) : (uint8_t)((i * 2654435761u) >> 13); }
    return p;
}
static inline const uint8_t* pdata(int t) { return t == RV_STR ? payload() : wild(); }

/* does an mpack tag equal the reference header? Signed formats may carry
 * non-negative values; MPack's documented type for them is int. */
static inline bool tag_is(mpack_tag_t t, const rv* v) {
    switch (v->t) {
        case RV_NIL: return mpack_tag_type(&t) == mpack_type_nil;
        case RV_BOOL: return mpack_tag_type(&t) == mpack_type_bool && mpack_tag_bool_value(&t) == (v->u != 0);
        case RV_UINT: return mpack_tag_type(&t) == mpack_type_uint && mpack_tag_uint_value(&t) == v->u;
        case RV_INT: return mpack_tag_type(&t) == mpack_type_int && mpack_tag_int_value(&t) == v->i;
#if MPACK_FLOAT
        case RV_F32: { if (mpack_tag_type(&t) != mpack_type_float) return false; return bits_f(mpack_tag_float_value(&t)) == (uint32_t)v->u; }
#else
        case RV_F32: return mpack_tag_type(&t) == mpack_type_float && mpack_tag_raw_float_value(&t) == (uint32_t)v->u;
#endif
#if MPACK_DOUBLE
        case RV_F64: { if (mpack_tag_type(&t) != mpack_type_double) return false; return bits_d(mpack_tag_double_value(&t)) == v->u; }
#else
        case RV_F64: return mpack_tag_type(&t) == mpack_type_double && mpack_tag_raw_double_value(&t) == v->u;
#endif
        case RV_STR: return mpack_tag_type(&t) == mpack_type_str && mpack_tag_str_length(&t) == v->n;
        case RV_BIN: return mpack_tag_type(&t) == mpack_type_bin && mpack_tag_bin_length(&t) == v->n;
#if MPACK_EXTENSIONS
        case RV_EXT: return mpack_tag_type(&t) == mpack_type_ext && mpack_tag_ext_length(&t) == v->n && mpack_tag_ext_exttype(&t) == v->ext;
#endif
        case RV_ARR: return mpack_tag_type(&t) == mpack_type_array && mpack_tag_array_count(&t) == v->n;
        case RV_MAP: return mpack_tag_type(&t) == mpack_type_map && mpack_tag_map_count(&t) == v->n;
    }
    return false;
}
static inline const char* tag_text(mpack_tag_t t) {
    static char b[2][128]; static int k; char* p = b[k ^= 1];
    switch (mpack_tag_type(&t)) {
        case mpack_type_uint: snprintf(p, 128, "uint %llu", (unsigned long long)mpack_tag_uint_value(&t)); break;
        case mpack_type_int: snprintf(p, 128, "int %lld", (long long)mpack_tag_int_value(&t)); break;
        case mpack_type_str: snprintf(p, 128, "str %u", mpack_tag_str_length(&t)); break;
        case mpack_type_bin: snprintf(p, 128, "bin %u", mpack_tag_bin_length(&t)); break;
        case mpack_type_array: snprintf(p, 128, "array %u", mpack_tag_array_count(&t)); break;
        case mpack_type_map: snprintf(p, 128, "map %u", mpack_tag_map_count(&t)); break;
        default: snprintf(p, 128, "%s", mpack_type_to_string(mpack_tag_type(&t)));
    }
    return p;
}
#endif
