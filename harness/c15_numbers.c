/* C15/C16/C29: number reads through the expect API (NUM=15) and the node API (NUM=16).
 * Every encoding of every value in the bounds goes through every number function; the
 * expected result comes from the value alone. NUM=29 runs both in builds without double or
 * without float support. */
#include "common.h"
#ifndef NUM
#define NUM 15
#endif
#define EXPECT_SIDE (NUM == 15 || NUM == 29)
#define NODE_SIDE (NUM == 16 || NUM == 29)
#ifdef VF_M32
#define NAN_PAYLOAD 0     /* x87 returns quieten NaNs */
#else
#define NAN_PAYLOAD 1
#endif

enum { K_INT, K_F32, K_F64, K_NIL, K_BOOL, K_OTHER, K_BAD };
typedef struct {
    int k; bool neg; uint64_t u; int64_t s;   /* K_INT: value is s if neg, u otherwise; floats, bool: u */
    uint8_t e[48]; size_t n, hdr; bool exttag;
} num;

/* appends b, then filler so that every header is complete */
static void decode(num* x) {
    rv v; size_t off = 0; memset(&v, 0, sizeof v);
    int r = ref_header(x->e, x->n, &off, &v);
    x->hdr = off; x->exttag = false;
    if (r != REF_OK) { x->k = K_BAD; return; }
    x->neg = false; x->u = v.u; x->s = 0;
    switch (v.t) {
        case RV_UINT: x->k = K_INT; break;
        case RV_INT: x->k = K_INT; if (v.i < 0) { x->neg = true; x->s = v.i; } else x->u = (uint64_t)v.i; break;
        case RV_F32: x->k = K_F32; break;
        case RV_F64: x->k = K_F64; break;
        case RV_NIL: x->k = K_NIL; break;
        case RV_BOOL: x->k = K_BOOL; break;
        case RV_EXT: x->exttag = true; x->k = K_OTHER; break;
        default: x->k = K_OTHER;
    }
}
static int64_t lo_of(int bits) { return bits == 64 ? INT64_MIN : -((int64_t)1 << (bits - 1)); }
static bool fits_s(const num* x, int bits) { return x->k == K_INT && (x->neg ? x->s >= lo_of(bits) : x->u <= ((uint64_t)1 << (bits - 1)) - 1); }
static bool fits_u(const num* x, int bits) { return x->k == K_INT && !x->neg && (bits == 64 || x->u <= ((uint64_t)1 << bits) - 1); }
static uint64_t ival(const num* x) { return x->neg ? (uint64_t)x->s : x->u; }

/* truncating conversion of a double's bits to a float, from the property text */
static bool trunc_f32(uint64_t d, uint32_t* out, bool* any_nan) {
    uint32_t sign = (uint32_t)(d >> 63) << 31; int ex = (int)(d >> 52 & 0x7ff); uint64_t m = d & 0xfffffffffffffull;
    *any_nan = false;
    if (ex == 0x7ff && m) { *any_nan = true; return true; }
    if (ex == 0x7ff) { *out = sign | 0x7f800000; return true; }
    int e = ex - 1023;
    if (ex == 0 || e < -126) { *out = sign; return true; }        /* below the smallest normal float */
    if (e > 127) { *out = sign | 0x7f800000; return true; }
    *out = sign | (uint32_t)(e + 127) << 23 | (uint32_t)(m >> 29); return true;
}

/* ------------------------------------------------ functions under test */
typedef enum { F_U8, F_U16, F_U32, F_U64, F_UINT, F_I8, F_I16, F_I32, F_I64, F_INT,
    F_FLOAT, F_DOUBLE, F_FSTRICT, F_DSTRICT, F_RAWF, F_RAWD, F_NIL, F_BOOL, F_TRUE, F_FALSE, F_COUNT } fn;
static const char* fname[] = {"u8","u16","u32","u64","uint","i8","i16","i32","i64","int","float","double","float_strict","double_strict","raw_float","raw_double","nil","bool","true","false"};

/* expected: returns true and *res if accepted; *nan: any NaN will do (f: float result, d: double result) */
static bool expected(fn f, const num* x, uint64_t* res, bool* fnan, bool* dnan) {
    *fnan = *dnan = false; *res = 0;
    switch (f) {
        case F_U8: if (fits_u(x, 8)) { *res = x->u; return true; } return false;
        case F_U16: if (fits_u(x, 16)) { *res = x->u; return true; } return false;
        case F_U32: case F_UINT: if (fits_u(x, 32)) { *res = x->u; return true; } return false;
        case F_U64: if (fits_u(x, 64)) { *res = x->u; return true; } return false;
        case F_I8: if (fits_s(x, 8)) { *res = ival(x); return true; } return false;
        case F_I16: if (fits_s(x, 16)) { *res = ival(x); return true; } return false;
        case F_I32: case F_INT: if (fits_s(x, 32)) { *res = ival(x); return true; } return false;
        case F_I64: if (fits_s(x, 64)) { *res = ival(x); return true; } return false;
#if MPACK_FLOAT
        case F_FLOAT: {
            float v;
            if (x->k == K_INT) v = x->neg ? (float)x->s : (float)x->u;
            else if (x->k == K_F32) { *res = (uint32_t)x->u; *fnan = isnan(f_of((uint32_t)x->u)) && !NAN_PAYLOAD; return true; }
            else if (x->k == K_F64) {
#if MPACK_DOUBLE
                v = (float)d_of(x->u);
                if (isnan(v)) *fnan = true;
#else
                uint32_t t = 0; trunc_f32(x->u, &t, fnan); *res = t; return true;
#endif
            } else return false;
            *res = bits_f(v); return true; }
        case F_FSTRICT: if (x->k == K_F32) { *res = (uint32_t)x->u; *fnan = isnan(f_of((uint32_t)x->u)) && !NAN_PAYLOAD; return true; } return false;
#else
        case F_RAWF: if (x->k == K_F32) { *res = (uint32_t)x->u; return true; } return false;
#endif
#if MPACK_DOUBLE
        case F_DOUBLE: case F_DSTRICT: {
            double v;
            if (x->k == K_INT) { if (f == F_DSTRICT) return false; v = x->neg ? (double)x->s : (double)x->u; }
            else if (x->k == K_F32) { v = (double)f_of((uint32_t)x->u); if (isnan(v)) *dnan = true; }
            else if (x->k == K_F64) { *res = x->u; *dnan = isnan(d_of(x->u)) && !NAN_PAYLOAD; return true; }
            else return false;
            *res = bits_d(v); return true; }
#else
        case F_RAWD: if (x->k == K_F64) { *res = x->u; return true; } return false;
#endif
        case F_NIL: return x->k == K_NIL;
        case F_BOOL: if (x->k == K_BOOL) { *res = x->u; return true; } return false;
        case F_TRUE: return x->k == K_BOOL && x->u == 1;
        case F_FALSE: return x->k == K_BOOL && x->u == 0;
        default: return false;
    }
}
static bool present(fn f) {
#if !MPACK_FLOAT
    if (f == F_FLOAT || f == F_FSTRICT) return false;
#else
    if (f == F_RAWF) return false;
#endif
#if !MPACK_DOUBLE
    if (f == F_DOUBLE || f == F_DSTRICT) return false;
#else
    if (f == F_RAWD) return false;
#endif
    return true;
}
#define SX(x) ((uint64_t)(int64_t)(x))
#if EXPECT_SIDE
static uint64_t run_expect(fn f, mpack_reader_t* r) {
    switch (f) {
        case F_U8: return mpack_expect_u8(r);   case F_U16: return mpack_expect_u16(r);
        case F_U32: return mpack_expect_u32(r); case F_U64: return mpack_expect_u64(r);
        case F_UINT: return mpack_expect_uint(r);
        case F_I8: return SX(mpack_expect_i8(r));   case F_I16: return SX(mpack_expect_i16(r));
        case F_I32: return SX(mpack_expect_i32(r)); case F_I64: return SX(mpack_expect_i64(r));
        case F_INT: return SX(mpack_expect_int(r));
#if MPACK_FLOAT
        case F_FLOAT: return bits_f(mpack_expect_float(r)); case F_FSTRICT: return bits_f(mpack_expect_float_strict(r));
#else
        case F_RAWF: return mpack_expect_raw_float(r);
#endif
#if MPACK_DOUBLE
        case F_DOUBLE: return bits_d(mpack_expect_double(r)); case F_DSTRICT: return bits_d(mpack_expect_double_strict(r));
#else
        case F_RAWD: return mpack_expect_raw_double(r);
#endif
        case F_NIL: mpack_expect_nil(r); return 0;
        case F_BOOL: return mpack_expect_bool(r);
        case F_TRUE: mpack_expect_true(r); return 0;
        case F_FALSE: mpack_expect_false(r); return 0;
        default: return 0;
    }
}
#endif
#if NODE_SIDE
static uint64_t run_node(fn f, mpack_node_t n) {
    switch (f) {
        case F_U8: return mpack_node_u8(n);   case F_U16: return mpack_node_u16(n);
        case F_U32: return mpack_node_u32(n); case F_U64: return mpack_node_u64(n);
        case F_UINT: return mpack_node_uint(n);
        case F_I8: return SX(mpack_node_i8(n));   case F_I16: return SX(mpack_node_i16(n));
        case F_I32: return SX(mpack_node_i32(n)); case F_I64: return SX(mpack_node_i64(n));
        case F_INT: return SX(mpack_node_int(n));
#if MPACK_FLOAT
        case F_FLOAT: return bits_f(mpack_node_float(n)); case F_FSTRICT: return bits_f(mpack_node_float_strict(n));
#else
        case F_RAWF: return mpack_node_raw_float(n);
#endif
#if MPACK_DOUBLE
        case F_DOUBLE: return bits_d(mpack_node_double(n)); case F_DSTRICT: return bits_d(mpack_node_double_strict(n));
#else
        case F_RAWD: return mpack_node_raw_double(n);
#endif
        case F_NIL: mpack_node_nil(n); return 0;
        case F_BOOL: return mpack_node_bool(n);
        case F_TRUE: mpack_node_true(n); return 0;
        case F_FALSE: mpack_node_false(n); return 0;
        default: return 0;
    }
}
#endif
static bool same(uint64_t got, uint64_t want, bool fnan, bool dnan) {
    if (fnan) return isnan(f_of((uint32_t)got));
    if (dnan) return isnan(d_of(got));
    return got == want;
}
static bool err_ok(const num* x, fn f, mpack_error_t e) {
    if (x->k == K_BAD) return e == mpack_error_invalid || ((f == F_NIL || f == F_BOOL || f == F_TRUE || f == F_FALSE) && e == mpack_error_type);
#if !MPACK_EXTENSIONS
    if (x->exttag) return e == mpack_error_unsupported || e == mpack_error_type;
#endif
    return e == mpack_error_type;
}

static void all_fns(num* x) {
    decode(x);
    for (int f = 0; f < F_COUNT; ++f) {
        if (!present((fn)f)) continue;
        uint64_t want; bool fnan, dnan;
        bool ok = expected((fn)f, x, &want, &fnan, &dnan);
        mc_eval(1); mc_nontrivial(ok);
        mc_note(1, (uint64_t)f);
#if EXPECT_SIDE
        {
            mpack_reader_t r; mpack_reader_init_data(&r, (const char*)x->e, x->n);
            uint64_t got = run_expect((fn)f, &r);
            mpack_error_t e = mpack_reader_error(&r);
            if (ok) {
                if (e != mpack_ok) mc_fail("expect_%s refuses [%s]: %s", fname[f], hexs(x->e, x->hdr), ES(e));
                if (!same(got, want, fnan, dnan)) mc_fail("expect_%s of [%s] returned %#llx, value is %#llx", fname[f], hexs(x->e, x->hdr), (unsigned long long)got, (unsigned long long)want);
                if ((size_t)(r.end - r.data) != x->n - x->hdr) mc_fail("expect_%s of [%s] consumed %zu bytes, the object has %zu", fname[f], hexs(x->e, x->hdr), (size_t)(r.data - (const char*)x->e), x->hdr);
            } else {
                if (!err_ok(x, (fn)f, e)) mc_fail("expect_%s of [%s] should flag a type error, flagged %s (returned %#llx)", fname[f], hexs(x->e, x->n > 12 ? 12 : x->n), ES(e), (unsigned long long)got);
                if (got != 0) mc_fail("expect_%s of [%s] flagged %s but returned %#llx", fname[f], hexs(x->e, x->n > 12 ? 12 : x->n), ES(e), (unsigned long long)got);
            }
#ifdef VF_DEBUG
            if (e == mpack_ok && x->k != K_OTHER) { mpack_reader_remaining(&r, NULL); }
#endif
            mpack_reader_destroy(&r);
        }
#endif
    }
#if NODE_SIDE
    {
        mpack_node_data_t pool[300]; mpack_tree_t t;
        mpack_tree_init_pool(&t, (const char*)x->e, x->n, pool, 300);
        mpack_tree_parse(&t);
        if (mpack_tree_error(&t) != mpack_ok) {
            bool fine = x->k == K_BAD || x->k == K_OTHER;
            if (!fine) mc_fail("tree of [%s]: %s", hexs(x->e, x->hdr), ES(mpack_tree_error(&t)));
        } else for (int f = 0; f < F_COUNT; ++f) {
            if (!present((fn)f)) continue;
            uint64_t want; bool fnan, dnan;
            bool ok = expected((fn)f, x, &want, &fnan, &dnan);
            mc_eval(1); mc_nontrivial(ok);
            t.error = mpack_ok;      /* same parsed tree, fresh error state */
            uint64_t got = run_node((fn)f, mpack_tree_root(&t));
            mpack_error_t e = mpack_tree_error(&t);
            if (ok && (e != mpack_ok || !same(got, want, fnan, dnan))) mc_fail("node_%s of [%s] returned %#llx, %s; value is %#llx", fname[f], hexs(x->e, x->hdr), (unsigned long long)got, ES(e), (unsigned long long)want);
            if (!ok && (e != mpack_error_type || got != 0)) mc_fail("node_%s of [%s] returned %#llx, %s; a type error and zero are documented", fname[f], hexs(x->e, x->n > 12 ? 12 : x->n), (unsigned long long)got, ES(e));
        }
        mpack_tree_destroy(&t);
    }
#endif
}
static void enc(num* x, unsigned head, uint64_t v, int w) {
    x->n = 0; x->e[x->n++] = (uint8_t)head;
    for (int i = w - 1; i >= 0; --i) x->e[x->n++] = (uint8_t)(v >> (8 * i));
    x->e[x->n++] = 0xc0; x->e[x->n++] = 0x2a;       /* something follows */
}

/* ------------------------------------------------ ranges (expect only) */
#if EXPECT_SIDE
/* every encoding able to hold the value */
static int encodings(num* out, bool neg, uint64_t u, int64_t s) {
    int k = 0;
    if (!neg) {
        if (u <= 0x7f) enc(&out[k++], (unsigned)u, 0, 0);
        if (u <= 0xff) enc(&out[k++], 0xcc, u, 1);
        if (u <= 0xffff) enc(&out[k++], 0xcd, u, 2);
        if (u <= 0xffffffffu) enc(&out[k++], 0xce, u, 4);
        enc(&out[k++], 0xcf, u, 8);
        if (u <= 0x7f) enc(&out[k++], 0xd0, u, 1);
        if (u <= 0x7fff) enc(&out[k++], 0xd1, u, 2);
        if (u <= 0x7fffffff) enc(&out[k++], 0xd2, u, 4);
        if (u <= INT64_MAX) enc(&out[k++], 0xd3, u, 8);
    } else {
        if (s >= -32) enc(&out[k++], (unsigned)(s & 0xff), 0, 0);
        if (s >= -128) enc(&out[k++], 0xd0, (uint64_t)s, 1);
        if (s >= -32768) enc(&out[k++], 0xd1, (uint64_t)s, 2);
        if (s >= -2147483648LL) enc(&out[k++], 0xd2, (uint64_t)s, 4);
        enc(&out[k++], 0xd3, (uint64_t)s, 8);
    }
    for (int i = 0; i < k; ++i) decode(&out[i]);
    return k;
}
static const int64_t edges[] = {0,1,2,31,32,127,128,255,256,32767,32768,65535,65536,2147483647LL,2147483648LL,4294967295LL,4294967296LL,INT64_MAX,
    -1,-2,-32,-33,-127,-128,-129,-32768,-32769,-2147483648LL,-2147483649LL,INT64_MIN};
static const uint64_t uedges[] = {0x8000000000000000ull, UINT64_MAX - 1, UINT64_MAX};
#define NE ((int)(sizeof edges / sizeof *edges))
#define NU ((int)(sizeof uedges / sizeof *uedges))

typedef struct { const char* name; bool sgn; int bits; uint64_t (*range)(mpack_reader_t*, uint64_t, uint64_t); uint64_t (*max)(mpack_reader_t*, uint64_t); } rfn;
#define RF(nm, T, CT) static uint64_t rg_##nm(mpack_reader_t* r, uint64_t a, uint64_t b) { return (CT)mpack_expect_##nm##_range(r, (T)a, (T)b); } \
    static uint64_t mx_##nm(mpack_reader_t* r, uint64_t b) { return (CT)mpack_expect_##nm##_max(r, (T)b); }
RF(u8, uint8_t, uint64_t) RF(u16, uint16_t, uint64_t) RF(u32, uint32_t, uint64_t) RF(u64, uint64_t, uint64_t) RF(uint, unsigned, uint64_t)
RF(i8, int8_t, int64_t) RF(i16, int16_t, int64_t) RF(i32, int32_t, int64_t) RF(i64, int64_t, int64_t) RF(int, int, int64_t)
static const rfn rfns[] = {
    {"u8", 0, 8, rg_u8, mx_u8}, {"i8", 1, 8, rg_i8, mx_i8}, {"u16", 0, 16, rg_u16, mx_u16}, {"u32", 0, 32, rg_u32, mx_u32}, {"u64", 0, 64, rg_u64, mx_u64}, {"uint", 0, 32, rg_uint, mx_uint},
    {"i16", 1, 16, rg_i16, mx_i16}, {"i32", 1, 32, rg_i32, mx_i32}, {"i64", 1, 64, rg_i64, mx_i64}, {"int", 1, 32, rg_int, mx_int} };
#define NR ((int)(sizeof rfns / sizeof *rfns))

/* one (function, min, max) on one encoding; max_form: the _max function */
static inline void range_one(const rfn* f, uint64_t mn, uint64_t mx, bool max_form, const num* x) {
    bool in;
    if (f->sgn) in = fits_s(x, f->bits) && (int64_t)ival(x) >= (int64_t)mn && (int64_t)ival(x) <= (int64_t)mx;
    else in = fits_u(x, f->bits) && x->u >= mn && x->u <= mx;
    mc_eval(1); mc_nontrivial(in);
    mpack_reader_t r; mpack_reader_init_data(&r, (const char*)x->e, x->n);
    uint64_t got = max_form ? f->max(&r, mx) : f->range(&r, mn, mx);
    mpack_error_t e = mpack_reader_error(&r);
    uint64_t want = in ? ival(x) : mn;
    if (got != want || e != (in ? mpack_ok : mpack_error_type))
        mc_fail("expect_%s_%s(%lld, %lld) of [%s]: returned %lld, %s; expected %lld, %s", f->name, max_form ? "max" : "range", (long long)mn, (long long)mx, hexs(x->e, x->hdr), (long long)got, ES(e), (long long)want, in ? "ok" : "a type error");
    if (in && (size_t)(r.end - r.data) != x->n - x->hdr) mc_fail("expect_%s range consumed the wrong number of bytes", f->name);
    mpack_reader_destroy(&r);
}
static void ranges8(void) {
    const rfn* f = &rfns[mc_choose(2, "u8 or i8")];
    int from = f->sgn ? -128 : 0, to = f->sgn ? 127 : 255;
    int mn = from + (int)mc_choose(256, "minimum");
    for (int v = -130; v <= 258; ++v) {
        num xs[16]; int k = encodings(xs, v < 0, (uint64_t)v, v);
        /* the shortest and one wider encoding chosen to cycle through all of them */
        for (int q = 0; q < 2; ++q) {
            num* x = &xs[q ? 1 + (v + 130) % (k - 1) : 0];
            for (int mx = mn; mx <= to; ++mx) range_one(f, SX(mn), SX(mx), false, x);
            if (q == 0 && mn == 0) for (int mx = 0; mx <= to; ++mx) range_one(f, 0, SX(mx), true, x);
        }
    }
}
static void ranges_wide(void) {
    const rfn* f = &rfns[mc_choose((uint32_t)NR, "type")];
    uint64_t cand[NE + NU + 4]; int k = 0;
    for (int i = 0; i < NE; ++i) {
        int64_t v = edges[i];
        bool in = f->sgn ? (f->bits == 64 || (v >= lo_of(f->bits) && v < -lo_of(f->bits))) : (v >= 0 && (f->bits == 64 || (uint64_t)v < (uint64_t)1 << f->bits));
        if (in) cand[k++] = (uint64_t)v;
    }
    if (!f->sgn && f->bits == 64) for (int i = 0; i < NU; ++i) cand[k++] = uedges[i];
    uint64_t mn = cand[mc_choose((uint32_t)k, "minimum")];
    for (int vi = 0; vi < NE + NU; ++vi) for (int d = -1; d <= 1; ++d) {
        num xs[16]; int n;
        if (vi < NE) {
            if ((edges[vi] == INT64_MAX && d > 0)) { n = encodings(xs, false, (uint64_t)INT64_MAX + 1, 0); }
            else if (edges[vi] == INT64_MIN && d < 0) continue;
            else { int64_t v = edges[vi] + d; n = encodings(xs, v < 0, (uint64_t)v, v); }
        } else { if (uedges[vi - NE] == UINT64_MAX && d > 0) continue; n = encodings(xs, false, uedges[vi - NE] + (uint64_t)(int64_t)d, 0); }
        for (int i = 0; i < n; ++i) {
            for (int j = 0; j < k; ++j) {
                if (f->sgn ? (int64_t)cand[j] < (int64_t)mn : cand[j] < mn) continue;
                range_one(f, mn, cand[j], false, &xs[i]);
                if (mn == 0) range_one(f, 0, cand[j], true, &xs[i]);
            }
            /* exact matches */
            for (int m = 0; m < 2; ++m) {
                if (f != &rfns[m ? 8 : 4]) continue;
                mc_eval(1);
                mpack_reader_t r; mpack_reader_init_data(&r, (const char*)xs[i].e, xs[i].n);
                bool want;
                if (m) { want = fits_s(&xs[i], 64) && ival(&xs[i]) == mn; mpack_expect_int_match(&r, (int64_t)mn); }
                else { want = fits_u(&xs[i], 64) && ival(&xs[i]) == mn; mpack_expect_uint_match(&r, mn); }
                mpack_error_t e = mpack_reader_error(&r);
                if (e != (want ? mpack_ok : mpack_error_type)) mc_fail("expect_%s_match(%lld) of [%s]: %s", m ? "int" : "uint", (long long)mn, hexs(xs[i].e, xs[i].hdr), ES(e));
                mpack_reader_destroy(&r);
            }
        }
    }
    /* things that are not integers */
    for (unsigned h = 0xc0; h < 0xe0; ++h) {
        if (h >= 0xcc && h <= 0xd3) continue;
        num x; enc(&x, h, 0, 12); decode(&x);
        for (int j = 0; j < k; ++j) {
            if (f->sgn ? (int64_t)cand[j] < (int64_t)mn : cand[j] < mn) continue;
            mc_eval(1);
            mpack_reader_t r; mpack_reader_init_data(&r, (const char*)x.e, x.n);
            uint64_t got = f->range(&r, mn, cand[j]);
            if (got != mn || mpack_reader_error(&r) == mpack_ok || !err_ok(&x, F_U8, mpack_reader_error(&r))) mc_fail("expect_%s_range(%lld, %lld) of a %#x object: returned %lld, %s", f->name, (long long)mn, (long long)cand[j], h, (long long)got, ES(mpack_reader_error(&r)));
            mpack_reader_destroy(&r);
        }
    }
}
#if MPACK_FLOAT
static const uint32_t fedge[] = {0xff800000, 0xff7fffff, 0xcb800000 /* -2^24 */, 0xbfc00000 /* -1.5 */, 0xbf800000, 0x80800000, 0x80000001, 0x80000000, 0, 1, 0x00800000, 0x3f7fffff, 0x3f800000, 0x3f800001, 0x3fc00000, 0x4b800000, 0x4b800001, 0x5f000000, 0x5f800000, 0x7f7fffff, 0x7f800000, 0x7fc00000, 0x7f800001, 0xffc00000};
#define NF ((int)(sizeof fedge / sizeof *fedge))
static void ranges_float(void) {
    bool dbl = mc_choose(2, "float or double range");
#if !MPACK_DOUBLE
    if (dbl) mc_done();
#endif
    uint32_t mi = mc_choose(NF - 3, "minimum"), ma = mc_choose(NF - 3, "maximum");
    float fmn = f_of(fedge[mi]), fmx = f_of(fedge[ma]);
    if (!(fmn <= fmx)) mc_done();
    for (int src = 0; src < 3; ++src) for (int i = 0; i < (src == 2 ? NE + NU : NF * (src + 1)); ++i) for (int q = 0; q < 9; ++q) {
        num x; num xs[16];
        if (src == 0) { if (q) break; enc(&x, 0xca, fedge[i], 4); decode(&x); }
        else if (src == 1) {
            if (q > 2) break;
            uint64_t b = i < NF ? bits_d((double)f_of(fedge[i])) : bits_d((double)f_of(fedge[i - NF])) * 1;
            if (i >= NF) b ^= 0x4000000000000000ull;   /* out of float's exponent range */
            b += (uint64_t)(int64_t)(q - 1);           /* neighbours not representable as float */
            enc(&x, 0xcb, b, 8); decode(&x);
        } else {
            int n = i < NE ? encodings(xs, edges[i] < 0, (uint64_t)edges[i], edges[i]) : encodings(xs, false, uedges[i - NE], 0);
            if (q >= n) break;
            x = xs[q];
        }
        uint64_t want; bool fn_, dn_; mc_eval(1);
        mpack_reader_t r; mpack_reader_init_data(&r, (const char*)x.e, x.n);
        bool in; 
        if (!dbl) {
            expected(F_FLOAT, &x, &want, &fn_, &dn_);
            float v = f_of((uint32_t)want); if (fn_) v = f_of(0x7fc00000);
            in = v >= fmn && v <= fmx;
            float got = mpack_expect_float_range(&r, fmn, fmx);
            mpack_error_t e = mpack_reader_error(&r);
            if (e != (in ? mpack_ok : mpack_error_type)) mc_fail("expect_float_range(%g, %g) of [%s] (%g): %s", fmn, fmx, hexs(x.e, x.hdr), v, ES(e));
            if (bits_f(got) != (in ? bits_f(v) : bits_f(fmn))) mc_fail("expect_float_range(%g, %g) of [%s] (%g) returned %g", fmn, fmx, hexs(x.e, x.hdr), v, got);
        } else {
#if MPACK_DOUBLE
            expected(F_DOUBLE, &x, &want, &fn_, &dn_);
            double v = d_of(want); if (dn_) v = (double)f_of(0x7fc00000);
            double dmn = fmn, dmx = fmx;
            in = v >= dmn && v <= dmx;
            double got = mpack_expect_double_range(&r, dmn, dmx);
            mpack_error_t e = mpack_reader_error(&r);
            if (e != (in ? mpack_ok : mpack_error_type)) mc_fail("expect_double_range(%g, %g) of [%s] (%g): %s", dmn, dmx, hexs(x.e, x.hdr), v, ES(e));
            if (bits_d(got) != (in ? bits_d(v) : bits_d(dmn))) mc_fail("expect_double_range(%g, %g) of [%s] (%g) returned %g", dmn, dmx, hexs(x.e, x.hdr), v, got);
#endif
        }
        mc_nontrivial(in);
        mpack_reader_destroy(&r);
    }
}
#endif
#endif

/* every double exponent and sign with structured significands */
static void doubles(void) {
    uint32_t ex = mc_choose(2048, "exponent");
    for (unsigned sign = 0; sign < 2; ++sign) for (int a = 0; a <= 53; ++a) for (int b = -1; b <= 52; ++b) for (int inv = 0; inv < 2; ++inv) {
        if (b >= a) break;
        uint64_t m = a ? (uint64_t)1 << (a - 1) : 0; if (b >= 0) m |= (uint64_t)1 << b; if (a == 53) m = ((uint64_t)1 << 52) - 1 - (b >= 0 ? (uint64_t)1 << b : 0);
        m &= ((uint64_t)1 << 52) - 1;
        if (inv) m = (((uint64_t)1 << 52) - 1) ^ m;
        num x; enc(&x, 0xcb, (uint64_t)sign << 63 | (uint64_t)ex << 52 | m, 8); all_fns(&x);
    }
}

#if NUM == 29
/* writing, tags and node tags of the raw bit patterns */
static void raw_paths(bool dbl, uint64_t bits) {
    char buf[16]; rbuf b; rb_init(&b);
    if (dbl) ref_f64(&b, bits); else ref_f32(&b, (uint32_t)bits);
    for (int how = 0; how < 2; ++how) {
        mpack_writer_t w; mpack_writer_init(&w, buf, sizeof buf);
        mc_eval(1); mc_nontrivial(1);
        if (how) {
            mpack_tag_t t;
            if (dbl) {
#if MPACK_DOUBLE
                t = mpack_tag_make_double(d_of(bits));
#else
                t = mpack_tag_make_raw_double(bits);
                if (mpack_tag_raw_double_value(&t) != bits) mc_fail("tag of raw double %#llx holds %#llx", (unsigned long long)bits, (unsigned long long)mpack_tag_raw_double_value(&t));
#endif
            } else {
#if MPACK_FLOAT
                t = mpack_tag_make_float(f_of((uint32_t)bits));
#else
                t = mpack_tag_make_raw_float((uint32_t)bits);
                if (mpack_tag_raw_float_value(&t) != bits) mc_fail("tag of raw float %#llx holds %#x", (unsigned long long)bits, mpack_tag_raw_float_value(&t));
#endif
            }
            mpack_write_tag(&w, t);
        } else if (dbl) {
#if MPACK_DOUBLE
            mpack_write_double(&w, d_of(bits));
#else
            mpack_write_raw_double(&w, bits);
#endif
        } else {
#if MPACK_FLOAT
            mpack_write_float(&w, f_of((uint32_t)bits));
#else
            mpack_write_raw_float(&w, (uint32_t)bits);
#endif
        }
        size_t n = mpack_writer_buffer_used(&w);
        if (mpack_writer_destroy(&w) != mpack_ok || n != b.n || memcmp(buf, b.p, n)) {
#if NAN_PAYLOAD == 0
            if (n != b.n || !(dbl ? isnan(d_of(bits)) : isnan(f_of((uint32_t)bits))))
#endif
            mc_fail("writing %s bits %#llx (%s) produced [%s]", dbl ? "double" : "float", (unsigned long long)bits, how ? "tag" : "direct", hexs(buf, n));
        }
    }
    /* read back as a tag and as a node */
    rv v; size_t off = 0; ref_header(b.p, b.n, &off, &v);
    mpack_reader_t r; mpack_reader_init_data(&r, (const char*)b.p, b.n);
    mpack_tag_t t = mpack_read_tag(&r);
    if (!tag_is(t, &v)) mc_fail("tag read from [%s] does not hold its bits", hexs(b.p, b.n));
    if (mpack_reader_destroy(&r) != mpack_ok) mc_fail("reading [%s] failed", hexs(b.p, b.n));
    mpack_node_data_t pool[4]; mpack_tree_t tr; mpack_tree_init_pool(&tr, (const char*)b.p, b.n, pool, 4); mpack_tree_parse(&tr);
    if (!tag_is(mpack_node_tag(mpack_tree_root(&tr)), &v)) mc_fail("node tag of [%s] does not hold its bits", hexs(b.p, b.n));
    if (mpack_tree_destroy(&tr) != mpack_ok) mc_fail("parsing [%s] failed", hexs(b.p, b.n));
    /* generic comparison of equal and different patterns */
    rb_free(&b);
}
#else
#define raw_paths(d, b) ((void)0)
#endif

void mc_body(void) {
    mc_shard_depth = 2;
    switch (mc_choose(8, "part")) {
        case 0: { /* every first byte with three fillers */
            static const uint64_t fill[3] = {0, 0x0102030405060708ull, UINT64_MAX};
            unsigned h = mc_choose(256, "first byte");
            for (int k = 0; k < 3; ++k) {
                num x; x.n = 0; x.e[x.n++] = (uint8_t)h;
                for (int j = 0; j < 40; ++j) x.e[x.n++] = (uint8_t)(fill[k] >> (8 * (7 - j % 8)));
                all_fns(&x);
            }
            break; }
        case 1: { /* 8 and 16 bit encodings: all */
            uint64_t a, b; shard(65536, 32, &a, &b);
            for (uint64_t v = a; v < b; ++v) {
                num x; mc_note(0, v);
                enc(&x, 0xcd, v, 2); all_fns(&x); enc(&x, 0xd1, v, 2); all_fns(&x);
                if (v < 256) { enc(&x, 0xcc, v, 1); all_fns(&x); enc(&x, 0xd0, v, 1); all_fns(&x); }
            }
            break; }
        case 2: {
            uint64_t a, b; shard(V32_N, 64, &a, &b);
            for (uint64_t i = a; i < b; ++i) { num x; uint32_t v = v32((uint32_t)i); mc_note(0, v); enc(&x, 0xce, v, 4); all_fns(&x); enc(&x, 0xd2, v, 4); all_fns(&x); enc(&x, 0xca, v, 4); all_fns(&x); raw_paths(false, v); }
            break; }
        case 3: {
            uint64_t a, b; shard(V64_N, 64, &a, &b);
            for (uint64_t i = a; i < b; ++i) { num x; uint64_t v = v64(i); mc_note(0, v); enc(&x, 0xcf, v, 8); all_fns(&x); enc(&x, 0xd3, v, 8); all_fns(&x); enc(&x, 0xcb, v, 8); all_fns(&x); raw_paths(true, v); }
            break; }
        case 4: doubles(); break;
#if EXPECT_SIDE
        case 5: if (NUM == 29) mc_done(); ranges8(); break;
        case 6: if (NUM == 29) mc_done(); ranges_wide(); break;
#if MPACK_FLOAT
        case 7: ranges_float(); break;
#endif
#endif
        default: break;
    }
}
