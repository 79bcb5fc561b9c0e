/* C18 (EX=18): matchers of the expect API; C21 (EX=21): bounded copies and allocations of the
 * expect, reader and node APIs. Every call is made on every value of a table (every type, every encoding
 * width, every truncation) in memory and through small stream buffers, and compared with what the
 * documentation says about the value the reference decoder sees. */
#include "common.h"
#include "longs.h"
#ifndef EX
#define EX 18
#endif
#define BUFSZ 40                 /* stream buffer */
enum { T_ = 1, I_ = 2, O_ = 4, B_ = 8, G_ = 16, M_ = 32 };
static unsigned ebit(mpack_error_t e) {
    switch (e) { case mpack_error_type: return T_; case mpack_error_invalid: return I_; case mpack_error_io: return O_; case mpack_error_too_big: return B_;
        case mpack_error_bug: return G_; case mpack_error_memory: return M_; default: return 0x8000; }
}

/* ------------------------------------------------------------------ values */
typedef struct { uint8_t* p; size_t n; bool cut; } val;
static val V[12000]; static int NV;
static void add(rbuf* b) {
    /* the whole value, then its truncations: every one of the header and first bytes, and one byte short */
    V[NV].p = (uint8_t*)malloc(b->n + 1); memcpy(V[NV].p, b->p, b->n); V[NV].p[b->n] = 0xc3; V[NV].n = b->n; V[NV].cut = false;
    uint8_t* p = V[NV++].p;
    for (size_t k = 0; k < b->n; ++k) if (k < 12 || k + 1 == b->n || k == BUFSZ) { V[NV].p = p; V[NV].n = k; V[NV].cut = true; ++NV; }
    rb_free(b);
}
static void num(bool sg, uint64_t u) {
    for (int f = 0; f < 5; ++f) {
        rbuf b; rb_init(&b); gn g; memset(&g, 0, sizeof g); g.t = sg ? RV_INT : RV_UINT; g.u = u; g.i = (int64_t)u; g.form = (uint8_t)f;
        g_encode(&b, &g); add(&b);
    }
}
static void blob(int t, int8_t ext, const void* d, uint32_t n) {
    for (int f = 0; f < 4; ++f) {
        rbuf b; rb_init(&b); gn g; memset(&g, 0, sizeof g); g.t = (uint8_t)t; g.ext = ext; g.data = (const uint8_t*)d; g.n = n; g.form = (uint8_t)f;
        g_encode(&b, &g); add(&b);
        if (n > 60 && f) break;
    }
}
static void coll(int t, uint32_t n) {
    for (int f = 0; f < 3; ++f) {
        static gn kids[64]; rbuf b; rb_init(&b); gn g; memset(&g, 0, sizeof g); g.t = (uint8_t)t; g.n = n; g.form = (uint8_t)f;
        if (n <= 24) { g.kid = kids; g.kids = t == RV_MAP ? 2 * n : n; }       /* nils */
        g_encode(&b, &g); add(&b);
        if (n > 24) V[NV - 1].cut = true;
    }
}
static const char* words[] = {"", "a", "ab", "abc", "\xc3\xa9", "b", "a long key of 35 bytes ............."};
static void make_values(void) {
    if (NV) return;
    rbuf b; rb_init(&b);
    ref_nil(&b); add(&b); rb_init(&b); ref_bool(&b, 0); add(&b); rb_init(&b); ref_bool(&b, 1); add(&b);
    rb_init(&b); rb_u8(&b, 0xc1); add(&b);
    rb_init(&b); ref_f32(&b, 0x3f800000); add(&b); rb_init(&b); ref_f64(&b, 0x3ff0000000000000ull); add(&b);
    rb_init(&b); rb_u8(&b, 0x92); rb_u8(&b, 0xc0); rb_u8(&b, 0xc1); add(&b);
    rb_init(&b); rb_u8(&b, 0x81); rb_u8(&b, 0xa1); rb_u8(&b, 'a'); rb_u8(&b, 0x92); rb_u8(&b, 0x01); rb_u8(&b, 0xc4); rb_u8(&b, 0x02); rb_u8(&b, 7); rb_u8(&b, 8); add(&b);
    static const uint64_t us[] = {0, 1, 2, 3, 4, 127, 128, 255, 256, 257, 65535, 65536, 65537, 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x8000000000000000ull, UINT64_MAX};
    for (unsigned i = 0; i < sizeof us / 8; ++i) num(false, us[i]);
    static const int64_t is[] = {0, 1, 2, 3, 4, 127, 128, 255, 256, 257, 65536, 65537, 0x100000001ll, INT64_MAX, -1, -2, -32, -33, -128, -129, -255, -256, -65535, -65536, -2147483648LL, -4294967295LL, INT64_MIN};
    for (unsigned i = 0; i < sizeof is / 8; ++i) num(true, (uint64_t)is[i]);
    static const uint32_t ls[] = {0, 1, 2, 3, 4, 5, 8, 12, 16, 17, 31, 32, 33, 39, 40, 41, 80, 255, 256, 300};
    for (unsigned i = 0; i < sizeof ls / 4; ++i) { blob(RV_STR, 0, payload(), ls[i]); blob(RV_BIN, 0, wild(), ls[i]); blob(RV_EXT, 5, wild(), ls[i]); }
    for (unsigned i = 0; i < 9; ++i) { static const int8_t xt[] = {0, 1, 127, -128, -2, -1}; for (unsigned k = 0; k < 6; ++k) blob(RV_EXT, xt[k], wild(), ls[i]); }
    for (unsigned i = 0; i < sizeof words / sizeof *words; ++i) { blob(RV_STR, 0, words[i], (uint32_t)strlen(words[i])); blob(RV_BIN, 0, words[i], (uint32_t)strlen(words[i])); }
    static const char* odd[] = {"a\0", "ab\0", "abd", "aBc", "\xc3\xa8", "\xc3", "\xff\xfe", "\0", "\0a", "a\0b"}; static const int on[] = {2, 3, 3, 3, 2, 1, 2, 1, 2, 3};
    for (int i = 0; i < 10; ++i) blob(RV_STR, 0, odd[i], (uint32_t)on[i]);
    static const uint32_t ns[] = {0, 1, 2, 3, 4, 5, 15, 16, 17, 20, 255, 256, 65535, 65536, 65537, 0x40000000u, 0x80000000u, 0xffffffffu};
    for (unsigned i = 0; i < sizeof ns / 4; ++i) { coll(RV_ARR, ns[i]); coll(RV_MAP, ns[i]); }
    /* declared lengths with nothing behind them */
    for (int k = 0; k < 3; ++k) for (unsigned i = 0; i < 6; ++i) {
        static const uint32_t big[] = {65535, 65536, 0x01000000u, 0x7fffffffu, 0xfffffffeu, 0xffffffffu};
        rb_init(&b); rb_u8(&b, k == 0 ? 0xdb : k == 1 ? 0xc6 : 0xc9); rb_be(&b, big[i], 4); if (k == 2) rb_u8(&b, 9); rb_u8(&b, 'x'); add(&b); V[NV - 1].cut = true;
    }
    if (NV > 12000) abort();
    /* a declared length that is not there makes the value truncated, whatever add() thought */
    for (int i = 0; i < NV; ++i) { size_t o = 0, nodes = 0; rv r; bool x = false; int st = ref_parse(V[i].p, V[i].n, &o, &r, &x, &nodes); if (st == REF_TRUNC) V[i].cut = true; ref_free(&r); }
}
static rv H; static int hst, full; static const val* cv; static size_t objend;
static int btype(uint8_t b) { /* the type a first byte announces */
    uint8_t z[16] = {b}; size_t o = 0; rv r; return ref_header(z, 16, &o, &r) == REF_OK ? r.t : -1;
}
static void look(const val* v) {
    size_t o = 0, nodes = 0; bool x = false; rv r;
    cv = v; hst = ref_header(v->p, v->n, &o, &H);
    o = 0; full = ref_parse(v->p, v->n, &o, &r, &x, &nodes); objend = o; ref_free(&r);
}

/* ------------------------------------------------------------------ the reader under test */
typedef struct { const uint8_t* d; size_t n, off, chunk; } src_t;
static src_t st; static int chunk; static char sbuf[BUFSZ]; static mpack_reader_t R; static uint8_t* mem;
static size_t fill(mpack_reader_t* r, char* buf, size_t count) {
    src_t* s = (src_t*)mpack_reader_context(r);
    size_t k = s->n - s->off; if (k > count) k = count; if (s->chunk && k > s->chunk) k = s->chunk;
    memcpy(buf, s->d + s->off, k); s->off += k; return k;
}
static unsigned handler_calls; static mpack_error_t handler_err;
static void on_err(mpack_reader_t* r, mpack_error_t e) { (void)r; ++handler_calls; handler_err = e; }
static size_t total;
static const char* fname; static long long fparm;
static void open_(void) {
    total = cv->n + (cv->cut ? 0 : 1);
    handler_calls = 0;
    mem = (uint8_t*)malloc(total ? total : 1); memcpy(mem, cv->p, total);
    if (chunk < 0) mpack_reader_init_data(&R, (char*)mem, total);
    else { st.d = mem; st.n = total; st.off = 0; st.chunk = (size_t)chunk; mpack_reader_init(&R, sbuf, sizeof sbuf, 0); mpack_reader_set_fill(&R, fill); mpack_reader_set_context(&R, &st); }
    mpack_reader_set_error_handler(&R, on_err);
    env_max_request = 0;
}
#define BAD(fmt, ...) mc_fail("%s(%lld) on [%s]%s, %s: " fmt, fname, fparm, hexs(cv->p, cv->n), cv->cut ? " cut" : "", chunk < 0 ? "memory" : "stream", ##__VA_ARGS__)
static unsigned trunc_(void) { return chunk < 0 ? I_ : I_ | O_; }
/* errors that are right when an object of type t is wanted; 0: it is one */
static unsigned want(int t, int t2) {
    if (cv->n == 0) return trunc_();
    int bt = btype(cv->p[0]);
    bool right = bt == t || (t2 >= 0 && bt == t2);
    if (hst == REF_INVALID) return T_ | I_;
    if (hst == REF_TRUNC) return right ? trunc_() : T_ | trunc_();
    return right ? 0 : T_;
}
static unsigned body(void) { return full == REF_TRUNC ? trunc_() : full == REF_INVALID ? I_ : 0; }
enum { F_NONE, F_BODY };
/* errs 0: success expected. follow F_BODY: only the header was consumed; the contents are read here */
static void fin(unsigned errs, int follow) {
    mpack_error_t e = mpack_reader_error(&R);
    mc_eval(1); mc_nontrivial(errs == 0);
    if (!errs) {
        if (e != mpack_ok) BAD("%s instead of success", ES(e));
        if (follow == F_BODY) {
            if (chunk < 0 && mpack_reader_error(&R) == mpack_ok) {
                if ((const uint8_t*)R.data != mem + H.hdr) BAD("%zu bytes consumed, the header has %zu", (size_t)((const uint8_t*)R.data - mem), H.hdr);
            }
            if (body() == 0) {
                if (H.t == RV_STR || H.t == RV_BIN || H.t == RV_EXT) {
                    for (uint32_t i = 0; i < H.n; ) { char c[16]; uint32_t k = H.n - i > 16 ? 16 : H.n - i; mpack_read_bytes(&R, c, k); if (mpack_reader_error(&R) || memcmp(c, cv->p + H.hdr + i, k)) BAD("contents not readable behind it: %s", ES(mpack_reader_error(&R))); i += k; }
                    if (H.t == RV_STR) mpack_done_str(&R); else if (H.t == RV_BIN) mpack_done_bin(&R);
#if MPACK_EXTENSIONS
                    else mpack_done_ext(&R);
#endif
                } else if (H.t == RV_ARR) { for (uint32_t i = 0; i < H.n; ++i) mpack_discard(&R); mpack_done_array(&R); }
                else if (H.t == RV_MAP) { for (uint32_t i = 0; i < 2 * H.n; ++i) mpack_discard(&R); mpack_done_map(&R); }
            }
        }
        if (!cv->cut && !(follow == F_BODY && body())) { if (!mpack_expect_bool(&R) || mpack_reader_error(&R)) BAD("the object behind is not read (%s)", ES(mpack_reader_error(&R))); }
        bool open = follow == F_BODY && body() != 0;      /* contents not present: cannot be finished */
        if (open) mpack_reader_flag_error(&R, mpack_error_data);
        else if (handler_calls) BAD("error handler called although nothing went wrong");
        e = mpack_reader_destroy(&R);
        if (e != (open ? mpack_error_data : mpack_ok)) BAD("destroy: %s", ES(e));
    } else {
        if (!(ebit(e) & errs)) BAD("%s (allowed errors: %s%s%s%s%s%s)", ES(e), errs & T_ ? "type " : "", errs & I_ ? "invalid " : "", errs & O_ ? "io " : "", errs & B_ ? "too_big " : "", errs & G_ ? "bug " : "", errs & M_ ? "memory" : "");
        if (handler_calls != 1 || handler_err != e) BAD("error handler called %u times", handler_calls);
        if (mpack_reader_destroy(&R) != e) BAD("destroy loses the error");
    }
    if (env_live_blocks) BAD("%zu blocks leaked", env_live_blocks);
    mc_outcome(mc_mix((uint64_t)e, errs));
    free(mem); mem = NULL;
#ifdef VF_DEBUG
    if (dbg_breaks && !(errs & G_)) BAD("break: %s", dbg_last);
    dbg_breaks = 0;
#endif
}
#define OPEN(n, p) do { fname = n; fparm = (long long)(p); open_(); } while (0)
#define RET(got, exp) do { unsigned long long g_ = (unsigned long long)(got), e_ = (unsigned long long)(exp); if (g_ != e_) BAD("returned %llu instead of %llu", g_, e_); } while (0)

#if EX == 18
static const uint32_t bnd[] = {0, 1, 2, 3, 4, 5, 8, 12, 15, 16, 17, 31, 32, 40, 255, 256, 300, 65535, 65536, 0x3fffffffu, 0x40000000u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu};
#define NB ((int)(sizeof bnd / 4))
static void t_coll(bool map) {
    int t = map ? RV_MAP : RV_ARR;
    unsigned w = want(t, -1), wn = want(t, RV_NIL);
    bool nil = hst == REF_OK && H.t == RV_NIL;
    uint32_t r, c; bool has;
#define PICK(m, a) (map ? (m) : (a))
    OPEN(PICK("map", "array"), 0); r = PICK(mpack_expect_map(&R), mpack_expect_array(&R)); RET(r, w ? 0 : H.n); fin(w, F_BODY);
    OPEN(PICK("map_or_nil", "array_or_nil"), 0); c = 77; has = PICK(mpack_expect_map_or_nil(&R, &c), mpack_expect_array_or_nil(&R, &c)); RET(has, !wn && !nil); RET(c, wn || nil ? 0 : H.n); fin(wn, nil ? F_NONE : F_BODY);
    for (int i = 0; i < NB; ++i) {
        uint32_t m = bnd[i];
        if (w && wn && !nil && i % 6) continue;         /* another type: a few bounds do */
        unsigned x = w ? w : H.n > m ? T_ : 0, xn = wn ? wn : !nil && H.n > m ? T_ : 0;
        OPEN(PICK("map_max", "array_max"), m); r = PICK(mpack_expect_map_max(&R, m), mpack_expect_array_max(&R, m)); RET(r, x ? 0 : H.n); fin(x, F_BODY);
        OPEN(PICK("map_max_or_nil", "array_max_or_nil"), m); c = 77; has = PICK(mpack_expect_map_max_or_nil(&R, m, &c), mpack_expect_array_max_or_nil(&R, m, &c)); RET(has, !xn && !nil); RET(c, xn || nil ? 0 : H.n); fin(xn, nil ? F_NONE : F_BODY);
        unsigned y = w ? w : H.n != m ? T_ : 0;
        OPEN(PICK("map_match", "array_match"), m); PICK(mpack_expect_map_match(&R, m), mpack_expect_array_match(&R, m)); fin(y, F_BODY);
        for (int k = i; k < NB; ++k) {
            if (w && k % 4) continue;
            unsigned z = w ? w : H.n < m || H.n > bnd[k] ? T_ : 0;
            OPEN(PICK("map_range", "array_range"), ((uint64_t)m << 32) | bnd[k]); r = PICK(mpack_expect_map_range(&R, m, bnd[k]), mpack_expect_array_range(&R, m, bnd[k])); RET(r, z ? m : H.n); fin(z, F_BODY);
        }
        if (!map) {
            /* the allocating reads; requests above 1 GiB are refused by the harness allocator */
            typedef struct { char b[24]; } t24; typedef struct { char b[1u << 20]; } t1m;
#define AA(Type) do { \
            uint64_t sz_ = (uint64_t)sizeof(Type) * H.n; bool big = !x && sz_ > (1ull << 30); unsigned xa = x ? x : big ? M_ | B_ : 0; \
            OPEN("array_alloc " #Type, m); c = 77; Type* p = mpack_expect_array_alloc(&R, Type, m, &c); \
            if ((p != NULL) != (!xa && H.n > 0)) BAD("returned %p (count %u)", (void*)p, c); RET(c, xa ? 0 : H.n); \
            if (p) { memset(p, 1, sz_ > 5000 ? 5000 : sz_); if (env_max_request < sz_) BAD("%zu bytes allocated for %u elements", env_max_request, c); memset((char*)p + sz_ - 1, 1, 1); vf_free(p); } fin(xa, F_BODY); \
            big = !xn && !nil && sz_ > (1ull << 30); xa = xn ? xn : big ? M_ | B_ : 0; \
            OPEN("array_or_nil_alloc " #Type, m); c = 77; p = mpack_expect_array_or_nil_alloc(&R, Type, m, &c); \
            if ((p != NULL) != (!xa && !nil && H.n > 0)) BAD("returned %p (count %u)", (void*)p, c); RET(c, xa || nil ? 0 : H.n); \
            if (p) { memset(p, 1, sz_ > 5000 ? 5000 : sz_); if (env_max_request < sz_) BAD("%zu bytes allocated for %u elements", env_max_request, c); memset((char*)p + sz_ - 1, 1, 1); vf_free(p); } fin(xa, nil || (!xa && H.n == 0) ? F_NONE : F_BODY); } while (0)
            if (i % 3 == 0 || H.n < 612000) { AA(char); AA(t24); } if (H.n > 1000) AA(t1m);
        }
    }
}
static void t_blob(void) {
    uint32_t r; unsigned w;
    w = want(RV_STR, -1);
    OPEN("str", 0); r = mpack_expect_str(&R); RET(r, w ? 0 : H.n); fin(w, F_BODY);
    for (int i = 0; i < NB; ++i) {
        uint32_t m = bnd[i]; unsigned x = w ? w : H.n > m ? B_ : 0;
        OPEN("str_max", m); r = mpack_expect_str_max(&R, m); RET(r, x ? 0 : H.n); fin(x, F_BODY);
        x = w ? w : H.n != m ? T_ : 0;
        OPEN("str_length", m); mpack_expect_str_length(&R, m); fin(x, F_BODY);
    }
    w = want(RV_BIN, -1);
    OPEN("bin", 0); r = mpack_expect_bin(&R); RET(r, w ? 0 : H.n); fin(w, F_BODY);
    for (int i = 0; i < NB; ++i) {
        uint32_t m = bnd[i]; unsigned x = w ? w : H.n > m ? T_ : 0;
        OPEN("bin_max", m); r = mpack_expect_bin_max(&R, m); RET(r, x ? 0 : H.n); fin(x, F_BODY);
        x = w ? w : H.n != m ? T_ : 0;
        OPEN("bin_size", m); mpack_expect_bin_size(&R, m); fin(x, F_BODY);
        if (m <= 65536) {
            if (!x && body()) x = body();
            char* d = (char*)malloc(m + 1); memset(d, 0x5a, m + 1);
            OPEN("bin_size_buf", m); mpack_expect_bin_size_buf(&R, d, m); if (d[m] != 0x5a) BAD("wrote beyond the buffer");
            if (!x && memcmp(d, cv->p + H.hdr, m)) BAD("wrong data"); fin(x, F_NONE); free(d);
        }
    }
#if MPACK_EXTENSIONS
    w = want(RV_EXT, -1);
    if (!w && H.ext == -1) w = T_;          /* "cannot be used to match a timestamp" */
    if (w && hst == REF_TRUNC) w |= T_;
    int8_t ty;
#define TY(x) do { if (ty != ((x) ? 0 : H.ext)) BAD("type is %d", ty); } while (0)
    OPEN("ext", 0); ty = 77; r = mpack_expect_ext(&R, &ty); RET(r, w ? 0 : H.n); TY(w); fin(w, F_BODY);
    for (int i = 0; i < NB; ++i) {
        uint32_t m = bnd[i]; unsigned x = w ? w : H.n > m ? T_ : 0;
        OPEN("ext_max", m); ty = 77; r = mpack_expect_ext_max(&R, &ty, m); RET(r, x ? 0 : H.n); TY(x); fin(x, F_BODY);
        x = w ? w : H.n != m ? T_ : 0;
        OPEN("ext_size", m); ty = 77; mpack_expect_ext_size(&R, &ty, m); TY(x); fin(x, F_BODY);
    }
#endif
}
static void t_match1(const char* s, size_t n, bool c) {
    unsigned x = want(RV_STR, -1);
    if (!x && H.n != n) x = T_;
    if (!x) {
        size_t have = cv->n - H.hdr; if (have > n) have = n;
        bool diff = memcmp(s, cv->p + H.hdr, have) != 0;
        if (have < n) x = trunc_() | (diff ? T_ : 0); else if (diff) x = T_;
    }
    if (c) { OPEN("cstr_match", n); mpack_expect_cstr_match(&R, s); } else { OPEN("str_match", n); mpack_expect_str_match(&R, s, n); }
    fin(x, F_NONE);
}
static void t_match(void) {
    for (unsigned i = 0; i < sizeof words / sizeof *words; ++i) { t_match1(words[i], strlen(words[i]), true); t_match1(words[i], strlen(words[i]), false); }
    t_match1("a\0", 2, false); t_match1("\0", 1, false); t_match1("\xc3", 1, true); t_match1("\xff\xfe", 2, true); t_match1("\xff\xfe", 2, false);
    if (hst == REF_OK && H.t == RV_STR && H.n <= 300) {
        char s[304]; memcpy(s, payload(), 300); s[H.n] = 0;
        t_match1(s, H.n, true); if (H.n) { s[H.n - 1] ^= 1; t_match1(s, H.n, true); s[H.n - 1] ^= 1; s[0] ^= 0x80; t_match1(s, H.n, true); s[0] ^= 0x80; t_match1(s, H.n - 1, false); t_match1(s, H.n + 1, false); }
    }
    if (sizeof(size_t) > 4) { size_t huge = (size_t)((uint64_t)1 << 32); unsigned x = want(RV_STR, -1) | T_; OPEN("str_match huge", 0); mpack_expect_str_match(&R, "", huge); fin(x, F_NONE); }
}
static void t_enum(void) {
    static const char* ks[] = {"abc", "a", "", "\xc3\xa9", "ab", "a", "a long key of 35 bytes .............", "b"};
    for (int kind = 0; kind < 2; ++kind) for (unsigned cnt = 1; cnt <= 8; ++cnt) {
        unsigned x = want(RV_STR, -1); size_t exp = cnt; bool isstr = x == 0;
        if (!x) {
            size_t have = cv->n - H.hdr;
            if (have < H.n) x = trunc_();
            if (chunk >= 0 && H.n > BUFSZ) x |= B_;
            if (!x) for (unsigned i = 0; i < cnt; ++i) if (strlen(ks[i]) == H.n && !memcmp(ks[i], cv->p + H.hdr, H.n)) { exp = i; break; }
        }
        if (kind == 0) { if (!x && exp == cnt) x = T_; OPEN("enum", cnt); size_t r = mpack_expect_enum(&R, ks, cnt); RET(r, exp); fin(x, F_NONE); }
        else {
            if (!isstr) x = cv->n == 0 ? trunc_() : body();
            OPEN("enum_optional", cnt); size_t r = mpack_expect_enum_optional(&R, ks, cnt); RET(r, exp); fin(x, F_NONE);
            if (cnt != 6 && cnt != 8) for (unsigned m = 0; m < 1u << (cnt < 3 ? cnt : 3); ++m) { /* found flags set before */
                bool found[8] = {0}, want_f[8]; for (int i = 0; i < 3; ++i) found[i] = m >> i & 1;
                unsigned y = x; size_t e2 = exp; memcpy(want_f, found, sizeof found);
                if (!y && exp < cnt) { if (found[exp]) { y = I_; e2 = cnt; } else want_f[exp] = true; }
                OPEN("key_cstr", cnt * 8 + m); r = mpack_expect_key_cstr(&R, ks, found, cnt); RET(r, e2); if (memcmp(found, want_f, sizeof found)) BAD("wrong found flags"); fin(y, F_NONE);
            }
        }
    }
    for (unsigned cnt = 1; cnt <= 300; cnt = cnt < 6 ? cnt + 1 : cnt == 6 ? 256 : cnt == 256 ? 257 : cnt == 257 ? 300 : 301) for (int m = 0; m < 3; ++m) {
        bool found[300], wf[300]; for (unsigned i = 0; i < 300; ++i) found[i] = m == 0 ? false : m == 1 ? true : i & 1;
        memcpy(wf, found, sizeof wf);
        unsigned x = cv->n == 0 ? trunc_() : body(); size_t exp = cnt;
        if (!x && ((H.t == RV_UINT && H.u < cnt) || (H.t == RV_INT && H.i >= 0 && H.i < (int64_t)cnt))) {
            size_t k = (size_t)(H.t == RV_UINT ? H.u : (uint64_t)H.i);
            if (found[k]) x = I_; else { exp = k; wf[k] = true; }
        }
        OPEN("key_uint", cnt * 4 + m); size_t r = mpack_expect_key_uint(&R, found, cnt); RET(r, exp); if (memcmp(found, wf, sizeof wf)) BAD("wrong found flags"); fin(x, F_NONE);
    }
}
static mpack_tag_t tag_of(const rv* v) {
    switch (v->t) {
        case RV_NIL: return mpack_tag_make_nil(); case RV_BOOL: return mpack_tag_make_bool(v->u != 0); case RV_UINT: return mpack_tag_make_uint(v->u); case RV_INT: return mpack_tag_make_int(v->i);
        case RV_F32: return mpack_tag_make_float(f_of((uint32_t)v->u)); case RV_F64: return mpack_tag_make_double(d_of(v->u));
        case RV_STR: return mpack_tag_make_str(v->n); case RV_BIN: return mpack_tag_make_bin(v->n);
#if MPACK_EXTENSIONS
        case RV_EXT: return mpack_tag_make_ext(v->ext, v->n);
#endif
        case RV_ARR: return mpack_tag_make_array(v->n); default: return mpack_tag_make_map(v->n);
    }
}
static bool same(const rv* a, const rv* b) {
    bool na = a->t == RV_UINT || a->t == RV_INT, nb = b->t == RV_UINT || b->t == RV_INT;
    if (na && nb) { bool ga = a->t == RV_INT && a->i < 0, gb = b->t == RV_INT && b->i < 0; uint64_t ua = a->t == RV_INT ? (uint64_t)a->i : a->u, ub = b->t == RV_INT ? (uint64_t)b->i : b->u; return ga == gb && ua == ub; }
    return a->t == b->t && a->u == b->u && a->n == b->n && a->ext == b->ext;
}
static void t_tag(void) {
    for (int i = chunk < 0 ? 0 : cv->n % 7; i < NV; i += chunk < 0 ? 1 : 7) {
        size_t o = 0; rv e; if (V[i].cut || ref_header(V[i].p, V[i].n, &o, &e) != REF_OK) continue;
        unsigned x = cv->n == 0 || hst == REF_TRUNC ? trunc_() : hst == REF_INVALID ? I_ : same(&H, &e) ? 0 : T_;
        OPEN("tag", i); mpack_expect_tag(&R, tag_of(&e)); fin(x, F_BODY);
    }
}
/* whole maps read with the key matchers in a loop, against a plain table */
static void maploop(void) {
    static const struct { const char* e; uint8_t n; int s, u; } KE[] = { /* encoded key; index as string key, as uint key */
        {"\xa1" "a", 2, 0, -1}, {"\xd9\x01" "a", 3, 0, -1}, {"\xa2" "ab", 3, 1, -1}, {"\xa0", 1, 2, -1}, {"\xa3" "abc", 4, -1, -1}, {"\x00", 1, -1, 0}, {"\xcc\x01", 2, -1, 1}, {"\x02", 1, -1, 2}, {"\x03", 1, -1, -1},
        {"\xff", 1, -1, -1}, {"\xd0\x01", 2, -1, 1}, {"\xc0", 1, -1, -1}, {"\x92\x01\xa1" "a", 4, -1, -1}, {"\xc4\x01" "a", 3, -1, -1}, {"\xcf\0\0\0\x01\0\0\0\x01", 9, -1, -1}, {"\xa2" "a\0", 3, -1, -1} };
    enum { NKE = sizeof KE / sizeof *KE };
    static const char* ks[] = {"a", "ab", ""};
    bool usekey = mc_choose(2, "kind of keys"); 
    int k0 = (int)mc_choose(NKE, "first key");
    uint64_t lim = (uint64_t)NKE * NKE * (mc_tier ? NKE : 1);
    for (int n = 0; n <= (mc_tier ? 4 : 3); ++n) {
        uint64_t combos = 1; for (int i = 1; i < n; ++i) combos *= NKE;
        if (combos > lim && n > 3) break;
        for (uint64_t c = 0; c < combos; ++c) {
            int ki[4]; uint64_t q = c; for (int i = 0; i < n; ++i) { if (i == 0) ki[0] = k0; else { ki[i] = (int)(q % NKE); q /= NKE; } }
            uint8_t d[80]; size_t m = 0; d[m++] = (uint8_t)(0x80 + n);
            for (int i = 0; i < n; ++i) { memcpy(d + m, KE[ki[i]].e, KE[ki[i]].n); m += KE[ki[i]].n; d[m++] = (uint8_t)(10 + i); }
            d[m++] = 0xc3;
            for (int ch = -1; ch < 3; ++ch) {
                char b[BUFSZ]; src_t s = {d, m, 0, (size_t)(ch < 0 ? 0 : ch)}; mpack_reader_t r;
                if (ch < 0) mpack_reader_init_data(&r, (char*)d, m); else { mpack_reader_init(&r, b, sizeof b, 0); mpack_reader_set_fill(&r, fill); mpack_reader_set_context(&r, &s); }
                bool found[3] = {0}; int seen[3] = {-1, -1, -1}; bool dup = false; mc_eval(1);
                uint32_t cnt = mpack_expect_map_max(&r, 4);
                if (cnt != (uint32_t)n) mc_fail("map of %d pairs read as %u", n, cnt);
                for (int i = 0; i < n; ++i) {
                    size_t ix = usekey ? mpack_expect_key_uint(&r, found, 3) : mpack_expect_key_cstr(&r, ks, found, 3);
                    int w = usekey ? KE[ki[i]].u : KE[ki[i]].s;
                    if (w >= 0 && seen[w] >= 0) dup = true;
                    size_t exp = dup || w < 0 ? 3 : (size_t)w;
                    if (ix != exp) mc_fail("map [%s]: key %d gives index %zu instead of %zu", hexs(d, m), i, ix, exp);
                    if (mpack_reader_error(&r) != (dup ? mpack_error_invalid : mpack_ok)) mc_fail("map [%s]: %s after key %d", hexs(d, m), ES(mpack_reader_error(&r)), i);
                    if (dup) break;
                    if (ix == 3) mpack_discard(&r); else { seen[w] = i; if (mpack_expect_u8(&r) != 10 + i) mc_fail("map [%s]: wrong value for key %d", hexs(d, m), i); }
                }
                for (int i = 0; i < 3; ++i) if (found[i] != (seen[i] >= 0)) mc_fail("map [%s]: found flags wrong", hexs(d, m));
                if (!dup) { mc_nontrivial(1); mpack_done_map(&r); if (!mpack_expect_bool(&r)) mc_fail("map [%s]: reader not behind the map", hexs(d, m)); }
                if (mpack_reader_destroy(&r) != (dup ? mpack_error_invalid : mpack_ok)) mc_fail("map [%s]: wrong final state", hexs(d, m));
            }
        }
        if (n == 0 && k0) continue;
    }
}
/* every pair of bytes at every position of a short string */
static void bytepairs(void) {
    unsigned a = mc_choose(256, "byte in the data"), pos = mc_choose(3, "position");
    for (unsigned b = 0; b < 256; ++b) for (unsigned f = 0; f < 2; ++f) {
        char d[8] = {(char)0xa3, 'x', (char)0xe9, 'z', (char)0xc3}, s[4] = {'x', (char)0xe9, 'z', 0}; d[1 + pos] = (char)a; s[pos] = (char)b;
        if (f) { s[3] = 0; if (!b) continue; }
        mpack_reader_t r; mpack_reader_init_data(&r, d, 5);
        if (f) mpack_expect_cstr_match(&r, s); else mpack_expect_str_match(&r, s, 3);
        mpack_error_t e = mpack_reader_error(&r); mc_eval(1); mc_nontrivial(a == b);
        if (e != (a == b ? mpack_ok : mpack_error_type)) mc_fail("str_match: data byte %02x, wanted %02x at position %u: %s", a, b, pos, ES(e));
        if (a == b && !mpack_expect_bool(&r)) mc_fail("str_match: not behind the string");
        mpack_reader_destroy(&r);
    }
}
/* long strings: matched and looked up among the strings they are easily mistaken for */
static char lbuf[300000]; static rbuf ld;
static void lopen(mpack_reader_t* r, src_t* s, int ch) {
    if (ch < 0) { mpack_reader_init_data(r, (char*)ld.p, ld.n); return; }
    *s = (src_t){ld.p, ld.n, 0, (size_t)ch}; mpack_reader_init(r, lbuf, sizeof lbuf, 0); mpack_reader_set_fill(r, fill); mpack_reader_set_context(r, s);
}
static void longs(void) {
    uint32_t L = LLEN[mc_choose(NLLEN, "length")], q = mc_choose(NLVAR, "string"); lv_make(L);
    if (!LVAR[q].there) return;
    ld.n = 0; ref_str_hdr(&ld, LVAR[q].n, false); rb_mem(&ld, LVAR[q].p, LVAR[q].n); rb_u8(&ld, 0xc3);
    mc_state(mc_hash(18, ld.p, ld.n));
    for (int ch = -1; ch < 2; ++ch) for (int a = 0; a < NLVAR; ++a) {
        if (!LVAR[a].there) continue;
        mpack_reader_t r; src_t s; mpack_error_t e; int chunk_ = ch == 1 ? 701 : ch;
        for (int c = 0; c < 2; ++c) {
            bool eq = lv_same((int)q, a);
            lopen(&r, &s, chunk_); if (c) mpack_expect_cstr_match(&r, LVAR[a].p); else mpack_expect_str_match(&r, LVAR[a].p, LVAR[a].n);
            if (mpack_reader_error(&r) == mpack_ok && !mpack_expect_bool(&r)) mc_fail("%s: the reader is not behind the string", c ? "cstr_match" : "str_match");
            e = mpack_reader_destroy(&r); mc_eval(1); if (eq) mc_nontrivial(1);
            if (e != (eq ? mpack_ok : mpack_error_type)) mc_fail("%s of variant %u of %u against variant %d: %s", c ? "cstr_match" : "str_match", q, L, a, ES(e));
        }
        if (ch == 0) continue;
        for (int b = 0; b <= NLVAR; ++b) {
            if (b < NLVAR && !LVAR[b].there) continue;
            if (L > 1024 && b > 2 && b < NLVAR && a > 2) continue;
            const char* S[2] = {LVAR[a].p, b < NLVAR ? LVAR[b].p : "x"}; size_t cnt = b < NLVAR ? 2 : 1, want_ = cnt;
            if (cnt == 2 && lv_same((int)q, b)) want_ = 1;
            if (lv_same((int)q, a)) want_ = 0;
            for (int f = 0; f < 4; ++f) {
                bool found[2] = {f == 3, false}; size_t got, w = want_; mpack_error_t we = mpack_ok;
                lopen(&r, &s, chunk_);
                if (f == 0) { got = mpack_expect_enum(&r, S, cnt); if (w == cnt) we = mpack_error_type; }
                else if (f == 1) got = mpack_expect_enum_optional(&r, S, cnt);
                else { got = mpack_expect_key_cstr(&r, S, found, cnt); if (f == 3 && w == 0) { we = mpack_error_invalid; w = cnt; } }
                if (mpack_reader_error(&r) == mpack_ok && !mpack_expect_bool(&r)) mc_fail("the reader is not behind the string");
                e = mpack_reader_destroy(&r); mc_eval(1);
                if (got != w || e != we) mc_fail("%s of variant %u of %u in {%d,%d}: %zu %s, must be %zu %s", f == 0 ? "enum" : f == 1 ? "enum_optional" : "key_cstr", q, L, a, b, got, ES(e), w, ES(we));
                if (f >= 2 && (found[0] != (f == 3 || w == 0) || found[1] != (w == 1 && cnt == 2))) mc_fail("key_cstr of variant %u of %u in {%d,%d}: wrong found flags", q, L, a, b);
            }
        }
    }
}
static void run1(int part) {
    switch (part) { case 0: t_coll(true); break; case 1: t_coll(false); break; case 2: t_blob(); break; case 3: t_match(); break; case 4: t_enum(); break; case 5: t_tag(); break; }
}
enum { PARTS = 6 };
#else /* ---------------------------------------------------------------- EX == 21 */
static size_t lims[24]; static int NL;
static void limits(void) {
    static const size_t fixd[] = {0, 1, 2, 3, 5, BUFSZ, 1000, 0x7fffffff, 0xffffffffu, (size_t)-1};
    NL = 0; for (unsigned i = 0; i < sizeof fixd / sizeof *fixd; ++i) lims[NL++] = fixd[i];
    if (sizeof(size_t) > 4) { lims[NL++] = (size_t)((uint64_t)1 << 32); lims[NL++] = (size_t)(((uint64_t)1 << 32) + 3); }
    if (hst == REF_OK) { size_t n = H.n; lims[NL++] = n; lims[NL++] = n + 1; lims[NL++] = n + 2; if (n) lims[NL++] = n - 1; if (n > 1) lims[NL++] = n - 2; lims[NL++] = n / 2; }
}
static bool nul_in(void) { return memchr(cv->p + H.hdr, 0, H.n) != NULL; }
static bool u8_ok(void) { return ref_utf8(cv->p + H.hdr, H.n); }
static char* D; static size_t Dn;
/* buffers are at most 2000 bytes; larger limits get a buffer that holds any value of the table */
#define HUGE_(L) ((L) > 2000 && hst == REF_OK && H.n > 69000)      /* the buffer cannot really be that large */
static void dst(size_t n) { Dn = n > 2000 ? 70000 : n; D = (char*)malloc(Dn + 1); memset(D, 0x5a, Dn + 1); }
static void dst_done(size_t written) { for (size_t i = written; i <= Dn; ++i) if (D[i] != 0x5a) BAD("byte %zu of the buffer was written (limit %zu, object %u bytes)", i, Dn, H.n); free(D); }
static unsigned fits(unsigned w, size_t n, size_t lim, unsigned toobig) {
    if (w) return w;
    if (n > lim) return toobig | (toobig && full == REF_TRUNC ? 0 : 0);
    return body();
}
#define TOUCH(n) (Dn >= (n) ? (size_t)(n) : Dn)
static void expect_copies(void) {
    unsigned ws = want(RV_STR, -1), wb = want(RV_BIN, -1), x; size_t r; limits();
    for (int i = 0; i < NL; ++i) {
        size_t L = lims[i];
        if (!HUGE_(L)) {
        /* string into a buffer */
        x = fits(ws, H.n, L, B_);
        dst(L); OPEN("str_buf", L); r = mpack_expect_str_buf(&R, D, L); RET(r, x ? 0 : H.n); if (!x && memcmp(D, cv->p + H.hdr, H.n)) BAD("wrong bytes");
        fin(x, F_NONE); dst_done(x && (ws || H.n > L) ? 0 : TOUCH(H.n));
        unsigned xu = x ? x : u8_ok() ? 0 : T_;
        dst(L); OPEN("utf8", L); r = mpack_expect_utf8(&R, D, L); RET(r, xu ? 0 : H.n); if (!xu && memcmp(D, cv->p + H.hdr, H.n)) BAD("wrong bytes"); fin(xu, F_NONE); dst_done(x && (ws || H.n > L) ? 0 : TOUCH(H.n));
        if (L >= 1) {
            unsigned xc = fits(ws, H.n, L - 1, B_);
            unsigned y = xc ? xc : nul_in() ? T_ : 0;
            dst(L); OPEN("cstr", L); mpack_expect_cstr(&R, D, L); if (y ? D[0] != 0 : memcmp(D, cv->p + H.hdr, H.n) || D[H.n]) BAD("wrong contents"); fin(y, F_NONE); dst_done(xc && (ws || H.n > L - 1) ? 1 : TOUCH(H.n + 1));
            y = xc ? xc : nul_in() || !u8_ok() ? T_ : 0;
            dst(L); OPEN("utf8_cstr", L); mpack_expect_utf8_cstr(&R, D, L); if (y ? D[0] != 0 : memcmp(D, cv->p + H.hdr, H.n) || D[H.n]) BAD("wrong contents"); fin(y, F_NONE); dst_done(xc && (ws || H.n > L - 1) ? 1 : TOUCH(H.n + 1));
        }
        }
        /* allocating; a request above 1 GiB is refused by the allocator */
        for (int u = 0; u < 2; ++u) {
            unsigned y; bool big = !ws && H.n < L && H.n > (1u << 30) - 2;
            if (L == 0) y = G_ | ws; else { y = fits(ws, H.n, L - 1, B_); if (big) y |= M_ | B_; if (!y && (nul_in() || (u && !u8_ok()))) y = T_; }
#ifdef VF_DEBUG
            if (L == 0) continue;
#endif
            OPEN(u ? "utf8_cstr_alloc" : "cstr_alloc", L);
            char* p = u ? mpack_expect_utf8_cstr_alloc(&R, L) : mpack_expect_cstr_alloc(&R, L);
            if ((p != NULL) != (y == 0)) BAD("returned %p", (void*)p);
            if (p && (memcmp(p, cv->p + H.hdr, H.n) || p[H.n])) BAD("wrong contents");
            if (env_max_request > L) BAD("a block of %zu bytes was requested", env_max_request);
            vf_free(p); fin(y, F_NONE);
        }
        /* binary */
        x = fits(wb, H.n, L, B_ | T_);
        if (!HUGE_(L)) { dst(L); OPEN("bin_buf", L); r = mpack_expect_bin_buf(&R, D, L); RET(r, x ? 0 : H.n); if (!x && memcmp(D, cv->p + H.hdr, H.n)) BAD("wrong bytes"); fin(x, F_NONE); dst_done(x && (wb || H.n > L) ? 0 : TOUCH(H.n)); }
        { bool big = !wb && H.n <= L && H.n > 1u << 30; unsigned y = x | (big ? M_ | B_ : 0);
          OPEN("bin_alloc", L); size_t sz = 77; char* p = mpack_expect_bin_alloc(&R, L, &sz); if ((p != NULL) != (!y && H.n)) BAD("returned %p", (void*)p); RET(sz, y ? 0 : H.n);
          if (p && memcmp(p, cv->p + H.hdr, H.n)) BAD("wrong contents"); if (env_max_request > L) BAD("a block of %zu bytes was requested", env_max_request); vf_free(p); fin(y, F_NONE); }
        if (L <= 2000) {
            unsigned y = wb ? wb : H.n != L ? T_ : body();
            dst(L); OPEN("bin_size_buf", L); mpack_expect_bin_size_buf(&R, D, (uint32_t)L); if (!y && memcmp(D, cv->p + H.hdr, L)) BAD("wrong bytes"); fin(y, F_NONE); dst_done(L);
        }
#if MPACK_EXTENSIONS
        unsigned we = want(RV_EXT, -1); if (!we && H.ext == -1) we = T_; if (we && hst == REF_TRUNC) we |= T_;
        int8_t ty;
        x = fits(we, H.n, L, B_ | T_);
        if (!HUGE_(L)) { dst(L); OPEN("ext_buf", L); ty = 77; r = mpack_expect_ext_buf(&R, &ty, D, L); RET(r, x ? 0 : H.n); if (ty != (x ? 0 : H.ext)) BAD("type %d", ty); if (!x && memcmp(D, cv->p + H.hdr, H.n)) BAD("wrong bytes"); fin(x, F_NONE); dst_done(x && (we || H.n > L) ? 0 : TOUCH(H.n)); }
        { bool big = !we && H.n <= L && H.n > 1u << 30; unsigned y = x | (big ? M_ | B_ : 0);
          OPEN("ext_alloc", L); ty = 77; size_t sz = 77; char* p = mpack_expect_ext_alloc(&R, &ty, L, &sz); if ((p != NULL) != (!y && H.n)) BAD("returned %p", (void*)p); RET(sz, y ? 0 : H.n); if (ty != (y ? 0 : H.ext)) BAD("type %d", ty);
          if (p && memcmp(p, cv->p + H.hdr, H.n)) BAD("wrong contents"); if (env_max_request > L) BAD("a block of %zu bytes was requested", env_max_request); vf_free(p); fin(y, F_NONE); }
#endif
    }
}
/* the reader's own functions behind a tag; the whole contents in one call */
static void reader_copies(void) {
    if (hst != REF_OK || (H.t != RV_STR && H.t != RV_BIN && H.t != RV_EXT)) return;
    limits();
#define BEGIN(n, p) do { OPEN(n, p); mpack_tag_t t_ = mpack_read_tag(&R); (void)t_; if (mpack_reader_error(&R)) BAD("tag: %s", ES(mpack_reader_error(&R))); } while (0)
#define DONE() do { if (mpack_reader_error(&R) == mpack_ok) { if (H.t == RV_STR) mpack_done_str(&R); else if (H.t == RV_BIN) mpack_done_bin(&R); else mpack_done_type(&R, mpack_type_ext); } } while (0)
    unsigned x = body();
    if (H.n <= 70000) { dst(H.n); BEGIN("read_bytes", H.n); mpack_read_bytes(&R, D, H.n); if (!x && memcmp(D, cv->p + H.hdr, H.n)) BAD("wrong bytes"); DONE(); fin(x, F_NONE); dst_done(H.n); }
    { unsigned y = x | (H.n > 1u << 30 ? M_ | B_ : 0); BEGIN("read_bytes_alloc", H.n); char* p = mpack_read_bytes_alloc(&R, H.n); if ((p != NULL) != (!y && H.n)) BAD("returned %p", (void*)p); if (p && memcmp(p, cv->p + H.hdr, H.n)) BAD("wrong bytes"); if (env_max_request > H.n) BAD("a block of %zu bytes was requested", env_max_request); vf_free(p); DONE(); fin(y, F_NONE); }
    { unsigned y = chunk >= 0 && H.n > BUFSZ ? x | B_ : x; BEGIN("read_bytes_inplace", H.n); const char* p = mpack_read_bytes_inplace(&R, H.n); if ((p != NULL) != (y == 0)) BAD("returned %p", (const void*)p); if (p && memcmp(p, cv->p + H.hdr, H.n)) BAD("wrong bytes"); DONE(); fin(y, F_NONE); }
    if (H.t == RV_STR) {
        { unsigned y = chunk >= 0 && H.n > BUFSZ ? x | B_ : x; if (!y && !u8_ok()) y = T_; BEGIN("read_utf8_inplace", H.n); const char* p = mpack_read_utf8_inplace(&R, H.n); if ((p != NULL) != (y == 0)) BAD("returned %p", (const void*)p); if (p && memcmp(p, cv->p + H.hdr, H.n)) BAD("wrong bytes"); DONE(); fin(y, F_NONE); }
        if (H.n <= 70000) { unsigned y = x ? x : u8_ok() ? 0 : T_; dst(H.n); BEGIN("read_utf8", H.n); mpack_read_utf8(&R, D, H.n); if (!y && memcmp(D, cv->p + H.hdr, H.n)) BAD("wrong bytes"); DONE(); fin(y, F_NONE); dst_done(H.n); }
        for (int i = 0; i < NL; ++i) for (int u = 0; u < 2; ++u) {
            size_t L = lims[i]; if (!L || HUGE_(L)) continue;
            unsigned xc = fits(0, H.n, L - 1, B_), y = xc ? xc : nul_in() || (u && !u8_ok()) ? T_ : 0;
            dst(L); BEGIN(u ? "read_utf8_cstr" : "read_cstr", L); if (u) mpack_read_utf8_cstr(&R, D, L, H.n); else mpack_read_cstr(&R, D, L, H.n);
            if (y ? D[0] != 0 : memcmp(D, cv->p + H.hdr, H.n) || D[H.n]) BAD("wrong contents"); DONE(); fin(y, F_NONE); dst_done(xc && H.n > L - 1 ? 1 : TOUCH(H.n + 1));
        }
    }
}
static void node_copies(void) {
    if (full != REF_OK || chunk >= 0) return;
    if (H.t == RV_ARR || H.t == RV_MAP) { if (H.n > 2) return; }
    limits();
    static mpack_node_data_t pool[64]; mpack_tree_t t; char* ex = (char*)malloc(cv->n); memcpy(ex, cv->p, cv->n);
    mpack_tree_init_pool(&t, ex, cv->n, pool, 64); mpack_tree_parse(&t); mpack_node_t nd = mpack_tree_root(&t);
    if (mpack_tree_error(&t)) mc_fail("the tree of [%s] does not parse: %s", hexs(cv->p, cv->n), ES(mpack_tree_error(&t)));
    bool isstr = H.t == RV_STR, isbin = H.t == RV_BIN, isext = H.t == RV_EXT, data = isstr || isbin || isext;
#define NFIN(y) do { mpack_error_t e_ = mpack_tree_error(&t); mc_eval(1); mc_nontrivial((y) == 0); if ((y) ? !(ebit(e_) & (y)) : e_ != mpack_ok) BAD("node: %s", ES(e_)); t.error = mpack_ok; if (env_live_blocks) BAD("leak"); } while (0)
    fname = "node_str"; fparm = 0; { const char* p = mpack_node_str(nd); unsigned y = isstr ? 0 : T_; if (p != (y ? NULL : ex + H.hdr)) BAD("pointer"); NFIN(y); }
    fname = "node_strlen"; { size_t n = mpack_node_strlen(nd); unsigned y = isstr ? 0 : T_; RET(n, y ? 0 : H.n); NFIN(y); }
    fname = "node_data"; { const char* p = mpack_node_data(nd); unsigned y = data ? 0 : T_; if (p != (y ? NULL : ex + H.hdr)) BAD("pointer"); NFIN(y); }
    fname = "node_data_len"; { size_t n = mpack_node_data_len(nd); unsigned y = data ? 0 : T_; RET(n, y ? 0 : H.n); NFIN(y); }
    fname = "node_bin_data"; { const char* p = mpack_node_bin_data(nd); unsigned y = isbin ? 0 : T_; if (p != (y ? NULL : ex + H.hdr)) BAD("pointer"); NFIN(y); }
    fname = "node_bin_size"; { size_t n = mpack_node_bin_size(nd); unsigned y = isbin ? 0 : T_; RET(n, y ? 0 : H.n); NFIN(y); }
#if MPACK_EXTENSIONS
    fname = "node_exttype"; { int n = mpack_node_exttype(nd); unsigned y = isext ? 0 : T_; RET((long long)n, y ? 0 : (long long)H.ext); NFIN(y); }
#endif
    for (int i = 0; i < NL; ++i) {
        size_t L = lims[i]; fparm = (long long)L; size_t r; unsigned x;
        x = !data ? T_ : H.n > L ? B_ : 0;
        fname = "node_copy_data"; dst(L); r = mpack_node_copy_data(nd, D, L); RET(r, x ? 0 : H.n); if (!x && memcmp(D, ex + H.hdr, H.n)) BAD("wrong bytes"); NFIN(x); dst_done(x ? 0 : H.n);
        x = !isstr ? T_ : H.n > L ? (B_ | (u8_ok() ? 0 : T_)) : u8_ok() ? 0 : T_;
        fname = "node_copy_utf8"; dst(L); r = mpack_node_copy_utf8(nd, D, L); RET(r, x ? 0 : H.n); if (!x && memcmp(D, ex + H.hdr, H.n)) BAD("wrong bytes"); NFIN(x); dst_done(x ? (H.n > L || !isstr ? 0 : H.n) : H.n);
        if (L) for (int u = 0; u < 2; ++u) {
            bool badtext = isstr && (nul_in() || (u && !u8_ok()));
            x = !isstr ? T_ : (H.n > L - 1 ? B_ : 0) | (badtext ? T_ : 0);
            fname = u ? "node_copy_utf8_cstr" : "node_copy_cstr"; dst(L); if (u) mpack_node_copy_utf8_cstr(nd, D, L); else mpack_node_copy_cstr(nd, D, L);
            if (x ? D[0] != 0 : memcmp(D, ex + H.hdr, H.n) || D[H.n]) BAD("wrong contents"); NFIN(x); dst_done(x ? 1 : H.n + 1);
        }
        for (int u = 0; u < 2; ++u) {
            bool badtext = isstr && (nul_in() || (u && !u8_ok()));
#ifdef VF_DEBUG
            if (L == 0) continue;
#endif
            x = L == 0 ? G_ | T_ : !isstr ? T_ : (H.n > L - 1 ? B_ : 0) | (badtext ? T_ : 0);
            fname = u ? "node_utf8_cstr_alloc" : "node_cstr_alloc"; env_max_request = 0; char* p = u ? mpack_node_utf8_cstr_alloc(nd, L) : mpack_node_cstr_alloc(nd, L);
            if ((p != NULL) != (x == 0)) BAD("returned %p", (void*)p); if (p && (memcmp(p, ex + H.hdr, H.n) || p[H.n])) BAD("wrong contents"); if (env_max_request > L) BAD("requested %zu", env_max_request); vf_free(p); NFIN(x);
        }
        x = !data ? T_ : H.n > L ? B_ : 0;
        fname = "node_data_alloc"; env_max_request = 0; { char* p = mpack_node_data_alloc(nd, L); if (x ? p != NULL : (H.n && !p)) BAD("returned %p", (void*)p); if (p && memcmp(p, ex + H.hdr, H.n)) BAD("wrong contents"); if (env_max_request > (L ? L : 1)) BAD("requested %zu", env_max_request); vf_free(p); NFIN(x); } /* an empty value needs a non-null pointer too */
    }
    mpack_tree_destroy(&t); free(ex);
}
static void run1(int part) { switch (part) { case 0: expect_copies(); break; case 1: reader_copies(); break; case 2: node_copies(); break; } }
enum { PARTS = 3 };
#endif

void mc_body(void) {
    mc_shard_depth = 2;
    make_values();
    uint32_t p = mc_choose(PARTS + (EX == 18 ? 3 : 0), "part");
#if EX == 18
    if (p == PARTS) { maploop(); return; }
    if (p == PARTS + 1) { bytepairs(); return; }
    if (p == PARTS + 2) { longs(); return; }
#endif
    int chunks[] = {-1, 0, 1, 7}; int nch = mc_tier ? 4 : 3;
    uint64_t from, to; shard((uint64_t)NV, 64, &from, &to);
    for (uint64_t i = from; i < to; ++i) for (int c = 0; c < nch; ++c) {
        mc_note(0, i); mc_note(1, (uint64_t)c); chunk = chunks[c];
        look(&V[i]); run1((int)p);
    }
}
