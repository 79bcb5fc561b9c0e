/* C19: UTF-8 and NUL checks of every API. The acceptance set is the table of well-formed
 * byte sequences of the Unicode standard (table 3-7), written as ranges. */
#include "common.h"
static bool wf(const uint8_t* s, size_t n) {
    static const uint8_t tab[9][10] = {  /* count, then lo/hi per byte */
        {1, 0x00,0x7f}, {2, 0xc2,0xdf, 0x80,0xbf}, {3, 0xe0,0xe0, 0xa0,0xbf, 0x80,0xbf}, {3, 0xe1,0xec, 0x80,0xbf, 0x80,0xbf},
        {3, 0xed,0xed, 0x80,0x9f, 0x80,0xbf}, {3, 0xee,0xef, 0x80,0xbf, 0x80,0xbf}, {4, 0xf0,0xf0, 0x90,0xbf, 0x80,0xbf, 0x80,0xbf},
        {4, 0xf1,0xf3, 0x80,0xbf, 0x80,0xbf, 0x80,0xbf}, {4, 0xf4,0xf4, 0x80,0x8f, 0x80,0xbf, 0x80,0xbf} };
    size_t i = 0;
    while (i < n) {
        int r;
        for (r = 0; r < 9; ++r) {
            if (s[i] < tab[r][1] || s[i] > tab[r][2]) continue;
            if (n - i < tab[r][0]) return false;
            int k;
            for (k = 1; k < tab[r][0]; ++k) if (s[i + k] < tab[r][2 * k + 1] || s[i + k] > tab[r][2 * k + 2]) return false;
            i += tab[r][0]; break;
        }
        if (r == 9) return false;
    }
    return true;
}
static bool has_nul(const uint8_t* s, size_t n) { for (size_t i = 0; i < n; ++i) if (!s[i]) return true; return false; }

enum { A_WRITE, A_WRITE_C, A_WRITE_CN, A_READ, A_READ_C, A_INPLACE, A_EXPECT, A_EXPECT_C, A_EXPECT_CA, A_NCHECK, A_NCHECK_C, A_NCOPY, A_NCOPY_C, A_NALLOC_C,
       A_NUL_READ, A_NUL_EXPECT, A_NUL_EXPECT_A, A_NUL_NCOPY, A_NUL_NALLOC, A_COUNT };
static const char* aname[] = {"write_utf8","write_utf8_cstr","write_utf8_cstr_or_nil","read_utf8","read_utf8_cstr","read_utf8_inplace","expect_utf8","expect_utf8_cstr","expect_utf8_cstr_alloc",
    "node_check_utf8","node_check_utf8_cstr","node_copy_utf8","node_copy_utf8_cstr","node_utf8_cstr_alloc","read_cstr","expect_cstr","expect_cstr_alloc","node_copy_cstr","node_cstr_alloc"};

typedef struct { const uint8_t* d; size_t n, off, chunk; } src_t;
static size_t fill(mpack_reader_t* r, char* buf, size_t count) {
    src_t* s = (src_t*)mpack_reader_context(r);
    size_t k = s->n - s->off; if (k > count) k = count; if (s->chunk && k > s->chunk) k = s->chunk;
    memcpy(buf, s->d + s->off, k); s->off += k; return k;
}
#define FAIL(...) mc_fail("%s of [%s]: " __VA_ARGS__)

/* the string s through API a; chunk: -1 in memory, else a stream of pieces (0: everything) through a 32-byte buffer */
static void api(int a, const uint8_t* s, size_t n, int chunk) {
    bool good = wf(s, n), nul = has_nul(s, n), want;
    mc_eval(1);
    /* exact-size copies so that AddressSanitizer sees any overrun */
    if (a <= A_WRITE_CN) {
        if (a != A_WRITE && nul) return;
        static char out[140000]; mpack_writer_t w; mpack_writer_init(&w, out, sizeof out);
        char* in = (char*)malloc(n + 1); memcpy(in, s, n); in[n] = 0;
        if (a == A_WRITE) { char* ex = (char*)malloc(n ? n : 1); memcpy(ex, s, n); mpack_write_utf8(&w, ex, (uint32_t)n); free(ex); }
        else if (a == A_WRITE_C) mpack_write_utf8_cstr(&w, in);
        else mpack_write_utf8_cstr_or_nil(&w, in);
        free(in);
        size_t used = mpack_writer_buffer_used(&w); mpack_error_t e = mpack_writer_destroy(&w);
        mc_nontrivial(good);
        if (e != (good ? mpack_ok : mpack_error_invalid)) mc_fail("%s of [%s]: %s", aname[a], hexs(s, n), ES(e));
        if (good) { rbuf b; rb_init(&b); ref_str_hdr(&b, (uint32_t)n, false); rb_mem(&b, s, n); if (used != b.n || memcmp(out, b.p, b.n)) mc_fail("%s of [%s] wrote [%s]", aname[a], hexs(s, n), hexs(out, used)); rb_free(&b); }
        return;
    }
    bool cstr = a == A_READ_C || a == A_EXPECT_C || a == A_EXPECT_CA || a == A_NCHECK_C || a == A_NCOPY_C || a == A_NALLOC_C;
    bool nulonly = a >= A_NUL_READ;
    want = nulonly ? !nul : (good && !(cstr && nul));
    mc_nontrivial(want);
    rbuf b; rb_init(&b); ref_str_hdr(&b, (uint32_t)n, false); rb_mem(&b, s, n);
    size_t hdr = b.n - n;
    char* got = NULL; size_t gotn = 0; bool alloc = false; mpack_error_t e;
    char* dst = (char*)malloc(n + 2); memset(dst, 0x5a, n + 2);
    bool reader = a <= A_EXPECT_CA || a == A_NUL_READ || a == A_NUL_EXPECT || a == A_NUL_EXPECT_A;
    if (reader) {
        if (chunk >= 0) { rb_u8(&b, 0xc3); }         /* something follows in the stream */
        char* ex = (char*)malloc(b.n); memcpy(ex, b.p, b.n);
        mpack_reader_t r; char buf[32]; src_t st = {b.p, b.n, 0, (size_t)(chunk < 0 ? 0 : chunk)};
        if (chunk < 0) mpack_reader_init_data(&r, ex, b.n);
        else { mpack_reader_init(&r, buf, sizeof buf, 0); mpack_reader_set_fill(&r, fill); mpack_reader_set_context(&r, &st); }
        uint32_t len = 0;
        if (a == A_READ || a == A_READ_C || a == A_INPLACE || a == A_NUL_READ) { mpack_tag_t t = mpack_read_tag(&r); len = mpack_tag_str_length(&t); }
        bool toobig = false;
        switch (a) {
            case A_READ: mpack_read_utf8(&r, dst, len); got = dst; gotn = len; if (mpack_reader_error(&r) == mpack_ok) mpack_done_str(&r); break;
            case A_READ_C: mpack_read_utf8_cstr(&r, dst, n + 1, len); got = dst; if (mpack_reader_error(&r) == mpack_ok) mpack_done_str(&r); break;
            case A_INPLACE: {
                const char* p = mpack_read_utf8_inplace(&r, len); toobig = chunk >= 0 && n > sizeof buf;
                if (p) { memcpy(dst, p, len); got = dst; gotn = len; mpack_done_str(&r); } else if (!toobig && want) mc_fail("read_utf8_inplace of [%s] returned NULL (%s)", hexs(s, n), ES(mpack_reader_error(&r)));
                break; }
            case A_EXPECT: gotn = mpack_expect_utf8(&r, dst, n ? n : 1); got = dst; break;
            case A_EXPECT_C: mpack_expect_utf8_cstr(&r, dst, n + 1); got = dst; break;
            case A_EXPECT_CA: got = mpack_expect_utf8_cstr_alloc(&r, n + 1); alloc = true; break;
            case A_NUL_READ: mpack_read_cstr(&r, dst, n + 1, len); got = dst; if (mpack_reader_error(&r) == mpack_ok) mpack_done_str(&r); break;
            case A_NUL_EXPECT: mpack_expect_cstr(&r, dst, n + 1); got = dst; break;
            case A_NUL_EXPECT_A: got = mpack_expect_cstr_alloc(&r, n + 1); alloc = true; break;
        }
        e = mpack_reader_error(&r);
        if (toobig) { if (e != mpack_error_too_big || got) mc_fail("read_utf8_inplace of %zu bytes in a %zu-byte buffer: %s", n, sizeof buf, ES(e)); mpack_reader_destroy(&r); free(ex); free(dst); rb_free(&b); return; }
        if (want && e == mpack_ok && chunk >= 0) { if (!mpack_expect_bool(&r)) mc_fail("%s of [%s]: the next object is not read correctly after it", aname[a], hexs(s, n)); }
        e = mpack_reader_destroy(&r);
        free(ex);
        if (a == A_READ_C || a == A_EXPECT_C || a == A_EXPECT_CA || nulonly) gotn = want && e == mpack_ok && got ? strlen(got) : 0;
        if (!want) {
            if ((a == A_READ_C || a == A_EXPECT_C || a == A_NUL_READ || a == A_NUL_EXPECT) && dst[0] != 0) mc_fail("%s of [%s] refused but the buffer is not an empty string", aname[a], hexs(s, n));
            if ((alloc || a == A_INPLACE) && got) mc_fail("%s of [%s] refused but returned a pointer", aname[a], hexs(s, n));
            if (a == A_EXPECT && gotn) mc_fail("%s of [%s] refused but returned %zu", aname[a], hexs(s, n), gotn);
        }
    } else {
        char* ex = (char*)malloc(b.n); memcpy(ex, b.p, b.n);
        mpack_node_data_t pool[2]; mpack_tree_t t; mpack_tree_init_pool(&t, ex, b.n, pool, 2); mpack_tree_parse(&t);
        mpack_node_t nd = mpack_tree_root(&t);
        switch (a) {
            case A_NCHECK: mpack_node_check_utf8(nd); got = ex + hdr; gotn = n; break;
            case A_NCHECK_C: mpack_node_check_utf8_cstr(nd); got = ex + hdr; gotn = n; break;
            case A_NCOPY: gotn = mpack_node_copy_utf8(nd, dst, n ? n : 1); got = dst; break;
            case A_NCOPY_C: mpack_node_copy_utf8_cstr(nd, dst, n + 1); got = dst; break;
            case A_NALLOC_C: got = mpack_node_utf8_cstr_alloc(nd, n + 1); alloc = true; break;
            case A_NUL_NCOPY: mpack_node_copy_cstr(nd, dst, n + 1); got = dst; break;
            case A_NUL_NALLOC: got = mpack_node_cstr_alloc(nd, n + 1); alloc = true; break;
        }
        e = mpack_tree_error(&t);
        if (a == A_NCOPY_C || a == A_NUL_NCOPY || alloc) gotn = want && e == mpack_ok && got ? strlen(got) : 0;
        if (!want) {
            if ((a == A_NCOPY_C || a == A_NUL_NCOPY) && dst[0] != 0) mc_fail("%s of [%s] refused but the buffer is not an empty string", aname[a], hexs(s, n));
            if (alloc && got) mc_fail("%s of [%s] refused but returned a pointer", aname[a], hexs(s, n));
            if (a == A_NCOPY && gotn) mc_fail("%s of [%s] refused but returned %zu", aname[a], hexs(s, n), gotn);
        }
        if (want && (gotn != n || memcmp(got, s, n))) mc_fail("%s of [%s] delivered %zu bytes [%s]", aname[a], hexs(s, n), gotn, hexs(got, gotn));
        mpack_tree_destroy(&t); free(ex);
    }
    if (e != (want ? mpack_ok : mpack_error_type)) mc_fail("%s of [%s] (%s UTF-8%s, chunk %d): %s", aname[a], hexs(s, n), good ? "well-formed" : "ill-formed", nul ? ", contains NUL" : "", chunk, ES(e));
    if (reader && want && (gotn != n || memcmp(got, s, n))) mc_fail("%s of [%s] delivered %zu bytes [%s]", aname[a], hexs(s, n), gotn, got ? hexs(got, gotn) : "NULL");
    if ((a == A_READ_C || a == A_EXPECT_C || a == A_NUL_READ || a == A_NUL_EXPECT || a == A_NCOPY_C || a == A_NUL_NCOPY) && dst[n + 1] != 0x5a) mc_fail("%s wrote past its buffer", aname[a]);
    if (alloc && got) vf_free(got);
    if (env_live_blocks) mc_fail("%s of [%s] leaked", aname[a], hexs(s, n));
    free(dst); rb_free(&b);
}

static const uint8_t cls[] = {0x00,0x01,0x41,0x7f,0x80,0x8f,0x90,0x9f,0xa0,0xbf,0xc0,0xc1,0xc2,0xdf,0xe0,0xe1,0xec,0xed,0xee,0xef,0xf0,0xf1,0xf3,0xf4,0xf5,0xf7,0xf8,0xfb,0xfc,0xfe,0xff};
#define NC ((unsigned)sizeof cls)
static const uint8_t small[] = {0x00,0x41,0x80,0x8f,0x90,0x9f,0xa0,0xbf,0xc2,0xe0,0xed,0xef,0xf0,0xf4,0xf5};
#define NS ((unsigned)sizeof small)
static const char* seqs[] = {"", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xf4\x8f\xbf\xbf", "\xef\xbf\xbf", "\xed\x9f\xbf", "\xee\x80\x80", "\xc2\x80", "\xe0\xa0\x80", "\xf0\x90\x80\x80",
    "\xc3", "\xe2\x82", "\xe2", "\xf0\x9f\x98", "\xf0\x9f", "\xf0", "\x80", "\xbf\x41", "\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf",
    "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf8\x88\x80\x80\x80", "\xff", "\xfe", "\xe2\x28\xa1", "\xe2\x82\x28", "\xf0\x28\x8c\xbc", "\xf0\x90\x28\xbc", "\xf0\x9f\x98\x28", "\xc3\x28"};
#define NQ ((unsigned)(sizeof seqs / sizeof *seqs))

/* the cheapest public route to each of the three checks */
static inline void both(const uint8_t* s, size_t n) {
    bool w = wf(s, n), z = has_nul(s, n);
    mc_eval(1); mc_nontrivial(w);
    char o[16], m[16], d[16];
    mpack_writer_t wr; mpack_writer_init(&wr, o, sizeof o);
    mpack_write_utf8(&wr, (const char*)s, (uint32_t)n);
    if (mpack_writer_destroy(&wr) != (w ? mpack_ok : mpack_error_invalid)) mc_fail("mpack_write_utf8 %s [%s]", w ? "refuses" : "accepts", hexs(s, n));
    m[0] = (char)(0xa0 + n); memcpy(m + 1, s, n);
    mpack_reader_t r; mpack_reader_init_data(&r, m, n + 1);
    mpack_expect_utf8_cstr(&r, d, sizeof d);
    if (mpack_reader_destroy(&r) != (w && !z ? mpack_ok : mpack_error_type)) mc_fail("mpack_expect_utf8_cstr %s [%s]", w && !z ? "refuses" : "accepts", hexs(s, n));
    mpack_reader_init_data(&r, m, n + 1);
    mpack_expect_cstr(&r, d, sizeof d);
    if (mpack_reader_destroy(&r) != (!z ? mpack_ok : mpack_error_type)) mc_fail("mpack_expect_cstr %s [%s]", !z ? "refuses" : "accepts", hexs(s, n));
}
void mc_body(void) {
    mc_shard_depth = 2;
    static uint8_t s[140000];
    switch (mc_choose(7, "part")) {
        case 0: { /* the validator: every string of up to 3 bytes; 4 bytes (all at the deep tier) */
            unsigned a = mc_choose(256, "first byte");
            s[0] = (uint8_t)a; both(s, 1); if (!a) both(s, 0);
            bool cl[256] = {false}; for (unsigned i = 0; i < NC; ++i) cl[cls[i]] = true;
            for (unsigned b = 0; b < 256; ++b) {
                s[1] = (uint8_t)b; both(s, 2);
                for (unsigned c = 0; c < 256; ++c) {
#ifdef U_SMALL
                    if (!cl[b] || !cl[c]) continue;
#endif
                    s[2] = (uint8_t)c; both(s, 3);
                    if (mc_tier) for (unsigned d = 0; d < 256; ++d) { s[3] = (uint8_t)d; both(s, 4); }
                    else if (cl[b] && cl[c]) for (unsigned d = 0; d < NC; ++d) { s[3] = cls[d]; both(s, 4); }
                }
            }
            break; }
        case 1: { /* the validator: 5 and 6 bytes over boundary classes */
            s[0] = cls[mc_choose(NC, "first class")];
            unsigned idx[6] = {0};
            unsigned total = 1; for (int i = 0; i < (mc_tier ? 5 : 4); ++i) total *= i == 0 ? NC : NS;
            for (unsigned v = 0; v < total; ++v) {
                unsigned q = v; s[1] = cls[q % NC]; q /= NC;
                int len = 2; for (int i = 1; i < (mc_tier ? 5 : 4); ++i) { s[len++] = small[q % NS]; q /= NS; }
                both(s, (size_t)len);
                memmove(s + 6, s, (size_t)len); s[5] = 'x'; both(s + 5, (size_t)len + 1);
            }
            (void)idx; break; }
        case 2: { /* every API: every string of up to 2 bytes */
            unsigned a = mc_choose(256, "first byte");
            s[0] = (uint8_t)a;
            for (int f = 0; f < A_COUNT; ++f) { if (!a) api(f, s, 0, -1); api(f, s, 1, -1); }
            for (unsigned b = 0; b < 256; ++b) { s[1] = (uint8_t)b; for (int f = 0; f < A_COUNT; ++f) api(f, s, 2, -1); }
            break; }
        case 3: { /* every API: boundary classes, 3 and 4 bytes */
            s[0] = cls[mc_choose(NC, "first class")];
            for (unsigned b = 0; b < NC; ++b) for (unsigned c = 0; c < NS; ++c) {
                s[1] = cls[b]; s[2] = small[c];
                for (int f = 0; f < A_COUNT; ++f) api(f, s, 3, -1);
                for (unsigned d = 0; d < NS; d += mc_tier ? 1 : 2) { s[3] = small[d]; for (int f = 0; f < A_COUNT; ++f) api(f, s, 4, -1); }
            }
            break; }
        case 4: { /* every API: each sequence at every offset of a longer string, every chunking step, with and without a NUL */
            unsigned q = mc_choose(NQ, "sequence"), pre = mc_choose(40, "offset");
            size_t m = strlen(seqs[q]);
            for (unsigned suf = 0; suf < 5; ++suf) for (int nul = 0; nul < 3; ++nul) {
                if ((nul == 1 && !pre) || (nul == 2 && !suf)) continue;
                size_t n = 0;
                for (unsigned i = 0; i < pre; ++i) s[n++] = (uint8_t)('a' + i % 26);
                if (nul == 1) s[pre / 2] = 0;
                memcpy(s + n, seqs[q], m); n += m;
                for (unsigned i = 0; i < suf; ++i) s[n++] = (uint8_t)('A' + i);
                if (nul == 2) s[n - 1] = 0;
                for (int f = 0; f < A_COUNT; ++f) for (int ch = -1; ch < 4; ++ch) {
                    if (ch >= 0 && !(f == A_READ || f == A_READ_C || f == A_INPLACE || f == A_EXPECT || f == A_EXPECT_C || f == A_EXPECT_CA || f == A_NUL_READ || f == A_NUL_EXPECT || f == A_NUL_EXPECT_A)) break;
                    static const int cs[4] = {0, 1, 3, 7};
                    api(f, s, n, ch < 0 ? -1 : cs[ch]);
                }
            }
            break; }
        case 5: { /* every API: long strings, with a sequence (or a NUL) at every place around the ends and the multiples of 256 */
            static const char* lq[] = {"", "\xc3\xa9", "\xf0\x9f\x98\x80", "\xc3", "\xe2\x82", "\x80", "\xed\xa0\x80", "\xff"};
            unsigned q = mc_choose(9, "sequence"), L = mc_choose(46, "length"); size_t m = q < 8 ? strlen(lq[q]) : 1;
            static const uint32_t big[] = {511, 512, 513, 600, 767, 768, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 131072};
            size_t n = L < 20 ? 245 + L : big[L - 20];
            for (size_t at = 0; at + m <= n; ++at) {
                /* near the start, near the end, around multiples of 256 (powers of two in the very long ones) */
                size_t near = at % 256; bool pw = at > 200 && ((at & (at + 3)) < 4 || n < 1100); 
                if (!(at < 5 || at + m + 5 > n || ((near < 3 || near > 252) && pw))) continue;
                for (size_t i = 0; i < n; ++i) s[i] = (uint8_t)('a' + i % 26);
                if (q < 8) memcpy(s + at, lq[q], m); else s[at] = 0;
                for (int f = 0; f < A_COUNT; ++f) for (int ch = -1; ch < 2; ++ch) {
                    if (ch >= 0 && !(f == A_READ || f == A_READ_C || f == A_INPLACE || f == A_EXPECT || f == A_EXPECT_C || f == A_EXPECT_CA || f == A_NUL_READ || f == A_NUL_EXPECT || f == A_NUL_EXPECT_A)) break;
                    if (ch == 1 && n > 300) break;
                    api(f, s, n, ch < 0 ? -1 : ch * 7);
                }
                mc_tick();
                if (q == 0 && at) break;
            }
            break; }
        default: { /* nil for a NULL C-string */
            char o[4]; mpack_writer_t w; mpack_writer_init(&w, o, sizeof o); mpack_write_utf8_cstr_or_nil(&w, NULL); mpack_write_cstr_or_nil(&w, NULL);
            if (mpack_writer_buffer_used(&w) != 2 || (uint8_t)o[0] != 0xc0 || (uint8_t)o[1] != 0xc0 || mpack_writer_destroy(&w)) mc_fail("a NULL C-string is not written as nil");
            mc_eval(1); break; }
    }
}
