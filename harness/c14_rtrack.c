/* C14: read tracking against a pushdown model over the reference decoding of the message. From every state of
 * a correct reading, every call of the API may be made instead of the canonical next one (a bounded number of
 * such deviations); the model says which call is the first structural mistake. */
#include "common.h"
#ifndef R_NODES
#define R_NODES 3
#endif
#ifndef R_DEV
#define R_DEV 2
#endif
enum { A = RV_ARR, M = RV_MAP, S = RV_STR, B = RV_BIN, X = RV_EXT };
typedef struct { uint8_t t; bool half; uint64_t left; } fr;
static fr st[100]; static int sp; static rbuf msg; static size_t pos;
static enum { OK, BUG, OTHER } v;       /* OTHER: an error that is not about structure */
static void fail_other(void) { if (v == OK) v = OTHER; }
static bool ts_small;
static bool m_elem(void) {
    if (v) return false;
    if (!sp) return true;
    fr* f = &st[sp - 1];
    if ((f->t != A && f->t != M) || (!f->left && !f->half)) { v = BUG; return false; }
    if (f->t == M) { f->half = !f->half; if (f->half) return true; }
    --f->left; return true;
}
static bool m_head(rv* h, bool consume) {        /* the header at the position */
    fr save = sp ? st[sp - 1] : (fr){0, 0, 0};
    if (!m_elem()) return false;
    if (!consume && sp) st[sp - 1] = save;
    if (pos >= msg.n) { v = OTHER; return false; }
    size_t o = pos; if (ref_header(msg.p, msg.n, &o, h) != REF_OK) mc_fail("generator");
    if (consume) pos = o;
    return true;
}
static bool comp(const rv* h) { return h->t == A || h->t == M || h->t == S || h->t == B || h->t == X; }
static void m_push(const rv* h) { fr f = {h->t, false, h->n}; st[sp++] = f; }
static void m_tag(void) { rv h; if (m_head(&h, true) && comp(&h)) m_push(&h); }
static void m_peek(void) { rv h; m_head(&h, false); }
static void m_discard(void) { rv h; if (!m_head(&h, true)) return; pos = h.start; bool x = false; size_t k = 0; rv t; memset(&t, 0, sizeof t); if (ref_parse(msg.p, msg.n, &pos, &t, &x, &k) != REF_OK) mc_fail("generator"); ref_free(&t); }
static void m_bytes(uint64_t n) {
    if (v) return;
    if (!sp || st[sp - 1].t == A || st[sp - 1].t == M || st[sp - 1].left < n) { v = BUG; return; }
    st[sp - 1].left -= n; pos += n;
}
static void m_all(uint64_t n) { m_bytes(n); if (!v && (st[sp - 1].t != S || st[sp - 1].left)) v = BUG; }
static void m_cstr(uint64_t n, size_t size) { if (!v && n > size - 1) v = OTHER; m_all(n); }
static void m_done(int t) { if (v) return; if (!sp || st[sp - 1].t != t || st[sp - 1].half || st[sp - 1].left) { v = BUG; return; } --sp; }
static void m_empty(void) { if (!v && sp) v = BUG; }
static void m_ts(size_t n) { if (v) return; if (n != 4 && n != 8 && n != 12) { v = OTHER; return; } m_bytes(n); m_done(X); }
static void m_scalar(int t) { rv h; if (!m_head(&h, true)) return; if (h.t != t) { v = OTHER; if (comp(&h)) m_push(&h); } }
static void m_num(void) { rv h; if (!m_head(&h, true)) return; if (h.t != RV_UINT) v = OTHER; }
static void m_open(int t, int min, int max) { rv h; if (!m_head(&h, true)) return; if (h.t != t || (int)h.n < min || (int)h.n > max || (t == X && h.ext == -1)) { v = OTHER; return; } m_push(&h); }
static void m_open_nil(int t, int max) { rv h; if (!m_head(&h, true)) return; if (h.t == RV_NIL) return; if (h.t != t || (int)h.n > max) { v = OTHER; return; } m_push(&h); }
static void m_open_nil_alloc(int t, int max) { int k = sp; m_open_nil(t, max); if (!v && sp > k && !st[sp - 1].left) --sp; /* documented: closed automatically */ }
static void m_whole(int t, int min, int max) { rv h; if (!m_head(&h, true)) return; if (h.t != t || (int)h.n < min || (int)h.n > max || (t == X && h.ext == -1)) { v = OTHER; return; } pos += h.n; }
static void m_match(const char* s) { rv h; if (!m_head(&h, true)) return; if (h.t != S || h.n != strlen(s) || memcmp(msg.p + h.hdr, s, h.n)) { v = OTHER; return; } pos += h.n; }
static void m_words(bool optional, bool uniq, bool* f) {   /* {"", "ab", "cd"} */
    rv h; if (!m_head(&h, true)) return;
    if (h.t != S) { v = optional ? OK : OTHER; if (optional) { pos = h.start; bool x = false; size_t k = 0; rv t; memset(&t, 0, sizeof t); ref_parse(msg.p, msg.n, &pos, &t, &x, &k); ref_free(&t); } return; }
    int w = h.n == 0 ? 0 : h.n == 2 && !memcmp(msg.p + h.hdr, "ab", 2) ? 1 : 3;
    pos += h.n;
    if (w == 3) { if (!optional) v = OTHER; return; }
    if (uniq) { if (f[w]) { v = OTHER; return; } f[w] = true; }
}
static void m_keyuint(bool* f) { rv h; if (!m_head(&h, true)) return; if (h.t != RV_UINT) { pos = h.start; bool x = false; size_t k = 0; rv t; memset(&t, 0, sizeof t); ref_parse(msg.p, msg.n, &pos, &t, &x, &k); ref_free(&t); return; } if (h.u < 6) { if (f[h.u]) { v = OTHER; return; } f[h.u] = true; } }
static void m_timestamp(void) { rv h; if (!m_head(&h, true)) return; if (h.t != X || h.ext != -1 || (h.n != 4 && h.n != 8 && h.n != 12)) { v = OTHER; return; } pos += h.n; }
static void m_remaining(void) { m_empty(); }
static void m_peektag_eq(int t) { m_scalar(t); }

static mpack_reader_t R; static char buf[64]; static bool fk[8], fu[8]; static const char* words[] = {"", "ab", "cd"};
static size_t L; static int8_t i8; static size_t sz; static uint32_t cnt; static const char* cp;
static void afree(void* p) { if (p) vf_free(p); }
static bool data_open(void) { return sp && st[sp - 1].t != A && st[sp - 1].t != M; }
#define BYTES(n) \
 O(mpack_read_bytes(&R, buf, n), m_bytes(n)) O(mpack_skip_bytes(&R, n), m_bytes(n)) O(mpack_read_bytes_inplace(&R, n), m_bytes(n)) O(afree(mpack_read_bytes_alloc(&R, n)), m_bytes(n)) \
 O(mpack_read_utf8(&R, buf, n), m_all(n)) O(mpack_read_utf8_inplace(&R, n), m_all(n)) O(mpack_read_cstr(&R, buf, 40, n), m_cstr(n, 40)) O(mpack_read_utf8_cstr(&R, buf, 40, n), m_cstr(n, 40)) O(mpack_read_cstr(&R, buf, 2, n), m_cstr(n, 2))
#define OPS \
 O(mpack_read_tag(&R), m_tag()) O(mpack_peek_tag(&R), m_peek()) O(mpack_discard(&R), m_discard()) \
 BYTES(0) BYTES(1) BYTES(L) BYTES(L + 1) O(mpack_skip_bytes(&R, (size_t)-1), m_bytes((uint64_t)-1)) O(mpack_skip_bytes(&R, (size_t)0x100000000ull), m_bytes(0x100000000ull)) \
 O(mpack_done_array(&R), m_done(A)) O(mpack_done_map(&R), m_done(M)) O(mpack_done_str(&R), m_done(S)) O(mpack_done_bin(&R), m_done(B)) O(mpack_done_ext(&R), m_done(X)) \
 O(mpack_done_type(&R, mpack_type_array), m_done(A)) O(mpack_done_type(&R, mpack_type_map), m_done(M)) O(mpack_done_type(&R, mpack_type_str), m_done(S)) O(mpack_done_type(&R, mpack_type_bin), m_done(B)) O(mpack_done_type(&R, mpack_type_ext), m_done(X)) \
 O(if (mpack_reader_remaining(&R, &cp) != msg.n - pos && !kind && !sp) mc_fail("remaining"), m_remaining()) O(mpack_reader_remaining(&R, NULL), m_remaining()) \
 O(mpack_read_timestamp(&R, 4), m_ts(4)) O(mpack_read_timestamp(&R, 8), m_ts(8)) O(mpack_read_timestamp(&R, 12), m_ts(12)) O(mpack_read_timestamp(&R, 5), m_ts(5)) \
 O(mpack_expect_u8(&R), m_num()) O(mpack_expect_u16(&R), m_num()) O(mpack_expect_u32(&R), m_num()) O(mpack_expect_u64(&R), m_num()) O(mpack_expect_i8(&R), m_num()) O(mpack_expect_i16(&R), m_num()) O(mpack_expect_i32(&R), m_num()) O(mpack_expect_i64(&R), m_num()) O(mpack_expect_int(&R), m_num()) O(mpack_expect_uint(&R), m_num()) \
 O(mpack_expect_float(&R), m_num()) O(mpack_expect_double(&R), m_num()) O(mpack_expect_u8_range(&R, 3, 9), m_num()) O(mpack_expect_u64_range(&R, 3, 9), m_num()) O(mpack_expect_i8_range(&R, 3, 9), m_num()) O(mpack_expect_i64_max(&R, 9), m_num()) O(mpack_expect_double_range(&R, 1, 9), m_num()) O(mpack_expect_float_range(&R, 1, 9), m_num()) O(mpack_expect_uint_match(&R, 5), m_num()) O(mpack_expect_int_match(&R, 5), m_num()) \
 O(mpack_expect_nil(&R), m_scalar(RV_NIL)) O(mpack_expect_bool(&R), m_scalar(RV_BOOL)) O(mpack_expect_tag(&R, mpack_tag_nil()), m_scalar(RV_NIL)) O(mpack_expect_tag(&R, mpack_tag_uint(5)), m_num()) O(mpack_expect_tag(&R, mpack_tag_array(1)), m_open(A, 1, 1)) O(mpack_expect_tag(&R, mpack_tag_str(2)), m_open(S, 2, 2)) \
 O(mpack_expect_timestamp(&R), m_timestamp()) O(mpack_expect_timestamp_truncate(&R), m_timestamp()) \
 O(mpack_expect_map(&R), m_open(M, 0, 99)) O(mpack_expect_map_range(&R, 1, 9), m_open(M, 1, 9)) O(mpack_expect_map_max(&R, 1), m_open(M, 0, 1)) O(mpack_expect_map_match(&R, 1), m_open(M, 1, 1)) O(mpack_expect_map_or_nil(&R, &cnt), m_open_nil(M, 99)) O(mpack_expect_map_max_or_nil(&R, 1, &cnt), m_open_nil(M, 1)) \
 O(mpack_expect_array(&R), m_open(A, 0, 99)) O(mpack_expect_array_range(&R, 1, 9), m_open(A, 1, 9)) O(mpack_expect_array_max(&R, 1), m_open(A, 0, 1)) O(mpack_expect_array_match(&R, 1), m_open(A, 1, 1)) O(mpack_expect_array_or_nil(&R, &cnt), m_open_nil(A, 99)) O(mpack_expect_array_max_or_nil(&R, 1, &cnt), m_open_nil(A, 1)) \
 O(afree(mpack_expect_array_alloc(&R, int, 9, &cnt)), m_open(A, 0, 9)) O(afree(mpack_expect_array_or_nil_alloc(&R, int, 9, &cnt)), m_open_nil_alloc(A, 9)) \
 O(mpack_expect_str(&R), m_open(S, 0, 99)) O(mpack_expect_str_max(&R, 1), m_open(S, 0, 1)) O(mpack_expect_str_length(&R, 2), m_open(S, 2, 2)) O(mpack_expect_str_buf(&R, buf, 9), m_whole(S, 0, 9)) O(mpack_expect_str_buf(&R, buf, 1), m_whole(S, 0, 1)) O(mpack_expect_utf8(&R, buf, 9), m_whole(S, 0, 9)) \
 O(mpack_expect_cstr(&R, buf, 9), m_whole(S, 0, 8)) O(mpack_expect_cstr(&R, buf, 2), m_whole(S, 0, 1)) O(mpack_expect_utf8_cstr(&R, buf, 9), m_whole(S, 0, 8)) O(afree(mpack_expect_cstr_alloc(&R, 9)), m_whole(S, 0, 8)) O(afree(mpack_expect_utf8_cstr_alloc(&R, 9)), m_whole(S, 0, 8)) O(afree(mpack_expect_cstr_alloc(&R, 2)), m_whole(S, 0, 1)) \
 O(mpack_expect_str_match(&R, "ab", 2), m_match("ab")) O(mpack_expect_cstr_match(&R, ""), m_match("")) O(mpack_expect_str_match(&R, "ax", 2), m_match("ax")) \
 O(mpack_expect_bin(&R), m_open(B, 0, 99)) O(mpack_expect_bin_max(&R, 0), m_open(B, 0, 0)) O(mpack_expect_bin_size(&R, 1), m_open(B, 1, 1)) O(mpack_expect_bin_buf(&R, buf, 9), m_whole(B, 0, 9)) O(mpack_expect_bin_size_buf(&R, buf, 1), m_whole(B, 1, 1)) O(afree(mpack_expect_bin_alloc(&R, 9, &sz)), m_whole(B, 0, 9)) \
 O(mpack_expect_ext(&R, &i8), m_open(X, 0, 99)) O(mpack_expect_ext_max(&R, &i8, 1), m_open(X, 0, 1)) O(mpack_expect_ext_size(&R, &i8, 2), m_open(X, 2, 2)) O(mpack_expect_ext_buf(&R, &i8, buf, 9), m_whole(X, 0, 9)) O(afree(mpack_expect_ext_alloc(&R, &i8, 9, &sz)), m_whole(X, 0, 9)) \
 O(mpack_expect_enum(&R, words, 3), m_words(false, false, NULL)) O(mpack_expect_enum_optional(&R, words, 3), m_words(true, false, NULL)) O(mpack_expect_key_cstr(&R, words, fk, 3), m_words(true, true, mk)) O(mpack_expect_key_uint(&R, fu, 6), m_keyuint(mu)) \
 O(mpack_reader_flag_error(&R, mpack_error_data), fail_other())
static bool mk[8], mu[8]; static int kind; static const char* oname; static int variants;
static int op(int i) { int k = 0;
    L = data_open() ? (size_t)st[sp - 1].left : 2; if (L > 50) L = 50;
#define O(call, effect) if (k++ == i) { oname = #call; call; effect; return 0; }
    OPS
#undef O
    return k; }
static unsigned calls; static mpack_error_t called_with; static size_t fpos; static char hist[3000];
static void on_r(mpack_reader_t* r, mpack_error_t e) { (void)r; ++calls; called_with = e; }
static size_t on_fill(mpack_reader_t* r, char* b, size_t n) { (void)r; (void)n; if (fpos >= msg.n) return 0; *b = (char)msg.p[fpos++]; return 1; }
static void judge(mpack_error_t e) {
    mc_eval(1); mc_nontrivial(1); mc_step(1);
    int got = e == mpack_ok ? OK : e == mpack_error_bug ? BUG : OTHER;
    if (got != (int)v) mc_fail("message %s: %s: %s, the model says %s", hexs(msg.p, msg.n), hist, ES(e), v == OK ? "ok" : v == BUG ? "bug" : "an error other than bug");
    if (calls != (v ? 1u : 0u)) mc_fail("%s: handler called %u times", hist, calls);
    if (v && called_with != e) mc_fail("%s: handler called with %s", hist, ES(called_with));
#ifdef VF_DEBUG
    if (v != BUG && dbg_breaks) mc_fail("message %s: %s: break \"%s\" without a structural mistake", hexs(msg.p, msg.n), hist, dbg_last);
    if (v == BUG && !dbg_breaks) mc_fail("%s: the mistake does not break into the debugger", hist);
#endif
}
static void note(const char* s) { size_t l = strlen(hist); if (l < sizeof hist - 100) snprintf(hist + l, sizeof hist - l, "%s%.60s", l ? "; " : "", s); }
static void state(void) { uint64_t h = mc_hash(5, msg.p + pos, msg.n - pos); for (int i = 0; i < sp; ++i) h = mc_mix(h, st[i].t * 2u + st[i].half + (st[i].left << 8)); mc_state(mc_mix(h, v)); mc_outcome(mc_mix((uint64_t)v, (uint64_t)sp)); }
static void apply(int i) { op(i); note(oname); judge(mpack_reader_error(&R)); state(); }
static bool canonical(void) {
    L = 0;
    if (sp) {
        fr* f = &st[sp - 1];
        if (f->t == A || f->t == M) { if (!f->left && !f->half) { note("done"); mpack_done_type(&R, f->t == A ? mpack_type_array : mpack_type_map); m_done(f->t); } else { note("read_tag"); mpack_read_tag(&R); m_tag(); } }
        else if (f->left) { note("read_bytes(all)"); size_t n = f->left; mpack_read_bytes(&R, buf, n); m_bytes(n); }
        else { note("done"); mpack_done_type(&R, f->t == S ? mpack_type_str : f->t == B ? mpack_type_bin : mpack_type_ext); m_done(f->t); }
    } else if (pos < msg.n) { note("read_tag"); mpack_read_tag(&R); m_tag(); }
    else return false;
    judge(mpack_reader_error(&R)); state(); return true;
}
static const uint8_t AB[] = "ab", TS[] = {0, 0, 0, 5};
static const gn leaves[] = { {.t = RV_UINT, .u = 5}, {.t = RV_STR, .n = 2, .data = AB}, {.t = RV_NIL}, {.t = RV_STR, .n = 0}, {.t = RV_BIN, .n = 1, .data = AB}, {.t = RV_EXT, .ext = 5, .n = 2, .data = AB}, {.t = RV_EXT, .ext = -1, .n = 4, .data = TS}, {.t = RV_BOOL, .u = 1}, {.t = RV_BIN, .n = 0} };
static const uint8_t TSL[12] = {0, 0, 0, 7, 0, 0, 0, 1, 0, 0, 0, 5};
static const gn tleaves[] = { {.t = RV_EXT, .ext = -1, .n = 8, .data = TSL}, {.t = RV_EXT, .ext = -1, .n = 12, .data = TSL}, {.t = RV_EXT, .ext = -1, .n = 4, .data = TSL}, {.t = RV_EXT, .ext = -1, .n = 0, .data = TSL}, {.t = RV_EXT, .ext = -1, .n = 5, .data = TSL} };
void mc_body(void) {
    mc_shard_depth = 5; sp = 0; v = OK; calls = 0; hist[0] = 0; pos = fpos = 0; memset(fk, 0, 8); memset(fu, 0, 8); memset(mk, 0, 8); memset(mu, 0, 8);
#ifdef VF_DEBUG
    dbg_breaks = 0;
#endif
    static int nops; variants = 0; nops = op(-1);
    rb_free(&msg); int dev = R_DEV;
    int part = (int)mc_choose(4, "part: small messages / larger messages / deep / timestamps"); kind = (int)mc_choose(2, "reader: memory / stream of single bytes");
    if (part < 2) {
        gctx g; int nodes = part ? R_NODES + 2 : R_NODES; g_init(&g, leaves, part ? 3 : 9, nodes, part ? 2 : 3, 3); gn* d = g_doc(&g); g_encode(&msg, d);
        if (part == 0) { if (mc_choose(2, "another message follows")) ref_nil(&msg); dev = R_DEV + (mc_tier && g.budget > 0 ? 1 : 0); }
        else { if (g.budget > 1) mc_done(); dev = 1 + mc_tier; }
    } else if (part == 3) {
        gctx g; g_init(&g, tleaves, 5, 2, 2, 2); gn* d = g_doc(&g); g_encode(&msg, d); if (mc_choose(2, "another message follows")) ref_nil(&msg);
    } else {
        static const int depths[] = {7, 8, 9, 15, 16, 17, 33, 40};
        int depth = depths[mc_choose(8, "depth")], pat = (int)mc_choose(3, "pattern");
        for (int i = 0; i < depth; ++i) if (pat == 0 || (pat == 2 && i % 3)) ref_array_hdr(&msg, 1); else { ref_map_hdr(&msg, 1); ref_nil(&msg); }
        ref_str_hdr(&msg, 2, false); rb_mem(&msg, AB, 2); dev = 1;
    }
    char* ex = (char*)malloc(msg.n ? msg.n : 1); memcpy(ex, msg.p, msg.n); static char sbuf[32];
    if (kind == 0) mpack_reader_init_data(&R, ex, msg.n); else { mpack_reader_init(&R, sbuf, sizeof sbuf, 0); mpack_reader_set_fill(&R, on_fill); }
    mpack_reader_set_error_handler(&R, on_r);
    while (!v) {
        uint32_t c = mc_deviate(&dev, (uint32_t)nops + 2, "next: canonical / any call / destroy");
        if (c == (uint32_t)nops + 1) break;
        if (c) apply((int)c - 1); else if (!canonical()) break;
    }
    m_empty(); note("destroy"); mpack_error_t e = mpack_reader_destroy(&R); judge(e); state();
    if (env_live_blocks) mc_fail("%s: leak", hist);
    mc_log("message %s: %s -> %s\n", hexs(msg.p, msg.n), hist, ES(e));
    free(ex);
}
