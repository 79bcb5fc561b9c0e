/* C13: write tracking against a pushdown model. Every sequence of operations up to a depth, with the model
 * deciding which call is the first structural mistake (if any); plus every call of the API once in every
 * context, plus deep nestings with every single deviation at every point. */
#include "common.h"
#ifndef W_OPS
#define W_OPS 6
#endif
#ifndef NOBUILD
#define NOBUILD 0
#endif
enum { A = RV_ARR, M = RV_MAP, S = RV_STR, B = RV_BIN, X = RV_EXT };
typedef struct { uint8_t t; bool builder, half; uint64_t left; } fr;
static fr st[80]; static int sp; static bool bad;     /* bad: the structural mistake has been made */
static void m_elem(void) {
    if (bad || !sp) return;
    fr* f = &st[sp - 1];
    if (f->t != A && f->t != M) { bad = true; return; }
    if (!f->builder && !f->left && !f->half) { bad = true; return; }
    if (f->t == M) { f->half = !f->half; if (f->half) return; }
    if (!f->builder) --f->left;
}
static void m_push(int t, uint64_t n, bool b) { if (bad) return; fr f = {(uint8_t)t, b, false, n}; st[sp++] = f; }
static void m_bytes(uint64_t n) {
    if (bad) return;
    if (!sp || st[sp - 1].t == A || st[sp - 1].t == M || st[sp - 1].left < n) { bad = true; return; }
    st[sp - 1].left -= n;
}
static void m_pop(int t, bool b) {
    if (bad) return;
    if (!sp) { bad = true; return; }
    fr* f = &st[sp - 1];
    if (f->t != t || f->builder != b || f->half || f->left) { bad = true; return; }
    --sp;
}
static void m_empty(void) { if (sp) bad = true; }

static mpack_writer_t W;
static char obj[] = "\x92\xc0\x81\x01\x02";
/* the basic alphabet: shapes */
#define OPS \
 O(mpack_write_nil(&W), m_elem()) \
 O(mpack_start_array(&W, 0), (m_elem(), m_push(A, 0, false))) O(mpack_start_array(&W, 1), (m_elem(), m_push(A, 1, false))) O(mpack_start_array(&W, 2), (m_elem(), m_push(A, 2, false))) \
 O(mpack_start_map(&W, 0), (m_elem(), m_push(M, 0, false))) O(mpack_start_map(&W, 1), (m_elem(), m_push(M, 1, false))) \
 O(mpack_start_str(&W, 0), (m_elem(), m_push(S, 0, false))) O(mpack_start_str(&W, 2), (m_elem(), m_push(S, 2, false))) O(mpack_start_bin(&W, 1), (m_elem(), m_push(B, 1, false))) O(mpack_start_ext(&W, 5, 1), (m_elem(), m_push(X, 1, false))) \
 O(mpack_write_bytes(&W, "ab", 1), m_bytes(1)) O(mpack_write_bytes(&W, "ab", 2), m_bytes(2)) \
 O(mpack_finish_array(&W), m_pop(A, false)) O(mpack_finish_map(&W), m_pop(M, false)) O(mpack_finish_str(&W), m_pop(S, false)) O(mpack_finish_bin(&W), m_pop(B, false)) O(mpack_finish_ext(&W), m_pop(X, false)) \
 O(mpack_build_array(&W), (m_elem(), m_push(A, 0, true))) O(mpack_build_map(&W), (m_elem(), m_push(M, 0, true))) O(mpack_complete_array(&W), m_pop(A, true)) O(mpack_complete_map(&W), m_pop(M, true)) \
 O(flush_message(), (can_flush ? m_empty() : (void)0))
/* the rest of the API, used once at the end of a sequence */
#define EL(...) O(__VA_ARGS__, m_elem())
#define PROBES \
 EL(mpack_write_i8(&W, -5)) EL(mpack_write_i16(&W, -500)) EL(mpack_write_i32(&W, -70000)) EL(mpack_write_i64(&W, INT64_MIN)) EL(mpack_write_int(&W, 7)) EL(mpack_write_u8(&W, 200)) EL(mpack_write_u16(&W, 60000)) EL(mpack_write_u32(&W, 70000)) EL(mpack_write_u64(&W, UINT64_MAX)) EL(mpack_write_uint(&W, 0)) \
 EL(mpack_write_float(&W, 1.5f)) EL(mpack_write_double(&W, 2.5)) EL(mpack_write_bool(&W, true)) EL(mpack_write_true(&W)) EL(mpack_write_false(&W)) EL(mpack_write_object_bytes(&W, obj, 5)) \
 EL(mpack_write_timestamp(&W, 1, 0)) EL(mpack_write_timestamp(&W, 1, 5)) EL(mpack_write_timestamp(&W, -1, 5)) EL(mpack_write_timestamp_seconds(&W, 1)) EL(mpack_write_timestamp_struct(&W, ts)) \
 EL(mpack_write_str(&W, "abc", 3)) EL(mpack_write_str(&W, "", 0)) EL(mpack_write_utf8(&W, "abc", 3)) EL(mpack_write_cstr(&W, "hello")) EL(mpack_write_cstr_or_nil(&W, NULL)) EL(mpack_write_cstr_or_nil(&W, "x")) EL(mpack_write_utf8_cstr(&W, "y")) EL(mpack_write_utf8_cstr_or_nil(&W, NULL)) EL(mpack_write_utf8_cstr_or_nil(&W, "z")) \
 EL(mpack_write_bin(&W, "ab", 2)) EL(mpack_write_bin(&W, "", 0)) EL(mpack_write_ext(&W, 3, "ab", 2)) EL(mpack_write_ext(&W, 3, "", 0)) \
 EL(mpack_write_str(&W, (const char*)payload(), 300)) EL(mpack_write_bin(&W, (const char*)payload(), 300)) \
 EL(mpack_write_tag(&W, mpack_tag_nil())) EL(mpack_write_tag(&W, mpack_tag_uint(9))) EL(mpack_write_tag(&W, mpack_tag_int(-9))) EL(mpack_write_tag(&W, mpack_tag_bool(true))) EL(mpack_write_tag(&W, mpack_tag_float(1))) EL(mpack_write_tag(&W, mpack_tag_double(1))) \
 O(mpack_write_tag(&W, mpack_tag_array(0)), (m_elem(), m_push(A, 0, false))) O(mpack_write_tag(&W, mpack_tag_array(1)), (m_elem(), m_push(A, 1, false))) O(mpack_write_tag(&W, mpack_tag_map(0)), (m_elem(), m_push(M, 0, false))) O(mpack_write_tag(&W, mpack_tag_map(2)), (m_elem(), m_push(M, 2, false))) \
 O(mpack_write_tag(&W, mpack_tag_str(0)), (m_elem(), m_push(S, 0, false))) O(mpack_write_tag(&W, mpack_tag_str(1)), (m_elem(), m_push(S, 1, false))) O(mpack_write_tag(&W, mpack_tag_bin(1)), (m_elem(), m_push(B, 1, false))) O(mpack_write_tag(&W, mpack_tag_ext(1, 1)), (m_elem(), m_push(X, 1, false))) \
 O(mpack_start_array(&W, UINT32_MAX), (m_elem(), m_push(A, UINT32_MAX, false))) O(mpack_start_map(&W, UINT32_MAX), (m_elem(), m_push(M, UINT32_MAX, false))) O(mpack_start_map(&W, 0x80000000u), (m_elem(), m_push(M, 0x80000000u, false))) O(mpack_start_str(&W, UINT32_MAX), (m_elem(), m_push(S, UINT32_MAX, false))) O(mpack_start_bin(&W, 70000), (m_elem(), m_push(B, 70000, false))) O(mpack_start_ext(&W, 1, 300), (m_elem(), m_push(X, 300, false))) O(mpack_start_str(&W, 256), (m_elem(), m_push(S, 256, false))) \
 O(mpack_write_bytes(&W, (const char*)payload(), 3), m_bytes(3)) O(mpack_write_bytes(&W, (const char*)payload(), 258), m_bytes(258)) O(if (!sp || st[sp - 1].left < 100000) mpack_write_bytes(&W, (const char*)payload(), (size_t)0x100000001ull), (!sp || st[sp - 1].left < 100000 ? m_bytes(0x100000001ull) : (void)0)) \
 O(mpack_write_bytes(&W, "", 0), m_bytes(0)) O(if (sp && st[sp - 1].t > A - 4 && st[sp - 1].t < A) mpack_write_bytes(&W, NULL, 0), (void)0) \
 O(mpack_finish_type(&W, mpack_type_array), m_pop(A, false)) O(mpack_finish_type(&W, mpack_type_map), m_pop(M, false)) O(mpack_finish_type(&W, mpack_type_str), m_pop(S, false)) O(mpack_finish_type(&W, mpack_type_bin), m_pop(B, false)) O(mpack_finish_type(&W, mpack_type_ext), m_pop(X, false))
static bool can_flush; static mpack_timestamp_t ts = {4, 5};
static void flush_message(void) { if (can_flush) mpack_writer_flush_message(&W); }
static const char* oname;
static int op(int i) { int k = 0;
#if NOBUILD
#define mpack_build_array(w) mc_done()
#define mpack_build_map(w) mc_done()
#define mpack_complete_array(w) mc_done()
#define mpack_complete_map(w) mc_done()
#endif
#define O(call, effect) if (k++ == i) { oname = #call; call; effect; return 0; }
    OPS
    if (i == -1) return k;
    PROBES
#undef O
    return k; }

static unsigned calls; static mpack_error_t called_with; static char* gd; static size_t gsz;
static void on_w(mpack_writer_t* w, mpack_error_t e) { (void)w; ++calls; called_with = e; }
static void on_flush(mpack_writer_t* w, const char* d, size_t n) { (void)w; (void)d; (void)n; }
static char hist[2000];
static void judge(mpack_error_t e) {
    mc_eval(1); mc_nontrivial(1); mc_step(1);
    mpack_error_t want = bad ? mpack_error_bug : mpack_ok;
    if (e != want) mc_fail("%s: %s, the model says %s", hist, ES(e), ES(want));
    if (calls != (bad ? 1u : 0u)) mc_fail("%s: handler called %u times", hist, calls);
    if (bad && called_with != mpack_error_bug) mc_fail("%s: handler called with %s", hist, ES(called_with));
#ifdef VF_DEBUG
    if (!bad && dbg_breaks) mc_fail("%s: break \"%s\" without a mistake", hist, dbg_last);
    if (bad && !dbg_breaks) mc_fail("%s: the mistake does not break into the debugger", hist);
#endif
}
static void state(void) { uint64_t h = 77; for (int i = 0; i < sp; ++i) h = mc_mix(h, st[i].t * 4u + st[i].builder * 2u + st[i].half + (st[i].left << 8)); mc_state(mc_mix(h, bad)); mc_outcome(mc_mix((uint64_t)bad, (uint64_t)sp)); }
static void apply(int i) { op(i); size_t l = strlen(hist); if (l < sizeof hist - 100) snprintf(hist + l, sizeof hist - l, "%s%.60s", l ? "; " : "", oname); judge(mpack_writer_error(&W)); state(); }
static void finish(void) {
    m_empty(); size_t l = strlen(hist); if (l < sizeof hist - 100) strcat(hist, "; destroy");
    mpack_error_t e = mpack_writer_destroy(&W); judge(e); state();
    if (gd) vf_free(gd);
    if (env_live_blocks) mc_fail("%s: leak", hist);
    mc_log("%s -> %s\n", hist, ES(e));
}
/* close everything that is open, as it should be done */
static void tail(void) {
    for (int i = 0; i < 14 && sp && !bad; ++i) {
        fr* f = &st[sp - 1];
        if (f->left > 4) return;
        if (f->t != A && f->t != M) apply(f->left ? 10 : f->t == S ? 14 : f->t == B ? 15 : 16);
        else if (f->left || f->half) apply(0);
        else apply(f->builder ? (f->t == A ? 19 : 20) : f->t == A ? 12 : 13);
        if (bad) mc_fail("%s: the harness's own closing calls are wrong", hist);
    }
}
static char big[4000];
void mc_body(void) {
    mc_shard_depth = 3; sp = 0; bad = false; calls = 0; gd = NULL; gsz = 0; hist[0] = 0;
#ifdef VF_DEBUG
    dbg_breaks = 0;
#endif
    int n = op(-1), full = op(-2);
    int part = (int)mc_choose(2, "part: all short sequences / deep nestings");
    int kind = (int)mc_choose(3, "writer: fixed / flush / growable");
    if (kind == 2) mpack_writer_init_growable(&W, &gd, &gsz); else mpack_writer_init(&W, big, kind ? 40 : sizeof big);
    if (kind == 1) mpack_writer_set_flush(&W, on_flush);
    mpack_writer_set_error_handler(&W, on_w); can_flush = kind != 0;
    if (part == 0) {
        int depth = W_OPS + (mc_tier ? 1 : 0) - (kind ? 1 : 0);
        for (int d = 0; d < depth && !bad; ++d) {
            int c = (int)mc_choose((uint32_t)(n + 1 + (d < depth - 1 ? full - n : 0)), "operation");
            if (c == n) break;
            apply(c > n ? c - 1 : c);
            if (c > n && !bad) { tail(); break; }
        }
    } else {
        static const int depths[] = {1, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40};
        int depth = depths[mc_choose(12, "depth")], pat = (int)mc_choose(NOBUILD ? 3 : 7, "pattern"); uint8_t k[40];
        for (int i = 0; i < depth; ++i) k[i] = (uint8_t)(pat == 0 ? 0 : pat == 1 ? 1 : pat == 2 ? i & 1 : pat == 3 ? 2 : pat == 4 ? 3 : pat == 5 ? i % 4 : (i * 7 / 5) % 4);
        /* nest `depth` compounds (array of 1 / map of 1 / built array / built map), a string innermost, and close them; one deviation anywhere */
        int steps = 0, seq[300];
        for (int i = 0; i < depth; ++i) { seq[steps++] = k[i] == 0 ? 2 : k[i] == 1 ? 5 : k[i] == 2 ? 17 : 18; if (k[i] & 1) seq[steps++] = 0; }
        seq[steps++] = 7; seq[steps++] = 10; seq[steps++] = 10; seq[steps++] = 14;
        for (int i = depth; i-- > 0;) seq[steps++] = k[i] == 0 ? 12 : k[i] == 1 ? 13 : k[i] == 2 ? 19 : 20;
        int at = (int)mc_choose((uint32_t)steps + 1, "deviation at"), dev = at < steps ? (int)mc_choose((uint32_t)(2 * n + 1), "deviation: insert / replace by / drop") : 0;
        for (int i = 0; i < steps && !bad; ++i) {
            if (i == at) { if (dev < n) { apply(dev); if (bad) break; apply(seq[i]); } else if (dev < 2 * n) apply(dev - n); }
            else apply(seq[i]);
        }
    }
    finish();
}
