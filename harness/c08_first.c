/* C08: every call of the API as the first one that may fail. Object kind x message x cut of the source x position
 * x allocator/sink working or not x call: the error handler must have been called exactly once, with the flagged
 * error, if there is an error, and not at all otherwise; a call that flags an error must return its documented
 * error value already itself. */
#include "common.h"
static mpack_error_t first; static unsigned calls; static mpack_error_t called_with; static const char* cname; static char hist[160];
static mpack_error_t (*now)(void);
#define BAD(fmt, ...) mc_fail("%s: %s: " fmt, hist, cname, ##__VA_ARGS__)
#define EQ(e, v) do { __typeof__(e) r_ = (e); first = now(); if (first != mpack_ok && r_ != (v)) BAD("%s flagged, but the result is not %s", ES(first), #v); } while (0)
#define Z(e) EQ(e, 0)
#define NUL(e) do { const void* p_ = (e); if (now() != mpack_ok && p_) BAD("%s flagged, but the result is not NULL", ES(now())); } while (0)
#define ANUL(e) do { void* p_ = (e); if (now() != mpack_ok && p_) BAD("%s flagged, but the result is not NULL", ES(now())); if (p_) vf_free(p_); } while (0)
#define ALLOC8(e) do { u32v = 9; void* p_ = (e); if (now() != mpack_ok && (p_ || u32v)) BAD("%s flagged, but the result is not NULL and 0", ES(now())); if (p_) vf_free(p_); } while (0)
static char buf[64];
#define STR(stmt) do { memset(buf, 'q', sizeof buf); stmt; if (now() != mpack_ok && buf[0]) BAD("%s flagged, but the result is no empty string", ES(now())); } while (0)
#define KEEPN(stmt, n) do { memset(buf, 'q', sizeof buf); stmt; for (size_t i_ = (n) ? (n) : 40; i_ < sizeof buf; ++i_) if (buf[i_] != 'q') BAD("wrote behind its buffer"); } while (0)
static uint32_t u32v; static int8_t i8v; static size_t szv, tsize; static bool fnd[4]; static const char* cpv; static const char* words[] = {"a", "bc", "", "def"};
static bool nilt(mpack_tag_t t) { return mpack_tag_type(&t) == mpack_type_nil; }
static bool zts(mpack_timestamp_t t) { return t.seconds == 0 && t.nanoseconds == 0; }
static bool niln(mpack_node_t n) { return mpack_node_type(n) == mpack_type_nil && mpack_node_is_nil(n) && !mpack_node_is_missing(n); }
static mpack_reader_t R; static mpack_writer_t W; static mpack_tree_t T; static mpack_node_t NODE;
static char out[600]; static bool can_flush;
static void mpack_flush_message_(mpack_writer_t* w) { if (can_flush) mpack_writer_flush_message(w); }
#include "api_calls.h"
#define X(...) if (k++ == i) { cname = #__VA_ARGS__; __VA_ARGS__; return 0; }
static int r_call(int i) { int k = 0; RCALLS(X) return k; }
static int w_call(int i) { int k = 0; WCALLS(X) return k; }
static int t_call(int i) { int k = 0; TCALLS(X) return k; }
#undef X
#define X(...) if (k++ == i) return #__VA_ARGS__;
static const char* w_name(int i) { int k = 0; WCALLS(X) return ""; }
#undef X
/* without tracking the caller answers for closing what was opened */
static bool legal(int call, int state) {
#ifdef VF_DEBUG
    (void)call; (void)state; return true;
#else
    const char* s = w_name(call);
    if (strstr(s, "complete_array")) return false;
    if (strstr(s, "complete_map")) return state == 4;
    if (strstr(s, "finish_") && state >= 4) return state == 5 && strstr(s, "finish_str");
    return true;
#endif
}
static mpack_error_t r_now(void) { return mpack_reader_error(&R); }
static mpack_error_t w_now(void) { return mpack_writer_error(&W); }
static mpack_error_t t_now(void) { return mpack_tree_error(&T); }
static void on_r(mpack_reader_t* r, mpack_error_t e) { ++calls; called_with = e; if (mpack_reader_error(r) != e) BAD("handler called with %s, reader says %s", ES(e), ES(mpack_reader_error(r))); }
static void on_w(mpack_writer_t* r, mpack_error_t e) { ++calls; called_with = e; if (mpack_writer_error(r) != e) BAD("handler called with %s, writer says %s", ES(e), ES(mpack_writer_error(r))); }
static void on_t(mpack_tree_t* r, mpack_error_t e) { ++calls; called_with = e; if (mpack_tree_error(r) != e) BAD("handler called with %s, tree says %s", ES(e), ES(mpack_tree_error(r))); }
static void judge(void) {
    mc_step(1); mc_eval(1); mpack_error_t e = now();
    if (e == mpack_ok) { if (calls) BAD("no error, but the handler was called %u times (%s)", calls, ES(called_with)); return; }
    mc_nontrivial(1); mc_outcome((uint64_t)e);
    if (calls != 1 || called_with != e) BAD("%s flagged, the handler was called %u times, last with %s", ES(e), calls, ES(called_with));
}
static const struct { const char* p; size_t n; } MSGS[] = {
#define M_(s) {s, sizeof(s) - 1}
    M_("\x86\xa1" "a\xa9" "hello wor" "\x01\x93\x01\x02\xc0\xa1" "n\x07\xa1" "b\xc4\x03xyz\xa1" "t\xd6\xff\0\0\0\5\xa1" "x\xd5\x03pq"),
    M_("\xc0\x01"), M_("\xc3\x01"), M_("\xc2\x01"), M_("\x05\x01"), M_("\x00\x01"), M_("\xfb\x01"), M_("\xcc\xc8\x01"), M_("\xcd\x03\xe8\x01"), M_("\xce\x00\x01\x86\xa0\x01"), M_("\xcf\xff\xff\xff\xff\xff\xff\xff\xff\x01"),
    M_("\xd0\x85\x01"), M_("\xd1\x85\x00\x01"), M_("\xd2\x85\x00\x00\x00\x01"), M_("\xd3\x85\x00\x00\x00\x00\x00\x00\x00\x01"), M_("\xca\x40\x00\x00\x00\x01"), M_("\xcb\x40\x00\x00\x00\x00\x00\x00\x00\x01"),
    M_("\xa0\x01"), M_("\xa1" "a\x01"), M_("\xa3" "abc\x01"), M_("\xa3" "a\0c\x01"), M_("\xa2\xc3\x28\x01"), M_("\xaa" "abcdefghij\x01"), M_("\xd9\x28" "abcdefghijklmnopqrstuvwxyzabcdefghijklmn\x01"), M_("\xda\x00\x03" "def\x01"), M_("\xdb\xff\xff\xff\xff" "ab"),
    M_("\xc4\x00\x01"), M_("\xc4\x03" "abc\x01"), M_("\xc5\x00\x09" "abcdefghi\x01"), M_("\xc6\x00\x00\x00\x0a" "abcdefghij\x01"), M_("\xd4\x03" "a\x01"), M_("\xd6\x05" "abcd\x01"), M_("\xc7\x00\x05\x01"), M_("\xc7\x0a\x05" "abcdefghij\x01"), M_("\xc8\x00\x04\xff\0\0\0\5\x01"), M_("\xd7\xff\0\0\0\4\0\0\0\6\x01"), M_("\xd7\xff\xff\xff\xff\xff\0\0\0\6\x01"), M_("\xd8\x07" "abcdefghijklmnop\x01"), M_("\xc7\x0c\xff\0\0\0\1\0\0\0\0\0\0\0\5\x01"), M_("\xd4\xff\x01"),
    M_("\x90\x01"), M_("\x92\x01\xc0\x01"), M_("\xdc\x00\x03\x01\x02\x03\x01"), M_("\xdd\xff\xff\xff\xff\x01"), M_("\x80\x01"), M_("\x83\x01\x02\xa1" "a\x04\xa1" "a\x05\x01"), M_("\x82\x01\x02\x01\x03\x01"), M_("\xde\x00\x01\xc0\xc0\x01"), M_("\xdf\x80\x00\x00\x00\x01"), M_("\xc1\x01"),
};
enum { NM = sizeof MSGS / sizeof *MSGS };
static const char* S; static size_t sn, at; static env_file* vf;
static size_t on_fill(mpack_reader_t* r, char* b, size_t n) { (void)r; if (now() != mpack_ok) BAD("callback used after %s", ES(now())); size_t k = sn - at; if (k > n) k = n; if (k > 3) k = 3; memcpy(b, S + at, k); at += k; return k; }
static void on_skip(mpack_reader_t* r, size_t n) { if (now() != mpack_ok) BAD("callback used after %s", ES(now())); if (n > sn - at) { mpack_reader_flag_error(r, mpack_error_io); return; } at += n; }
static size_t on_read(mpack_tree_t* t, char* b, size_t n) { if (now() != mpack_ok) BAD("callback used after %s", ES(now())); size_t k = sn - at; if (k > n) k = n; memcpy(b, S + at, k); at += k; if (!k) mpack_tree_flag_error(t, mpack_error_io); return k; }
static char* take(int m, size_t cut) { char* ex = (char*)malloc(cut ? cut : 1); memcpy(ex, MSGS[m].p, cut); S = ex; sn = cut; at = 0; return ex; }

static void readers(void) {
    static int nr; if (!nr) nr = r_call(-1);
    int kind = (int)mc_choose(4, "reader: memory / stream / stream+skip / FILE"), m = (int)mc_choose(NM, "message"); size_t cut = MSGS[m].n - mc_choose((uint32_t)MSGS[m].n + 1, "bytes cut off");
    int pos = (int)mc_choose(m ? 1 : 3, "position: start / in the map / in the string"); bool dead = mc_choose(2, "allocator: works / fails");
    for (int call = 0; call < nr; ++call) {
        now = r_now; first = mpack_ok; calls = 0; called_with = mpack_ok; cname = "setup"; env_alloc_dead = 0; vf = NULL;
        snprintf(hist, sizeof hist, "reader kind %d, position %d, allocator %s, %s", kind, pos, dead ? "fails" : "works", hexs(MSGS[m].p, cut));
        char* ex = take(m, cut); static char sb[40]; memset(fnd, 0, 4);
        if (kind == 0) mpack_reader_init_data(&R, ex, cut);
        else if (kind < 3) { mpack_reader_init(&R, sb, sizeof sb, 0); mpack_reader_set_fill(&R, on_fill); if (kind == 2) mpack_reader_set_skip(&R, on_skip); }
        else { vf = env_file_make("m", ex, cut, true); env_file_buf = 8; mpack_reader_init_stdfile(&R, env_fopen("m", "r"), true); }
        mpack_reader_set_error_handler(&R, on_r);
        if (pos > 0) mpack_expect_map(&R);
        if (pos > 1) { mpack_expect_cstr_match(&R, "a"); mpack_expect_str(&R); }
        judge();
        if (mpack_reader_error(&R) == mpack_ok) { env_alloc_dead = dead; r_call(call); env_alloc_dead = 0; judge(); }
        mpack_error_t before = mpack_reader_error(&R), e = mpack_reader_destroy(&R); cname = "destroy";
        if (before != mpack_ok && e != before) BAD("returned %s", ES(e));
        if (calls != (e != mpack_ok) || (calls && called_with != e)) BAD("%s, handler called %u times", ES(e), calls);
        if (env_live_blocks) BAD("leak"); if (env_open_handles) BAD("file not closed");
        free(ex); if (vf) env_reset();
#ifdef VF_DEBUG
        dbg_breaks = 0;
#endif
    }
    mc_state(mc_mix(mc_mix(kind * 4 + pos, m), cut * 2 + dead));
}

static bool sink_fails;
static void on_flush(mpack_writer_t* w, const char* d, size_t n) { (void)d; (void)n; if (now() != mpack_ok) BAD("callback used after %s", ES(now())); if (sink_fails) mpack_writer_flag_error(w, mpack_error_io); }
static void writers(void) {
    static int nw; if (!nw) nw = w_call(-1);
    int kind = (int)mc_choose(4, "writer: fixed / flush / growable / FILE"), state = (int)mc_choose(6, "state: start / in array / in map / in string / builder / in builder string"); size_t fill = mc_choose(kind == 0 ? 24 : 40, "room left in the buffer"); bool dead = mc_choose(2, "allocator/sink: works / fails"), v4 = mc_choose(2, "version");
    for (int call = 0; call < nw; ++call) {
        if (!legal(call, state)) continue;
        now = w_now; first = mpack_ok; calls = 0; called_with = mpack_ok; cname = "setup"; env_alloc_dead = 0; env_io_dead = 0; sink_fails = false; vf = NULL; char* gd = NULL; size_t gn = 0;
        snprintf(hist, sizeof hist, "writer kind %d, state %d, fill %zu, version %s, %s", kind, state, fill, v4 ? "v4" : "current", dead ? "failing" : "working");
        can_flush = kind != 0 && state == 0;
        if (kind == 0) mpack_writer_init(&W, out, fill + 6);
        else if (kind == 1) { mpack_writer_init(&W, out, 40); mpack_writer_set_flush(&W, on_flush); }
        else if (kind == 2) mpack_writer_init_growable(&W, &gd, &gn);
        else { vf = env_file_make("w", "", 0, true); env_file_buf = 8; mpack_writer_init_stdfile(&W, env_fopen("w", "w"), true); }
        if (v4) mpack_writer_set_version(&W, mpack_version_v4);
        mpack_writer_set_error_handler(&W, on_w);
        if (kind != 0 && fill < 8) { size_t left = mpack_writer_buffer_left(&W); for (size_t i = fill; i + 8 < left; ++i) mpack_write_nil(&W); }
        if (state == 1) { mpack_start_array(&W, 3); }
        if (state == 2) { mpack_start_map(&W, 1); }
        if (state == 3) { mpack_start_str(&W, 9); }
        if (state >= 4) { mpack_build_map(&W); if (state == 5) mpack_start_str(&W, 4); }
        judge();
        if (mpack_writer_error(&W) == mpack_ok) { env_alloc_dead = env_io_dead = dead; sink_fails = dead; w_call(call); judge(); }
        mpack_error_t before = mpack_writer_error(&W), e = mpack_writer_destroy(&W); env_alloc_dead = env_io_dead = 0; cname = "destroy (after the call)";
        if (before != mpack_ok && e != before) BAD("returned %s", ES(e));
        if (calls != (e != mpack_ok) || (calls && called_with != e)) BAD("%s, handler called %u times, last with %s", ES(e), calls, ES(called_with));
        if (e == mpack_ok && kind == 2) { if (!gd) BAD("no data delivered"); vf_free(gd); } else if (gd || gn) BAD("data delivered in spite of %s", ES(e));
        if (env_live_blocks) BAD("leak"); if (env_open_handles) BAD("file not closed"); if (vf) env_reset();
       
#ifdef VF_DEBUG
        dbg_breaks = 0;
#endif
    }
    mc_state(mc_mix(mc_mix(1000 + kind * 8 + state, fill), dead * 2 + v4));
}

static void trees(void) {
    static int nt; if (!nt) nt = t_call(-1);
    int kind = (int)mc_choose(4, "tree: data / pool / stream / FILE"), m = (int)mc_choose(NM, "message"); size_t cut = MSGS[m].n - mc_choose((uint32_t)MSGS[m].n + 1, "bytes cut off");
    int which = (int)mc_choose(m ? 2 : 7, "node"); bool dead = mc_choose(2, "allocator: works / fails");
    static mpack_node_data_t pool[40];
    for (int call = 0; call < nt; ++call) {
        now = t_now; first = mpack_ok; calls = 0; called_with = mpack_ok; cname = "parse"; env_alloc_dead = 0; vf = NULL;
        snprintf(hist, sizeof hist, "tree kind %d, node %d, allocator %s, %s", kind, which, dead ? "fails" : "works", hexs(MSGS[m].p, cut));
        char* ex = take(m, cut);
        if (kind == 0) mpack_tree_init_data(&T, ex, cut);
        else if (kind == 1) mpack_tree_init_pool(&T, ex, cut, pool, 40);
        else if (kind == 2) mpack_tree_init_stream(&T, on_read, NULL, 5000, 500);
        else { vf = env_file_make("t", ex, cut, true); mpack_tree_init_stdfile(&T, env_fopen("t", "r"), 0, true); }
        bool was = mpack_tree_error(&T) != mpack_ok;    /* an error flagged by the init function comes before any handler */
        mpack_tree_set_error_handler(&T, on_t);
        mpack_tree_parse(&T); if (!was) judge();
        bool ok = mpack_tree_error(&T) == mpack_ok; tsize = ok ? mpack_tree_size(&T) : 0;
        if (ok) {
            mpack_node_t r = mpack_tree_root(&T); NODE = r;
            if (m == 0) { if (which == 1) NODE = mpack_node_map_cstr(r, "a"); if (which == 2) NODE = mpack_node_map_cstr(r, "n"); if (which == 3) NODE = mpack_node_map_int(r, 1); if (which == 4) NODE = mpack_node_map_cstr(r, "t"); if (which == 5) NODE = mpack_node_map_cstr_optional(r, "zz"); if (which == 6) NODE = mpack_node_map_cstr(r, "b"); }
            else if (which == 1 && mpack_node_type(r) == mpack_type_array && mpack_node_array_length(r)) NODE = mpack_node_array_at(r, 0);
            else if (which == 1 && mpack_node_type(r) == mpack_type_map && mpack_node_map_count(r)) NODE = mpack_node_map_value_at(r, 0);
            judge();
            env_alloc_dead = dead; t_call(call); env_alloc_dead = 0; judge();
        }
        mpack_error_t before = mpack_tree_error(&T), e = mpack_tree_destroy(&T); cname = "destroy";
        if (e != before) BAD("returned %s", ES(e));
        if (!was && (calls != (e != mpack_ok) || (calls && called_with != e))) BAD("%s, handler called %u times", ES(e), calls);
        if (env_live_blocks) BAD("leak"); if (env_open_handles) BAD("file not closed");
        free(ex); if (vf) env_reset();
#ifdef VF_DEBUG
        dbg_breaks = 0;
#endif
        if (!ok) break;
    }
    mc_state(mc_mix(mc_mix(2000 + kind * 8 + which, m), cut * 2 + dead));
}
void mc_body(void) {
    mc_shard_depth = 3;
    switch (mc_choose(3, "object")) { case 0: readers(); break; case 1: writers(); break; case 2: trees(); break; }
}
