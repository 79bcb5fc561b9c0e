/* C08: the first error is sticky. Every object kind x state x cause of the first error x one or two later
 * calls out of the complete API; after each the error, the handler count, the source/sink counters, the
 * returned value and the destination buffers are checked. */
#include "common.h"
static const mpack_error_t ERRS[] = {mpack_error_io, mpack_error_invalid, mpack_error_unsupported, mpack_error_type, mpack_error_too_big, mpack_error_memory, mpack_error_bug, mpack_error_data, mpack_error_eof};
static unsigned calls; static mpack_error_t called_with; static unsigned touched;
static mpack_error_t first;                 /* the error that must stick */
static const char* cname; static char hist[200];
#define BAD(fmt, ...) mc_fail("%s, then %s: " fmt, hist, cname, ##__VA_ARGS__)
#define EQ(expr, v) do { if ((expr) != (v)) BAD("%s is not %s", #expr, #v); } while (0)
#define Z(expr) EQ(expr, 0)
#define NUL(expr) do { if ((expr) != NULL) BAD("%s is not NULL", #expr); } while (0)
static char buf[64];
#define STR(stmt) do { memset(buf, 'q', sizeof buf); stmt; if (buf[0]) BAD("%s left no empty string", #stmt); } while (0)
#define KEEPN(stmt, n) do { memset(buf, 'q', sizeof buf); stmt; for (size_t i_ = (n); i_ < sizeof buf; ++i_) if (buf[i_] != 'q') BAD("%s wrote behind its buffer", #stmt); } while (0)
static uint32_t u32v; static int8_t i8v; static size_t szv; static bool fnd[4]; static const char* cpv;
static const char* words[] = {"a", "bc", "", "def"};
static bool nilt(mpack_tag_t t) { return mpack_tag_type(&t) == mpack_type_nil; }
static bool zts(mpack_timestamp_t t) { return t.seconds == 0 && t.nanoseconds == 0; }
#define ALLOC8(e) do { u32v = 9; void* p_ = (e); if (p_) BAD("%s is not NULL", #e); Z(u32v); } while (0)

/* ------------------------------------------------------------------ readers */
static mpack_reader_t R;
#include "api_calls.h"
#define ANUL NUL
static int r_call(int i) { int k = 0;
#define X(...) if (k++ == i) { cname = #__VA_ARGS__; __VA_ARGS__; return 0; }
    RCALLS(X)
#undef X
    return k; }

/* ------------------------------------------------------------------ writers */
static mpack_writer_t W; static char out[600], out0[600];
static bool can_flush;
static void mpack_flush_message_(mpack_writer_t* w) { if (can_flush) mpack_writer_flush_message(w); }
static int w_call(int i) { int k = 0;
#define X(...) if (k++ == i) { cname = #__VA_ARGS__; __VA_ARGS__; return 0; }
    WCALLS(X)
#undef X
    return k; }

/* ------------------------------------------------------------------ trees */
static mpack_tree_t T; static size_t tsize /* a later error does not change the size of the parsed message */; static mpack_node_t N[6]; static int ni; /* root map, string, number, array, nil, missing */
#define NODE N[ni]
static bool niln(mpack_node_t n) { return mpack_node_type(n) == mpack_type_nil && mpack_node_is_nil(n) && !mpack_node_is_missing(n); }
static int t_call(int i) { int k = 0;
#define X(...) if (k++ == i) { cname = #__VA_ARGS__; __VA_ARGS__; return 0; }
    TCALLS(X)
#undef X
    return k; }

/* ------------------------------------------------------------------ environment */
static rbuf msg; static size_t pos; static int cbfail;      /* callbacks: 0 work, 1 fail, 2 flag their own error */
static void on_r(mpack_reader_t* r, mpack_error_t e) { ++calls; called_with = e; if (mpack_reader_error(r) != e) mc_fail("handler called with %s, reader says %s", ES(e), ES(mpack_reader_error(r))); }
static void on_w(mpack_writer_t* r, mpack_error_t e) { ++calls; called_with = e; if (mpack_writer_error(r) != e) mc_fail("handler called with %s, writer says %s", ES(e), ES(mpack_writer_error(r))); }
static void on_t(mpack_tree_t* r, mpack_error_t e) { ++calls; called_with = e; if (mpack_tree_error(r) != e) mc_fail("handler called with %s, tree says %s", ES(e), ES(mpack_tree_error(r))); }
static size_t on_fill(mpack_reader_t* r, char* b, size_t n) {
    ++touched; if (cbfail == 2) { mpack_reader_flag_error(r, mpack_error_data); return 0; } if (cbfail == 1) return 0;
    size_t k = msg.n - pos; if (k > n) k = n; if (k > 5) k = 5; memcpy(b, msg.p + pos, k); pos += k; return k;
}
static void on_skip(mpack_reader_t* r, size_t n) { ++touched; if (cbfail) { mpack_reader_flag_error(r, mpack_error_eof); return; } if (n > msg.n - pos) { mpack_reader_flag_error(r, mpack_error_io); return; } pos += n; }
static size_t on_read(mpack_tree_t* t, char* b, size_t n) {
    ++touched; if (cbfail == 2) { mpack_tree_flag_error(t, mpack_error_data); return 0; } if (cbfail == 1) { mpack_tree_flag_error(t, mpack_error_io); return 0; }
    size_t k = msg.n - pos; if (k > n) k = n; memcpy(b, msg.p + pos, k); pos += k; return k;
}
static void on_flush(mpack_writer_t* w, const char* d, size_t n) { (void)d; (void)n; ++touched; if (cbfail == 2) mpack_writer_flag_error(w, mpack_error_data); if (cbfail == 1) mpack_writer_flag_error(w, mpack_error_io); }
static env_file* vf;
static unsigned io_ops(void) { return touched + (vf ? (unsigned)(vf->reads + vf->writes) : 0); }

/* the message of readers and trees: {a: "hello wörld...", 1: [1, 2, nil], "n": 7, "b": bin, "t": timestamp, "x": ext}, then more */
static void make_msg(void) {
    rb_free(&msg); rb_u8(&msg, 0x86); rb_u8(&msg, 0xa1); rb_u8(&msg, 'a'); ref_str_hdr(&msg, 50, false); rb_mem(&msg, payload(), 50);
    rb_u8(&msg, 0x01); rb_u8(&msg, 0x93); rb_u8(&msg, 1); rb_u8(&msg, 2); rb_u8(&msg, 0xc0); rb_u8(&msg, 0xa1); rb_u8(&msg, 'n'); rb_u8(&msg, 7);
    rb_u8(&msg, 0xa1); rb_u8(&msg, 'b'); ref_bin_hdr(&msg, 3, false); rb_mem(&msg, payload(), 3); rb_u8(&msg, 0xa1); rb_u8(&msg, 't'); ref_timestamp(&msg, 5, 6); rb_u8(&msg, 0xa1); rb_u8(&msg, 'x'); ref_ext_hdr(&msg, 3, 2); rb_mem(&msg, payload(), 2);
}
static bool handler;
static void first_error(const char* what, mpack_error_t e, mpack_error_t want) {   /* want mpack_ok: any error */
    if (e == mpack_ok) mc_fail("%s: no error", what);
    if (want && e != want) mc_fail("%s: %s instead of %s", what, ES(e), ES(want));
    first = e;
    if (handler && (calls != 1 || called_with != e)) mc_fail("%s: handler called %u times, last with %s (%s flagged)", what, calls, ES(called_with), ES(e));
}
static void sticky(mpack_error_t now, unsigned ops) {
    mc_step(1); mc_eval(1); mc_nontrivial(1);
    if (now != first) BAD("error is %s, was %s", ES(now), ES(first));
    if (handler && calls != 1) BAD("handler called %u times", calls);
    if (io_ops() != ops) BAD("source or sink touched after the error");
}
#define LATER(fn, err, n) do { unsigned ops_ = io_ops(); int n_ = fn(-1); int a_ = (int)mc_choose((uint32_t)n_, "later call"); fn(a_); sticky(err, ops_); \
    mpack_reader_t save_; (void)save_; for (int b_ = 0; b_ < n_; ++b_) { fn(b_); sticky(err, ops_); } } while (0)

static void readers(void) {
    int kind = (int)mc_choose(4, "reader: memory / stream / stream+skip / FILE"); handler = mc_choose(2, "handler");
    int state = (int)mc_choose(4, "state: start / in map / in string / after string"), cause = (int)mc_choose(9 + 13, "cause");
    make_msg();
    size_t trunc = msg.n; int c = cause - 9;
    if (c == 0) trunc = state == 0 ? 0 : state == 1 ? 2 : state == 2 ? 9 : 55;       /* data ends */
    if (c == 1 && state != 2) { size_t at = state == 0 ? 0 : state == 1 ? 1 : 55; msg.p[at] = 0xc1; }
    static char sb[40]; char* ex = (char*)malloc(trunc ? trunc : 1); memcpy(ex, msg.p, trunc); msg.n = trunc;
    if (kind == 0) mpack_reader_init_data(&R, ex, trunc);
    else if (kind < 3) { mpack_reader_init(&R, sb, sizeof sb, 0); mpack_reader_set_fill(&R, on_fill); if (kind == 2) mpack_reader_set_skip(&R, on_skip); }
    else { vf = env_file_make("m", ex, trunc, true); env_file_buf = 8; mpack_reader_init_stdfile(&R, env_fopen("m", "r"), true); }
    if (handler) mpack_reader_set_error_handler(&R, on_r);
    if (state > 0 && !(c == 1 && state == 0)) { if (mpack_expect_map(&R) != 6) mc_fail("setup"); }
    if (state > 1) { char k[4]; mpack_expect_cstr(&R, k, sizeof k); if (mpack_expect_str(&R) != 50) mc_fail("setup: string"); if (mpack_reader_error(&R)) mc_fail("setup: %s", ES(mpack_reader_error(&R))); }
    if (state > 2) { char t[50]; mpack_read_bytes(&R, t, 50); if (mpack_reader_error(&R) && c) mc_fail("setup: contents"); if (!mpack_reader_error(&R)) mpack_done_str(&R); }
    mpack_error_t want = mpack_ok; const char* what = "flagged";
    bool any = state == 2;   /* in the middle of a string: only byte reads are legal here */
    if (mpack_reader_error(&R) == mpack_ok) {
        if (cause < 9) { want = ERRS[cause]; snprintf(hist, sizeof hist, "reader kind %d state %d, flag_error(%s)", kind, state, ES(want)); mpack_reader_flag_error(&R, want); }
        else {
            switch (c) {
                case 0: what = "end of data"; if (any) { char t[50]; mpack_read_bytes(&R, t, 50); } else mpack_discard(&R); break;
                case 1: what = "reserved byte"; if (any) mc_done(); want = mpack_error_invalid; mpack_read_tag(&R); break;
                case 2: what = "wrong type"; if (any) mc_done(); want = mpack_error_type; mpack_expect_nil(&R); break;
                case 3: what = "in-place read larger than the buffer"; if (!any || kind != 1) mc_done(); want = mpack_error_too_big; mpack_read_bytes_inplace(&R, 50); break;
                case 4: what = "string too big"; if (!any) mc_done(); want = mpack_error_too_big; STR(mpack_read_cstr(&R, buf, 20, 50)); break;
                case 5: what = "allocation failure"; if (!any) mc_done(); want = mpack_error_memory; env_alloc_dead = 1; NUL(mpack_read_bytes_alloc(&R, 50)); env_alloc_dead = 0; break;
                case 6: what = "fill returns nothing"; if (kind != 1 && kind != 2) mc_done(); cbfail = 1; if (any) { char t[50]; mpack_read_bytes(&R, t, 50); } else { for (int i = 0; i < 20 && !mpack_reader_error(&R); ++i) mpack_discard(&R); } want = mpack_error_io; if (kind == 2) want = mpack_ok; break;
                case 7: what = "fill flags its own error"; if (kind != 1) mc_done(); cbfail = 2; if (any) { char t[50]; mpack_read_bytes(&R, t, 50); } else { for (int i = 0; i < 20 && !mpack_reader_error(&R); ++i) mpack_discard(&R); } want = mpack_error_data; break;
                case 8: what = "skip flags its own error"; if (kind != 2 || !any) mc_done(); cbfail = 1; mpack_skip_bytes(&R, 50); want = mpack_error_eof; break;
                case 9: what = "value out of range"; if (state != 0 || any) mc_done(); want = mpack_error_type; mpack_expect_map_max(&R, 2); break;
                case 10: what = "duplicate key"; if (any || state != 1) mc_done(); want = mpack_error_invalid; memset(fnd, 1, 4); mpack_expect_key_cstr(&R, words, fnd, 4); break;
                case 11: what = "bad UTF-8"; if (!any) mc_done(); want = mpack_error_type; { msg.p[20] = ex[20] = (char)0xff; if (kind == 3) vf->data[20] = 0xff; static char t[60]; mpack_read_utf8_cstr(&R, t, 60, 50); if (mpack_reader_error(&R) == mpack_ok) mc_done(); } break;
                case 12: what = "skipping beyond the string (tracking)";
#ifdef VF_DEBUG
                    if (!any || kind == 3) mc_done(); want = mpack_error_bug; { unsigned ops = io_ops(); mpack_skip_bytes(&R, 60); if (io_ops() != ops) mc_fail("mpack_skip_bytes beyond the end of a string is flagged as a bug but the source is still used"); } break;
#else
                    mc_done();
#endif
            }
            snprintf(hist, sizeof hist, "reader kind %d state %d, %s", kind, state, what);
        }
    } else { snprintf(hist, sizeof hist, "reader kind %d, end of data in setup", kind); }
    cname = "cause"; first_error(hist, mpack_reader_error(&R), want);
#ifdef VF_DEBUG
    dbg_breaks = 0;
#endif
    mc_state(mc_mix(mc_mix(kind * 8 + state, cause), handler)); mc_log("%s\n", hist);
    cbfail = 0; LATER(r_call, mpack_reader_error(&R), 0);
    cname = "destroy"; unsigned ops = io_ops(); mpack_error_t e = mpack_reader_destroy(&R); mc_outcome((uint64_t)e);
    if (e != first) BAD("returned %s", ES(e)); if (handler && calls != 1) BAD("handler called %u times", calls); if (io_ops() != ops) BAD("source touched");
    if (vf && vf->closes != vf->opens) BAD("file not closed"); if (env_live_blocks) BAD("leak");
    free(ex);
}

static void writers(void) {
    int kind = (int)mc_choose(5, "writer: fixed / flush / growable / FILE / error"); handler = mc_choose(2, "handler");
    int state = (int)mc_choose(4, "state: start / in array / in string / builder"), cause = (int)mc_choose(9 + 9, "cause"), c = cause - 9;
    char* gd = (char*)1; size_t gn = 5; size_t cap = c == 0 && kind == 0 ? 60 : 128; mpack_error_t want = mpack_ok;
    memset(out, 'o', sizeof out); can_flush = kind != 0 && state == 0;
    if (kind == 4) { if (state || cause >= 9 || handler) mc_done(); mpack_writer_init_error(&W, ERRS[cause]); first = ERRS[cause]; snprintf(hist, sizeof hist, "writer_init_error(%s)", ES(first)); }
    else {
        if (kind < 2) { mpack_writer_init(&W, out, cap); if (kind == 1) mpack_writer_set_flush(&W, on_flush); }
        else if (kind == 2) mpack_writer_init_growable(&W, &gd, &gn);
        else { vf = env_file_make("w", "", 0, true); env_file_buf = 8; mpack_writer_init_stdfile(&W, env_fopen("w", "w"), true); }
        if (handler) mpack_writer_set_error_handler(&W, on_w);
        mpack_write_nil(&W);
        if (state == 1) { mpack_start_array(&W, 400); mpack_write_u8(&W, 1); }
        if (state == 2) { mpack_start_str(&W, 9000); mpack_write_bytes(&W, "ab", 2); }
        if (state == 3) { mpack_build_map(&W); mpack_write_cstr(&W, "key"); mpack_build_array(&W); mpack_write_bin(&W, (const char*)payload(), 20); }
        if (mpack_writer_error(&W)) mc_fail("setup: %s", ES(mpack_writer_error(&W)));
        if (cause < 9) { want = ERRS[cause]; mpack_writer_flag_error(&W, want); snprintf(hist, sizeof hist, "writer kind %d state %d, flag_error(%s)", kind, state, ES(want)); }
        else {
            const char* what = "";
            switch (c) {
                case 0: what = "buffer full"; if (kind != 0 || state == 3) mc_done(); want = mpack_error_too_big; if (state == 2) mpack_write_bytes(&W, (const char*)payload(), 500); else mpack_write_bin(&W, (const char*)payload(), 500); break;
                case 1: what = "allocation failure"; if (kind != 2 && state != 3) mc_done(); want = mpack_error_memory; env_alloc_dead = 1; for (int i = 0; i < 60; ++i) if (state == 2) mpack_write_bytes(&W, (const char*)payload(), 90); else mpack_write_bin(&W, (const char*)payload(), 90); env_alloc_dead = 0; break;
                case 2: what = "write failure"; if (kind != 3 || state == 3) mc_done(); want = mpack_error_io; env_io_dead = 1; for (int i = 0; i < 12; ++i) if (state == 2) mpack_write_bytes(&W, (const char*)payload(), 600); else mpack_write_bin(&W, (const char*)payload(), 600); env_io_dead = 0; break;
                case 3: what = "flush flags io"; if (kind != 1 || state == 3) mc_done(); want = mpack_error_io; cbfail = 1; if (state == 2) mpack_write_bytes(&W, (const char*)payload(), 600); else mpack_write_bin(&W, (const char*)payload(), 600); break;
                case 4: what = "flush flags its own error"; if (kind != 1 || state == 3) mc_done(); want = mpack_error_data; cbfail = 2; for (int i = 0; i < 30; ++i) if (state == 2) mpack_write_bytes(&W, (const char*)payload(), 20); else mpack_write_bin(&W, (const char*)payload(), 20); break;
                case 5: what = "bad UTF-8"; if (state == 2) mc_done(); want = mpack_error_invalid; mpack_write_utf8(&W, "\xc3", 1); break;
                case 6: what = "bad timestamp"; if (state == 2) mc_done(); want = mpack_error_bug; mpack_write_timestamp(&W, 1, 1000000000u); break;
                case 7: what = "ext in v4"; if (state == 2) mc_done(); want = mpack_error_bug; mpack_writer_set_version(&W, mpack_version_v4); mpack_write_ext(&W, 1, "a", 1); break;
                case 8: what = "finishing the wrong type (tracking)";
#ifdef VF_DEBUG
                    if (state != 1) mc_done(); want = mpack_error_bug; mpack_finish_map(&W); break;
#else
                    mc_done();
#endif
            }
            snprintf(hist, sizeof hist, "writer kind %d state %d, %s", kind, state, what);
        }
        cname = "cause"; first_error(hist, mpack_writer_error(&W), want);
    }
#ifdef VF_DEBUG
    dbg_breaks = 0;
#endif
    mc_state(mc_mix(mc_mix(100 + kind * 8 + state, cause), handler)); mc_log("%s\n", hist);
    memcpy(out0, out, sizeof out); cbfail = 0; size_t used0 = kind == 0 && state != 3 ? mpack_writer_buffer_used(&W) : 0;
    if (used0 > sizeof out) mc_fail("%s: buffer_used is %zu", hist, used0);
    LATER(w_call, mpack_writer_error(&W), 0);
    /* what was written before the error stays (later writes may scribble behind it: nobody can tell), and nothing is written outside the buffer */
    if (used0 && memcmp(out0, out, used0)) { cname = "later calls"; BAD("what was written before the error changed"); }
    for (size_t i = kind < 2 ? cap : 0; i < sizeof out; ++i) if (out[i] != 'o') { cname = "later calls"; BAD("byte %zu of a %zu-byte buffer written", i, cap); }
    cname = "destroy"; unsigned ops = io_ops(); mpack_error_t e = mpack_writer_destroy(&W); mc_outcome(1000 + (uint64_t)e);
    if (e != first) BAD("returned %s", ES(e)); if (handler && calls != 1) BAD("handler called %u times", calls); if (io_ops() != ops && kind != 3) BAD("sink touched");
    if (vf && vf->closes != vf->opens) BAD("file not closed");
    if (kind == 2 && (gd != NULL || gn != 0)) BAD("growable writer in error state delivers data");
    if (env_live_blocks) BAD("leak");
}

static void trees(void) {
    int kind = (int)mc_choose(5, "tree: data / pool / stream / FILE / init_error"); handler = mc_choose(2, "handler");
    int cause = (int)mc_choose(18 + 14, "cause"), c = cause - 18; ni = (int)mc_choose(6, "node");
    static mpack_node_data_t pool[40]; mpack_error_t want = mpack_ok; const char* what = "";
    make_msg(); size_t n = msg.n; bool early = c >= 10;
    if (c == 10) n = 30;
    if (c == 11) msg.p[60] = 0xc1;
    char* ex = (char*)malloc(n + 1); memcpy(ex, msg.p, n); msg.n = n;
    if (kind == 4) { if (cause >= 9 || handler || ni) mc_done(); mpack_tree_init_error(&T, ERRS[cause]); first = ERRS[cause]; snprintf(hist, sizeof hist, "tree_init_error(%s)", ES(first)); for (int i = 0; i < 6; ++i) N[i] = mpack_tree_root(&T); }
    else {
        if (kind == 0) mpack_tree_init_data(&T, ex, n);
        else if (kind == 1) mpack_tree_init_pool(&T, ex, n, pool, c == 13 ? 3 : 40);
        else if (kind == 2) mpack_tree_init_stream(&T, on_read, NULL, 5000, 500);
        else { if (early && c != 10 && c != 11) mc_done(); vf = env_file_make("t", ex, n, true); mpack_tree_init_stdfile(&T, env_fopen("t", "r"), 0, true); }
        if (handler) mpack_tree_set_error_handler(&T, on_t);
        if (!early) {
            mpack_tree_parse(&T);
            if (mpack_tree_error(&T)) mc_fail("setup: %s", ES(mpack_tree_error(&T)));
            N[0] = mpack_tree_root(&T); N[1] = mpack_node_map_cstr(N[0], "a"); N[3] = mpack_node_map_int(N[0], 1); N[2] = mpack_node_map_cstr(N[0], "n"); N[4] = mpack_node_array_at(N[3], 2); N[5] = mpack_node_map_cstr_optional(N[0], "zz");
            if (mpack_tree_error(&T)) mc_fail("setup");
            if (cause < 9) { want = ERRS[cause]; mpack_tree_flag_error(&T, want); what = "tree_flag_error"; }
            else if (cause < 18) { want = ERRS[cause - 9]; mpack_node_flag_error(NODE, want); what = "node_flag_error"; }
            else switch (c) {
                case 0: what = "wrong type"; want = mpack_error_type; mpack_node_u8(N[1]); break;
                case 1: what = "missing key"; want = mpack_error_data; mpack_node_map_cstr(N[0], "zz"); break;
                case 2: what = "index out of bounds"; want = mpack_error_data; mpack_node_array_at(N[3], 3); break;
                case 3: what = "copy too big"; want = mpack_error_too_big; mpack_node_copy_data(N[1], buf, 20); break;
                case 4: what = "allocation failure"; want = mpack_error_memory; env_alloc_dead = 1; NUL(mpack_node_cstr_alloc(N[1], 100)); env_alloc_dead = 0; break;
                case 5: what = "second parse fails"; if (kind != 2) mc_done(); cbfail = 1; want = mpack_error_io; mpack_tree_parse(&T); break;
                case 6: what = "second parse: own error"; if (kind != 2) mc_done(); cbfail = 2; want = mpack_error_data; mpack_tree_parse(&T); break;
                case 7: what = "parse again at the end of data"; if (kind == 2) mc_done(); mpack_tree_parse(&T); break;
                case 8: what = "enum without match"; want = mpack_error_type; mpack_node_enum(N[1], words, 4); break;
                case 9: what = "not a timestamp"; want = mpack_error_type; mpack_node_timestamp(N[1]); break;
            }
        } else {
            switch (c) {
                case 10: what = "truncated"; mpack_tree_parse(&T); break;
                case 11: what = "reserved byte"; want = mpack_error_invalid; mpack_tree_parse(&T); break;
                case 12: what = "allocation failure"; if (kind != 2) mc_done(); want = mpack_error_memory; env_alloc_dead = 1; mpack_tree_parse(&T); env_alloc_dead = 0; break;
                case 13: what = "pool too small"; if (kind != 1) mc_done(); want = mpack_error_too_big; mpack_tree_parse(&T); break;
            }
            for (int i = 0; i < 6; ++i) N[i] = mpack_tree_root(&T);
        }
        snprintf(hist, sizeof hist, "tree kind %d, %s %s, node %d", kind, what, want ? ES(want) : "", ni);
        cname = "cause"; first_error(hist, mpack_tree_error(&T), want);
    }
    if ((c == 5 || c == 6 || c == 7) && ni) mc_done();
    if (c == 5 || c == 6 || c == 7) for (int i = 0; i < 6; ++i) N[i] = mpack_tree_root(&T);   /* nodes of the earlier parse are gone */
#ifdef VF_DEBUG
    dbg_breaks = 0;
#endif
    mc_state(mc_mix(mc_mix(200 + kind * 8 + ni, cause), handler)); mc_log("%s\n", hist);
    cbfail = 0; tsize = kind == 4 || early || c == 5 || c == 6 || c == 7 ? 0 : n;
    LATER(t_call, mpack_tree_error(&T), 0);
    cname = "destroy"; unsigned ops = io_ops(); mpack_error_t e = mpack_tree_destroy(&T); mc_outcome(2000 + (uint64_t)e);
    if (e != first) BAD("returned %s", ES(e)); if (handler && calls != 1) BAD("handler called %u times", calls); if (io_ops() != ops) BAD("source touched");
    if (vf && vf->closes != vf->opens) BAD("file not closed"); if (env_live_blocks) BAD("leak");
    free(ex);
}
void mc_body(void) {
    mc_shard_depth = 4; calls = 0; called_with = mpack_ok; touched = 0; vf = NULL; pos = 0; cbfail = 0; hist[0] = 0; cname = "setup";
#ifdef VF_DEBUG
    dbg_breaks = 0;
#endif
    switch (mc_choose(3, "object")) { case 0: readers(); break; case 1: writers(); break; case 2: trees(); break; }
}
