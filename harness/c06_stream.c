/* C06: parsing messages from a stream does not depend on how the data arrives. */
#include "tree.h"
#ifndef S_NODES
#define S_NODES 3
#endif
#ifndef S_LEAVES
#define S_LEAVES 4
#endif
static rbuf st; static size_t avail, pos; static size_t chunk; static int devs; static bool nonblock, gap, gap_now; static int waits;
static int fail_at, calls; static mpack_error_t fail_err; static bool failed; static bool in_error; static size_t wait_at;
static size_t rd(mpack_tree_t* t, char* b, size_t n) {
    ++calls;
    MC_CHECK(n > 0, "read function asked for nothing");
    MC_CHECK(!in_error && mpack_tree_error(t) == mpack_ok, "read function called after an error");
    if (fail_at && calls >= fail_at) { failed = true; if (fail_err) { mpack_tree_flag_error(t, fail_err); return 0; } return (size_t)-1; }
    size_t left = avail - pos;
    if (left == 0) return 0;
    if (gap && !gap_now) { gap_now = true; ++waits; return 0; }
    gap_now = false;
    if (wait_at && calls == (int)wait_at) { ++waits; return 0; }
    size_t k = n < left ? n : left;
    if (k > chunk) k = chunk;
    uint32_t d = mc_deviate(&devs, (nonblock ? 5u : 4u), "delivery");
    if (d == 1) k = 1; else if (d == 2) { if (k > 1) k = k - 1; } else if (d == 3) k = (k + 1) / 2; else if (d == 4) { ++waits; return 0; }
    memcpy(b, st.p + pos, k); pos += k;
    return k;
}
#define MAXM 5
typedef struct { mpack_error_t err; int msgs; bool eof; size_t size[MAXM]; } result;
static rv ref[MAXM]; static size_t roff[MAXM]; static int nref; static bool last_valid;

static mpack_tree_t t;
static void run(result* r, size_t max_size, size_t max_nodes, bool try_, const char* what) {
    memset(r, 0, sizeof *r);
    pos = 0; calls = 0; failed = in_error = false; gap_now = false; waits = 0;
    mpack_tree_init_stream(&t, rd, NULL, max_size, max_nodes);
    for (int m = 0; m < MAXM; ++m) {
        if (try_) {
            bool ok = false; int spins = 0;
            for (;;) {
                size_t p0 = pos; int w0 = waits;
                ok = mpack_tree_try_parse(&t); mc_step(1);
                mpack_error_t e = mpack_tree_error(&t);
                if (ok) { MC_CHECK(e == mpack_ok, "try_parse returned true with error %s", ES(e)); break; }
                if (e != mpack_ok) break;
                MC_CHECK(mpack_tree_size(&t) == 0, "size %zu while a message is incomplete", mpack_tree_size(&t));
                if (pos == avail && w0 == waits) { r->eof = true; break; }
                MC_CHECK(++spins < 50000, "[%s] try_parse makes no progress at %zu of %zu", hexs(st.p, st.n), p0, avail);
            }
            if (!ok) break;
        } else { mpack_tree_parse(&t); mc_step(1); if (mpack_tree_error(&t) != mpack_ok) break; }
        /* content */
        MC_CHECK(m < nref && (last_valid || m < nref - 1), "%s [%s]: message %d parsed, but there is none", what, hexs(st.p, avail), m);
        const char* df = tree_diff(mpack_tree_root(&t), &ref[m], st.p);
        MC_CHECK(!df, "%s [%s]: message %d differs in %s", what, hexs(st.p, avail), m, df);
        r->size[m] = mpack_tree_size(&t);
        MC_CHECK(r->size[m] == ref[m].end - ref[m].start, "%s [%s]: message %d has size %zu", what, hexs(st.p, avail), m, r->size[m]);
        MC_CHECK(mpack_tree_error(&t) == mpack_ok, "access flagged an error");
        ++r->msgs;
    }
    r->err = mpack_tree_error(&t);
    in_error = r->err != mpack_ok;
    if (in_error) {
        MC_CHECK(mpack_tree_size(&t) == 0, "size after an error");
        mpack_tree_parse(&t); MC_CHECK(!mpack_tree_try_parse(&t), "try_parse true after an error");
        MC_CHECK(mpack_tree_error(&t) == r->err, "error changed");
    }
    mpack_error_t d = mpack_tree_destroy(&t);
    MC_CHECK(d == r->err, "destroy says %s after %s", ES(d), ES(r->err));
    MC_CHECK(env_live_blocks == 0, "%zu blocks leaked", env_live_blocks);
}

/* two messages of every size up to 520 and around the sizes the buffer grows to, and a third behind them */
static void sizes(void) {
    static const uint32_t big[] = {1000, 1024, 2048, 4096, 8192};
    const uint8_t* p = payload(); uint32_t k = mc_choose(520 + 5 * 16, "size"); uint32_t n = k < 520 ? k + 1 : big[(k - 520) / 16] - 10 + (k - 520) % 16;
    uint32_t kind = mc_choose(2, "kind"), try_ = mc_choose(2, "blocking / try_parse"); st.n = 0;
    for (int i = 0; i < 2; ++i) {
        size_t s0 = st.n;
        if (kind) { uint32_t c = n - 1 > 15 ? n - 3 : n - 1; if (n == 17 || n == 18) mc_done(); ref_array_hdr(&st, c); for (uint32_t j = 0; j < c; ++j) ref_uint(&st, (j + (uint32_t)i) & 63); }
        else { if (n == 1) ref_nil(&st); else { uint32_t l = n - 2 <= 255 ? n - 2 : n - 3; if (n == 258) l = 255; ref_bin_hdr(&st, l, false); rb_mem(&st, wild() + i, l); } }
        if (st.n - s0 != n && n != 258) mc_fail("generator: %zu instead of %u", st.n - s0, n);
    }
    rb_mem(&st, "\x92\x07\x91\xcd\x01\x02", 6); avail = st.n; mc_state(mc_hash(5, st.p, st.n));
    nref = 0; size_t off = 0; for (int i = 0; i < MAXM; ++i) memset(&ref[i], 0, sizeof ref[i]);
    while (off < avail) { bool x = false; size_t nd = 0; if (ref_parse(st.p, avail, &off, &ref[nref++], &x, &nd) != REF_OK) mc_fail("generator"); } last_valid = true;
    static const size_t ch[] = {SIZE_MAX, 1, 7, 64, 1000}; devs = 0; fail_at = 0; wait_at = 0; nonblock = try_;
    for (int c = 0; c < 5; ++c) for (int g = 0; g < (try_ ? 2 : 1); ++g) {
        chunk = ch[c]; gap = g; result r; run(&r, n, 20000, try_, "sizes");
        if (n < 6) { if (r.msgs != 2 || r.err != mpack_error_too_big) mc_fail("[%s] limit %u: %d messages, then %s", hexs(st.p, st.n), n, r.msgs, ES(r.err)); }
        else if (r.msgs != 3 || r.err != (try_ ? mpack_ok : mpack_error_io)) mc_fail("messages of %u bytes: %d parsed, then %s", n, r.msgs, ES(r.err));
        mc_eval(1); mc_nontrivial(1);
    }
    for (int i = 0; i < MAXM; ++i) ref_free(&ref[i]);
}
void mc_body(void) {
    mc_shard_depth = 4;
    if (mc_choose(2, "part: documents / sizes")) { sizes(); return; }
    const uint8_t* p = payload();
    const gn leaves[] = {{.t = RV_UINT, .u = 0x12345}, {.t = RV_STR, .n = 40, .data = p}, {.t = RV_EXT, .ext = 5, .n = 3, .data = wild() + 9}, {.t = RV_NIL}, {.t = RV_BIN, .n = 9, .data = wild()}, {.t = RV_F64, .u = 0x400921fb54442d18ull}};
    static gctx g;
    g_init(&g, leaves, S_LEAVES, S_NODES, 3, 2);
    g.forms = 2;
    st.n = 0;
    gn* a = g_doc(&g);
    g_encode(&st, a);
    size_t e1 = st.n;
    g.forms = 1;
    /* what follows */
    switch (mc_choose(4, "second message")) {
        case 0: rb_mem(&st, "\x93\x01\xa2zz\x81\xc0\xc3", 8); break;
        case 1: ref_str_hdr(&st, 70, 0); rb_mem(&st, p, 70); break;
        case 2: rb_mem(&st, "\x92\x92\x01\x02\xc1", 5); break;            /* invalid inside */
        case 3: rb_mem(&st, "\xdd\xff\xff\xff\xff\x01\x02\x03", 8); break; /* more than can exist */
    }
    size_t e2 = st.n;
    rb_mem(&st, "\x92\x07\x91\xcd\x01\x02", 6);
    avail = st.n;
    size_t max_size = 4096, max_nodes = 4096;
    size_t sz = e1 > e2 - e1 ? e1 : e2 - e1; int nn = g_nodes(a);
    uint32_t lim = mc_choose(6, "limits");
    if (lim == 1) max_size = sz; else if (lim == 2) max_size = sz - 1; else if (lim == 3) max_nodes = (size_t)nn; else if (lim == 4) { if (nn == 1) mc_done(); max_nodes = (size_t)nn - 1; } else if (lim == 5) max_size = e1;
    if (max_size == 0) mc_done();
    uint32_t how = mc_choose(5, "delivery");
    uint32_t try_ = mc_choose(2, "blocking / try_parse");
    devs = 0; chunk = SIZE_MAX; nonblock = try_; gap = false; fail_at = 0; wait_at = 0;
    /* the reference */
    if (how == 3) { avail = mc_choose((uint32_t)e2, "cut at"); }
    nref = 0; size_t off = 0; last_valid = true;
    for (int i = 0; i < MAXM; ++i) memset(&ref[i], 0, sizeof ref[i]);
    while (nref < MAXM && off < avail && last_valid) { bool x = false; size_t nd = 0; last_valid = ref_parse(st.p, avail, &off, &ref[nref++], &x, &nd) == REF_OK; }
    mc_state(mc_hash(max_size * 64 + max_nodes, st.p, avail));
    /* canonical: everything at once, blocking */
    result c, r;
    int want_fail = 0;
    run(&c, max_size, max_nodes, false, "canonical");
    /* what the reference says about each message */
    int okm = 0;
    for (int i = 0; i < nref; ++i) {
        bool valid = i < nref - 1 || last_valid;
        size_t n = 0; { size_t o = ref[i].start; rv tmp; bool x = false; memset(&tmp, 0, sizeof tmp); ref_parse(st.p, avail, &o, &tmp, &x, &n); ref_free(&tmp); }
        if (!valid) break;
        if (ref[i].end - ref[i].start > max_size || n > max_nodes) { MC_CHECK(c.msgs == i && c.err == mpack_error_too_big, "[%s] limits %zu/%zu: message %d of %zu bytes and %zu nodes: %d parsed, then %s", hexs(st.p, avail), max_size, max_nodes, i, ref[i].end - ref[i].start, n, c.msgs, ES(c.err)); want_fail = 1; break; }
        ++okm;
    }
    MC_CHECK(c.msgs == okm, "[%s] limits %zu/%zu: %d of %d messages parsed, then %s", hexs(st.p, avail), max_size, max_nodes, c.msgs, okm, ES(c.err));
    if (!want_fail) MC_CHECK(c.err == mpack_error_io || c.err == mpack_error_invalid || c.err == mpack_error_too_big, "ended with %s", ES(c.err));
    if (last_valid && !want_fail) MC_CHECK(c.err == mpack_error_io, "[%s] a clean end of the stream gives %s", hexs(st.p, avail), ES(c.err));
    /* the same stream, delivered differently */
    if (how == 0) { devs = mc_tier ? 3 : 2; }
    else if (how == 1) { chunk = 1 + mc_choose(mc_tier ? 40 : 12, "chunk size"); }
    else if (how == 2) { chunk = 1 + mc_choose(8, "chunk size"); gap = true; if (!try_) mc_done(); }
    else if (how == 3) { if (mc_choose(2, "chunks")) { chunk = 1 + mc_choose(3, "chunk size"); gap = try_; } else devs = 1; }
    else { fail_at = 1 + (int)mc_choose(mc_tier ? 12 : 5, "failing call"); static const mpack_error_t fe[] = {mpack_ok, mpack_error_io, mpack_error_data, mpack_error_eof}; fail_err = fe[mc_choose(4, "how it fails")]; chunk = 1 + 10 * mc_choose(2, "chunk size"); }
    run(&r, max_size, max_nodes, try_, "delivered in pieces");
    if (failed) {
        MC_CHECK(r.err == (fail_err ? fail_err : mpack_error_io), "read function failed with %s, tree says %s", ES(fail_err), ES(r.err));
        MC_CHECK(r.msgs <= c.msgs, "more messages than the stream has");
    } else {
        MC_CHECK(r.msgs == c.msgs, "[%s] limits %zu/%zu: %d messages in pieces (then %s), %d in one piece (then %s)", hexs(st.p, avail), max_size, max_nodes, r.msgs, ES(r.err), c.msgs, ES(c.err));
        if (try_ && c.err == mpack_error_io) MC_CHECK(r.eof && r.err == mpack_ok, "[%s]: waiting for data gives %s", hexs(st.p, avail), ES(r.err));
        else MC_CHECK(r.err == c.err, "[%s] limits %zu/%zu: %s in pieces, %s in one piece", hexs(st.p, avail), max_size, max_nodes, ES(r.err), ES(c.err));
    }
    mc_outcome(mc_mix(mc_mix(r.err, (uint64_t)r.msgs), (uint64_t)c.err * 16 + how));
    for (int i = 0; i < MAXM; ++i) ref_free(&ref[i]);
}
