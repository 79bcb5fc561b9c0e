/* C07: size and node limits are exact; memory is bounded by what is really there. */
#include "tree.h"
#ifndef L_NODES
#define L_NODES 5
#endif
#ifndef L_AL
#define L_AL 4
#endif
static const uint8_t* sp; static size_t sn, spos, schunk;
static size_t rd(mpack_tree_t* t, char* b, size_t n) {
    (void)t; size_t k = sn - spos; if (k > n) k = n; if (k > schunk) k = schunk;
    memcpy(b, sp + spos, k); spos += k; return k;
}
static mpack_node_data_t pool[200];

/* memory in use may grow with the bytes present, not with what they declare */
#define MEM_BOUND(n) (192 * ((n) + 1) + 2 * MPACK_NODE_PAGE_SIZE + 1024)

static void accept(const uint8_t* d, size_t n, size_t msg, size_t nodes, const rv* v, int src, size_t max_size, size_t max_nodes) {
    mpack_tree_t t;
    mc_step(1); mc_eval(1);
    memset(pool, 0x5a, sizeof pool);
    env_alloc_stats_reset();
    if (src == 0) { mpack_tree_init_data(&t, (const char*)d, n); mpack_tree_set_limits(&t, max_size, max_nodes); }
    else if (src == 1) { mpack_tree_init_pool(&t, (const char*)d, n, pool, max_nodes); mpack_tree_set_limits(&t, max_size, SIZE_MAX); }
    else if (src == 4) { mpack_tree_init_pool(&t, (const char*)d, n, pool, 150); mpack_tree_set_limits(&t, max_size, max_nodes); }
    else { sp = d; sn = n; spos = 0; schunk = src == 2 ? SIZE_MAX : 1; mpack_tree_init_stream(&t, rd, NULL, max_size, max_nodes); }
    mpack_tree_parse(&t);
    mpack_error_t e = mpack_tree_error(&t);
    bool fits = msg <= max_size && nodes <= max_nodes;
    if (fits) {
        MC_CHECK(e == mpack_ok, "source %d, limits %zu bytes %zu nodes: message of %zu bytes and %zu nodes refused: %s [%s]", src, max_size, max_nodes, msg, nodes, ES(e), hexs(d, n));
        const char* df = tree_diff(mpack_tree_root(&t), v, d);
        MC_CHECK(!df, "source %d: content differs: %s [%s]", src, df, hexs(d, n));
    } else {
        MC_CHECK(e == mpack_error_too_big, "source %d, limits %zu bytes %zu nodes: message of %zu bytes and %zu nodes gives %s [%s]", src, max_size, max_nodes, msg, nodes, ES(e), hexs(d, n));
        MC_CHECK(mpack_tree_size(&t) == 0 && mpack_node_type(mpack_tree_root(&t)) == mpack_type_nil, "something is left of a refused message");
    }
    if (src == 1) for (size_t i = max_nodes * sizeof *pool; i < sizeof pool; ++i) MC_CHECK(((uint8_t*)pool)[i] == 0x5a, "written behind a pool of %zu nodes [%s]", max_nodes, hexs(d, n));
    MC_CHECK(env_peak_bytes <= MEM_BOUND(msg) + (src == 2 || src == 3 ? 2 * (max_size < 3 * (n + MPACK_BUFFER_SIZE) ? max_size : 3 * (n + MPACK_BUFFER_SIZE)) : 0), "source %d: %zu bytes of memory for %zu bytes of data [%s]", src, env_peak_bytes, n, hexs(d, n));
    mpack_tree_destroy(&t);
    MC_CHECK(env_live_blocks == 0, "leak");
    mc_outcome(mc_mix(mc_mix(e, (uint64_t)src), msg));
}

static void mem(const uint8_t* d, size_t n) {
    mpack_tree_t t;
    mc_eval(1); if (n > 1) mc_nontrivial(1);
    env_alloc_stats_reset();
    mpack_tree_init_data(&t, (const char*)d, n);
    mpack_tree_parse(&t);
    MC_CHECK(env_peak_bytes <= MEM_BOUND(n), "in-memory: %zu bytes of memory for %zu bytes of data [%s]", env_peak_bytes, n, hexs(d, n));
    mpack_tree_destroy(&t);
    env_alloc_stats_reset();
    sp = d; sn = n; spos = 0; schunk = SIZE_MAX;
    mpack_tree_init_stream(&t, rd, NULL, 300, 100000);
    mpack_tree_parse(&t);
    MC_CHECK(env_peak_bytes <= MEM_BOUND(n) + 2 * 300, "stream limited to 300 bytes: %zu bytes of memory for %zu bytes of data [%s]", env_peak_bytes, n, hexs(d, n));
    MC_CHECK(env_max_request <= MEM_BOUND(n) + 300, "request");
    mpack_tree_destroy(&t);
    MC_CHECK(env_live_blocks == 0, "leak");
    mc_outcome(mc_mix(env_peak_bytes, 5));
}

static size_t fpos, favail; static rbuf msg;
static size_t fill(mpack_reader_t* r, char* b, size_t n) { (void)r; size_t k = favail - fpos; if (k > n) k = n; if (k > 7) k = 7; memcpy(b, msg.p + fpos, k); fpos += k; return k; }

/* allocating reads: what is requested from the allocator never exceeds the caller's maximum */
static void allocs(void) {
    static const uint32_t lens[] = {0, 1, 2, 3, 7, 30, 31, 32, 33, 100, 255, 256, 300, 65535, 65536, 0x10000000, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu};
    uint32_t len = lens[mc_choose(20, "declared length")];
    uint32_t kind = mc_choose(11, "function");
    uint32_t stream = mc_choose(2, "source");
    static const uint32_t maxs[] = {0, 1, 2, 3, 30, 31, 32, 33, 100, 101, 256, 300, 1000, 70000};
    for (int m = 0; m < 14; ++m) for (int cut = 0; cut < 3; ++cut) {
        size_t max = maxs[m];
        msg.n = 0;
        size_t present = cut == 0 ? len : cut == 1 ? len / 2 : 0; if (present > 400) present = 400;
        bool arr = kind == 4 || kind == 5;
        if (arr) { if (len > 400 && cut == 0) ; ref_array_hdr(&msg, len); for (size_t i = 0; i < present; ++i) rb_u8(&msg, 1); }
        else { if (kind == 2) ref_bin_hdr(&msg, len, 0); else if (kind == 3) ref_ext_hdr(&msg, 4, len); else ref_str_hdr(&msg, len, 0); rb_mem(&msg, kind == 2 || kind == 3 ? wild() : payload(), present); }
        bool whole = present == len;
        mpack_reader_t r; char buf[64]; mpack_tree_t t; mpack_node_t nd = {0}; bool node = kind >= 6 && kind <= 8;
        if (node) {
            if (!whole) continue;
            mpack_tree_init_data(&t, (const char*)msg.p, msg.n); mpack_tree_parse(&t); nd = mpack_tree_root(&t);
        } else if (stream) { fpos = 0; favail = msg.n; mpack_reader_init(&r, buf, sizeof buf, 0); mpack_reader_set_fill(&r, fill); }
        else mpack_reader_init_data(&r, (const char*)msg.p, msg.n);
        env_alloc_stats_reset();
        void* p = NULL; size_t got = 0; int8_t et = 0; size_t esz = 1; bool fits = false; size_t lim = max;
        mc_step(1); mc_eval(1);
        switch (kind) {
            case 0: p = mpack_expect_cstr_alloc(&r, max); fits = (uint64_t)len + 1 <= max; break;
            case 1: p = mpack_expect_utf8_cstr_alloc(&r, max); fits = (uint64_t)len + 1 <= max; break;
            case 2: p = mpack_expect_bin_alloc(&r, max, &got); fits = len <= max; break;
#if MPACK_EXTENSIONS
            case 3: p = mpack_expect_ext_alloc(&r, &et, max, &got); fits = len <= max; break;
#endif
            case 4: { size_t c = 0; p = mpack_expect_array_alloc(&r, uint64_t, max, &c); got = c; esz = 8; fits = len <= max; lim = max * 8; break; }
            case 5: { size_t c = 0; p = mpack_expect_array_or_nil_alloc(&r, uint16_t, max, &c); got = c; esz = 2; fits = len <= max; lim = max * 2; break; }
            case 6: p = mpack_node_data_alloc(nd, max); fits = len <= max; lim = max ? max : 1; break;   /* (empty data may take one byte: the result is not NULL) */
            case 7: p = mpack_node_cstr_alloc(nd, max); fits = (uint64_t)len + 1 <= max; break;
            case 8: p = mpack_node_utf8_cstr_alloc(nd, max); fits = (uint64_t)len + 1 <= max; break;
            case 9: case 10: { mpack_tag_t tg = mpack_read_tag(&r); uint32_t l = mpack_tag_str_length(&tg);
                if (l > max) { mpack_reader_flag_error(&r, mpack_error_too_big); }
                p = kind == 9 ? mpack_read_bytes_alloc(&r, max < l ? max : l) : mpack_read_bytes_alloc_impl(&r, max < l ? max : l, true); fits = l <= max; lim = max + (kind == 10); break; }
        }
        mpack_error_t e = node ? mpack_tree_error(&t) : mpack_reader_error(&r);
        MC_CHECK(env_max_request <= lim && env_total_bytes <= lim, "function %u, length %u, maximum %zu: requested %zu bytes (%zu in total)", kind, len, max, env_max_request, env_total_bytes);
        bool need_body = !arr;
        if (fits && (whole || !need_body)) MC_CHECK(e == mpack_ok, "function %u, length %u, maximum %zu: %s", kind, len, max, ES(e));
        else MC_CHECK(e != mpack_ok && p == NULL && got == 0, "function %u, length %u (%zu present), maximum %zu: %s, %p, size %zu", kind, len, present, max, ES(e), p, got);
        if (!fits && kind < 9) MC_CHECK(e == mpack_error_too_big || (max == 0 && e == mpack_error_bug) || (kind == 4 || kind == 5 ? e == mpack_error_type : kind >= 6 ? e == mpack_error_too_big : e == mpack_error_type), "function %u, length %u, maximum %zu: refused as %s", kind, len, max, ES(e));
        (void)esz;
        vf_free(p);
        if (node) mpack_tree_destroy(&t); else { if (e == mpack_ok && arr) mpack_reader_flag_error(&r, mpack_error_data); mpack_reader_destroy(&r); }
        MC_CHECK(env_live_blocks == 0, "leak");
        mc_outcome(mc_mix(mc_mix(kind, e), fits));
    }
}

static const uint8_t al[] = {0x00, 0x80, 0x82, 0x90, 0x91, 0x93, 0x9f, 0x8f, 0xa1, 0xbf, 0xc1, 0xc6, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xff, 0xc9, 0x01};
#define AL ((uint32_t)sizeof al)

/* the buffer of a tree reading a stream: no request is above the maximum message size, also when the
 * message is close to it, above it, or declares more than there is */
static void buffers(void) {
    static const uint32_t maxs[] = {1, 2, 5, 9, 33, 63, 64, 65, 100, 127, 128, 129, 1000, 3000, 4095, 4096, 4097, 5000, 6143, 8191, 8192, 8193, 10000, 12288, 20000, 33000, 65535, 65540};
    uint32_t M = maxs[mc_choose(28, "maximum size")], shape = mc_choose(4, "shape"), part = mc_choose(3, "pieces"), again = mc_choose(2, "messages");
    for (int rel = -3; rel < 6; ++rel) {
        int64_t want = rel == 3 ? (int64_t)M * 2 : rel == 4 ? (int64_t)M / 2 : rel == 5 ? (int64_t)M + M / 3 : (int64_t)M + rel; if (want < 1) continue;
        /* a string, three strings in an array, a key and a binary object, or a string cut off and the rest never declared to fit */
        static rbuf b; b.n = 0; size_t n = (size_t)want, k = shape == 1 ? 3 : 1, fix = shape == 1 ? 1 + 3 * 5 : shape == 2 ? 4 + 5 : 5; 
        if (n < fix + k) continue; size_t body = n - fix;
        static uint8_t fill_[140000]; memset(fill_, 'f', sizeof fill_);
        if (shape == 1) { rb_u8(&b, 0x93); for (int i = 0; i < 3; ++i) { size_t l = i < 2 ? body / 3 : body - 2 * (body / 3); rb_u8(&b, 0xdb); rb_be(&b, l, 4); rb_mem(&b, fill_, l); } }
        else if (shape == 2) { rb_mem(&b, "\x81\xa2kk", 4); rb_u8(&b, 0xc6); rb_be(&b, body, 4); rb_mem(&b, fill_, body); }
        else { rb_u8(&b, 0xdb); rb_be(&b, body, 4); rb_mem(&b, fill_, body); }
        size_t msgn = b.n, count = again ? 3 : 1; if (msgn != n) mc_fail("generator");
        rbuf all; rb_init(&all); for (size_t i = 0; i < count; ++i) rb_mem(&all, b.p, b.n);
        if (shape == 3) all.n -= msgn / 2;
        static const size_t PC[] = {SIZE_MAX, 1009, 61};
        sp = all.p; sn = all.n; spos = 0; schunk = PC[part]; mpack_tree_t t; env_alloc_stats_reset();
        mpack_tree_init_stream(&t, rd, NULL, M, 50);
        for (size_t i = 0; i < count; ++i) {
            mpack_tree_parse(&t); mpack_error_t e = mpack_tree_error(&t); bool there = shape != 3 || i + 1 < count;
            MC_CHECK(e == (n > M ? mpack_error_too_big : there ? mpack_ok : mpack_error_io) || (!there && e == mpack_error_io), "maximum %u, message %zu of %zu bytes, shape %u: %s", M, i, n, shape, ES(e));
            if (!e) MC_CHECK(mpack_tree_size(&t) == n, "size %zu instead of %zu", mpack_tree_size(&t), n);
            if (e) break;
        }
        size_t lim = M > MPACK_NODE_PAGE_SIZE ? M : MPACK_NODE_PAGE_SIZE; if (lim < 128) lim = 128;   /* (the parser's own stack and node pages apart) */
        MC_CHECK(env_max_request <= lim, "maximum %u, messages of %zu bytes, shape %u, pieces of %zu: %zu bytes requested", M, n, shape, PC[part], env_max_request);
        mpack_tree_destroy(&t); MC_CHECK(env_live_blocks == 0, "leak"); rb_free(&all);
        mc_eval(1); mc_step(1); mc_nontrivial(1); mc_outcome(mc_mix(M, n > M)); mc_state(mc_mix(mc_mix(M, shape), n));
    }
}
void mc_body(void) {
    mc_shard_depth = 4;
    switch (mc_choose(4, "part")) {
    case 3: buffers(); break;
    case 0: {
        const uint8_t* p = payload();
        const gn leaves[] = {{.t = RV_UINT, .u = 5}, {.t = RV_STR, .n = 6, .data = p}, {.t = RV_EXT, .ext = -3, .n = 5, .data = wild()}, {.t = RV_F64, .u = 0x3ff8000000000000ull}};
        static gctx g; static rbuf b;
        g_init(&g, leaves, 4, L_NODES, 4, 4); g.forms = 2;
        gn* doc = g_doc(&g);
        b.n = 0; g_encode(&b, doc);
        size_t msg_ = b.n, off = 0, nodes = 0; rv v; bool x = false;
        ref_parse(b.p, b.n, &off, &v, &x, &nodes);
        mc_state(mc_hash(1, b.p, b.n));
        rb_mem(&b, "\x93\xa1z\x05\xc0\xc0\xc0\xc0", 8);
        int src = (int)mc_choose(5, "source");
        for (size_t ms = msg_ > 4 ? msg_ - 4 : 1; ms <= msg_ + 2; ++ms)
            for (size_t mn = nodes > 3 ? nodes - 3 : 1; mn <= nodes + 1; ++mn) {
                accept(b.p, msg_, msg_, nodes, &v, src, ms, mn);
                accept(b.p, b.n, msg_, nodes, &v, src, ms, mn);
            }
        ref_free(&v);
        break; }
    case 1: {
        uint8_t d[8]; d[0] = al[mc_choose(AL, "byte 0")]; d[1] = al[mc_choose(AL, "byte 1")];
        uint64_t total = 1; for (int i = 2; i < L_AL; ++i) total *= AL;
        for (uint64_t k = 0; k < total; ++k) {
            uint64_t x = k;
            for (int i = 2; i < L_AL; ++i) { d[i] = al[x % AL]; x /= AL; }
            if (!(k & 0xfff)) { mc_tick(); mc_note(0, k); }
            mem(d, (size_t)L_AL);
        }
        break; }
    default: allocs();
    }
}
