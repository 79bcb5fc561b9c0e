/* C05: a tree parses exactly the valid messages, to exactly their content (in-memory). */
#include "tree.h"
#define POOL 64
#ifdef VF_NO_MALLOC
static mpack_node_data_t pool[70000]; static size_t pooln;
#endif
static int handler_calls; static mpack_error_t handler_err;
static void on_err(mpack_tree_t* t, mpack_error_t e) { (void)t; ++handler_calls; handler_err = e; }

static const char* why(const uint8_t* d, size_t n) { return hexs(d, n); }

/* parses d[0..n) once with mpack and with the reference and compares */
static void one(const uint8_t* d, size_t n, bool multi) {
    static mpack_tree_t t;
    mc_eval(1);
#ifdef VF_EXACT
    uint8_t* x = (uint8_t*)malloc(n ? n : 1); memcpy(x, d, n);
    const uint8_t* base = x;
#else
    const uint8_t* base = d;
#endif
#ifdef VF_NO_MALLOC
    mpack_tree_init_pool(&t, (const char*)base, n, pool, sizeof pool / sizeof *pool);
#else
    mpack_tree_init_data(&t, (const char*)base, n);
#endif
    handler_calls = 0; mpack_tree_set_error_handler(&t, on_err);
    size_t off = 0; bool more = true; unsigned k = 0;
    mpack_error_t e = mpack_ok;
    while (more) {
        size_t start = off;
        rv v; bool ext = false; size_t nodes = 0; memset(&v, 0, sizeof v);
        int r = ref_parse(base, n, &off, &v, &ext, &nodes);
        bool valid = r == REF_OK;
#if !MPACK_EXTENSIONS
        if (ext) valid = false;
#endif
        bool deep = false;
#ifdef VF_NO_MALLOC
        if (valid && rv_depth(&v) >= MPACK_NODE_MAX_DEPTH_WITHOUT_MALLOC) { deep = true; valid = false; }
#endif
#ifndef VF_NO_MALLOC
        if (k & 1) { if (!mpack_tree_try_parse(&t) && mpack_tree_error(&t) == mpack_ok) mc_fail("[%s] at %zu: try_parse of in-memory data returned false without an error", why(d, n), start); }
        else
#endif
        mpack_tree_parse(&t);
        mc_step(1);
        e = mpack_tree_error(&t);
        if (valid) {
            if (v.end - v.start > 1) mc_nontrivial(1);
            if (e != mpack_ok) mc_fail("[%s] at %zu: a valid message of %zu bytes is refused: %s", why(d, n), start, off - start, ES(e));
            if (mpack_tree_size(&t) != off - start) mc_fail("[%s] at %zu: size %zu, message has %zu", why(d, n), start, mpack_tree_size(&t), off - start);
            mpack_node_t root = mpack_tree_root(&t);
            const char* df = tree_diff(root, &v, base);
            if (df) mc_fail("[%s] at %zu: node content differs: %s", why(d, n), start, df);
            if (mpack_tree_error(&t) != mpack_ok) mc_fail("[%s]: correct access flagged %s", why(d, n), ES(mpack_tree_error(&t)));
        } else {
            if (e == mpack_ok) mc_fail("[%s] at %zu: not a valid message, but it parsed", why(d, n), start);
            bool okerr = e == mpack_error_invalid;
#if !MPACK_EXTENSIONS
            for (size_t i = start; i < n; ++i) if ((base[i] >= 0xc7 && base[i] <= 0xc9) || (base[i] >= 0xd4 && base[i] <= 0xd8)) okerr |= e == mpack_error_unsupported;
            if (r == REF_OK && ext) okerr = e == mpack_error_unsupported;
#endif
            if (deep) okerr = e == mpack_error_too_big;
#ifdef VF_NO_MALLOC
            okerr |= e == mpack_error_too_big;
#endif
            if (sizeof(size_t) == 4) okerr |= e == mpack_error_too_big; /* counts that 32 bits cannot address */
            if (!okerr) mc_fail("[%s] at %zu: not a valid message; flagged %s", why(d, n), start, ES(e));
            if (mpack_tree_size(&t) != 0) mc_fail("[%s] at %zu: parsing failed (%s) but the size is %zu, not zero", why(d, n), start, ES(e), mpack_tree_size(&t));
            mpack_node_t root = mpack_tree_root(&t);
            if (mpack_node_type(root) != mpack_type_nil || !(mpack_node_tag(root).type == mpack_type_nil)) mc_fail("[%s]: root after a failure is not nil", why(d, n));
            more = false;
        }
        ref_free(&v);
        mc_outcome(mc_mix(mc_mix(e, v.t), k));
        if (!multi) more = false;
        ++k;
    }
    if (handler_calls != (e != mpack_ok)) mc_fail("[%s]: handler called %d times for %s", why(d, n), handler_calls, ES(e));
    mpack_error_t de = mpack_tree_destroy(&t);
    if (de != e) mc_fail("[%s]: destroy says %s after %s", why(d, n), ES(de), ES(e));
    if (env_live_blocks) mc_fail("[%s]: %zu blocks leaked", why(d, n), env_live_blocks);
#ifdef VF_EXACT
    free(x);
#endif
}

static const uint8_t al[] = {0x00, 0x01, 0x03, 0x80, 0x81, 0x82, 0x90, 0x91, 0x92, 0x93, 0xa0, 0xa1, 0xa3, 0xc0, 0xc1, 0xc3, 0xc4, 0xc7, 0xcc, 0xcd, 0xd1, 0xd4, 0xd9, 0xdc, 0xde, 0xff, 0xe0, 0xc5, 0xda, 0xd5, 0xca, 0xdd};
#define AL ((uint32_t)sizeof al)

#ifndef T_MODES
#define T_MODES 4
#endif
#ifndef T_BYTES
#define T_BYTES 3
#endif
#ifndef T_AL
#define T_AL 4
#endif
#ifndef T_NODES
#define T_NODES 4
#endif

void mc_body(void) {
    mc_shard_depth = 3;
    switch (mc_choose(T_MODES, "inputs")) {
    case 0: { /* all strings of up to T_BYTES bytes */
        uint32_t b0 = mc_choose(257, "first byte");
        if (b0 == 256) { one((const uint8_t*)"", 0, false); break; }
        uint8_t d[4] = {(uint8_t)b0, 0, 0, 0};
        one(d, 1, false);
        for (int i = 0; i < 256; ++i) {
            d[1] = (uint8_t)i; one(d, 2, false);
            mc_tick(); mc_note(0, (uint64_t)i);
            if (T_BYTES >= 3) for (int j = 0; j < 256; ++j) { d[2] = (uint8_t)j; one(d, 3, false); }
        }
        break; }
    case 1: { /* all strings of T_AL bytes over an alphabet of interesting bytes, consecutive messages */
        uint8_t d[8];
        d[0] = al[mc_choose(AL, "byte 0")]; d[1] = al[mc_choose(AL, "byte 1")];
        uint64_t total = 1; for (int i = 2; i < T_AL; ++i) total *= AL;
        for (uint64_t k = 0; k < total; ++k) {
            uint64_t x = k;
            for (int i = 2; i < T_AL; ++i) { d[i] = al[x % AL]; x /= AL; }
            if (!(k & 0xfff)) { mc_tick(); mc_note(0, k); }
            one(d, T_AL, true);
        }
        break; }
    case 2: { /* structured documents, every width; every truncation; corruption of every byte; two in a row */
        const uint8_t* p = payload();
        const gn leaves[] = {{.t = RV_UINT, .u = 5}, {.t = RV_STR, .n = 3, .data = p}, {.t = RV_EXT, .ext = -3, .n = 4, .data = wild()}, {.t = RV_F64, .u = 0x3ff8000000000000ull}, {.t = RV_INT, .i = -70000}, {.t = RV_BIN, .n = 2, .data = wild()}, {.t = RV_F32, .u = 0x3fc00000}};
        static gctx g; static rbuf b;
        g_init(&g, leaves, 7, T_NODES, 4, 4); g.forms = 3;
        gn* doc = g_doc(&g);
        b.n = 0; g_encode(&b, doc);
        size_t end = b.n;
        mc_state(mc_hash(1, b.p, end));
        one(b.p, end, true);
        for (size_t n = 0; n < end; ++n) one(b.p, n, true);
        rb_mem(&b, "\x92\x01\xa1z\xc0", 5);
        one(b.p, b.n, true);
        for (size_t i = 0; i < end; ++i) {
            uint8_t o = b.p[i];
            static const uint8_t mut[] = {0xc1, 0xff, 0x00, 0xdf, 0xc9, 0x93};
            for (int m = 0; m < 6; ++m) { b.p[i] = mut[m]; one(b.p, end, true); }
            b.p[i] = o;
        }
        break; }
    default: { /* sizes: pages, deep nesting */
        static rbuf b; b.n = 0;
        uint32_t kind = mc_choose(6, "shape");
        if (kind == 0) { /* arrays of arrays of every size combination around the page size */
            uint32_t a = mc_choose(24, "outer");
            for (uint32_t c = 0; c < 24; ++c) for (uint32_t e = 0; e < 24; ++e) {
                b.n = 0; ref_array_hdr(&b, a + 2);
                for (uint32_t i = 0; i < a; ++i) rb_u8(&b, i);
                ref_array_hdr(&b, c); for (uint32_t i = 0; i < c; ++i) rb_u8(&b, 0x20 + i);
                ref_map_hdr(&b, e); for (uint32_t i = 0; i < 2 * e; ++i) { if (i & 1) { rb_u8(&b, 0x91); } rb_u8(&b, 0x40 + i); }
                one(b.p, b.n, true);
            }
        } else if (kind == 1) { /* nesting depth */
            uint32_t dep = mc_choose(100, "depth");
            for (int shape = 0; shape < 4; ++shape) {
                b.n = 0;
                for (uint32_t i = 0; i < dep; ++i) {
                    if (shape == 0) rb_u8(&b, 0x91);
                    else if (shape == 1) { rb_u8(&b, 0x81); rb_u8(&b, i); }
                    else if (shape == 2) { rb_u8(&b, 0x92); }
                    else { rb_u8(&b, 0x93); rb_u8(&b, 0x90); }
                }
                rb_u8(&b, 7);
                if (shape >= 2) for (uint32_t i = 0; i < dep; ++i) rb_u8(&b, i);
                one(b.p, b.n, true); one(b.p, b.n - 1, true);
            }
        } else if (kind == 2) { /* one long array / map / string of each header width boundary */
            static const uint32_t ns[] = {15, 16, 17, 254, 255, 256, 257, 258, 300, 511, 512, 513, 65535, 65536, 65600};
            uint32_t n = ns[mc_choose(15, "count")];
            uint32_t what = mc_choose(4, "kind");
            if (what == 0) { ref_array_hdr(&b, n); for (uint32_t i = 0; i < n; ++i) rb_u8(&b, i & 0x7f); }
            else if (what == 1) { ref_map_hdr(&b, n / 2); for (uint32_t i = 0; i < n / 2 * 2; ++i) rb_u8(&b, i & 0x7f); }
            else if (what == 2) { ref_str_hdr(&b, n, 0); rb_mem(&b, payload(), n); }
            else { ref_ext_hdr(&b, 3, n); rb_mem(&b, wild(), n); }
            one(b.p, b.n, true); one(b.p, b.n - 1, true); rb_u8(&b, 1); one(b.p, b.n, true);
        } else if (kind == 5) { /* messages of every size, in a row */
            uint32_t blk = mc_choose(70, "sizes");
            for (uint32_t i = 0; i < 10; ++i) {
                uint32_t n = blk < 60 ? blk * 10 + i : (blk < 65 ? 4096 - 25 : 65536 - 25) + blk % 5 * 10 + i;
                for (int what = 0; what < 3; ++what) {
                    b.n = 0;
                    for (int k = 0; k < 3; ++k) {
                        if (what == 0) { ref_str_hdr(&b, n, 0); rb_mem(&b, payload() + k, n); }
                        else if (what == 1) { ref_array_hdr(&b, n); for (uint32_t j = 0; j < n; ++j) rb_u8(&b, (j + (uint32_t)k) & 0x7f); }
                        else { ref_map_hdr(&b, 1); ref_bin_hdr(&b, n, false); rb_mem(&b, wild() + k, n); rb_u8(&b, 0x90 + (unsigned)k); for (int j = 0; j < k; ++j) rb_u8(&b, 0xc0); }
                        if (k == 0) rb_mem(&b, "\x92\x01\xa1z", 4);
                    }
                    one(b.p, b.n, true);
                }
            }
        } else { /* declared counts and lengths far beyond the data */
            static const uint32_t ns[] = {1, 2, 3, 4, 5, 255, 65535, 65536, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu};
            uint32_t n = ns[mc_choose(13, "declared")];
            uint32_t lead = mc_choose(3, "lead");
            static const uint8_t hs[] = {0xdd, 0xdf, 0xdb, 0xc6, 0xc9};
            for (int h = 0; h < 5; ++h) for (int tail = 0; tail < 8; ++tail) {
                b.n = 0;
                for (uint32_t i = 0; i < lead; ++i) rb_u8(&b, kind == 3 ? 0x92 : 0x81);
                if (kind == 4 && lead) rb_u8(&b, 1);
                rb_u8(&b, hs[h]); rb_be(&b, n, 4);
                for (int i = 0; i < tail; ++i) rb_u8(&b, (unsigned)i);
                one(b.p, b.n, true);
            }
        }
        break; }
    }
}
