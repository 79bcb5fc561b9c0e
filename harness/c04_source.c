/* C04 / C10(reader) / C23: reading does not depend on how the source delivers bytes. */
#include "common.h"

static rbuf msg; static size_t avail;           /* the whole stream; bytes that exist */
static size_t pos, chunk; static int devs; static int fills_after_error, in_error;
static int fail_call, ncalls; static mpack_error_t fail_err; static bool src_failed;
static size_t on_fill(mpack_reader_t* r, char* b, size_t n) {
    if (mpack_reader_error(r) != mpack_ok || in_error) ++fills_after_error;
    MC_CHECK(n > 0, "fill asked for nothing");
    ++ncalls;
    if (fail_call && ncalls == fail_call) { src_failed = true; if (fail_err) { mpack_reader_flag_error(r, fail_err); return 0; } return chunk == 1 ? (size_t)-1 : 0; }
    size_t left = avail - pos;
    size_t k = n < left ? n : left;
    if (k > chunk) k = chunk;
    if (k > 1) {
        uint32_t d = mc_deviate(&devs, k > 2 ? 4 : 2, "delivery");
        if (d == 1) k = 1; else if (d == 2) k = k - 1; else if (d == 3) k = (k + 1) / 2;
    }
    memcpy(b, msg.p + pos, k); pos += k;
    return k;
}
static int skips;
static void on_skip(mpack_reader_t* r, size_t n) {
    if (mpack_reader_error(r) != mpack_ok) ++fills_after_error;
    ++skips; ++ncalls;
    if (fail_call && ncalls == fail_call) { src_failed = true; mpack_reader_flag_error(r, fail_err ? fail_err : mpack_error_io); return; }
    if (n > avail - pos) { pos = avail; mpack_reader_flag_error(r, mpack_error_io); return; }
    pos += n;
}

static mpack_reader_t r; static bool streaming, is_file; static size_t bufsize; static size_t at; /* logical offset in the stream */
static char tb[400];
static const char* src_desc;
#define D "%s: [%s] avail %zu at %zu: "
#define DA src_desc, hexs(msg.p, msg.n), avail, at

/* after a call that had to consume up to offset need: true if it succeeded as it must */
static bool after(const char* what, size_t need) {
    mc_step(1);
    mpack_error_t e = mpack_reader_error(&r);
    if (src_failed) {
        MC_CHECK(e != mpack_ok, D "%s: the source failed but no error was flagged", DA, what);
        if (fail_err) MC_CHECK(e == fail_err, D "%s: callback flagged %s, reader says %s", DA, what, ES(fail_err), ES(e));
        else MC_CHECK(e == mpack_error_io, D "%s: callback failed, reader says %s", DA, what, ES(e));
        return false;
    }
    if (need > avail) {
        MC_CHECK(e != mpack_ok, D "%s succeeded past the end of the data (%zu needed)", DA, what, need);
        MC_CHECK(is_file ? e == mpack_error_io || e == mpack_error_eof : e == (streaming ? mpack_error_io : mpack_error_invalid), D "%s on truncated data: %s", DA, what, ES(e));
        return false;
    }
    MC_CHECK(e == mpack_ok, D "%s flagged %s", DA, what, ES(e));
    at = need;
    return true;
}
static bool stop;
#define NEXT(what, need) do { if (!after(what, need)) { stop = true; return; } } while (0)

static void contents(const gn* v, bool is_str, int method) {
    static char dst[300]; uint32_t n = v->n; const char* p;
    size_t end = at + n;
    const uint8_t* src = v->data;
    switch (method) {
        case 0: case 1: case 2: { /* read in one, in two pieces, in two pieces with an empty one */
            uint32_t k = method == 0 ? n : method == 1 ? (n > 1 ? 1 : 0) : (n > 1 ? n - 1 : n);
            size_t a0 = at;
            memset(dst, 0x11, sizeof dst);
            mpack_read_bytes(&r, dst, k); NEXT("read_bytes", a0 + k);
            if (method != 0) { mpack_read_bytes(&r, dst + k, n - k); NEXT("read_bytes rest", end); }
            MC_CHECK(!memcmp(dst, src, n) && dst[n] == 0x11, D "read_bytes gave [%s]", DA, hexs(dst, n + 1));
            break; }
        case 3: p = mpack_read_bytes_inplace(&r, n); goto inplace;
        case 4:
            if (is_str) p = mpack_read_utf8_inplace(&r, n);
            else p = mpack_read_bytes_inplace(&r, n);
        inplace:
            if (streaming && n > bufsize) {
                mpack_error_t e = mpack_reader_error(&r);
                /* the size alone decides */
                MC_CHECK(e == mpack_error_too_big || src_failed, D "in-place read of %u with a %zu byte buffer: %s", DA, n, bufsize, ES(e));
                MC_CHECK(p == NULL, D "in-place read failed but returned a pointer", DA);
                stop = true; return;
            }
            NEXT("inplace", end);
            MC_CHECK(n == 0 || (p && !memcmp(p, src, n)), D "in-place bytes [%s]", DA, hexs(p, n));
            break;
        case 5: { /* pieces in place */
            uint32_t done = 0;
            while (done < n) {
                uint32_t k = n - done > 9 ? 9 : n - done;
                size_t a0 = at;
                p = mpack_read_bytes_inplace(&r, k); NEXT("inplace piece", a0 + k);
                MC_CHECK(p && !memcmp(p, src + done, k), D "in-place piece [%s]", DA, hexs(p, k));
                done += k;
            }
            break; }
        case 6: {
            char* q = mpack_read_bytes_alloc(&r, n);
            if (mpack_reader_error(&r) != mpack_ok) MC_CHECK(q == NULL, D "failed allocating read returned memory", DA);
            NEXT("bytes_alloc", end);
            MC_CHECK(n == 0 ? q == NULL : (q && !memcmp(q, src, n)), D "bytes_alloc contents", DA);
            vf_free(q);
            break; }
        case 7: mpack_skip_bytes(&r, n); NEXT("skip", end); break;
        case 8: { /* read some, skip the rest */
            uint32_t k = n > 3 ? 3 : n; size_t a0 = at;
            mpack_read_bytes(&r, dst, k); NEXT("read_bytes", a0 + k);
            MC_CHECK(!memcmp(dst, src, k), D "first bytes", DA);
            mpack_skip_bytes(&r, n - k); NEXT("skip rest", end);
            break; }
        case 9: { /* skip some, read the rest */
            uint32_t k = n > 3 ? n - 2 : 0; size_t a0 = at;
            mpack_skip_bytes(&r, k); NEXT("skip", a0 + k);
            mpack_read_bytes(&r, dst, n - k); NEXT("read_bytes", end);
            MC_CHECK(!memcmp(dst, src + k, n - k), D "last bytes", DA);
            break; }
        case 10: case 11: case 12:
            memset(dst, 0x11, sizeof dst);
            if (method == 10) mpack_read_cstr(&r, dst, n + 1, n);
            else if (method == 11) mpack_read_utf8_cstr(&r, dst, n + 1, n);
            else mpack_read_utf8(&r, dst, n);
            if (method != 12 && mpack_reader_error(&r) != mpack_ok)
                MC_CHECK(dst[0] == 0, D "an error occurred but the string buffer is not empty", DA);
            NEXT("read_cstr/utf8", end);
            MC_CHECK(!memcmp(dst, src, n) && dst[n] == (method == 12 ? 0x11 : 0) && dst[n + 1] == 0x11, D "string gave [%s]", DA, hexs(dst, n + 2));
            break;
    }
    if (is_str) mpack_done_str(&r);
    else if (v->t == RV_BIN) mpack_done_bin(&r);
    else mpack_done_ext(&r);
    MC_CHECK(mpack_reader_error(&r) == mpack_ok, D "done flagged", DA);
}

static size_t enc_len(const gn* v) { static rbuf t; t.n = 0; g_encode(&t, v); return t.n; }

static void read_obj(const gn* v) {
    if (stop) return;
    size_t len = enc_len(v), body = 0;
    if (v->t == RV_STR || v->t == RV_BIN || v->t == RV_EXT) body = v->n;
    for (uint32_t i = 0; i < v->kids; ++i) body += enc_len(&v->kid[i]);
    size_t hdr = len - body, start = at;
    int methods = v->t == RV_STR ? 13 : v->t == RV_BIN ? 10 : v->t == RV_EXT ? (v->ext == -1 ? 11 : 10) : 0;
    uint32_t m = mc_choose((uint32_t)(methods ? methods : 1) + 2, "read method");
    rv want; size_t off = start;
    if (m == 0) { /* discard the whole */
        mpack_discard(&r);
        NEXT("discard", start + len);
        return;
    }
    if (m == 1) { /* peek first */
        mpack_tag_t t = mpack_peek_tag(&r);
        mc_step(1);
        mpack_error_t e = mpack_reader_error(&r);
        if (src_failed || start + hdr > avail) { if (!after("peek", start + hdr)) { stop = true; return; } }
        MC_CHECK(e == mpack_ok, D "peek flagged %s", DA, ES(e));
        ref_header(msg.p, msg.n, &off, &want);
        MC_CHECK(tag_is(t, &want), D "peek gave %s", DA, tag_text(t));
        m = methods ? 2 + mc_choose(2, "after peek") : 2;
    }
    off = start;
    mpack_tag_t t = mpack_read_tag(&r);
    if (mpack_reader_error(&r) != mpack_ok) MC_CHECK(mpack_tag_type(&t) == mpack_type_nil, D "failed tag is not nil", DA);
    NEXT("read_tag", start + hdr);
    ref_header(msg.p, msg.n, &off, &want);
    MC_CHECK(tag_is(t, &want), D "read_tag gave %s", DA, tag_text(t));
    if (v->t == RV_ARR || v->t == RV_MAP) {
        for (uint32_t i = 0; i < v->kids; ++i) { read_obj(&v->kid[i]); if (stop) return; }
        if (v->t == RV_ARR) mpack_done_array(&r); else mpack_done_map(&r);
    } else if (methods) {
        if (v->t == RV_EXT && v->ext == -1 && m == 12) {
            mpack_timestamp_t ts = mpack_read_timestamp(&r, v->n);
            if (mpack_reader_error(&r) != mpack_ok) MC_CHECK(ts.seconds == 0 && ts.nanoseconds == 0, D "failed timestamp not zero", DA);
            NEXT("timestamp", start + len);
            MC_CHECK(ts.seconds == 5 && ts.nanoseconds == 6, D "timestamp %lld %u", DA, (long long)ts.seconds, ts.nanoseconds);
        } else contents(v, v->t == RV_STR, (int)m - 2);
    }
}

void mc_body(void) {
    mc_shard_depth = 4;
    static const uint8_t ts8[] = {0, 0, 0, 6 << 2, 0, 0, 0, 5};
    const uint8_t* p = payload();
    gn leaves[] = {
        {.t = RV_UINT, .u = 0x1122334455667788ull}, {.t = RV_STR, .n = 7, .data = p}, {.t = RV_STR, .n = 33, .data = p + 1}, {.t = RV_BIN, .n = 48, .data = wild() + 5},
        {.t = RV_EXT, .ext = -1, .n = 8, .data = ts8}, {.t = RV_STR, .n = 0, .data = p}, {.t = RV_STR, .n = 100, .data = p + 3}, {.t = RV_EXT, .ext = 7, .n = 5, .data = wild()}, {.t = RV_STR, .n = 1, .data = p}, {.t = RV_NIL},
    };
    static gctx g;
    uint32_t kind = mc_choose(5, "source"); /* memory; fill; fill+skip; file; unseekable FILE* */
    static const size_t bss[] = {32, 47, 64};
    bufsize = kind == 0 ? 0 : kind >= 3 ? MPACK_BUFFER_SIZE : bss[mc_choose(mc_tier ? 3 : 2, "buffer size")];
    uint32_t padn = mc_choose(MC_PAD, "fill level");
    g_init(&g, leaves, MC_LEAVES, MC_NODES, 2, 2);
    gn* doc = g_doc(&g);
    msg.n = 0;
    if (padn) { ref_bin_hdr(&msg, padn, 0); rb_mem(&msg, p, padn); }
    size_t pre = msg.n;
    g_encode(&msg, doc);
    size_t docend = msg.n;
    ref_uint(&msg, 0xfeed);
    size_t whole = msg.n;
    rb_mem(&msg, "\x91\x01\xc0", 3);   /* data behind the last object read */
    avail = msg.n; pos = 0; chunk = SIZE_MAX; devs = 0; fills_after_error = in_error = skips = fail_call = ncalls = 0; src_failed = false; stop = false; at = 0;
    streaming = kind != 0; is_file = kind >= 3;
    static const char* const kd[] = {"memory", "fill", "fill+skip", "file", "unseekable FILE"};
    src_desc = kd[kind];
    if (kind == 1 || kind == 2) {
        uint32_t how = mc_choose(4, "delivery pattern / fault");
        if (how == 0) { devs = mc_tier ? 2 : 1; }
        else if (how == 1) { static const size_t cs[] = {1, 2, 5}; chunk = cs[mc_choose(3, "chunk size")]; }
        else if (how == 2) { avail = pre + mc_choose((uint32_t)(whole - pre), "truncate at"); if (mc_choose(2, "chunks")) chunk = 3; }
        else { fail_call = 1 + (int)mc_choose(4, "failing callback"); if (mc_choose(2, "chunks")) chunk = 1 + 8 * (padn & 1);
            static const mpack_error_t fe[] = {mpack_ok, mpack_error_io, mpack_error_eof, mpack_error_data}; fail_err = fe[mc_choose(3, "how it fails")]; }
    } else {
        if (mc_choose(2, "truncated")) avail = pre + mc_choose((uint32_t)(whole - pre), "truncate at");
    }
    mc_state(mc_hash(kind * 100 + bufsize, msg.p, msg.n));
    char* buf = NULL; char* exact = NULL; FILE* f = NULL;
    if (kind == 0) {
        exact = (char*)malloc(avail ? avail : 1); memcpy(exact, msg.p, avail);
        mpack_reader_init_data(&r, exact, avail);
    } else if (kind <= 2) {
        buf = (char*)malloc(bufsize);
        /* some data may already be in the buffer */
        size_t first = padn % 3 == 2 ? (avail < 7 ? avail : 7) : 0;
        memcpy(buf, msg.p, first); pos = first;
        mpack_reader_init(&r, buf, bufsize, first);
        mpack_reader_set_fill(&r, on_fill);
        if (kind == 2) mpack_reader_set_skip(&r, on_skip);
    } else {
        env_file* ef = env_file_make("in", msg.p, avail, kind == 3);
        ef->max_read_chunk = padn % 5 == 1 ? 3 : 0;
        if (kind == 3) mpack_reader_init_filename(&r, "in");
        else { f = env_fopen("in", "rb"); mpack_reader_init_stdfile(&r, f, false); }
    }
    if (padn) {
        gn pad = {.t = RV_BIN, .n = padn, .data = wild()};
        mpack_tag_t t = mpack_read_tag(&r); (void)t;
        size_t h = pre - padn;
        if (!after("pad tag", h)) goto end;
        static char dst[100];
        if (padn & 1) mpack_read_bytes(&r, dst, padn); else mpack_skip_bytes(&r, padn);
        mpack_done_bin(&r);
        if (!after("pad", pre)) goto end;
        (void)pad;
    }
    read_obj(doc);
    if (!stop) {
        MC_CHECK(at == docend, D "document ends at %zu", DA, docend);
        uint16_t x = mpack_expect_u16(&r);
        if (after("trailer", whole)) {
            MC_CHECK(x == 0xfeed, D "trailer read as %x", DA, x);
            const char* rest; size_t left = mpack_reader_remaining(&r, &rest);
            if (kind == 0) MC_CHECK(left == avail - whole && !memcmp(rest, msg.p + whole, left), D "%zu bytes remain", DA, left);
            else if (kind <= 2) MC_CHECK(left == pos - whole && (left == 0 || !memcmp(rest, msg.p + whole, left)), D "%zu bytes remain buffered, %zu were delivered beyond", DA, left, pos - whole);
            else MC_CHECK(left <= avail - whole && !memcmp(rest, msg.p + whole, left), D "%zu bytes remain buffered", DA, left);
        } else stop = true;
    }
end:;
    mpack_error_t e1 = mpack_reader_error(&r);
    in_error = e1 != mpack_ok;
    if (in_error) { /* nothing touches the source any more */
        int c0 = ncalls;
        char d2[4] = {1, 1, 1, 1};
        mpack_discard(&r); mpack_skip_bytes(&r, 5); mpack_read_bytes(&r, d2, 4); (void)mpack_read_tag(&r); (void)mpack_read_bytes_inplace(&r, 2);
        MC_CHECK(ncalls == c0, D "the source was called after an error", DA);
        MC_CHECK(mpack_reader_remaining(&r, NULL) == 0, D "data remains after an error", DA);
    }
    mpack_error_t e2 = mpack_reader_destroy(&r);
    MC_CHECK(e1 == e2, D "destroy says %s after %s", DA, ES(e2), ES(e1));
    MC_CHECK(!fills_after_error, D "source called after an error", DA);
    if (f) { MC_CHECK(env_open_handles == 1, "handle closed unasked"); fclose(f); }
    MC_CHECK(env_open_handles == 0 && env_live_blocks == 0, D "%d handles and %zu blocks left", DA, env_open_handles, env_live_blocks);
    free(buf); free(exact);
    mc_outcome(mc_hash(kind * 7 + (uint64_t)e2, msg.p, msg.n) + at);
}
