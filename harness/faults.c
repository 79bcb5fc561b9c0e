/* C09 (FA=9: allocation failures), C10 (FA=10: I/O and callback failures), C11 (FA=11: the error
 * handler jumps out, whatever the error). Writers, readers and trees run short programs chosen by the
 * explorer while every fault point of the chosen kind is tried. */
#include "tree.h"
#ifndef F_OPS
#define F_OPS 2
#endif
#ifndef F_TOPS
#define F_TOPS (FA == 11 ? 0 : 1) /* further operations in the thorough tier */
#endif
#ifndef F_BUDGET
#define F_BUDGET 1
#endif
#ifndef F_WHO
#define F_WHO 3
#endif
enum { H_NONE, H_COUNT, H_JUMP, H_DESTROY_JUMP };
static int hmode, hcalls; static mpack_error_t herr; static bool destroyed; static mpack_error_t derr;
static jmp_buf jb;
static const char* ctx = ""; static char prog[200];
#define CK(c, ...) do { if (!(c)) { char m_[300]; snprintf(m_, sizeof m_, __VA_ARGS__); mc_fail("%s [%s], handler mode %d, last fault: %s: %s", ctx, prog, hmode, env_last_fault, m_); } } while (0)

static bool cb_failed; static mpack_error_t cb_err; static int cb_at, cb_n;     /* failing callback */
static bool user_error; static mpack_error_t user_err; /* the program itself caused an error */
static void op(const char* n) { size_t l = strlen(prog); if (l + strlen(n) + 2 < sizeof prog) { strcat(prog, n); strcat(prog, " "); } mc_step(1); mc_log("%s", n); }

/* ---------------------------------------------------------------- writer */
static mpack_writer_t w; static rbuf exp_, sink;
static int sinkcalls_after_error;
static void w_err(mpack_writer_t* x, mpack_error_t e) {
    ++hcalls; herr = e;
    CK(hcalls == 1, "handler called again (%s)", ES(e));
    CK(mpack_writer_error(x) == e, "handler told %s, writer says %s", ES(e), ES(mpack_writer_error(x)));
    if (hmode == H_DESTROY_JUMP) { derr = mpack_writer_destroy(x); destroyed = true; }
    if (hmode >= H_JUMP) longjmp(jb, 1);
}
static void w_flush(mpack_writer_t* x, const char* d, size_t n) {
    if (mpack_writer_error(x) != mpack_ok) ++sinkcalls_after_error;
    if (cb_at && ++cb_n == cb_at) { cb_failed = true; mpack_writer_flag_error(x, cb_err); return; }
    rb_mem(&sink, d, n);
}
static void w_op(uint32_t k) {
    static const char big[] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
    switch (k) {
        case 0: op("uint"); mpack_write_u32(&w, 0xabcdef01u); ref_uint(&exp_, 0xabcdef01u); break;
        case 1: op("str100"); mpack_write_str(&w, big, 100); ref_str_hdr(&exp_, 100, 0); rb_mem(&exp_, big, 100); break;
        case 2: op("chunks"); mpack_start_bin(&w, 50); mpack_write_bytes(&w, big, 20); mpack_write_bytes(&w, big + 20, 30); mpack_finish_bin(&w); ref_bin_hdr(&exp_, 50, 0); rb_mem(&exp_, big, 50); break;
#if MPACK_BUILDER
        case 3: op("build-map"); mpack_build_map(&w); mpack_write_cstr(&w, "k"); mpack_build_array(&w); mpack_write_u8(&w, 1); mpack_write_str(&w, big, 60); mpack_complete_array(&w); mpack_write_cstr(&w, "z"); mpack_write_nil(&w); mpack_complete_map(&w);
            ref_map_hdr(&exp_, 2); rb_mem(&exp_, "\xa1k", 2); ref_array_hdr(&exp_, 2); rb_u8(&exp_, 1); ref_str_hdr(&exp_, 60, 0); rb_mem(&exp_, big, 60); rb_mem(&exp_, "\xa1z\xc0", 3); break;
        case 4: op("build-deep"); for (int i = 0; i < 10; ++i) { mpack_build_array(&w); mpack_write_u64(&w, 0x1122334455667788ull); } for (int i = 0; i < 10; ++i) { mpack_write_u16(&w, 300); mpack_complete_array(&w); }
            for (int i = 0; i < 10; ++i) { ref_array_hdr(&exp_, i == 9 ? 2 : 3); ref_uint(&exp_, 0x1122334455667788ull); } for (int i = 0; i < 10; ++i) ref_uint(&exp_, 300); break;
        case 5: op("explicit+build"); mpack_start_array(&w, 2); mpack_build_map(&w); mpack_complete_map(&w); mpack_start_map(&w, 1); mpack_write_u8(&w, 7); mpack_build_array(&w); for (int i = 0; i < 12; ++i) mpack_write_i64(&w, -5000000000ll); mpack_complete_array(&w); mpack_finish_map(&w); mpack_finish_array(&w);
            ref_array_hdr(&exp_, 2); ref_map_hdr(&exp_, 0); ref_map_hdr(&exp_, 1); rb_u8(&exp_, 7); ref_array_hdr(&exp_, 12); for (int i = 0; i < 12; ++i) ref_int(&exp_, -5000000000ll); break;
#endif
        case 6: op("nest10"); for (int i = 0; i < 10; ++i) { mpack_start_array(&w, 1); ref_array_hdr(&exp_, 1); } mpack_write_true(&w); ref_bool(&exp_, true); for (int i = 0; i < 10; ++i) mpack_finish_array(&w); break;
        case 7: op("flush"); if (ctx[0] != 'F') mpack_writer_flush_message(&w); break;
        case 8: op("object"); mpack_write_object_bytes(&w, "\x93\x01\x02\x03", 4); rb_mem(&exp_, "\x93\x01\x02\x03", 4); break;
        /* errors of the program */
        case 9: op("bad-utf8"); user_error = true; user_err = mpack_error_invalid; mpack_write_utf8(&w, "a\xff", 2); break;
        case 10: op("flag"); user_error = true; user_err = mpack_error_data; mpack_writer_flag_error(&w, mpack_error_data); break;
#if MPACK_BUILDER
        case 11: op("build+bad-utf8"); user_error = true; user_err = mpack_error_invalid; mpack_build_array(&w); mpack_write_u8(&w, 1); mpack_build_map(&w); mpack_write_utf8(&w, "\xc0", 1); mpack_write_str(&w, big, 100); mpack_complete_map(&w); mpack_complete_array(&w); break;
        case 12: op("open-build"); user_error = true; user_err = mpack_error_bug; mpack_build_array(&w); mpack_write_str(&w, big, 70); mpack_build_map(&w); break; /* left open: a bug at destroy */
        case 13: op("odd-map"); user_error = true; user_err = mpack_error_bug; mpack_build_map(&w); mpack_write_u8(&w, 1); mpack_complete_map(&w); break;
#endif
    }
}
static char* gdata; static size_t gsize;
static FILE* ufile;
static char* fbuf;
static void writer_case(void) {
    static const char* const kinds[] = {"growable writer", "named file writer", "FILE writer, close", "FILE writer, no close", "flush function", "Fixed buffer"};
    uint32_t kind = mc_choose(6, "writer"); ctx = kinds[kind];
    exp_.n = sink.n = 0; gdata = NULL; gsize = 99; ufile = NULL; fbuf = NULL; sinkcalls_after_error = 0;
    size_t cap = 32;
    if (FA == 10 && (kind == 0 || kind == 5)) mc_done();
    env_file_buf = kind >= 1 && kind <= 3 && FA != 9 ? (mc_choose(2, "stdio buffering") ? -1 : 0) : 0;
    if (kind == 4) { cap = mc_choose(2, "buffer") ? 47 : 32; if (FA != 9) { cb_at = (int)mc_choose(FA == 10 ? 8 : 5, "failing flush"); static const mpack_error_t fe[] = {mpack_error_io, mpack_error_data, mpack_error_memory}; cb_err = fe[cb_at ? mc_choose(3, "flagged") : 0]; } }
    uint32_t fill = mc_choose(mc_tier ? 8 : 3, "fill level") * (mc_tier ? 5 : 13);
    uint32_t ops[4]; int nops = F_OPS + (mc_tier ? F_TOPS : 0);
    if (nops > 4) nops = 4;
    for (int i = 0; i < nops; ++i) ops[i] = mc_choose(FA == 11 ? 14 : 9, "write op");
    bool ferr_close = false;
    env_fault_budget = F_BUDGET + (mc_tier ? 1 : 0); env_alloc_faults_on = FA != 10; env_io_faults_on = FA != 9;
    if (FA == 11 && kind == 5) { cap = 40 + 20 * mc_choose(3, "capacity"); }
    volatile bool started = false;
    int jumped = setjmp(jb);
    if (!jumped) {
        switch (kind) {
            case 0: mpack_writer_init_growable(&w, &gdata, &gsize); break;
            case 1: mpack_writer_init_filename(&w, "out"); break;
            case 2: ufile = env_fopen("out", "wb"); mpack_writer_init_stdfile(&w, ufile, true); break;
            case 3: ufile = env_fopen("out", "wb"); mpack_writer_init_stdfile(&w, ufile, false); break;
            default: fbuf = (char*)malloc(cap); mpack_writer_init(&w, fbuf, kind == 4 ? cap : cap); if (kind == 4) mpack_writer_set_flush(&w, w_flush); break;
        }
        mpack_error_t ie = mpack_writer_error(&w);
        if (ie != mpack_ok) CK(env_faults_injected, "initialisation failed with %s without a fault", ES(ie));
        if (hmode != H_NONE) mpack_writer_set_error_handler(&w, w_err);
        if (ie != mpack_ok) hmode = H_NONE; /* it was too early for the handler */
        started = true;
        if (fill) { mpack_write_bin(&w, (const char*)payload(), fill); ref_bin_hdr(&exp_, fill, 0); rb_mem(&exp_, payload(), fill); }
        for (int i = 0; i < nops; ++i) { w_op(ops[i]); }
        mpack_error_t e0 = mpack_writer_error(&w);
        op("destroy");
        derr = mpack_writer_destroy(&w); destroyed = true;
        if (e0 != mpack_ok) CK(derr == e0, "destroy says %s after %s", ES(derr), ES(e0));
    } else {
        CK(hmode >= H_JUMP, "unexpected jump");
        if (!destroyed) {
            CK(mpack_writer_error(&w) == herr, "after the jump the writer says %s, not %s", ES(mpack_writer_error(&w)), ES(herr));
            op("destroy-after-jump");
            derr = mpack_writer_destroy(&w); destroyed = true;
        }
        CK(derr == herr, "destroy says %s, the handler was told %s", ES(derr), ES(herr));
    }
    (void)started;
    int b = env_fault_budget; bool iodead = env_io_dead;
    if (kind == 3) {
        CK(env_open_handles == 1, "the FILE was closed unasked");
        if (env_open_handles == 1) ferr_close = fclose(ufile) != 0;
    }
    (void)b; (void)iodead;
    CK(env_open_handles == 0, "%d handles left open", env_open_handles);
    env_file* f = env_file_find("out");
    if (f) CK(f->opens == f->closes, "opened %d times, closed %d times", f->opens, f->closes);
    CK(sinkcalls_after_error == 0, "flush called after an error");
    if (hmode != H_NONE) CK(hcalls == (derr != mpack_ok), "handler called %d times, error %s", hcalls, ES(derr));
    if (derr == mpack_ok) {
        CK(!user_error, "the program's mistake was not reported");
        CK(!cb_failed, "the flush failure was not reported");
        if (kind == 0) { CK(gdata && gsize == exp_.n && !memcmp(gdata, exp_.p, gsize), "success, but the data is wrong (%zu bytes, %zu expected)", gsize, exp_.n); vf_free(gdata); }
        else if (kind <= 2 || (kind == 3 && !ferr_close)) CK(f && f->size == exp_.n && !memcmp(f->data, exp_.p, exp_.n), "success, but the file has %zu bytes (%zu expected) or wrong ones", f ? f->size : 0, exp_.n);
        else if (kind == 4) CK(sink.n == exp_.n && !memcmp(sink.p, exp_.p, sink.n), "success, but %zu bytes were flushed (%zu expected)", sink.n, exp_.n);
    } else {
        if (kind == 0) CK(gdata == NULL && gsize == 0, "error %s, but data is handed out", ES(derr));
        bool cause = env_faults_injected || user_error || cb_failed || kind == 5;
        CK(cause, "error %s without any cause", ES(derr));
        if (FA == 9 && kind != 5) CK(derr == mpack_error_memory, "an allocation failed, reported as %s", ES(derr));
        if (FA == 9 && kind == 5) CK(derr == mpack_error_memory || derr == mpack_error_too_big, "reported as %s", ES(derr));
        if (FA == 10 && kind <= 3) CK(derr == mpack_error_io, "I/O failed, reported as %s", ES(derr));
        if (cb_failed && !env_faults_injected && !user_error) CK(derr == cb_err, "the flush function flagged %s, reported as %s", ES(cb_err), ES(derr));
        if (FA == 11 && user_error && !env_faults_injected && !cb_failed && kind != 5 && !(user_err == mpack_error_bug || kind == 5)) CK(derr == user_err, "%s expected, not %s", ES(user_err), ES(derr));
    }
    free(fbuf);
    mc_outcome(mc_mix(mc_mix(kind, derr), (uint64_t)hcalls * 8 + (uint64_t)jumped));
}

/* ---------------------------------------------------------------- reader */
static mpack_reader_t r; static rbuf in; static size_t ipos; static bool stop_reading;
static void r_err(mpack_reader_t* x, mpack_error_t e) {
    ++hcalls; herr = e;
    CK(hcalls == 1, "handler called again (%s)", ES(e));
    CK(mpack_reader_error(x) == e, "handler told %s, reader says %s", ES(e), ES(mpack_reader_error(x)));
    if (hmode == H_DESTROY_JUMP) { derr = mpack_reader_destroy(x); destroyed = true; }
    if (hmode >= H_JUMP) longjmp(jb, 1);
}
static size_t r_fill(mpack_reader_t* x, char* b, size_t n) {
    if (mpack_reader_error(x) != mpack_ok) ++sinkcalls_after_error;
    if (cb_at && ++cb_n == cb_at) { cb_failed = true; if (cb_err == mpack_ok) return 0; if (cb_err == mpack_error_type) return (size_t)-1; mpack_reader_flag_error(x, cb_err); return 0; }
    size_t k = in.n - ipos; if (k > n) k = n; if (k > 11) k = 11;
    memcpy(b, in.p + ipos, k); ipos += k; return k;
}
static void r_skip(mpack_reader_t* x, size_t n) {
    if (mpack_reader_error(x) != mpack_ok) ++sinkcalls_after_error;
    if (cb_at && ++cb_n == cb_at) { cb_failed = true; if (cb_err == mpack_ok || cb_err == mpack_error_type) cb_err = mpack_error_io; mpack_reader_flag_error(x, cb_err); return; }
    if (n > in.n - ipos) { mpack_reader_flag_error(x, mpack_error_io); return; }
    ipos += n;
}
#define R_OPS 20
static void r_put(uint32_t k) {
    const char* p = (const char*)payload();
    switch (k) {
        case 0: case 1: case 10: ref_str_hdr(&in, 60, 0); rb_mem(&in, p, 60); break;
        case 2: case 5: ref_bin_hdr(&in, 60, 0); rb_mem(&in, p, 60); break;
        case 3: ref_ext_hdr(&in, 9, 60); rb_mem(&in, p, 60); break;
        case 4: ref_array_hdr(&in, 3); rb_mem(&in, "\x01\x02\x03", 3); break;
        case 6: for (int i = 0; i < 12; ++i) rb_u8(&in, 0x92); rb_u8(&in, 1); for (int i = 0; i < 12; ++i) rb_u8(&in, 2); break;
        case 7: ref_str_hdr(&in, 200, 0); rb_mem(&in, p, 200); break;
        case 8: ref_str_hdr(&in, 30, 0); rb_mem(&in, p, 30); break;
        case 9: for (int i = 0; i < 20; ++i) rb_u8(&in, 0x91); rb_u8(&in, 0xc3); break;
        case 11: ref_map_hdr(&in, 2); rb_mem(&in, "\xa1""a\x01\xa1""b\x02", 6); break;
        case 12: ref_str_hdr(&in, 40, 0); rb_mem(&in, p, 40); break;
        case 13: ref_timestamp(&in, 77, 88); break;
        case 14: ref_str_hdr(&in, 40, 0); rb_mem(&in, p, 39); rb_u8(&in, 0); break;
        case 15: ref_str_hdr(&in, 40, 0); rb_mem(&in, p, 39); rb_u8(&in, 0xff); break;
        case 16: ref_str_hdr(&in, 60, 0); rb_mem(&in, p, 60); break;
        case 17: rb_u8(&in, 0xc1); break;
        case 18: rb_u8(&in, 1); break;
        case 19: rb_u8(&in, 0x92); rb_u8(&in, 5); break; /* truncated array: data ends */
    }
}
#define OKR (mpack_reader_error(&r) == mpack_ok)
static void r_op(uint32_t k) {
    const char* p = (const char*)payload(); static char dst[300]; size_t n = 0; char* q; int8_t et;
    switch (k) {
        case 0: op("cstr_alloc"); q = mpack_expect_cstr_alloc(&r, 100); if (OKR) CK(q && !memcmp(q, p, 60) && q[60] == 0, "string"); else CK(!q, "failed, not NULL"); vf_free(q); break;
        case 1: op("utf8_cstr_alloc"); q = mpack_expect_utf8_cstr_alloc(&r, 61); if (OKR) CK(q && !memcmp(q, p, 60) && q[60] == 0, "string"); else CK(!q, "failed, not NULL"); vf_free(q); break;
        case 2: op("bin_alloc"); q = mpack_expect_bin_alloc(&r, 100, &n); if (OKR) CK(q && n == 60 && !memcmp(q, p, 60), "data"); else CK(!q && n == 0, "failed, %p size %zu", (void*)q, n); vf_free(q); break;
#if MPACK_EXTENSIONS
        case 3: op("ext_alloc"); et = 0; q = mpack_expect_ext_alloc(&r, &et, 100, &n); if (OKR) CK(q && n == 60 && et == 9 && !memcmp(q, p, 60), "data"); else CK(!q && n == 0, "failed, %p size %zu", (void*)q, n); vf_free(q); break;
#endif
        case 4: { op("array_alloc"); uint32_t c = 0; uint32_t* a = (uint32_t*)mpack_expect_array_alloc(&r, uint32_t, 10, &c); if (OKR) CK(a && c == 3, "array"); else { CK(!a && c == 0, "failed, %p %u", (void*)a, c); break; }
            if (hmode >= H_JUMP) { vf_free(a); a = NULL; } /* the caller's array; a jump would leak it */
            for (uint32_t i = 0; i < c; ++i) { uint32_t v = mpack_expect_u32(&r); if (a) a[i] = v; if (OKR) CK(v == i + 1, "element"); } mpack_done_array(&r); vf_free(a); break; }
        case 5: { op("bytes_alloc"); mpack_tag_t t = mpack_read_tag(&r); if (!OKR) break; n = mpack_tag_bin_length(&t); q = mpack_read_bytes_alloc(&r, n); if (OKR) CK(q && !memcmp(q, p, 60), "data"); else CK(!q, "failed, not NULL"); mpack_done_bin(&r); vf_free(q); break; }
        case 6: op("discard"); mpack_discard(&r); break;
        case 7: { op("skip"); mpack_tag_t t = mpack_read_tag(&r); if (!OKR) break; mpack_skip_bytes(&r, mpack_tag_str_length(&t)); mpack_done_str(&r); break; }
        case 8: { op("inplace"); mpack_tag_t t = mpack_read_tag(&r); if (!OKR) break; const char* z = mpack_read_bytes_inplace(&r, mpack_tag_str_length(&t)); if (OKR) CK(!memcmp(z, p, 30), "inplace data"); else CK(!z, "failed, not NULL"); mpack_done_str(&r); break; }
        case 9: op("nest20"); for (int i = 0; i < 20; ++i) mpack_expect_array_match(&r, 1); { bool b = mpack_expect_bool(&r); if (OKR) CK(b, "bool"); } for (int i = 0; i < 20; ++i) mpack_done_array(&r); break;
        case 10: op("cstr"); mpack_expect_cstr(&r, dst, 100); if (OKR) CK(!memcmp(dst, p, 60) && dst[60] == 0, "string"); else CK(dst[0] == 0, "failed, buffer not empty"); break;
        case 11: { op("map"); uint32_t c = mpack_expect_map_max(&r, 5); bool found[2] = {0, 0}; static const char* keys[2] = {"b", "a"}; if (OKR) CK(c == 2, "count"); for (uint32_t i = 0; i < c && OKR; ++i) { size_t key = mpack_expect_key_cstr(&r, keys, found, 2); if (OKR) CK(key == 1 - i, "key %zu", key); uint8_t v = mpack_expect_u8(&r); if (OKR) CK(v == i + 1, "value"); } if (OKR) mpack_done_map(&r); break; }
        case 12: { op("str_buf"); n = mpack_expect_str_buf(&r, dst, 100); if (OKR) CK(n == 40 && !memcmp(dst, p, 40), "string"); else CK(n == 0, "size"); break; }
#if MPACK_EXTENSIONS
        case 13: { op("timestamp"); mpack_timestamp_t t = mpack_expect_timestamp(&r); if (OKR) CK(t.seconds == 77 && t.nanoseconds == 88, "timestamp"); else CK(t.seconds == 0 && t.nanoseconds == 0, "failed, not zero"); break; }
#endif
        /* errors in the data or the program */
        case 14: op("nul in cstr"); user_error = true; user_err = mpack_error_type; q = mpack_expect_cstr_alloc(&r, 100); CK(!q, "string with NUL accepted"); break;
        case 15: op("bad utf8"); user_error = true; user_err = mpack_error_type; q = mpack_expect_utf8_cstr_alloc(&r, 100); CK(!q, "bad UTF-8 accepted"); break;
        case 16: op("too big"); user_error = true; user_err = mpack_error_too_big; q = mpack_expect_cstr_alloc(&r, 60); CK(!q, "too long a string accepted"); break;
        case 17: op("c1"); user_error = true; user_err = mpack_error_invalid; mpack_discard(&r); break;
        case 18: op("type"); user_error = true; user_err = mpack_error_type; q = mpack_expect_bin_alloc(&r, 60, &n); CK(!q && !n, "int as bin"); break;
        case 19: op("flag"); user_error = true; user_err = mpack_error_data; mpack_reader_flag_error(&r, mpack_error_data); break;
    }
}
static void reader_case(void) {
    static const char* const kinds[] = {"memory reader", "named file reader", "FILE reader, close", "FILE reader, no close", "fill function", "fill and skip functions", "unseekable file reader"};
    uint32_t kind = mc_choose(7, "reader"); ctx = kinds[kind];
    in.n = 0; ipos = 0; ufile = NULL; fbuf = NULL; sinkcalls_after_error = 0;
    if (FA == 10 && kind == 0) mc_done();
    if (kind == 4 || kind == 5) { if (FA != 9) { cb_at = (int)mc_choose(FA == 10 ? 12 : 6, "failing callback"); static const mpack_error_t fe[] = {mpack_ok, mpack_error_type, mpack_error_io, mpack_error_data}; cb_err = fe[cb_at ? mc_choose(4, "how") : 0]; } }
    uint32_t ops[4]; int nops = F_OPS + (mc_tier ? F_TOPS : 0); if (nops > 4) nops = 4;
    for (int i = 0; i < nops; ++i) { ops[i] = mc_choose(FA == 11 ? R_OPS : 14, "read op"); r_put(ops[i]); }
    bool cut = FA == 11 && mc_choose(2, "truncate");
    if (cut) in.n -= in.n > 3 ? 3 : in.n;
    env_file_buf = kind >= 1 && kind != 4 && kind != 5 && FA != 9 ? (mc_choose(2, "stdio buffering") ? -1 : 0) : 0;
    env_fault_budget = F_BUDGET + (mc_tier ? 1 : 0); env_alloc_faults_on = FA != 10; env_io_faults_on = FA != 9;
    volatile int jumped = setjmp(jb);
    if (!jumped) {
        if (kind == 1 || kind == 2 || kind == 3 || kind == 6) { env_file* f = env_file_make("in", in.p, in.n, kind != 6); f->max_read_chunk = 19; }
        switch (kind) {
            case 0: fbuf = (char*)malloc(in.n + 1); memcpy(fbuf, in.p, in.n); mpack_reader_init_data(&r, fbuf, in.n); break;
            case 1: case 6: mpack_reader_init_filename(&r, "in"); break;
            case 2: ufile = env_fopen("in", "rb"); mpack_reader_init_stdfile(&r, ufile, true); break;
            case 3: ufile = env_fopen("in", "rb"); mpack_reader_init_stdfile(&r, ufile, false); break;
            default: fbuf = (char*)malloc(64); mpack_reader_init(&r, fbuf, 64, 0); mpack_reader_set_fill(&r, r_fill); if (kind == 5) mpack_reader_set_skip(&r, r_skip); break;
        }
        mpack_error_t ie = mpack_reader_error(&r);
        if (ie != mpack_ok) CK(env_faults_injected, "initialisation failed with %s without a fault", ES(ie));
        if (hmode != H_NONE) mpack_reader_set_error_handler(&r, r_err);
        if (ie != mpack_ok) hmode = H_NONE;
        for (int i = 0; i < nops; ++i) r_op(ops[i]);
        mpack_error_t e0 = mpack_reader_error(&r);
        op("destroy");
        derr = mpack_reader_destroy(&r); destroyed = true;
        if (e0 != mpack_ok) CK(derr == e0, "destroy says %s after %s", ES(derr), ES(e0));
    } else {
        CK(hmode >= H_JUMP, "unexpected jump");
        if (!destroyed) {
            CK(mpack_reader_error(&r) == herr, "after the jump the reader says %s, not %s", ES(mpack_reader_error(&r)), ES(herr));
            op("destroy-after-jump");
            derr = mpack_reader_destroy(&r); destroyed = true;
        }
        CK(derr == herr, "destroy says %s, the handler was told %s", ES(derr), ES(herr));
    }
    if (kind == 3) { CK(env_open_handles == 1, "the FILE was closed unasked"); fclose(ufile); }
    CK(env_open_handles == 0, "%d handles left open", env_open_handles);
    env_file* f = env_file_find("in");
    if (f) CK(f->opens == f->closes, "opened %d times, closed %d times", f->opens, f->closes);
    CK(sinkcalls_after_error == 0, "the source was called after an error");
    if (hmode != H_NONE) CK(hcalls == (derr != mpack_ok), "handler called %d times, error %s", hcalls, ES(derr));
    if (FA == 10 && derr == mpack_ok && (kind == 1 || kind == 2 || kind == 6)) CK(strcmp(env_last_fault, "close"), "the failing close was not reported");
    if (derr == mpack_ok) { CK(!user_error && !cut, "the error in the data was not reported"); CK(!cb_failed, "the failing callback was not reported"); }
    else {
        CK(env_faults_injected || user_error || cb_failed || cut || ((kind == 4 || kind == 5) && 0), "error %s without any cause", ES(derr));
        if (FA == 9) CK(derr == mpack_error_memory, "an allocation failed, reported as %s", ES(derr));
        if (FA == 10 && !cb_failed) CK(derr == mpack_error_io || derr == mpack_error_eof, "I/O failed, reported as %s", ES(derr));
        if (cb_failed && !env_faults_injected && !user_error && !cut) { mpack_error_t want = cb_err == mpack_ok || cb_err == mpack_error_type ? mpack_error_io : cb_err; CK(derr == want, "the callback's failure %s is reported as %s", ES(want), ES(derr)); }
        if (user_error && nops && !env_faults_injected && !cb_failed && !cut && hcalls <= 1) { bool one_err = true; int ue = 0; for (int i = 0; i < nops; ++i) ue += ops[i] >= 14; one_err = ue == 1; if (one_err && kind != 0 ? 1 : one_err) CK(derr == user_err, "%s expected, not %s", ES(user_err), ES(derr)); }
    }
    free(fbuf);
    mc_outcome(mc_mix(mc_mix(kind + 50, derr), (uint64_t)hcalls * 8 + (uint64_t)jumped));
}

/* ---------------------------------------------------------------- tree */
static mpack_tree_t t;
static void t_err(mpack_tree_t* x, mpack_error_t e) {
    ++hcalls; herr = e;
    CK(hcalls == 1, "handler called again (%s)", ES(e));
    CK(mpack_tree_error(x) == e, "handler told %s, tree says %s", ES(e), ES(mpack_tree_error(x)));
    if (hmode == H_DESTROY_JUMP) { derr = mpack_tree_destroy(x); destroyed = true; }
    if (hmode >= H_JUMP) longjmp(jb, 1);
}
static bool t_try;
static size_t t_read(mpack_tree_t* x, char* b, size_t n) {
    if (mpack_tree_error(x) != mpack_ok) ++sinkcalls_after_error;
    if (cb_at && ++cb_n == cb_at) { cb_failed = true; if (cb_err == mpack_error_type) return (size_t)-1; mpack_tree_flag_error(x, cb_err); return 0; }
    if (t_try && (ipos / 3) % 2 == 0 && !(ipos & 1)) { ++ipos; --ipos; }
    size_t k = in.n - ipos; if (k > n) k = n; if (k > 21) k = 21;
    memcpy(b, in.p + ipos, k); ipos += k; return k;
}
static rv tref[3]; static int ntref; static bool treeok;
static void t_use(int which) {
    mpack_node_t root = mpack_tree_root(&t);
    const rv* v = &tref[which];
    (void)v;
    if (mpack_tree_error(&t) == mpack_ok) { const char* df = tree_diff(root, v, in.p); CK(!df, "content differs: %s", df); }
}
#define OKT (mpack_tree_error(&t) == mpack_ok)
static void tree_case(void) {
    static const char* const kinds[] = {"memory tree", "named file tree", "FILE tree, close", "FILE tree, no close", "stream tree", "stream tree, try_parse"};
    uint32_t kind = mc_choose(6, "tree"); ctx = kinds[kind];
    in.n = 0; ipos = 0; ufile = NULL; fbuf = NULL; sinkcalls_after_error = 0; ntref = 0; t_try = kind == 5;
    if (FA == 10 && kind == 0) mc_done();
    if (kind >= 4 && FA != 9) { cb_at = (int)mc_choose(FA == 10 ? 10 : 5, "failing read"); static const mpack_error_t fe[] = {mpack_error_type, mpack_error_io, mpack_error_data}; cb_err = fe[cb_at ? mc_choose(3, "how") : 0]; }
    const char* p = (const char*)payload();
    uint32_t bad = 0;
    for (int m = 0; m < 2; ++m) {
        uint32_t d = mc_choose(FA == 11 ? 7 : 4, "message");
        switch (d) {
            case 0: for (int i = 0; i < 30; ++i) rb_u8(&in, 0x92); rb_u8(&in, 1); for (int i = 0; i < 30; ++i) rb_u8(&in, (unsigned)i); break;
            case 1: ref_array_hdr(&in, 40); for (int i = 0; i < 40; ++i) rb_u8(&in, (unsigned)i); break;
            case 2: ref_map_hdr(&in, 2); rb_mem(&in, "\xa1s", 2); ref_str_hdr(&in, 90, 0); rb_mem(&in, p, 90); rb_mem(&in, "\xa1""b\xc4\x03xyz", 7); break;
            case 3: for (int i = 0; i < 12; ++i) { rb_u8(&in, 0x93); rb_u8(&in, 0x90); rb_mem(&in, "\xa2ok", 3); } rb_u8(&in, 0xc0); break;
            case 4: rb_mem(&in, "\x92\x01\xc1", 3); bad = 1; break;
            case 5: ref_array_hdr(&in, 50); for (int i = 0; i < 20; ++i) rb_u8(&in, 0x91); bad = 2; break;
            case 6: for (int i = 0; i < 30; ++i) rb_u8(&in, 0x91); bad = 3; break;
        }
        if (bad) break;
        size_t off = m ? tref[0].end : 0; bool x; size_t nd = 0; memset(&tref[m], 0, sizeof tref[m]);
        ref_parse(in.p, in.n, &off, &tref[m], &x, &nd); ntref = m + 1;
    }
    uint32_t use = mc_choose(FA == 11 ? 10 : 5, "use");
    env_file_buf = kind >= 1 && kind <= 3 && FA != 9 ? (mc_choose(2, "stdio buffering") ? -1 : 0) : 0;
    env_fault_budget = F_BUDGET + (mc_tier ? 1 : 0); env_alloc_faults_on = FA != 10; env_io_faults_on = FA != 9;
    volatile int jumped = setjmp(jb);
    if (!jumped) {
        if (kind >= 1 && kind <= 3) { env_file* f = env_file_make("in", in.p, in.n, true); f->max_read_chunk = 19; }
        switch (kind) {
            case 0: fbuf = (char*)malloc(in.n + 1); memcpy(fbuf, in.p, in.n); mpack_tree_init_data(&t, fbuf, in.n); break;
            case 1: mpack_tree_init_filename(&t, "in", 0); break;
            case 2: ufile = env_fopen("in", "rb"); mpack_tree_init_stdfile(&t, ufile, 0, true); break;
            case 3: ufile = env_fopen("in", "rb"); mpack_tree_init_stdfile(&t, ufile, 1000, false); break;
            default: mpack_tree_init_stream(&t, t_read, NULL, 1000, 1000); break;
        }
        mpack_error_t ie = mpack_tree_error(&t);
        if (ie != mpack_ok) CK(env_faults_injected, "initialisation failed with %s without a fault", ES(ie));
        if (hmode != H_NONE) mpack_tree_set_error_handler(&t, t_err);
        if (ie != mpack_ok) hmode = H_NONE;
        for (int m = 0; m < ntref + (bad ? 1 : 0); ++m) {
            op("parse");
            if (kind == 5) { int spins = 0; while (!mpack_tree_try_parse(&t) && OKT) { CK(++spins < 1000 && (ipos < in.n || bad), "no progress"); if (ipos == in.n) { user_error = true; user_err = mpack_error_io; mpack_tree_flag_error(&t, mpack_error_io); break; } } }
            else mpack_tree_parse(&t);
            if (!OKT) { CK(mpack_tree_size(&t) == 0, "size after an error"); t_use(m); break; }
            CK(m < ntref, "an invalid message was parsed");
            t_use(m);
        }
        if (OKT && ntref == 2) {
            mpack_node_t root = mpack_tree_root(&t), str = root; char* q;
            if (mpack_node_type(root) == mpack_type_map) str = mpack_node_map_cstr(root, "s");
            else if (mpack_node_type(root) == mpack_type_array && mpack_node_array_length(root) == 3) str = mpack_node_array_at(root, 1);
            bool isstr = mpack_node_type(str) == mpack_type_str; size_t n = isstr ? mpack_node_strlen(str) : 0;
            switch (use) {
                case 0: break;
                case 1: if (isstr) { op("data_alloc"); const char* src = mpack_node_data(str); q = mpack_node_data_alloc(str, 100); if (OKT) CK(q && !memcmp(q, src, n), "data"); else CK(!q, "failed, not NULL"); vf_free(q); } break;
                case 2: if (isstr) { op("cstr_alloc"); const char* src = mpack_node_data(str); q = mpack_node_cstr_alloc(str, 100); if (OKT) CK(q && !memcmp(q, src, n) && q[n] == 0, "string"); else CK(!q, "failed, not NULL"); vf_free(q); } break;
                case 3: if (isstr) { op("utf8_cstr_alloc"); const char* src = mpack_node_data(str); q = mpack_node_utf8_cstr_alloc(str, 100); if (OKT) CK(q && !memcmp(q, src, n) && q[n] == 0, "string"); else CK(!q, "failed, not NULL"); vf_free(q); } break;
                case 4: op("walk twice"); t_use(1); t_use(1); break;
                /* errors */
                case 5: op("u8 of array/map"); user_error = true; user_err = mpack_error_type; CK(mpack_node_u8(root) == 0, "not zero"); break;
                case 6: op("out of bounds"); user_error = true; user_err = mpack_node_type(root) == mpack_type_array ? mpack_error_data : mpack_error_type; { mpack_node_t x = mpack_node_array_at(root, 5000); CK(mpack_node_type(x) == mpack_type_nil, "not nil"); } break;
                case 7: op("missing key"); user_error = true; user_err = mpack_node_type(root) == mpack_type_map ? mpack_error_data : mpack_error_type; { mpack_node_t x = mpack_node_map_cstr(root, "none"); CK(mpack_node_type(x) == mpack_type_nil, "not nil"); } break;
                case 8: op("flag"); user_error = true; user_err = mpack_error_data; mpack_node_flag_error(root, mpack_error_data); break;
                case 9: if (isstr) { op("alloc too big"); user_error = true; user_err = mpack_error_too_big; q = mpack_node_cstr_alloc(str, n); CK(!q, "too long a string accepted"); } break;
            }
        }
        mpack_error_t e0 = mpack_tree_error(&t);
        op("destroy");
        derr = mpack_tree_destroy(&t); destroyed = true;
        CK(derr == e0, "destroy says %s after %s", ES(derr), ES(e0));
    } else {
        CK(hmode >= H_JUMP, "unexpected jump");
        if (!destroyed) {
            CK(mpack_tree_error(&t) == herr, "after the jump the tree says %s, not %s", ES(mpack_tree_error(&t)), ES(herr));
            op("destroy-after-jump");
            derr = mpack_tree_destroy(&t); destroyed = true;
        }
        CK(derr == herr, "destroy says %s, the handler was told %s", ES(derr), ES(herr));
    }
    if (kind == 3) { CK(env_open_handles == 1, "the FILE was closed unasked"); fclose(ufile); }
    CK(env_open_handles == 0, "%d handles left open", env_open_handles);
    env_file* f = env_file_find("in");
    if (f) CK(f->opens == f->closes, "opened %d times, closed %d times", f->opens, f->closes);
    CK(sinkcalls_after_error == 0, "the source was called after an error");
    if (hmode != H_NONE) CK(hcalls == (derr != mpack_ok), "handler called %d times, error %s", hcalls, ES(derr));
    if (derr == mpack_ok) { CK(!user_error && !bad, "the error in the data was not reported"); CK(!cb_failed, "the failing callback was not reported"); }
    else {
        CK(env_faults_injected || user_error || cb_failed || bad, "error %s without any cause", ES(derr));
        if (FA == 9) CK(derr == mpack_error_memory, "an allocation failed, reported as %s", ES(derr));
        if (FA == 10 && !cb_failed) CK(derr == mpack_error_io, "I/O failed, reported as %s", ES(derr));
        if (cb_failed && !env_faults_injected && !user_error && !bad) { mpack_error_t want = cb_err == mpack_error_type ? mpack_error_io : cb_err; CK(derr == want, "the callback's failure %s is reported as %s", ES(want), ES(derr)); }
        if (user_error && !env_faults_injected && !cb_failed && !bad) CK(derr == user_err, "%s expected, not %s", ES(user_err), ES(derr));
    }
    for (int i = 0; i < ntref; ++i) ref_free(&tref[i]);
    free(fbuf);
    mc_outcome(mc_mix(mc_mix(kind + 100, derr), (uint64_t)hcalls * 8 + (uint64_t)jumped));
}

void mc_body(void) {
    mc_shard_depth = 6;
    prog[0] = 0; hcalls = 0; herr = mpack_ok; destroyed = false; cb_failed = user_error = false; cb_at = cb_n = 0; ctx = ""; env_file_buf = 0;
    uint32_t who = mc_choose(F_WHO, "object");
    hmode = FA == 11 ? H_JUMP + (int)mc_choose(2, "handler") : (int)mc_choose(2, "handler");
    if (who == 0) writer_case(); else if (who == 1) reader_case(); else tree_case();
    CK(env_live_blocks == 0, "%zu blocks (%zu bytes) leaked", env_live_blocks, env_live_bytes);
    mc_state(mc_hash(who, prog, strlen(prog)) + (uint64_t)env_faults_injected * 77 + (uint64_t)hmode);
}
