/* C03: the bytes written do not depend on buffer size, flushing or sink. */
#include "common.h"

static rbuf out;            /* what the flush function received */
static int flushes, fail_at, flush_after_error; static bool failed;
static mpack_error_t fail_with;
static void on_flush(mpack_writer_t* w, const char* b, size_t n) {
    if (mpack_writer_error(w) != mpack_ok) ++flush_after_error;
    if (failed) ++flush_after_error;
    if (++flushes == fail_at) { failed = true; mpack_writer_flag_error(w, fail_with); return; }
    rb_mem(&out, b, n);
}

/* the operation alphabet; expected bytes go to e, real calls to w (either may be NULL) */
enum { OP_NIL, OP_U8, OP_U32, OP_U64, OP_F64, OP_STR0, OP_STR5, OP_STR31, OP_STR40, OP_BIN7, OP_EXT16, OP_ARR, OP_STRP, OP_BINP, OP_RAW33, OP_TS, OP_FLUSH, OP_STR100, OP_RAW1, OP_EXT3, OP_BIN300, OP_BIN1100, OP_N, OP_SWEEP };
static const char* const opname[] = {"nil","u8 200","u32 70000","u64","double","str 0","str 5","str 31","str 40","bin 7","ext 16","array 2 {nil,true}","str 33 in pieces","bin 6 in pieces","raw 33","timestamp","flush","str 100","raw 1","ext 3","bin 300","bin 1100","","bin n"};
static uint32_t sweep;
static bool has_flush;
static void op(mpack_writer_t* w, rbuf* e, uint32_t o, uint32_t rawn) {
    const char* p = (const char*)payload();
    static char lit[64]; 
    switch (o) {
        case OP_NIL: if (e) ref_nil(e); else mpack_write_nil(w); break;
        case OP_U8: if (e) ref_uint(e, 200); else mpack_write_u8(w, 200); break;
        case OP_U32: if (e) ref_uint(e, 70000); else mpack_write_int(w, 70000); break;
        case OP_U64: if (e) ref_uint(e, 0x0102030405060708ull); else mpack_write_u64(w, 0x0102030405060708ull); break;
        case OP_F64: if (e) ref_f64(e, 0x3ff8000000000001ull); else mpack_write_double(w, d_of(0x3ff8000000000001ull)); break;
        case OP_STR0: if (e) { ref_str_hdr(e, 0, 0); } else mpack_write_str(w, p, 0); break;
        case OP_STR5: if (e) { ref_str_hdr(e, 5, 0); rb_mem(e, p, 5); } else mpack_write_str(w, p, 5); break;
        case OP_STR31: if (e) { ref_str_hdr(e, 31, 0); rb_mem(e, p + 3, 31); } else mpack_write_utf8(w, p + 3, 31); break;
        case OP_STR40: if (e) { ref_str_hdr(e, 40, 0); rb_mem(e, p + 9, 40); } else mpack_write_str(w, p + 9, 40); break;
        case OP_STR100: if (e) { ref_str_hdr(e, 100, 0); rb_mem(e, p + 9, 100); } else mpack_write_str(w, p + 9, 100); break;
        case OP_BIN7: if (e) { ref_bin_hdr(e, 7, 0); rb_mem(e, (const char*)wild() + 1, 7); } else mpack_write_bin(w, (const char*)wild() + 1, 7); break;
        case OP_EXT16: if (e) { ref_ext_hdr(e, 5, 16); rb_mem(e, (const char*)wild(), 16); } else mpack_write_ext(w, 5, (const char*)wild(), 16); break;
        case OP_EXT3: if (e) { ref_ext_hdr(e, -9, 3); rb_mem(e, (const char*)wild(), 3); } else mpack_write_ext(w, -9, (const char*)wild(), 3); break;
        case OP_ARR: if (e) { ref_array_hdr(e, 2); ref_nil(e); ref_bool(e, 1); } else { mpack_start_array(w, 2); mpack_write_nil(w); mpack_write_true(w); mpack_finish_array(w); } break;
        case OP_STRP: if (e) { ref_str_hdr(e, 33, 0); rb_mem(e, p, 33); }
            else { mpack_start_str(w, 33); mpack_write_bytes(w, p, 1); mpack_write_bytes(w, p + 1, 0); mpack_write_bytes(w, p + 1, 31); mpack_write_bytes(w, p + 32, 1); mpack_finish_str(w); } break;
        case OP_BINP: if (e) { ref_bin_hdr(e, 6, 0); rb_mem(e, (const char*)wild(), 6); }
            else { mpack_start_bin(w, 6); mpack_write_bytes(w, (const char*)wild(), 5); mpack_write_bytes(w, (const char*)wild() + 5, 1); mpack_finish_bin(w); } break;
        case OP_RAW33: if (e) { ref_str_hdr(e, 32, 0); rb_mem(e, p, 31); }
            else { rbuf t; rb_init(&t); ref_str_hdr(&t, 32, 0); rb_mem(&t, p, 31); mpack_write_object_bytes(w, (char*)t.p, t.n); rb_free(&t); } break;
        case OP_RAW1: /* a raw object of chosen size: a fill-level selector */
            lit[0] = (char)0xc0;
            if (e) { if (rawn == 1) ref_nil(e); else { rb_u8(e, 0xc4); rb_u8(e, rawn - 2); rb_mem(e, wild(), rawn - 2); } }
            else if (rawn == 1) mpack_write_object_bytes(w, lit, 1);
            else { lit[0] = (char)0xc4; lit[1] = (char)(rawn - 2); memcpy(lit + 2, wild(), rawn - 2); mpack_write_object_bytes(w, lit, rawn); }
            break;
        case OP_BIN300: if (e) { ref_bin_hdr(e, 300, 0); rb_mem(e, (const char*)wild(), 300); } else mpack_write_bin(w, (const char*)wild(), 300); break;
        case OP_BIN1100: if (e) { ref_bin_hdr(e, 1100, 0); rb_mem(e, (const char*)wild() + 5, 1100); } else mpack_write_bin(w, (const char*)wild() + 5, 1100); break;
        case OP_SWEEP: if (e) { ref_bin_hdr(e, sweep, 0); rb_mem(e, (const char*)wild() + 2, sweep); } else mpack_write_bin(w, (const char*)wild() + 2, sweep); break;
        case OP_TS: if (e) ref_timestamp(e, -5, 7); else mpack_write_timestamp(w, -5, 7); break;
        case OP_FLUSH: if (!e && has_flush) mpack_writer_flush_message(w); break;
    }
    mc_step(1);
}

#define NSEQ 4
static uint32_t seq[NSEQ + 1]; static int nseq; static uint32_t raw0;
static void run_ops(mpack_writer_t* w, rbuf* e) {
    if (raw0) op(w, e, OP_RAW1, raw0);
    for (int i = 0; i < nseq; ++i) op(w, e, seq[i], 1);
}
static const char* seqtext(void) {
    static char b[300]; int k = raw0 ? snprintf(b, sizeof b, "raw %u; ", raw0) : 0; b[k] = 0;
    for (int i = 0; i < nseq; ++i) k += snprintf(b + k, sizeof b - (size_t)k, "%s; ", opname[seq[i]]);
    return b;
}

static rbuf want;
static void prefix_of(const uint8_t* p, size_t n, const char* what) {
    MC_CHECK(n <= want.n && (n == 0 || !memcmp(p, want.p, n)), "%s: %s: handed over %zu bytes [%s] that are no prefix of the message [%s]", seqtext(), what, n, hexs(p, n), hexs(want.p, want.n));
}

void mc_body(void) {
    mc_shard_depth = 4;
    enum { S_FLUSH, S_FLUSHFAIL, S_GROW, S_FILE, S_STDFILE, S_FIXED, S_N };
    uint32_t sink = mc_choose(S_N, "sink");
    static const uint32_t sizes[] = {32, 33, 40, 64, 35, 48};
    uint32_t bs = 64;
    if (sink <= S_FLUSHFAIL) bs = sizes[mc_choose(mc_tier ? 6 : 4, "buffer size")];
    else if (sink != S_FIXED) bs = MPACK_BUFFER_SIZE;
    /* fill level before the sequence: 0..buffer size + 1 */
    raw0 = mc_choose((bs < 60 ? bs : 60) + 2, "fill level");
    nseq = mc_tier ? 3 : 2; bool big = false;
    if (sink != S_FLUSHFAIL && sink != S_FIXED && mc_choose(2, "program")) { /* one write of every length */
        nseq = 3; seq[0] = OP_SWEEP; seq[1] = OP_U32; seq[2] = OP_SWEEP; sweep = mc_choose(mc_tier ? 2000 : 600, "length");
    } else
    for (int i = 0; i < nseq; ++i) { seq[i] = mc_choose(OP_N, "op"); big |= seq[i] >= OP_BIN300; }
    has_flush = sink != S_FIXED;
    want.n = 0;
    run_ops(NULL, &want);
    mc_state(mc_hash(sink * 1000 + bs, want.p, want.n));
    out.n = 0; flushes = flush_after_error = fail_at = 0; failed = false;
    mpack_writer_t w;
    char* gdata = NULL; size_t gsize = 12345;
    mpack_error_t e;
    switch (sink) {
        case S_FLUSH: case S_FLUSHFAIL: {
            char* buf = (char*)malloc(bs);
            if (sink == S_FLUSHFAIL) {
                fail_at = (int)mc_choose(4, "flush that fails") + 1;
                fail_with = mpack_error_io;
            }
            mpack_writer_init(&w, buf, bs);
            mpack_writer_set_flush(&w, on_flush);
            MC_CHECK(mpack_writer_error(&w) == mpack_ok, "set_flush with %u bytes flagged", bs);
            run_ops(&w, NULL);
            if (!failed) {
                MC_CHECK(mpack_writer_error(&w) == mpack_ok, "%s flagged %s", seqtext(), ES(mpack_writer_error(&w)));
                size_t used = mpack_writer_buffer_used(&w);
                MC_CHECK(out.n + used == want.n, "%s: %zu flushed + %zu buffered, message has %zu", seqtext(), out.n, used, want.n);
                prefix_of(out.p, out.n, "before destroy");
                MC_CHECK(!used || !memcmp(buf, want.p + out.n, used), "%s: buffered bytes differ", seqtext());
            }
            e = mpack_writer_destroy(&w);
            free(buf);
            MC_CHECK(!flush_after_error, "%s: flush called after an error", seqtext());
            if (!failed) {
                MC_CHECK(e == mpack_ok, "%s: destroy says %s", seqtext(), ES(e));
                MC_CHECK(out.n == want.n && (!out.n || !memcmp(out.p, want.p, out.n)), "%s: flushed [%s], expected [%s]", seqtext(), hexs(out.p, out.n), hexs(want.p, want.n));
            } else {
                MC_CHECK(e == mpack_error_io, "%s: failing flush, destroy says %s", seqtext(), ES(e));
                prefix_of(out.p, out.n, "after a failing flush");
            }
            break; }
        case S_GROW:
            mpack_writer_init_growable(&w, &gdata, &gsize);
            run_ops(&w, NULL);
            MC_CHECK(gdata == NULL, "data handed out before destroy");
            e = mpack_writer_destroy(&w);
            MC_CHECK(e == mpack_ok && gdata, "%s: growable: %s", seqtext(), ES(e));
            MC_CHECK(gsize == want.n && !memcmp(gdata, want.p, gsize), "%s: growable gave [%s], expected [%s]", seqtext(), hexs(gdata, gsize), hexs(want.p, want.n));
            vf_free(gdata);
            MC_CHECK(env_live_blocks == 0, "%s: growable writer leaked", seqtext());
            break;
        case S_FILE: case S_STDFILE: {
            FILE* f = NULL;
            if (sink == S_FILE) mpack_writer_init_filename(&w, "out");
            else { f = env_fopen("out", "wb"); mpack_writer_init_stdfile(&w, f, raw0 & 1); }
            run_ops(&w, NULL);
            e = mpack_writer_destroy(&w);
            MC_CHECK(e == mpack_ok, "%s: file: %s", seqtext(), ES(e));
            if (f && !(raw0 & 1)) { MC_CHECK(env_open_handles == 1, "handle closed unasked"); fclose(f); }
            MC_CHECK(env_open_handles == 0 && env_live_blocks == 0, "%s: %d handles, %zu blocks left", seqtext(), env_open_handles, env_live_blocks);
            env_file* o = env_file_find("out");
            MC_CHECK(o->size == want.n && !memcmp(o->data, want.p, want.n), "%s: file has [%s], expected [%s]", seqtext(), hexs(o->data, o->size), hexs(want.p, want.n));
            break; }
        case S_FIXED: {
            /* every buffer size from 0 to one more than needed */
            for (size_t n = 0; n <= want.n + 1; ++n) {
                if (big && n == 90 && want.n > 150) n = want.n - 50;
                char* buf = (char*)malloc(n + 8); memset(buf, 0x5a, n + 8);
                mc_note(0, n);
                mpack_writer_init(&w, buf, n);
                run_ops(&w, NULL);
                mpack_error_t e1 = mpack_writer_error(&w);
                size_t used = mpack_writer_buffer_used(&w);
                for (int k = 0; k < 8; ++k) MC_CHECK((uint8_t)buf[n + (size_t)k] == 0x5a, "%s: wrote outside a %zu byte buffer", seqtext(), n);
                if (n >= want.n) {
                    MC_CHECK(e1 == mpack_ok && used == want.n && !memcmp(buf, want.p, used), "%s: %zu byte buffer: %s, %zu used", seqtext(), n, ES(e1), used);
                } else MC_CHECK(e1 == mpack_error_too_big, "%s: %zu byte buffer for %zu bytes: %s", seqtext(), n, want.n, ES(e1));
                e = mpack_writer_destroy(&w);
                MC_CHECK(e == e1, "%s: destroy says %s after %s", seqtext(), ES(e), ES(e1));
                free(buf);
            }
            break; }
    }
    mc_outcome(mc_hash(mc_hash(sink, want.p, want.n), &flushes, sizeof flushes));
}
