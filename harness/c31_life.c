/* C31: callbacks and contexts. Every object kind, every short program, every failing callback, every handler
 * mode: the teardown function runs exactly once, as the last callback, when the object is destroyed (not when
 * the handler jumps out of destroying it, but then the next time); the error handler at most once and never
 * after it; every callback sees its own object, the current context and (sources and sinks) no error. */
#include "common.h"
#include "ref.h"
#ifndef K_OPS
#define K_OPS 3
#endif
static mpack_writer_t W; static mpack_reader_t R; static mpack_tree_t T;
static int kind;            /* 0 writer, 1 reader, 2 tree */
static int ctx_a, ctx_b; static void* ctx;
static int handlers, teardowns, ios, destroying, hmode, tmode, fail_at, fail_how; static mpack_error_t herr;
static jmp_buf jb; static char prog[300];
#define CK(c, fmt, ...) do { if (!(c)) mc_fail("%s: " fmt, prog, ##__VA_ARGS__); } while (0)
static void say(const char* s) { size_t l = strlen(prog); if (l + strlen(s) + 2 < sizeof prog) { strcat(prog, s); strcat(prog, " "); } mc_log("%s", s); mc_step(1); }
static const mpack_error_t ERRS[] = {mpack_error_io, mpack_error_invalid, mpack_error_unsupported, mpack_error_type, mpack_error_too_big, mpack_error_memory, mpack_error_bug, mpack_error_data, mpack_error_eof};
static mpack_error_t err(void) { return kind == 0 ? mpack_writer_error(&W) : kind == 1 ? mpack_reader_error(&R) : mpack_tree_error(&T); }
static void* context(void) { return kind == 0 ? mpack_writer_context(&W) : kind == 1 ? mpack_reader_context(&R) : mpack_tree_context(&T); }
static void flag(mpack_error_t e) { if (kind == 0) mpack_writer_flag_error(&W, e); else if (kind == 1) mpack_reader_flag_error(&R, e); else mpack_tree_flag_error(&T, e); }
static void on_error(mpack_error_t e) {
    CK(++handlers == 1, "the handler is called a second time");
    CK(teardowns == 0 || tmode == 2, "the handler is called after the teardown");
    CK(e != mpack_ok && err() == e, "the handler gets %s, the error is %s", ES(e), ES(err()));
    CK(context() == ctx, "the handler sees another context");
    herr = e;
    if (hmode == 2) longjmp(jb, 1);
}
static void on_teardown(void) {
    CK(destroying, "teardown before destroy");
    CK(++teardowns == 1, "the teardown is called a second time");
    CK(context() == ctx, "the teardown sees another context");
    CK(err() == herr || hmode == 0, "the teardown sees the error %s, the handler %s", ES(err()), ES(herr));
    if (tmode == 2) flag(mpack_error_io);
}
static bool on_io(const char* what) {
    CK(teardowns == 0, "%s after the teardown", what);
    CK(err() == mpack_ok, "%s in an error state", what);
    CK(context() == ctx, "%s sees another context", what);
    if (++ios != fail_at) return true;
    say("(fails)");
    if (fail_how < 9) flag(ERRS[fail_how]);      /* 9: gives nothing; 10: claims too much */
    return false;
}
static void w_err(mpack_writer_t* w, mpack_error_t e) { CK(kind == 0 && w == &W, "wrong object"); on_error(e); }
static void r_err(mpack_reader_t* r, mpack_error_t e) { CK(kind == 1 && r == &R, "wrong object"); on_error(e); }
static void t_err(mpack_tree_t* t, mpack_error_t e) { CK(kind == 2 && t == &T, "wrong object"); on_error(e); }
static void w_td(mpack_writer_t* w) { CK(kind == 0 && w == &W, "wrong object"); on_teardown(); }
static void r_td(mpack_reader_t* r) { CK(kind == 1 && r == &R, "wrong object"); on_teardown(); }
static void t_td(mpack_tree_t* t) { CK(kind == 2 && t == &T, "wrong object"); on_teardown(); }
static rbuf sink, want, in; static size_t ipos;
static void w_flush(mpack_writer_t* w, const char* b, size_t n) { CK(w == &W, "wrong object"); if (on_io("flush")) rb_mem(&sink, b, n); }
static size_t give(char* b, size_t n) { size_t k = in.n - ipos; if (k > n) k = n; if (k > 9) k = 9; memcpy(b, in.p + ipos, k); ipos += k; return k; }
static size_t r_fill(mpack_reader_t* r, char* b, size_t n) { CK(r == &R, "wrong object"); CK(n > 0, "fill of no bytes"); return on_io("fill") ? give(b, n) : fail_how == 10 ? 1000000 : 0; }
static void r_skip(mpack_reader_t* r, size_t n) { CK(r == &R, "wrong object"); if (!on_io("skip")) { if (fail_how >= 9) flag(mpack_error_eof); return; } if (n > in.n - ipos) flag(mpack_error_eof); else ipos += n; }
static size_t t_read(mpack_tree_t* t, char* b, size_t n) { CK(t == &T, "wrong object"); CK(n > 0, "read of no bytes"); return on_io("read") ? give(b, n) : fail_how == 10 ? 1000000 : 0; }

static void set_ctx(void* c) { ctx = c; if (kind == 0) mpack_writer_set_context(&W, c); else if (kind == 1) mpack_reader_set_context(&R, c); else mpack_tree_set_context(&T, c); }
static void attach(void) {
    if (hmode) { if (kind == 0) mpack_writer_set_error_handler(&W, w_err); else if (kind == 1) mpack_reader_set_error_handler(&R, r_err); else mpack_tree_set_error_handler(&T, t_err); }
    if (tmode) { if (kind == 0) mpack_writer_set_teardown(&W, w_td); else if (kind == 1) mpack_reader_set_teardown(&R, r_td); else mpack_tree_set_teardown(&T, t_td); }
}
static mpack_error_t destroy(void) { return kind == 0 ? mpack_writer_destroy(&W) : kind == 1 ? mpack_reader_destroy(&R) : mpack_tree_destroy(&T); }

static const char* const wn[] = {"u8", "str20", "str100", "flush", "flag-type", "build", "complete", "bad-utf8", "other-context"};
static const char* const rn[] = {"tag", "discard", "expect-u8", "inplace-40", "skip-50", "flag-type", "expect-str", "other-context"};
static const char* const tn[] = {"parse", "try-parse", "node-u8", "lookup", "root-error", "flag-type", "index", "other-context"};
static bool can_flush; static int open_builds;
static void w_op(uint32_t o) {
    const char* p = (const char*)payload(); say(wn[o]);
    switch (o) {
        case 0: mpack_write_u8(&W, 7); if (!open_builds) ref_uint(&want, 7); break;
        case 1: mpack_write_str(&W, p, 20); if (!open_builds) { ref_str_hdr(&want, 20, 0); rb_mem(&want, p, 20); } break;
        case 2: mpack_write_bin(&W, p, 100); if (!open_builds) { ref_bin_hdr(&want, 100, 0); rb_mem(&want, p, 100); } break;
        case 3: if (can_flush && !open_builds) { mpack_writer_flush_message(&W); if (err() == mpack_ok) CK(sink.n == want.n && mpack_writer_buffer_used(&W) == 0, "%zu of %zu bytes flushed", sink.n, want.n); } break;
        case 4: flag(mpack_error_type); break;
        case 5: if (!open_builds) { ++open_builds; mpack_build_array(&W); } break;
        case 6: if (open_builds) { --open_builds; mpack_complete_array(&W); sink.n = want.n = 0; /* contents are compared elsewhere */ can_flush = false; } break;
        case 7: mpack_write_utf8(&W, "\xc0\x80", 2); break;
        case 8: set_ctx(&ctx_b); break;
    }
}
static void r_op(uint32_t o) {
    say(rn[o]); char b[30];
    switch (o) {
        case 0: { mpack_tag_t t = mpack_read_tag(&R); mpack_type_t y = mpack_tag_type(&t);
            if (y == mpack_type_str || y == mpack_type_bin) { mpack_skip_bytes(&R, mpack_tag_bytes(&t)); if (y == mpack_type_str) mpack_done_str(&R); else mpack_done_bin(&R); }
            else if (y == mpack_type_array) { for (uint32_t i = 0; i < t.v.n && err() == mpack_ok; ++i) mpack_discard(&R); mpack_done_array(&R); } } break;
        case 1: mpack_discard(&R); break;
        case 2: mpack_expect_u8(&R); break;
        case 3: { uint32_t n = mpack_expect_bin(&R); if (n) { mpack_read_bytes_inplace(&R, n); mpack_done_bin(&R); } } break;
        case 4: { uint32_t n = mpack_expect_bin(&R); mpack_skip_bytes(&R, n / 2); mpack_skip_bytes(&R, n - n / 2); mpack_done_bin(&R); } break;
        case 5: flag(mpack_error_type); break;
        case 6: mpack_expect_str_buf(&R, b, sizeof b); break;
        case 7: set_ctx(&ctx_b); break;
    }
}
static void t_op(uint32_t o) {
    say(tn[o]); mpack_node_t n = mpack_tree_root(&T);
    switch (o) {
        case 0: mpack_tree_parse(&T); break;
        case 1: mpack_tree_try_parse(&T); break;
        case 2: mpack_node_u8(n); break;
        case 3: mpack_node_map_int(n, 99); break;
        case 4: mpack_node_flag_error(n, mpack_error_data); break;
        case 5: flag(mpack_error_type); break;
        case 6: mpack_node_array_at(n, 1); break;
        case 7: set_ctx(&ctx_b); break;
    }
}
static char buf[400]; static mpack_node_data_t nodes[20];
static void reuse(void) {   /* the storage of a destroyed object can be used for another one */
    int h = handlers, td = teardowns, io = ios;
    if (kind == 0) {
        mpack_writer_init(&W, buf, sizeof buf); mpack_write_u8(&W, 200); mpack_write_cstr(&W, "abc");
        CK(mpack_writer_buffer_used(&W) == 6 && !memcmp(buf, "\xcc\xc8\xa3""abc", 6), "reused writer: wrong bytes");
        CK(mpack_writer_destroy(&W) == mpack_ok, "reused writer: error");
    } else if (kind == 1) {
        mpack_reader_init_data(&R, "\xcc\xc8\xc0", 3); CK(mpack_expect_u8(&R) == 200, "reused reader: wrong value"); mpack_expect_nil(&R);
        CK(mpack_reader_destroy(&R) == mpack_ok, "reused reader: error");
    } else {
        mpack_tree_init_data(&T, "\xcc\xc8\xc0", 3); mpack_tree_parse(&T); CK(mpack_node_u8(mpack_tree_root(&T)) == 200 && mpack_tree_size(&T) == 2, "reused tree: wrong value");
        CK(mpack_tree_destroy(&T) == mpack_ok, "reused tree: error");
    }
    CK(context() == NULL, "a new object has a context");
    CK(h == handlers && td == teardowns && io == ios, "callbacks of the old object called for the new one");
}
static void finish(volatile mpack_error_t* e) {
    say("destroy"); destroying = 1;
    mpack_error_t before = err();
    *e = destroy();
    if (before != mpack_ok) CK(*e == before || hmode == 2, "destroy says %s after %s", ES(*e), ES(before));
}
void mc_body(void) {
    mc_shard_depth = 4;
    prog[0] = 0; handlers = teardowns = ios = destroying = 0; herr = mpack_ok; sink.n = want.n = 0; ipos = 0; open_builds = 0;
    kind = (int)mc_choose(3, "object");
    uint32_t how = mc_choose(4, "program / error object / buffer sizes / stack");
    if (how == 3 && kind == 2) mc_done();
    hmode = (int)mc_choose(3, "handler"); tmode = (int)mc_choose(hmode == 2 ? 2 : 3, "teardown");
    fail_at = 0; fail_how = 0; ctx = NULL;
    volatile mpack_error_t fin = mpack_ok;
    if (how == 1) {
        mpack_error_t e = ERRS[mc_choose(9, "error")];
        say("init-error");
        if (kind == 0) mpack_writer_init_error(&W, e); else if (kind == 1) mpack_reader_init_error(&R, e); else mpack_tree_init_error(&T, e);
        CK(context() == NULL, "context");
        attach(); set_ctx(&ctx_a); herr = e;
        CK(err() == e, "error is %s instead of %s", ES(err()), ES(e));
        for (int i = 0; i < 2; ++i) { uint32_t c = mc_choose(kind == 0 ? 9 : 8, "op"); can_flush = false; if (kind == 0) w_op(c); else if (kind == 1) r_op(c); else t_op(c); }
        finish(&fin); CK(fin == e, "destroy says %s instead of %s", ES(fin), ES(e));
        CK(handlers == 0, "the handler is called for an object that began in error");
    } else if (how == 2) {
        /* the smallest buffers flush and fill functions accept */
        uint32_t sz = mc_choose(70, "size");
        if (kind == 2) {
            bool pool = mc_choose(2, "pool"); set_ctx(&ctx_a); attach();
            in.n = 0; ref_array_hdr(&in, 3); ref_nil(&in); ref_nil(&in); ref_uint(&in, 700);
            if (pool) { mpack_tree_init_pool(&T, (const char*)in.p, in.n, nodes, 1 + sz % 20); } else mpack_tree_init_data(&T, (const char*)in.p, in.n);
            set_ctx(&ctx_a); attach();
            if (pool && setjmp(jb)) { CK(sz % 20 < 3, "jump"); } else mpack_tree_parse(&T);
            CK((err() == mpack_ok) == (!pool || sz % 20 >= 3), "a pool of %u nodes for 4: %s", 1 + sz % 20, ES(err()));
            finish(&fin);
        } else if (kind == 0) {
            mpack_writer_init(&W, buf, sz); attach(); set_ctx(&ctx_a);
            CK(mpack_writer_buffer_size(&W) == sz && mpack_writer_buffer_left(&W) == sz && mpack_writer_buffer_used(&W) == 0, "buffer of %u bytes", sz);
            if (!setjmp(jb)) mpack_writer_set_flush(&W, w_flush);
            CK(err() == (sz < MPACK_WRITER_MINIMUM_BUFFER_SIZE ? mpack_error_bug : mpack_ok), "a flush function with a buffer of %u bytes: %s", sz, ES(err()));
            finish(&fin);
        } else {
            uint32_t cnt = mc_choose(3, "bytes there"); if (cnt > sz) cnt = sz; memset(buf, 0xc0, sizeof buf);
            mpack_reader_init(&R, buf, sz, cnt); attach(); set_ctx(&ctx_a);
            if (!setjmp(jb)) mpack_reader_set_fill(&R, r_fill);
            CK(err() == (sz < MPACK_READER_MINIMUM_BUFFER_SIZE ? mpack_error_bug : mpack_ok), "a fill function with a buffer of %u bytes: %s", sz, ES(err()));
            if (err() == mpack_ok) { const char* q; CK(mpack_reader_remaining(&R, &q) == cnt && q == buf, "remaining"); for (uint32_t i = 0; i < cnt; ++i) mpack_expect_nil(&R); CK(ios == 0, "filled although the data was there"); }
            finish(&fin);
        }
    } else if (how == 3) {
        if (kind == 0) {
            mpack_writer_init_stack(&W); attach(); set_ctx(&ctx_a);
            CK(mpack_writer_buffer_size(&W) == MPACK_STACK_SIZE, "stack buffer of %zu bytes", mpack_writer_buffer_size(&W));
            uint32_t n = MPACK_STACK_SIZE - 4 + mc_choose(8, "bytes"); static char big[MPACK_STACK_SIZE + 10];
            if (!setjmp(jb)) mpack_write_object_bytes(&W, (memset(big, 0xc0, sizeof big), big), n);
            CK(err() == (n > MPACK_STACK_SIZE ? mpack_error_too_big : mpack_ok), "%u bytes in a stack buffer: %s", n, ES(err()));
            finish(&fin);
        } else {
            mpack_reader_init_stack(&R); attach(); set_ctx(&ctx_a); mpack_reader_set_fill(&R, r_fill);
            in.n = 0; uint32_t n = MPACK_STACK_SIZE - 4 + mc_choose(8, "bytes"); ref_bin_hdr(&in, n, 0); rb_mem(&in, payload(), n);
            if (!setjmp(jb)) { uint32_t l = mpack_expect_bin(&R); CK(l == n, "length"); const char* p = mpack_read_bytes_inplace(&R, n); if (p) CK(!memcmp(p, payload(), n), "bytes"); mpack_done_bin(&R); }
            CK(err() == (n > MPACK_STACK_SIZE ? mpack_error_too_big : mpack_ok), "%u bytes in place in a stack buffer: %s", n, ES(err()));
            finish(&fin);
        }
    } else {
        uint32_t src = mc_choose(kind == 0 ? 4 : 3, "sink or source");
        if (kind == 0 ? src < 3 : kind == 1 ? src > 0 : src == 2) { fail_at = (int)mc_choose(6, "failing callback"); fail_how = fail_at ? (int)mc_choose(kind == 0 ? 9 : 11, "how") : 0; }
        static const size_t cap[] = {32, 47, 120, 130};
        in.n = 0;
        if (kind == 1) { ref_uint(&in, 5); ref_bin_hdr(&in, 40, 0); rb_mem(&in, payload(), 40); ref_array_hdr(&in, 2); ref_nil(&in); ref_bin_hdr(&in, 70, 0); rb_mem(&in, payload(), 70); ref_str_hdr(&in, 20, 0); rb_mem(&in, "abcdefghijklmnopqrstuvwxyz", 20); }
        if (kind == 2) for (int k = 0; k < 2; ++k) { ref_array_hdr(&in, 3); ref_nil(&in); ref_uint(&in, 700); ref_str_hdr(&in, 20, 0); rb_mem(&in, payload(), 20); }
        if (kind == 0) { mpack_writer_init(&W, buf, cap[src]); if (src < 3) mpack_writer_set_flush(&W, w_flush); can_flush = src < 3; }
        else if (kind == 1) { if (src == 0) mpack_reader_init_data(&R, (const char*)in.p, in.n); else { mpack_reader_init(&R, buf, 45, 0); mpack_reader_set_fill(&R, r_fill); if (src == 2) mpack_reader_set_skip(&R, r_skip); } }
        else if (src == 0) mpack_tree_init_data(&T, (const char*)in.p, in.n); else if (src == 1) mpack_tree_init_pool(&T, (const char*)in.p, in.n, nodes, 20); else { ctx = &ctx_b; mpack_tree_init_stream(&T, t_read, &ctx_b, 1000, 100); CK(context() == &ctx_b, "the stream's context"); }
        attach(); set_ctx(&ctx_a);
        CK(context() == &ctx_a, "context not set");
        volatile int j = 0; int nops = K_OPS + mc_tier - (fail_how > 1 && fail_how < 9);   /* which error it is matters little to long programs */
        if (!setjmp(jb)) {
            for (; j < nops; ++j) {
                uint32_t c = mc_choose(kind == 0 ? 9 : 8, "op");
                if (kind == 0) w_op(c); else if (kind == 1) r_op(c); else t_op(c);
                if (err() == mpack_ok) CK(handlers == 0, "handler without an error"); else if (hmode) CK(handlers == 1 && herr == err(), "error %s, handler called %d times with %s", ES(err()), handlers, ES(herr));
                CK(hmode != 2 || err() == mpack_ok, "the handler did not jump");
            }
            if (open_builds) { mpack_complete_array(&W); --open_builds; sink.n = want.n = 0; can_flush = false; }
            finish(&fin);
        } else {
            say("(jumped)");
            CK(teardowns == 0, "teardown although the handler jumped out");
            CK(err() == herr, "after the jump the error is %s", ES(err()));
            finish(&fin);
            CK(fin == herr, "destroy after a jump says %s", ES(fin));
        }
        if (fin == mpack_ok && kind == 0 && can_flush) CK(sink.n == want.n && !memcmp(sink.p, want.p, want.n), "bytes lost");
    }
    CK(teardowns == (tmode ? 1 : 0), "%d teardown calls", teardowns);
    if (how != 1) CK(handlers == (hmode && fin != mpack_ok ? 1 : 0), "%d handler calls, final error %s", handlers, ES(fin));
    if (tmode == 2) CK(fin != mpack_ok, "the error flagged by the teardown is lost");
    if (handlers) CK(fin == herr, "destroy says %s, the handler was told %s", ES(fin), ES(herr));
    CK(env_live_blocks == 0, "%zu blocks leaked", env_live_blocks);
    mc_eval(1); if (fin != mpack_ok) mc_nontrivial(1);
    mc_state(mc_hash((uint64_t)(kind * 100 + (int)how * 10 + hmode), prog, strlen(prog)));
    mc_outcome(mc_mix(mc_mix((uint64_t)fin, (uint64_t)(handlers * 2 + teardowns)), (uint64_t)(kind * 16 + hmode * 4 + tmode) * 100 + (uint64_t)ios));
    handlers = teardowns = ios = 0; hmode = tmode = 0; fail_at = 0;
    reuse();
}
