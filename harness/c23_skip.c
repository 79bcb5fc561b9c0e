/* C23: discarding and skipping land exactly behind the object, for every source; on incomplete data they are
 * errors; the remaining-data query returns exactly the unread buffered bytes. */
#include "common.h"
#ifndef K_L1
#define K_L1 10
#endif
#ifndef K_NODES
#define K_NODES 4
#endif
static mpack_reader_t R; static rbuf msg; static size_t at, chunk, limit_n; static unsigned fills; static size_t bufsize; static char sb[5000]; static env_file* vf; static int src; static size_t objend;
static char hist[1000];
#define BAD(fmt, ...) mc_fail("message of %zu bytes %s, source %d (buffer %zu, pieces %zu), %s: " fmt, msg.n, hexs(msg.p, msg.n > 40 ? 40 : msg.n), src, bufsize, chunk, hist, ##__VA_ARGS__)
static size_t on_fill(mpack_reader_t* r, char* b, size_t n) { (void)r; if (++fills > 4 * limit_n + 100) BAD("the source is asked again and again"); size_t k = limit_n - at; if (k > n) k = n; if (k > chunk) k = chunk; memcpy(b, msg.p + at, k); at += k; return k; }
static void on_skip(mpack_reader_t* r, size_t n) { if (++fills > 4 * limit_n + 100) BAD("the source is asked again and again"); if (n > limit_n - at) { at = limit_n; mpack_reader_flag_error(r, mpack_error_io); return; } at += n; }
static char* exact;
enum { MEM, STREAM, SKIP, SEEKFILE, PIPE, NSRC };
static void open_src(int s, size_t cut) {
    src = s; at = 0; fills = 0; limit_n = cut; free(exact); exact = (char*)malloc(cut ? cut : 1); memcpy(exact, msg.p, cut);
    switch (s) {
        case MEM: mpack_reader_init_data(&R, exact, cut); break;
        case STREAM: case SKIP: mpack_reader_init(&R, sb, bufsize, 0); mpack_reader_set_fill(&R, on_fill); if (s == SKIP) mpack_reader_set_skip(&R, on_skip); break;
        default: env_reset(); vf = env_file_make("f", exact, cut, s == SEEKFILE); vf->max_read_chunk = chunk > 1000 ? 0 : chunk; env_file_buf = bufsize == 32 ? -1 : 0; mpack_reader_init_stdfile(&R, env_fopen("f", "r"), true);
    }
}
static void note(const char* s, size_t n) { size_t l = strlen(hist); if (l < sizeof hist - 40) snprintf(hist + l, sizeof hist - l, " %s %zu", s, n); }
/* reads one object whose reference decoding is v along a chosen plan; the plan is a number consumed digit by digit */
static uint64_t plan, plan_max;
static uint32_t digit(uint32_t n) { uint32_t d = (uint32_t)(plan % n); plan /= n; plan_max *= n; return d; }
static void object(const rv* v) {
    if (mpack_reader_error(&R)) return;
    if (digit(2)) { note("discard@", v->start); mpack_discard(&R); return; }
    mpack_tag_t t = mpack_read_tag(&R); if (mpack_reader_error(&R)) return;
    switch (v->t) {
        case RV_STR: case RV_BIN: case RV_EXT: {
            if (mpack_tag_bytes(&t) != v->n) BAD("length %u instead of %u", mpack_tag_bytes(&t), v->n);
            size_t n = v->n, done = 0; static char b[20000]; uint32_t how = digit(5);
            size_t first = how == 0 ? n : how == 1 ? 0 : how == 2 ? (n ? 1 : 0) : how == 3 ? n / 2 : n ? n - 1 : 0;      /* read so much, skip the rest; or the other way round */
            if (how >= 3) { note("skip", first); mpack_skip_bytes(&R, first); done = first; if (mpack_reader_error(&R)) return; size_t m = n - done; mpack_read_bytes(&R, b, m); if (mpack_reader_error(&R)) return; if (memcmp(b, msg.p + v->hdr + done, m)) BAD("bytes after skipping %zu are wrong", first); }
            else { mpack_read_bytes(&R, b, first); if (mpack_reader_error(&R)) return; if (memcmp(b, msg.p + v->hdr, first)) BAD("bytes are wrong"); note("skip", n - first); mpack_skip_bytes(&R, n - first); }
            mpack_done_type(&R, mpack_tag_type(&t)); break; }
        case RV_ARR: case RV_MAP: for (size_t i = 0; i < v->kids && !mpack_reader_error(&R); ++i) object(&v->kid[i]); mpack_done_type(&R, mpack_tag_type(&t)); break;
        default: break;
    }
}
static const uint8_t TAIL[] = {0xcd, 0x12, 0x34, 0xa3, 'e', 'n', 'd', 0x07, 0xc3};
static size_t consumed;
static void remaining(size_t pos) {      /* model position: the bytes from pos on that the source has handed over */
    if (mpack_reader_error(&R)) return;
    const char* d = NULL; size_t n = mpack_reader_remaining(&R, &d);
    size_t have = src == MEM ? limit_n : src <= SKIP ? at : (size_t)-1;
    if (mpack_reader_error(&R)) BAD("remaining: %s", ES(mpack_reader_error(&R)));
    if (have != (size_t)-1 && n != have - pos) BAD("remaining is %zu, %zu bytes were handed over and not read", n, have - pos);
    if (n > limit_n - pos || memcmp(d, msg.p + pos, n)) BAD("remaining data is wrong");
}
static void run(const rv* v, int s, size_t cut, uint64_t p) {
    hist[0] = 0; plan = p; plan_max = 1; open_src(s, cut); snprintf(hist, sizeof hist, "cut at %zu:", cut);
    object(v);
    mpack_error_t e = mpack_reader_error(&R);
    if (cut < v->end && e == mpack_ok) BAD("discarding or skipping incomplete data succeeded");
    if (cut >= v->end && e != mpack_ok) BAD("%s", ES(e));
    if (cut >= v->end) {
        remaining(v->end);
        uint32_t how = digit(3);
        if (cut >= v->end + 3) { if (how == 0) { mpack_tag_t t = mpack_read_tag(&R); if (mpack_reader_error(&R) || !mpack_tag_equal(t, mpack_tag_uint(0x1234))) BAD("the object behind is not found"); } else if (how == 1) mpack_discard(&R); else if (mpack_expect_u16(&R) != 0x1234) BAD("the object behind is not found"); if (mpack_reader_error(&R)) BAD("object behind: %s", ES(mpack_reader_error(&R))); remaining(v->end + 3); }
        if (cut >= v->end + 9) { char b[4]; if (mpack_expect_str_buf(&R, b, 4) != 3 || memcmp(b, "end", 3)) BAD("the string behind is not found"); if (mpack_expect_u8(&R) != 7 || !mpack_expect_bool(&R) || mpack_reader_error(&R)) BAD("the tail is wrong"); remaining(v->end + 9);
            mpack_discard(&R); if (mpack_reader_error(&R) == mpack_ok) BAD("discarding behind the end succeeded"); }
        mc_nontrivial(1);
    }
    mpack_reader_destroy(&R); if (vf && s >= SEEKFILE && vf->closes != 1) BAD("file not closed"); if (env_live_blocks) BAD("leak");
    mc_eval(1); mc_step(1); mc_outcome(mc_mix((uint64_t)e, (uint64_t)s));
}
static bool files;
static void all_plans(const rv* v, size_t cut) {
    static const size_t chunks[] = {1, 5, 100000, 2, 33}, bufs[] = {32, 40, 33, 64};
    for (int s = 0; s < (files ? NSRC : SEEKFILE); ++s) for (int c = 0; c < (s == MEM ? 1 : s >= SEEKFILE ? 2 : mc_tier ? 5 : 3); ++c) for (int b = 0; b < (s == MEM ? 1 : s >= SEEKFILE ? 1 : mc_tier ? 4 : 2); ++b) {
        if (s >= SEEKFILE && cut != msg.n && cut > v->end) continue;
        chunk = s >= SEEKFILE ? (c ? 100000 : 3) : chunks[c]; bufsize = s >= SEEKFILE ? 33 : bufs[b];
        for (uint64_t p = 0, m = 1; p < m; ++p) { run(v, s, cut, p); if (cut == msg.n && plan_max > m) m = plan_max; if (cut != msg.n) { static uint64_t last; last = plan_max; if (last > m) m = last; } if (m > 4000) m = 4000; }
        mc_tick();
    }
}
static const gn leaves[] = { {.t = RV_UINT, .u = 5}, {.t = RV_STR, .n = 3}, {.t = RV_F64, .u = 0x3ff8000000000000ull}, {.t = RV_BIN, .n = 40}, {.t = RV_EXT, .ext = 9, .n = 16}, {.t = RV_STR, .n = 70}, {.t = RV_NIL}, {.t = RV_STR, .n = 0}, {.t = RV_INT, .i = -70000}, {.t = RV_EXT, .ext = -1, .n = 12} };
static void finish_msg(rv* v) { rb_mem(&msg, TAIL, sizeof TAIL); bool x = false; size_t nodes = 0, off = 0; memset(v, 0, sizeof *v); if (ref_parse(msg.p, msg.n, &off, v, &x, &nodes) != REF_OK) mc_fail("generator"); mc_state(mc_hash(3, msg.p, msg.n)); objend = v->end; }
void mc_body(void) {
    mc_shard_depth = 4; rb_free(&msg); rv v; vf = NULL;
    switch (mc_choose(4, "part: small documents / every cut / big contents / huge declared lengths")) {
    case 0: { gctx g; g_init(&g, leaves, mc_tier ? 6 : 4, K_NODES, 3, 4); gn* d = g_doc(&g);
        for (int i = 0; i < g.used; ++i) { g.pool[i].data = pdata(g.pool[i].t); } g_encode(&msg, d); finish_msg(&v); files = g.used <= 3 || mc_tier; all_plans(&v, msg.n); ref_free(&v); break; }
    case 1: { gctx g; g_init(&g, leaves, 10, 3, 2, 3); gn* d = g_doc(&g); for (int i = 0; i < g.used; ++i) { g.pool[i].data = pdata(g.pool[i].t); g.pool[i].form = (uint8_t)(i % 2); } g_encode(&msg, d); finish_msg(&v); files = g.used <= 2 || mc_tier; for (size_t c = 0; c < msg.n; ++c) all_plans(&v, c); ref_free(&v); break; }
    case 2: { static const uint32_t L[] = {33, 4000, 4092, 4096, 8200, 31, 4090, 65, 32, 64, 4094, 4095, 4097, 4100, 8190, 8192, 12300};
        uint32_t l1 = L[mc_choose(mc_tier ? 17 : K_L1, "length")], l2 = L[mc_choose(mc_tier ? 17 : K_L1 / 2, "length")]; int t = (int)mc_choose(3, "kind");
        gn k[3] = {{.t = (uint8_t)(RV_STR + t), .n = l1, .data = pdata(RV_STR + t), .ext = 4}, {.t = RV_NIL}, {.t = RV_BIN, .n = l2, .data = wild()}}; gn a = {.t = RV_ARR, .n = 3, .kids = 3, .kid = k}; g_encode(&msg, &a); finish_msg(&v);
        size_t cuts[] = {msg.n, v.end, v.end - 1, v.end - 2, v.kid[0].end, v.kid[0].end - 1, v.kid[0].hdr, v.kid[0].hdr + 1, v.end - l2, v.end - l2 / 2};
        static const size_t chunks[] = {7, 1000, 100000}, bufs[] = {32, 64, 4096};
        for (unsigned c = 0; c < 10; ++c) for (int s = 0; s < NSRC; ++s) for (int ch = 0; ch < (s == MEM ? 1 : 3); ++ch) for (int b = 0; b < (s == MEM ? 1 : s >= SEEKFILE ? 2 : 3); ++b) {
            if (s >= SEEKFILE && (ch == 0 || (!mc_tier && (ch == 1) != (b == 1)))) continue;
            chunk = chunks[ch]; bufsize = bufs[b];
            for (uint64_t p = 0, m = 1; p < m; ++p) { run(&v, s, cuts[c], p); if (plan_max > m) m = plan_max; if (m > 300) m = 300; }
            mc_tick();
        }
        ref_free(&v); break; }
    case 3: {      /* lengths that are not there, up to 2^32 - 1, after and before other objects */
        static const uint32_t H[] = {1000, 65535, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffff0u, 0xfffffffcu, 0xfffffffeu, 0xffffffffu};
        uint32_t h = H[mc_choose(9, "length")]; int t = (int)mc_choose(5, "kind: str / bin / ext / array / map"), before = (int)mc_choose(20, "objects before"), behind = (int)mc_choose(5, "bytes behind");
        for (int i = 0; i < before; ++i) ref_nil(&msg);
        if (t == 0) ref_str_hdr(&msg, h, false); else if (t == 1) ref_bin_hdr(&msg, h, false); else if (t == 2) ref_ext_hdr(&msg, 5, h); else if (t == 3) ref_array_hdr(&msg, h); else ref_map_hdr(&msg, h);
        for (int i = 0; i < behind * 3; ++i) ref_nil(&msg);
        mc_state(mc_hash(4, msg.p, msg.n));
        for (int s = 0; s < NSRC; ++s) for (int how = 0; how < (t < 3 ? 3 : 1); ++how) {
            chunk = 5; bufsize = 64; snprintf(hist, sizeof hist, "%d nils, a header declaring %u bytes and %d bytes", before, h, behind * 3); open_src(s, msg.n);
            for (int i = 0; i < before; ++i) mpack_discard(&R);
            if (mpack_reader_error(&R)) BAD("%s", ES(mpack_reader_error(&R)));
            if (how == 0) mpack_discard(&R); else { mpack_read_tag(&R); if (how == 2 && behind) { char b[2]; mpack_read_bytes(&R, b, 2); h -= 2; } mpack_skip_bytes(&R, h); if (how == 2 && behind) h += 2; }
            mpack_error_t e = mpack_reader_error(&R); if (e == mpack_ok) BAD("skipping %u %s of %d succeeded", h, t < 3 ? "bytes" : "elements", behind * 3);
            mpack_reader_destroy(&R); if (env_live_blocks) BAD("leak"); mc_eval(1); mc_step(1); mc_nontrivial(1); mc_outcome(mc_mix(77, (uint64_t)e));
        }
        break; }
    }
    mc_log("message %s\n", hexs(msg.p, msg.n));
}
