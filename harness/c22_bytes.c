/* C22: every byte sequence of the enumerated sets through every kind of consumer. Data sits against an unmapped
 * page (or in an exact malloc block under ASan); every loop of the harness has a bound that follows from "every
 * successful read consumes something"; crashes, sanitizer reports, internal assertions and hangs are violations. */
#include "common.h"
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#ifndef T_LEN
#define T_LEN 3          /* header sequences */
#endif
static mpack_reader_t R; static mpack_tree_t T; static mpack_node_t NODE_; static mpack_error_t first;
#define NODE NODE_
#define EQ(e, v) do { if ((e) == (v)) mc_sink ^= 1; } while (0)
#define Z(e) do { if (e) mc_sink ^= 2; } while (0)
#define NUL(e) do { const void* p_ = (e); if (p_) mc_sink ^= (unsigned)*(const volatile char*)p_ * 0u; } while (0)
#define ANUL(e) do { void* p_ = (e); if (p_) vf_free(p_); } while (0)
static char buf[64];
#define STR(stmt) do { memset(buf, 'q', sizeof buf); stmt; } while (0)
#define KEEPN(stmt, n) do { memset(buf, 'q', sizeof buf); stmt; for (size_t i_ = (n) ? (n) : 40; i_ < sizeof buf; ++i_) if (buf[i_] != 'q') mc_fail("%s wrote behind its buffer on %s", #stmt, hexs(D, N)); } while (0)
#define ALLOC8(e) do { u32v = 9; void* p_ = (e); if (p_) vf_free(p_); } while (0)
static unsigned mc_sink; static uint32_t u32v; static int8_t i8v; static size_t szv, tsize; static bool fnd[4]; static const char* cpv; static const char* words[] = {"a", "bc", "", "def"};
static bool nilt(mpack_tag_t t) { return mpack_tag_type(&t) == mpack_type_nil; }
static bool zts(mpack_timestamp_t t) { return t.seconds == 0 && t.nanoseconds == 0; }
static bool niln(mpack_node_t n) { return mpack_node_is_nil(n); }
static const char* D; static size_t N;     /* the input */
#undef NUL
#define NUL(e) do { const void* p_ = (e); if (p_ == (void*)&mc_sink) mc_sink ^= 4; } while (0)
#include "api_calls.h"
static int r_call(int i) { int k = 0;
#define X(...) if (k++ == i) { __VA_ARGS__; return 0; }
    RCALLS(X)
    return k; }
static int t_call(int i) { int k = 0;
    TCALLS(X)
#undef X
    return k; }

/* ---------------------------------------------------------------- placement */
#ifndef __has_feature
#define __has_feature(x) 0
#endif
#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
static void put(const uint8_t* d, size_t n) { free((void*)D); char* p = (char*)malloc(n ? n : 1); memcpy(p, d, n); D = p; N = n; }
#else
static char* page; enum { PAGE = 65536 };
static void put(const uint8_t* d, size_t n) {
    if (!page) { page = (char*)mmap(NULL, PAGE + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (page == MAP_FAILED || mprotect(page + PAGE, 4096, PROT_NONE)) mc_fail("mmap"); }
    memcpy(page + PAGE - n, d, n); D = page + PAGE - n; N = n;
}
#endif
static size_t at; static unsigned fills; static size_t chunk;
static void limit(void) { if (++fills > 4 * N + 64) mc_fail("source asked more than %u times for %zu bytes: %s", fills, N, hexs(D, N)); }
static size_t on_fill(mpack_reader_t* r, char* b, size_t n) { (void)r; limit(); size_t k = N - at; if (k > n) k = n; if (k > chunk) k = chunk; memcpy(b, D + at, k); at += k; return k; }
static void on_skip(mpack_reader_t* r, size_t n) { limit(); if (n > N - at) { mpack_reader_flag_error(r, mpack_error_io); return; } at += n; }
static size_t on_read(mpack_tree_t* t, char* b, size_t n) { limit(); size_t k = N - at; if (k > n) k = n; if (k > chunk) k = chunk; if (k == 0) { mpack_tree_flag_error(t, mpack_error_io); return 0; } memcpy(b, D + at, k); at += k; return k; }
static char sb[40]; static env_file* vf;
static void open_reader(int kind) {   /* memory / stream / stream+skip / FILE */
    at = 0; fills = 0; chunk = 1;
    if (kind == 0) mpack_reader_init_data(&R, D, N);
    else if (kind < 3) { mpack_reader_init(&R, sb, kind == 1 ? 32 : 40, 0); mpack_reader_set_fill(&R, on_fill); if (kind == 2) mpack_reader_set_skip(&R, on_skip); }
    else { env_reset(); vf = env_file_make("f", D, N, true); mpack_reader_init_stdfile(&R, env_fopen("f", "r"), true); }
}
static void close_reader(int kind) {
    if (kind == 0 && mpack_reader_error(&R) == mpack_ok && mpack_reader_error(&R) == mpack_ok && (size_t)(R.end - R.data) > N) mc_fail("more left than there was");
    mpack_error_t e = mpack_reader_destroy(&R); mc_outcome((uint64_t)e); if (env_live_blocks) mc_fail("leak: %s", hexs(D, N)); mc_eval(1); mc_step(1);
    if (e != mpack_ok) mc_nontrivial(1);
#ifdef VF_DEBUG
    dbg_breaks = 0;
#endif
}
static void read_all(int how) {
    struct { mpack_type_t t; uint64_t left; } st[64]; int sp = 0; size_t steps = 0;
    for (;;) {
        while (sp && st[sp - 1].left == 0) { mpack_done_type(&R, st[sp - 1].t); if (--sp == 0) return; }
        if (mpack_reader_error(&R)) return;
        if (++steps > N + 1) mc_fail("%zu objects read from %zu bytes: %s", steps, N, hexs(D, N));
        if (sp) --st[sp - 1].left;
        mpack_tag_t t = how & 1 ? mpack_peek_tag(&R) : mpack_tag_nil(); mpack_tag_t u = mpack_read_tag(&R);
        if ((how & 1) && !mpack_reader_error(&R) && !mpack_tag_equal(t, u)) mc_fail("peek and read differ: %s", hexs(D, N));
        if (mpack_reader_error(&R)) return;
        mpack_type_t ty = mpack_tag_type(&u);
        if (ty == mpack_type_array || ty == mpack_type_map) { uint64_t n = ty == mpack_type_array ? mpack_tag_array_count(&u) : (uint64_t)mpack_tag_map_count(&u) * 2; if (sp == 64) return; st[sp].t = ty; st[sp++].left = n; continue; }
        if (ty == mpack_type_str || ty == mpack_type_bin || ty == mpack_type_ext) {
            uint32_t n = mpack_tag_bytes(&u);
            switch (how >> 1) {
                case 0: for (uint32_t k; n && !mpack_reader_error(&R); n -= k) { k = n > 7 ? 7 : n; mpack_read_bytes(&R, buf, k); } break;
                case 1: mpack_skip_bytes(&R, n); break;
                case 2: ANUL(mpack_read_bytes_alloc(&R, n)); break;
                case 3: { const char* p = mpack_read_bytes_inplace(&R, n); if (p) for (uint32_t i = 0; i < n; ++i) mc_sink ^= (unsigned char)p[i]; break; }
                case 4: if (ty == mpack_type_str) { const char* p = mpack_read_utf8_inplace(&R, n); if (p) for (uint32_t i = 0; i < n; ++i) mc_sink ^= (unsigned char)p[i]; } else mpack_skip_bytes(&R, n); break;
                case 5: if (ty == mpack_type_str) mpack_read_utf8_cstr(&R, buf, sizeof buf, n); else if (ty == mpack_type_ext) { mpack_read_timestamp(&R, n); if (!sp) return; continue; } else mpack_skip_bytes(&R, n); break;
                case 6: if (ty == mpack_type_str) { mpack_read_cstr(&R, buf, 3, n); } else if (n <= sizeof buf) mpack_read_bytes(&R, buf, n); else mpack_skip_bytes(&R, n); break;
            }
            if (mpack_reader_error(&R)) return;
            mpack_done_type(&R, ty);
        }
        if (!sp) return;
    }
}
static void walk(void) {       /* up to 8 nodes, every accessor on each */
    mpack_node_t q[8]; int qn = 0, qi = 0; q[qn++] = mpack_tree_root(&T); int n = t_call(-1); tsize = N;
    if (mpack_tree_size(&T) == 0 || mpack_tree_size(&T) > N) mc_fail("size %zu of a parsed message in %zu bytes: %s", mpack_tree_size(&T), N, hexs(D, N));
    while (qi < qn) {
        NODE_ = q[qi++]; mpack_type_t ty = mpack_node_type(NODE_);
        if (ty == mpack_type_array) for (size_t i = 0; i < mpack_node_array_length(NODE_) && qn < 8; ++i) q[qn++] = mpack_node_array_at(NODE_, i);
        if (ty == mpack_type_map) for (size_t i = 0; i < mpack_node_map_count(NODE_) && qn < 7; ++i) { q[qn++] = mpack_node_map_key_at(NODE_, i); q[qn++] = mpack_node_map_value_at(NODE_, i); }
        if (ty == mpack_type_str || ty == mpack_type_bin || ty == mpack_type_ext) { const char* p = mpack_node_data(NODE_); size_t l = mpack_node_data_len(NODE_); if (p && (p < T.data || p + l > T.data + T.data_length)) mc_fail("node data outside the message: %s", hexs(D, N)); for (size_t i = 0; i < l; ++i) mc_sink ^= (unsigned char)p[i]; }
        for (int c = 2; c < n; ++c) { first = mpack_ok; t_call(c); T.error = mpack_ok; }
    }
}
static void tree(int kind, bool deep) {       /* data / pool / stream / pool of one / limits / FILE */
    static mpack_node_data_t pool[6]; at = 0; fills = 0; chunk = deep ? 4000 : 1;
    if (kind == 0) mpack_tree_init_data(&T, D, N);
    else if (kind == 1) mpack_tree_init_pool(&T, D, N, pool, 6);
    else if (kind == 2) mpack_tree_init_stream(&T, on_read, NULL, SIZE_MAX, SIZE_MAX);
    else if (kind == 3) mpack_tree_init_pool(&T, D, N, pool, 1);
    else if (kind == 4) { mpack_tree_init_data(&T, D, N); mpack_tree_set_limits(&T, 3, 2); }
    else { if (!N) return; env_reset(); vf = env_file_make("t", D, N, true); mpack_tree_init_stdfile(&T, env_fopen("t", "r"), 0, true); }
    for (int m = 0; m < 3; ++m) {
        mpack_tree_parse(&T); if (mpack_tree_error(&T)) break;
        if (!deep) walk(); else { mpack_node_t n = mpack_tree_root(&T); for (int i = 0; i < 20 && mpack_node_type(n) == mpack_type_array && mpack_node_array_length(n); ++i) n = mpack_node_array_at(n, 0); T.error = mpack_ok; }
#if defined(VF_DEBUG)
        if (!deep) for (int s = 0; s < 3; ++s) { char* o = (char*)malloc(s == 0 ? 1 : s == 1 ? 9 : 600); size_t on = s == 0 ? 1 : s == 1 ? 9 : 600; mpack_node_print_to_buffer(mpack_tree_root(&T), o, on); if (!memchr(o, 0, on)) mc_fail("print not terminated"); free(o); T.error = mpack_ok; }
#endif
    }
    mc_outcome(100 + (uint64_t)mpack_tree_error(&T)); if (mpack_tree_error(&T)) mc_nontrivial(1);
    mpack_tree_destroy(&T); if (env_live_blocks) mc_fail("leak: %s", hexs(D, N)); mc_eval(1); mc_step(1);
#ifdef VF_DEBUG
    dbg_breaks = 0;
#endif
}
#ifdef VF_DEBUG
static size_t printed; static void on_print(void* c, const char* d, size_t n) { (void)c; printed += n; for (size_t i = 0; i < n; ++i) mc_sink ^= (unsigned char)d[i]; }
static void prints(void) {
    for (int s = 0; s < 4; ++s) { static const size_t sz[] = {1, 2, 30, 900}; char* o = (char*)malloc(sz[s]); mpack_print_data_to_buffer(D, N, o, sz[s]); if (!memchr(o, 0, sz[s])) mc_fail("print not terminated: %s", hexs(D, N)); free(o); mc_eval(1); }
    mpack_print_data_to_callback(D, N, on_print, NULL); dbg_breaks = 0; mc_step(5);
}
#endif
static void discards(int kind) {
    open_reader(kind); size_t k = 0;
    while (!mpack_reader_error(&R)) { if (++k > N + 1) mc_fail("%zu objects discarded from %zu bytes: %s", k, N, hexs(D, N)); mpack_discard(&R); }
    close_reader(kind);
}
static void consume(int level) {           /* level 0: light, 1: every consumer, 2: every API call as the first (and pairs) */
    for (int k = 0; k < (level ? 5 : 2); ++k) tree(k, false);
    for (int k = 0; k < (level ? 3 : 1); ++k) { discards(k); for (int h = 0; h < (level ? 14 : 3); ++h) { open_reader(k); read_all(level ? h : h * 5); close_reader(k); } }
#ifdef VF_DEBUG
    if (level) prints();
#endif
    if (level < 2) return;
    tree(5, false); discards(3); open_reader(3); read_all(2); close_reader(3); env_reset();
    int n = r_call(-1);
    for (int a = 0; a < n; ++a) for (int k = 0; k < 3; ++k) { open_reader(k); r_call(a); r_call(a); for (size_t i = 0; i <= N && !mpack_reader_error(&R); ++i) mpack_discard(&R); close_reader(k); }
}

/* ---------------------------------------------------------------- header sequences */
typedef struct { uint8_t n, d[9]; } tok;
static const tok toks[] = {
    {1, {0x05}}, {1, {0xff}}, {1, {0xc0}}, {1, {0xc1}}, {1, {0xc3}}, {1, {0x80}}, {1, {0x81}}, {1, {0x8f}}, {1, {0x90}}, {1, {0x91}}, {1, {0x92}}, {1, {0x9f}}, {1, {0xa0}}, {2, {0xa1, 'a'}}, {1, {0xa2}}, {1, {0xbf}},
    {2, {0xc4, 0}}, {3, {0xc4, 1, 'x'}}, {2, {0xc4, 255}}, {3, {0xc5, 0, 1}}, {3, {0xc5, 255, 255}}, {5, {0xc6, 0, 0, 0, 1}}, {5, {0xc6, 255, 255, 255, 255}}, {5, {0xc6, 0x7f, 255, 255, 255}},
    {3, {0xc7, 0, 5}}, {3, {0xc7, 12, 0xff}}, {4, {0xc8, 0, 4, 0xff}}, {6, {0xc9, 255, 255, 255, 255, 5}}, {5, {0xca, 0x7f, 0xc0, 0, 0}}, {9, {0xcb, 0x7f, 0xf0, 0, 0, 0, 0, 0, 0}},
    {2, {0xcc, 200}}, {3, {0xcd, 1, 1}}, {5, {0xce, 255, 0, 0, 0}}, {9, {0xcf, 255, 255, 255, 255, 255, 255, 255, 255}}, {2, {0xd0, 0x80}}, {3, {0xd1, 0x80, 0}}, {5, {0xd2, 0x80, 0, 0, 0}}, {9, {0xd3, 0x80, 0, 0, 0, 0, 0, 0, 0}},
    {2, {0xd4, 5}}, {6, {0xd6, 0xff, 1, 2, 3, 4}}, {2, {0xd7, 0xff}}, {2, {0xd8, 0}}, {2, {0xd9, 1}}, {2, {0xd9, 255}}, {3, {0xda, 0, 1}}, {3, {0xda, 255, 255}}, {5, {0xdb, 0, 0, 0, 2}}, {5, {0xdb, 255, 255, 255, 255}}, {5, {0xdb, 0x80, 0, 0, 0}},
    {3, {0xdc, 0, 1}}, {3, {0xdc, 255, 255}}, {5, {0xdd, 0, 0, 0, 1}}, {5, {0xdd, 255, 255, 255, 255}}, {5, {0xdd, 0x40, 0, 0, 0}}, {3, {0xde, 0, 1}}, {3, {0xde, 255, 255}}, {5, {0xdf, 0, 0, 0, 1}}, {5, {0xdf, 0x80, 0, 0, 0}}, {5, {0xdf, 255, 255, 255, 255}} };
enum { NTOK = sizeof toks / sizeof toks[0] };
static void seq(int len, int a, int b, int level, bool all_cuts) {     /* first two tokens given, the rest enumerated */
    uint64_t total = 1; for (int i = 2; i < len; ++i) total *= NTOK;
    for (uint64_t i = 0; i < total; ++i) {
        uint8_t d[64]; size_t n = 0; uint64_t q = i; size_t last = 0;
        for (int k = 0; k < len; ++k) { const tok* t = &toks[k == 0 ? a : k == 1 ? b : (int)(q % NTOK)]; if (k > 1) q /= NTOK; last = n; memcpy(d + n, t->d, t->n); n += t->n; }
        mc_note(0, i); mc_note(1, n);
        for (size_t cut = all_cuts ? last + 1 : n; cut <= n; ++cut) { put(d, cut); consume(level); mc_state(mc_hash(9, d, cut)); }
        mc_tick();
    }
}
static void deep(void) {
    static const uint8_t P[][4] = {{1, 0x91}, {2, 0x81, 0xc0}, {1, 0x81}, {2, 0x92, 0xc0}, {3, 0xdc, 0, 1}};
    static const size_t depths[] = {31, 32, 33, 200, 5000, 100000, 1000000};
    int p = (int)mc_choose(5, "pattern"); size_t depth = depths[mc_choose(7, "depth")]; bool complete = mc_choose(2, "complete");
    size_t k = P[p][0], n = depth * k; uint8_t* d = (uint8_t*)malloc(2 * n + 2); for (size_t i = 0; i < depth; ++i) memcpy(d + i * k, P[p] + 1, k);
    if (complete) { memset(d + n, 0xc0, depth + 1); n += p == 2 || p == 3 ? depth + 1 : 1; }
    static const uint8_t* keep; (void)keep; const char* D0 = D; D = (const char*)d; N = n; mc_tick();
    for (int t = 0; t < 5; ++t) { tree(t, true); mc_tick(); }
    for (int kind = 0; kind < 3; ++kind) { open_reader(kind); chunk = 1000; mpack_discard(&R); if (complete != (mpack_reader_error(&R) == mpack_ok)) mc_fail("discarding %s message nested %zu deep (pattern %d): %s", complete ? "a complete" : "an incomplete", depth, p, ES(mpack_reader_error(&R))); close_reader(kind); mc_tick(); }
    for (int c = 0; c < 3; ++c) { open_reader(0); memset(fnd, 0, 4); size_t r = c == 0 ? mpack_expect_key_cstr(&R, words, fnd, 4) : c == 1 ? mpack_expect_key_uint(&R, fnd, 4) : mpack_expect_enum_optional(&R, words, 4); if (r != 4) mc_fail("key"); close_reader(0); mc_tick(); }
#ifdef VF_DEBUG
    if (depth <= 200) prints();
    if (depth == 5000 || depth == 100000) {     /* in a child: printing still recurses */
        if (depth == 100000) { N = 20000; }
        fflush(stdout); pid_t pid = fork();
        if (pid == 0) { struct rlimit rl = {1 << 20, 1 << 20}; setrlimit(RLIMIT_STACK, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl); char o[40]; freopen("/dev/null", "w", stderr); mpack_print_data_to_buffer(D, N, o, sizeof o); _exit(7); }
        int st = 0; waitpid(pid, &st, 0); mc_eval(1);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 7) && !mc_known("print-deep-nesting")) mc_fail("printing a message of %zu bytes nested as deep to a buffer ends abnormally with a stack of 1 MB (status %x)", N, (unsigned)st);
    }
#endif
    D = D0; N = 0; free(d);
}
void mc_body(void) {
    mc_shard_depth = 3;
    switch (mc_choose(7, "inputs")) {
        case 0: { uint64_t f, t; shard(65536 + 257, 256, &f, &t); for (uint64_t i = f; i < t; ++i) { uint8_t d[2] = {(uint8_t)(i >> 8), (uint8_t)i}; mc_note(0, i); if (i < 65536) put(d, 2); else if (i < 65536 + 256) put(d + 1, 1); else put(d, 0); consume(1); mc_tick(); } mc_state(f); break; }
        case 1: { int a = (int)mc_choose(NTOK, "header"), b = (int)mc_choose(NTOK, "header"); seq(2, a, b, 2, true); break; }
        case 2: { int a = (int)mc_choose(NTOK, "header"), b = (int)mc_choose(NTOK, "header"); seq(T_LEN, a, b, mc_tier ? 1 : 0, true); break; }
        case 3: { uint64_t f, t; shard(256, 256, &f, &t); for (uint64_t i = f; i < t; ++i) { uint8_t d[1] = {(uint8_t)i}; put(d, 1); consume(2); } mc_state(f); break; }
        case 4: deep(); break;
        case 6: { /* filled arrays and maps of up to 40 elements, behind others, cut */
            uint32_t n = mc_choose(41, "elements"), before = mc_choose(12, "elements before"), map = mc_choose(2, "map"), inner = mc_choose(3, "element");
            uint8_t d[500]; size_t k = 0; static const uint8_t EL[3][3] = {{0xc0}, {0x91, 0x05}, {0xa1, 'a'}};
            d[k++] = (uint8_t)(0x90 + before + 1); for (uint32_t i = 0; i < before; ++i) d[k++] = i == 1 ? 0x90 : 0xc0;
            d[k++] = map ? 0xde : 0xdc; d[k++] = 0; d[k++] = (uint8_t)n; size_t start = k;
            for (uint32_t i = 0; i < (n << map); ++i) { d[k++] = EL[inner][0]; if (inner) d[k++] = EL[inner][1]; }
            for (size_t cut = start; cut <= k; cut += cut + 3 < k ? 3 : 1) { put(d, cut); consume(0); mc_state(mc_hash(10, d, cut)); } mc_tick();
            break; }
        case 5: { /* three arbitrary bytes */
            uint32_t a = mc_choose(256, "byte"); static const uint8_t cls[] = {0, 1, 2, 0x0f, 0x10, 0x20, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x91, 0x92, 0x9f, 0xa0, 0xa1, 0xa2, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xe0, 0xff};
            uint32_t nb = mc_tier ? 256 : sizeof cls;
            for (uint32_t b = 0; b < nb; ++b) { for (uint32_t c = 0; c < nb; ++c) { uint8_t d[3] = {(uint8_t)a, mc_tier ? (uint8_t)b : cls[b], mc_tier ? (uint8_t)c : cls[c]}; mc_note(0, b); mc_note(1, c); put(d, 3); consume(0); } mc_tick(); }
            mc_state(a); break; }
    }
    if (D) mc_log("last input %s\n", hexs(D, N));
}
