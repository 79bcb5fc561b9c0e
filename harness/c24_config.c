/* c24_config.c - C24: every program of the corpus runs in every build that has the features it needs; all traces must
 * be equal. The builds are linked into this program (their symbols made private), those of the other word size run
 * in a server process. */
#include "mc.h"
#include "env.h"
#include "ref.h"
#include "c24.h"
#include <unistd.h>
#include <signal.h>
#include <sys/prctl.h>
#ifndef C_NODES
#define C_NODES 3
#endif
#define X_(k) extern size_t c24_run_##k(const c24_prog*, uint8_t*); extern uint32_t c24_caps_##k(void); extern uint32_t c24_leaf_need_##k(unsigned), c24_read_need_##k(unsigned), c24_node_need_##k(unsigned);
VF_VARIANTS(X_)
typedef struct { size_t (*run)(const c24_prog*, uint8_t*); uint32_t (*caps)(void); const char* name; } variant;
static const variant vars[] = {
#define Y_(k) { c24_run_##k, c24_caps_##k, VF_NAME_##k },
    VF_VARIANTS(Y_)
};
enum { NV = sizeof vars / sizeof *vars };
static const char* const snames[] = {
#ifdef VF_SERVER
#define Z_(k) VF_NAME_S##k,
    VF_SVARIANTS(Z_)
#endif
    0 };
static uint32_t caps[64]; static int nall = 0; static int to_s = -1, from_s = -1;
static void rd(void* p, size_t n) { size_t k = 0; while (k < n) { ssize_t r = read(from_s, (char*)p + k, n - k); if (r <= 0) mc_fail("the build of the other word size crashed"); k += (size_t)r; } }
static void wr(const void* p, size_t n) { size_t k = 0; while (k < n) { ssize_t r = write(to_s, (const char*)p + k, n - k); if (r <= 0) mc_fail("the build of the other word size crashed"); k += (size_t)r; } }
static pid_t owner;
static void setup(void) {
    if (nall && owner == getpid()) return;
    owner = getpid(); nall = 0;
    for (int i = 0; i < NV; ++i) caps[nall++] = vars[i].caps();
#ifdef VF_SERVER
    if (to_s >= 0) { close(to_s); close(from_s); }
    int a[2], b[2]; if (pipe(a) || pipe(b)) mc_fail("pipe");
    signal(SIGPIPE, SIG_IGN);
    char exe[600]; ssize_t l = readlink("/proc/self/exe", exe, 500); exe[l] = 0; char* s = strrchr(exe, '/'); strcpy(s, "/server");
    pid_t pid = fork(); if (pid < 0) mc_fail("fork");
    if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(a[0], 0); dup2(b[1], 1); for (int i = 3; i < 100; ++i) close(i); execl(exe, exe, (char*)0); _exit(9); }
    close(a[0]); close(b[1]); to_s = a[1]; from_s = b[0];
    uint32_t n; rd(&n, 4); rd(caps + nall, n * 4); nall += (int)n;
#endif
}
static const char* nm(int v) { return v < NV ? vars[v].name : snames[v - NV]; }
static size_t run(int v, const c24_prog* p, uint8_t* out) {
    if (v < NV) { env_reset(); return vars[v].run(p, out); }
    uint32_t w = (uint32_t)(v - NV), n; wr(&w, 4); wr(p, sizeof *p - sizeof p->d); wr(p->d, p->n); rd(&n, 4); rd(out, n); return n;
}
static const char* hx(const void* p, size_t n) { static char b[4][500]; static int k; char* s = b[k = (k + 1) & 3], *o = s; const uint8_t* d = (const uint8_t*)p; for (size_t i = 0; i < n && i < 150; ++i) s += sprintf(s, "%02x ", d[i]); *s = 0; return o; }
static c24_prog P; static uint64_t runs_;
static const char* describe(void) {
    static char b[800]; static const char* const kn[] = {"write", "read", "tree"};
    snprintf(b, sizeof b, "%s src %u style %u call %u sizes %u/%u [%s]", kn[P.kind], P.src, P.how, P.op, P.a, P.b, hx(P.d, P.n)); return b;
}
static uint8_t t_[2][TRACE_CAP + 64];
static c24_prog q_[BATCH]; static uint64_t qh_[BATCH]; static int qn_;
static void check(int v, int ref, size_t rn, size_t n) {
    if (n == rn && !memcmp(t_[0], t_[1], n)) return;
    size_t at = 0; while (at < n && at < rn && t_[0][at] == t_[1][at]) ++at;
    mc_fail("%s: build '%s' gives [%s], build '%s' gives [%s]; first difference at %zu", describe(), nm(ref), hx(t_[0], rn), nm(v), hx(t_[1], n), at);
}
/* the builds in the server, in batches; traces are compared by their hash, differing ones fetched */
static void flush_server(void) {
    static uint64_t ans[BATCH * 8]; static uint8_t msg[BATCH * sizeof(c24_prog)]; int ns = nall - NV; if (!qn_ || !ns) { qn_ = 0; return; }
    size_t m = 0; uint32_t w = 1000 + (uint32_t)qn_; memcpy(msg, &w, 4); m = 4;
    for (int i = 0; i < qn_; ++i) { size_t h = sizeof P - sizeof P.d + q_[i].n; memcpy(msg + m, &q_[i], h); m += h; }
    wr(msg, m); rd(ans, (size_t)(qn_ * ns) * 8);
    int n = qn_; qn_ = 0;
    for (int i = 0; i < n; ++i) for (int v = 0; v < ns; ++v) if (ans[i * ns + v] && ans[i * ns + v] != qh_[i]) {
        P = q_[i]; int ref = 0; while (P.need & ~caps[ref]) ++ref;
        size_t rn = run(ref, &P, t_[0]), k = run(NV + v, &P, t_[1]); check(NV + v, ref, rn, k); mc_fail("%s: hash of the trace in '%s'", describe(), nm(NV + v));
    }
}
static void compare(void) {
    int ref = -1; size_t rn = 0; setup();
    static const uint32_t kf[] = { F_WRITER, F_READER, F_NODE };
    P.need |= kf[P.kind];
    int ran = 0;
    for (int v = 0; v < NV; ++v) {
        if (P.need & ~caps[v]) continue;
        size_t n = run(v, &P, t_[ref < 0 ? 0 : 1]); ++ran;
        if (ref < 0) { ref = v; rn = n; mc_log("%s: %s", describe(), hx(t_[0], n)); continue; }
        check(v, ref, rn, n);
    }
    for (int v = NV; v < nall; ++v) if (!(P.need & ~caps[v])) ++ran;
    if (ref >= 0 && nall > NV) { memcpy(&q_[qn_], &P, sizeof P - sizeof P.d + P.n); qh_[qn_++] = c24_hash(t_[0], rn); if (qn_ == BATCH) flush_server(); }
    mc_eval(1); mc_step((uint64_t)ran); runs_ += (uint64_t)ran;
    if (ran > 1 && rn > 18) mc_nontrivial(1);
    mc_outcome(mc_hash(1, t_[0], rn < 40 ? rn : 40));
}
/* lengths no address space of 32 bits can hold are refused with another error there */
static uint32_t doc_need(const uint8_t* d, size_t n) {
    uint32_t f = 0;
    for (size_t i = 0; i < n; ++i) {
        if ((d[i] >= 0xc7 && d[i] <= 0xc9) || (d[i] >= 0xd4 && d[i] <= 0xd8)) f |= F_EXT;
        if ((d[i] == 0xc6 || d[i] == 0xc9 || d[i] == 0xdb || d[i] == 0xdd || d[i] == 0xdf) && (i + 1 >= n || d[i + 1] >= 8)) f |= F_64;
    }
    return f;
}

/* a strict double also accepts a float, which the raw form used without floating point does not; a double read as
 * float is rounded with double support and (as documented, see C29) truncated without */
static uint32_t strict(const uint8_t* d, size_t n) { return n && ((P.op == 130 && d[0] == 0xca) || (P.op > 256 && P.op <= 384 && d[0] == 0xcb)) ? F_DOUBLE : 0; }
/* all calls on one document from all sources */
static void sweep_reader(const uint8_t* d, size_t n, bool brief) {
    memset(&P, 0, sizeof P); P.kind = K_READ; P.n = (uint16_t)n; memcpy(P.d, d, n); uint32_t base = doc_need(d, n);
    static const uint16_t src[][3] = { {0, 0, 0}, {1, 32, 0}, {1, 33, 1}, {1, 64, 7}, {2, 0, 0}, {2, 0, 3} };
    for (unsigned s = 0; s < (brief ? 3u : 6u); ++s) for (unsigned h = 0; h < 5; ++h) {
        if (src[s][0] == 2 && h == 1) continue;           /* in-place reads depend on the size of the library's own buffer */
        P.src = (uint8_t)src[s][0]; P.a = src[s][1]; P.b = src[s][2]; P.how = (uint8_t)h; P.op = 0;
        P.need = base | (P.src == 2 ? F_STDIO : 0) | (h == 2 ? F_MALLOC : 0) | (h == 3 ? F_EXT : 0);
        compare();
    }
    { rv v; size_t o = 0; P.pad = ref_header(d, n, &o, &v) != REF_OK; }
    for (unsigned s = 0; s < (brief ? 1u : 3u); ++s) for (unsigned t = 0; t < 7; ++t) for (unsigned c = 0; c < 128; ++c) {
        P.op = (uint16_t)(1 + t * 128 + c); P.how = 0; uint32_t nd = c24_read_need_0(P.op); if (nd == ~0u) break;
        P.src = (uint8_t)src[s][0]; P.a = src[s][1]; P.b = src[s][2]; P.need = base | nd | strict(d, n); compare();
    }
}
static void sweep_tree(const uint8_t* d, size_t n, bool brief) {
    memset(&P, 0, sizeof P); P.kind = K_NODE; P.n = (uint16_t)n; memcpy(P.d, d, n); uint32_t base = doc_need(d, n);
    static const uint16_t src[][3] = { {0, 60, 0}, {1, 0, 0}, {0, 1, 0}, {0, 2, 0}, {0, 3, 0}, {2, 600, 0}, {2, 600, 1}, {2, 8, 3}, {3, 0, 0}, {3, 5, 0} };
    for (unsigned s = 0; s < (brief ? 4u : 10u); ++s) for (unsigned h = 0; h < 2; ++h) {
        if (src[s][0] == 3 && h) continue;
        if (src[s][0] == 3 && n == 0) continue;
        P.src = (uint8_t)src[s][0]; P.a = src[s][1]; P.b = src[s][2]; P.how = (uint8_t)h; P.op = 0;
        P.need = base | (P.src ? F_MALLOC : 0) | (P.src == 3 ? F_STDIO : 0); compare();
    }
    for (unsigned s = 0; s < (brief ? 1u : 2u); ++s) for (unsigned t = 0; t < 7; ++t) for (unsigned c = 0; c < 128; ++c) {
        P.op = (uint16_t)(1 + t * 128 + c); P.how = 0; uint32_t nd = c24_node_need_0(P.op); if (nd == ~0u) break;
        P.src = (uint8_t)src[s][0]; P.a = src[s][1]; P.b = src[s][2]; P.need = base | nd | strict(d, n) | (s ? F_MALLOC : 0); compare();
    }
}
static void sweep(const uint8_t* d, size_t n, bool brief) { sweep_reader(d, n, brief); sweep_tree(d, n, brief); mc_tick(); }

/* ---- write programs: every tree of up to C_NODES objects ---- */
static uint8_t leaves[256]; static int nleaves; static int budget; static int few;
static void gen(int depth) {
    --budget;
    int na = depth < 3 ? (budget < 4 ? budget : 4) + 1 : 0, nm_ = depth < 3 ? (budget / 2 < 2 ? budget / 2 : 2) + 1 : 0;
    uint32_t k = mc_choose((uint32_t)(few + 2 * (na + nm_)), "object");
    if ((int)k < few) { uint8_t l = leaves[few == nleaves ? k : k * (uint32_t)nleaves / (uint32_t)few]; P.d[P.n++] = l; P.need |= c24_leaf_need_0(l); return; }
    k -= (uint32_t)few; bool built = k & 1; k >>= 1; int kids;
    if ((int)k < na) { kids = (int)k; P.d[P.n++] = built ? W_BARR : (uint8_t)(W_ARR0 + k); }
    else { k -= (uint32_t)na; kids = 2 * (int)k; P.d[P.n++] = built ? W_BMAP : (uint8_t)(W_MAP0 + k); }
    if (built) P.need |= F_BUILDER | F_MALLOC;
    int reserved = kids;
    for (int i = 0; i < kids; ++i) { --reserved; budget -= reserved; gen(depth + 1); budget += reserved; }
    P.d[P.n++] = W_END;
}
static void write_all(void) {
    uint32_t need = P.need; uint16_t n = P.n; bool builds = need & F_BUILDER;
    static const uint16_t snk[][3] = { {0, 4096, 0}, {1, 32, 0}, {1, 33, 0}, {1, 40, 0}, {1, 300, 0}, {2, 0, 0}, {3, 0, 0}, {4, 32, 1}, {4, 32, 2}, {0, 1, 0}, {0, 2, 0}, {0, 3, 0}, {0, 5, 0}, {0, 9, 0}, {0, 17, 0}, {0, 32, 0}, {0, 33, 0}, {0, 34, 0}, {0, 41, 0}, {0, 258, 0} };
    for (unsigned s = 0; s < sizeof snk / sizeof *snk; ++s) for (unsigned h = 0; h < 4; ++h) {
        /* whether a write that fails happens inside or after a build depends on the page size */
        if (snk[s][0] == 4 && builds) continue;
        P.src = (uint8_t)snk[s][0]; P.a = snk[s][1]; P.b = snk[s][2]; P.how = (uint8_t)h; P.n = n;
        P.need = need | (h & 1 ? F_COMPAT : 0) | (P.src == 2 ? F_MALLOC : 0) | (P.src == 3 ? F_STDIO : 0);
        if ((h & 1) && (need & F_EXT)) continue;           /* misuse */
        compare();
    }
}
/* ---- documents ---- */
static const uint8_t alpha[] = { 0x00, 0x05, 0x7f, 0x80, 0x81, 0x82, 0x90, 0x91, 0x92, 0xa0, 0xa1, 0xa2, 0xa3, 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xc5, 0xc7, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd3, 0xd4, 0xd6, 0xd9, 0xda, 0xdc, 0xde, 0xe0, 0xff, 'a', 'b' };
enum { NA = sizeof alpha };
typedef struct { const char* p; int n; } lit;
#define L(s) { s, (int)sizeof(s) - 1 }
static const lit obj[] = { L("\xc0"), L("\xc2"), L("\xc3"), L("\x05"), L("\x7f"), L("\xff"), L("\xe0"), L("\xcc\xff"), L("\xcc\x05"), L("\xcd\x01\x00"), L("\xce\x00\x01\x00\x00"), L("\xcf\x00\x00\x00\x01\x00\x00\x00\x00"), L("\xcf\xff\xff\xff\xff\xff\xff\xff\xff"), L("\xd0\xff"), L("\xd0\x05"), L("\xd1\xfe\xd4"), L("\xd2\xff\xfe\xee\x90"), L("\xd3\x80\x00\x00\x00\x00\x00\x00\x00"), L("\xd3\x00\x00\x00\x00\x00\x00\x00\x05"),
    L("\xca\x3f\xc0\x00\x00"), L("\xca\x7f\xc0\x00\x00"), L("\xcb\x40\x09\x21\xfb\x54\x44\x2d\x18"), L("\xcb\x80\x00\x00\x00\x00\x00\x00\x00"), L("\xcb\x7f\xf0\x00\x00\x00\x00\x00\x00"), L("\xa0"), L("\xa1" "a"), L("\xa2" "ab"), L("\xa3" "key"), L("\xa1\x00"), L("\xa1\xff"), L("\xa2\xc3\xa9"), L("\xd9\x02" "ab"), L("\xda\x00\x01" "a"), L("\xdb\x00\x00\x00\x00"), L("\xbf" "abcdefghijklmnopqrstuvwxyz01234"), L("\xd9\x23" "abcdefghijklmnopqrstuvwxyz012345678"),
    L("\xc4\x00"), L("\xc4\x02" "ab"), L("\xc5\x00\x01" "z"), L("\xc6\x00\x00\x00\x02" "xy"), L("\xd4\x05" "a"), L("\xd5\xff" "ab"), L("\xd6\xff\x00\x00\x00\x05"), L("\xd7\xff\x00\x00\x00\x04\x00\x00\x00\x09"), L("\xc7\x0c\xff\x00\x00\x00\x01\xff\xff\xff\xff\xff\xff\xff\xff"), L("\xc7\x00\x07"), L("\xc8\x00\x03\x09" "abc"), L("\xc9\x00\x00\x00\x01\x03" "q"), L("\xd8\x02" "abcdefghijklmnop"),
    L("\x90"), L("\x91\xc0"), L("\x92\x05\xa1" "a"), L("\x92\x91\x91\xc3\x80"), L("\x80"), L("\x81\xa2" "ab\x05"), L("\x82\xa1" "a\x01\xa3" "key\x02"), L("\x82\x05\xc0\xff\xc3"), L("\x82\xa1" "a\x01\xa1" "a\x02"), L("\xdc\x00\x01\xc0"), L("\xdd\x00\x00\x00\x01\xc0"), L("\xde\x00\x01\x05\xc2"), L("\xdf\x00\x00\x00\x01\xa0\x90"), L("\xdd\xff\xff\xff\xff"), L("\xdf\x80\x00\x00\x00"), L("\xdb\xff\xff\xff\xff"), L("\xc1") };
enum { NO = sizeof obj / sizeof *obj };
static void docs(int len) {                               /* every wrapping of every sequence of objects */
    static uint8_t d[600]; size_t n = 0, last = 0; uint32_t w = mc_choose(len == 1 ? 1 : 4, "wrapping");
    uint8_t wrap[] = { 0, (uint8_t)(0x90 + len), (uint8_t)(0x80 + (len + 1) / 2), 0xdc };
    if (w) d[n++] = wrap[w]; if (w == 3) { d[n++] = 0; d[n++] = (uint8_t)len; }
    for (int i = 0; i < len; ++i) {
        uint32_t k = len < 3 ? mc_choose(NO, "object") : mc_choose((NO + 2) / 3, "object") * 3; last = n;
        memcpy(d + n, obj[k].p, (size_t)obj[k].n); n += (size_t)obj[k].n;
    }
    if (w == 2 && len % 2) d[n++] = 0xc0;
    mc_state(mc_hash(2, d, n));
    if (len < 3) sweep(d, n, len > 1); else sweep_tree(d, n, true);
    /* and cut at every byte of the last object */
    if (len == 1 || mc_tier) for (size_t c = last; c < n && c < last + 20; ++c) sweep(d, c, true);
}
/* every byte of every fixed-width field, alone and among others: loads in builds with and without byte-swapping */
static void fieldbytes(void) {
    static const uint8_t hd[][2] = { {0xcd, 2}, {0xce, 4}, {0xcf, 8}, {0xd1, 2}, {0xd2, 4}, {0xd3, 8}, {0xca, 4}, {0xcb, 8} }, bv[] = {0x01, 0x7f, 0x80, 0x83, 0xff}, ov[] = {0x00, 0x01, 0x5a, 0xff};
    uint32_t h = mc_choose(8, "field"), at = mc_choose(hd[h][1], "byte"), b = mc_choose(5, "value");
    for (int o = 0; o < 4; ++o) {
        uint8_t d[9]; d[0] = hd[h][0]; memset(d + 1, ov[o], hd[h][1]); d[1 + at] = bv[b];
        if ((h == 6 && (d[1] & 0x7f) == 0x7f && d[2] & 0x80) || (h == 7 && (d[1] & 0x7f) == 0x7f && d[2] >= 0xf0)) continue;      /* the x87 quiets NaNs */
        mc_state(mc_hash(4, d, 1 + hd[h][1])); sweep(d, 1 + hd[h][1], true);
    }
}
void mc_body(void) {
    setup(); qn_ = 0; mc_shard_depth = 3;
    if (!nleaves) for (unsigned l = 0; l < 200; ++l) if (c24_leaf_need_0(l) != ~0u) leaves[nleaves++] = (uint8_t)l;
    switch (mc_choose(8, "part")) {
        case 7: fieldbytes(); break;
        case 0: {                                          /* every tree of write calls, all leaves */
            memset(&P, 0, sizeof P); P.kind = K_WRITE; budget = 2; few = nleaves; gen(0); mc_state(mc_hash(3, P.d, P.n)); write_all(); break; }
        case 1: {                                          /* larger trees, fewer leaves, filler in front */
            memset(&P, 0, sizeof P); P.kind = K_WRITE; budget = mc_tier ? C_NODES + 2 : C_NODES + 1; few = 5;
            uint32_t fill = mc_choose(mc_tier ? 8 : 3, "filler"); static const uint8_t fl[] = { 38, 0, 39, 1, 40, 2, 52, 51 };
            P.d[P.n++] = W_BARR; P.need |= F_BUILDER | F_MALLOC; if (fill) P.d[P.n++] = fl[fill]; gen(0); P.d[P.n++] = W_END; P.d[P.n++] = 0; mc_state(mc_hash(3, P.d, P.n)); write_all(); break; }
        case 2: { uint8_t d[2]; d[0] = (uint8_t)mc_choose(256, "byte"); sweep(d, 0, false); sweep(d, 1, false); for (unsigned b = 0; b < (mc_tier ? 256 : NA); ++b) { d[1] = mc_tier ? (uint8_t)b : alpha[b]; sweep(d, 2, true); } break; }
        case 3: { uint8_t d[4]; d[0] = mc_tier ? (uint8_t)mc_choose(256, "byte") : alpha[mc_choose(NA, "byte")]; d[1] = alpha[mc_choose(NA, "byte")]; for (unsigned b = 0; b < NA; ++b) { d[2] = alpha[b]; sweep_tree(d, 3, true); if (mc_tier) sweep_reader(d, 3, true); } break; }
        case 4: docs(1); break;
        case 5: docs(2); break;
        case 6: docs(3); break;
    }
    flush_server();
    mc_done();
}
