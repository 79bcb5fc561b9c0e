/* C28: the fallback memory and string helpers (MPACK_STDLIB=0, no builtins) against plain definitions. */
#include "common.h"
#if MPACK_STDLIB
#error this harness is for MPACK_STDLIB=0
#endif
#define AR 48
static void pat(uint8_t* p, size_t n, unsigned seed) { for (size_t i = 0; i < n; ++i) p[i] = (uint8_t)(i * 37 + seed * 101 + (i >> 3)); }
static int sgn(int v) { return v < 0 ? -1 : v > 0; }
static int ref_cmp(const uint8_t* a, const uint8_t* b, size_t n) { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }

static void cmp1(const uint8_t* a, const uint8_t* b, size_t n) {
    mc_eval(1);
    int w = ref_cmp(a, b, n), g = mpack_memcmp(a, b, n);
    mc_nontrivial(w != 0);
    if (sgn(g) != w) mc_fail("memcmp([%s], [%s], %zu) = %d", hexs(a, n), hexs(b, n), n, g);
}
static size_t align16(size_t v) { return (v + 15) & ~(size_t)15; }

void mc_body(void) {
    mc_shard_depth = 2;
    static const uint8_t al[5] = {0x00, 0x01, 0x7f, 0x80, 0xff};
    switch (mc_choose(6, "helper")) {
        case 0: { /* memmove: every (source, destination, length) in an arena, between blocks of exact size */
            size_t n = mc_choose(AR + 1, "length");
            for (size_t s = 0; s + n <= AR; ++s) for (size_t d = 0; d + n <= AR; ++d) {
                uint8_t x[AR], y[AR]; pat(x, AR, (unsigned)n); memcpy(y, x, AR);
                uint8_t t[AR]; for (size_t i = 0; i < n; ++i) t[i] = y[s + i];
                for (size_t i = 0; i < n; ++i) y[d + i] = t[i];
                mc_eval(1); mc_nontrivial(n && s != d);
                if (mpack_memmove(x + d, x + s, n) != x + d) mc_fail("memmove does not return its destination");
                for (size_t i = 0; i < AR; ++i) if (x[i] != y[i]) mc_fail("memmove of %zu bytes from +%zu to +%zu: wrong byte at +%zu", n, s, d, i);
            }
            break; }
        case 1: { /* memcpy/memmove: every length and both alignments, exact-size blocks */
            size_t n = mc_choose(mc_tier ? 1200 : 300, "length");
            for (size_t a = 0; a < 16; ++a) for (size_t b = 0; b < 16; ++b) {
                uint8_t* s = (uint8_t*)malloc(a + n + 1); uint8_t* d = (uint8_t*)malloc(b + n + 1);
                pat(s, a + n + 1, 3); pat(d, b + n + 1, 77);
                uint8_t before = d[b ? b - 1 : 0], after = d[b + n];
                for (int mv = 0; mv < 2; ++mv) {
                    mc_eval(1); mc_nontrivial(n != 0);
                    if (n) memset(d + b, 0x5a, n);
                    void* r = mv ? mpack_memmove(d + b, s + a, n) : mpack_memcpy(d + b, s + a, n);
                    if (r != d + b) mc_fail("%s does not return its destination", mv ? "memmove" : "memcpy");
                    for (size_t i = 0; i < n; ++i) if (d[b + i] != s[a + i]) mc_fail("%s of %zu bytes, offsets %zu/%zu: wrong byte %zu", mv ? "memmove" : "memcpy", n, a, b, i);
                    if ((b && d[b - 1] != before) || d[b + n] != after) mc_fail("%s of %zu bytes wrote outside", mv ? "memmove" : "memcpy", n);
                }
                free(s); free(d);
            }
            break; }
        case 2: { /* memcmp: all pairs of strings of up to 4 bytes over an alphabet */
            uint32_t i = mc_choose(625, "left");
            uint8_t a[4], b[4]; for (int k = 0; k < 4; ++k) { a[k] = al[i % 5]; i /= 5; }
            for (uint32_t j = 0; j < 625; ++j) { uint32_t q = j; for (int k = 0; k < 4; ++k) { b[k] = al[q % 5]; q /= 5; } for (size_t n = 0; n <= 4; ++n) cmp1(a, b, n); }
            break; }
        case 3: { /* memcmp: lengths, alignments, position of the first difference, and a second opposite one behind it */
            size_t n = mc_choose(mc_tier ? 200 : 70, "length");
            for (size_t oa = 0; oa < 8; ++oa) for (size_t ob = 0; ob < 8; ++ob) {
                uint8_t* a = (uint8_t*)malloc(n + 8) ; uint8_t* b = (uint8_t*)malloc(n + 8);
                uint8_t* ax = a + 8 - oa; uint8_t* bx = b + 8 - ob; (void)align16;
                size_t na = n + oa - 8 + 0;  (void)na;
                /* blocks end exactly at the compared range when oa == 8 - 0; use the range [8-oa, n+8) */
                size_t m = n + (oa < ob ? oa : ob);
                for (size_t k = 0; k < m; ++k) ax[k] = bx[k] = (uint8_t)(k * 31 + 7);
                cmp1(ax, bx, m);
                for (size_t p = 0; p < m; ++p) for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) {
                    if (x == y) continue;
                    uint8_t keep = ax[p]; ax[p] = al[x]; bx[p] = al[y];
                    cmp1(ax, bx, m);
                    if (p + 1 < m) { uint8_t k2 = ax[p + 1]; ax[p + 1] = al[y]; bx[p + 1] = al[x]; cmp1(ax, bx, m); ax[p + 1] = bx[p + 1] = k2; }
                    cmp1(ax, bx, p);                 /* equal before the difference */
                    ax[p] = bx[p] = keep;
                }
                free(a); free(b);
            }
            break; }
        case 4: { /* memset: every byte value (and ints beyond a byte), lengths, alignments */
            int c = (int)mc_choose(262, "value"); if (c >= 256) { static const int v[6] = {256, 257, 511, -1, -128, 0x7f80}; c = v[c - 256]; }
            for (size_t n = 0; n <= (size_t)(mc_tier ? 260 : 70); ++n) for (size_t a = 0; a < 16; a += 1) {
                uint8_t* d = (uint8_t*)malloc(a + n + 1); pat(d, a + n + 1, 9);
                uint8_t after = d[a + n], before = d[a ? a - 1 : 0];
                mc_eval(1); mc_nontrivial(n != 0);
                if (mpack_memset(d + a, c, n) != d + a) mc_fail("memset does not return its destination");
                for (size_t i = 0; i < n; ++i) if (d[a + i] != (uint8_t)c) mc_fail("memset(%d, %zu): wrong byte %zu", c, n, i);
                if (d[a + n] != after || (a && d[a - 1] != before)) mc_fail("memset(%d, %zu) wrote outside", c, n);
                free(d);
            }
            break; }
        default: { /* strlen */
            size_t n = mc_choose(mc_tier ? 1200 : 300, "length");
            for (size_t a = 0; a < 16; ++a) for (size_t f = 0; f < 5; ++f) {
                char* s = (char*)malloc(a + n + 1);
                for (size_t i = 0; i < n; ++i) { s[a + i] = (char)al[(i + f) % 5]; if (!s[a + i]) s[a + i] = (char)0x81; }
                s[a + n] = 0; mc_eval(1); mc_nontrivial(n != 0);
                if (mpack_strlen(s + a) != n) mc_fail("strlen of %zu bytes is %zu", n, mpack_strlen(s + a));
                free(s);
            }
            break; }
    }
}
