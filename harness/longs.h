/* Strings of many lengths and, for each, the strings it is easily mistaken for: a length off by one, by 2^8 or by
 * 2^16, one byte different at either end, in the middle and around word boundaries. Shared by C17, C18 and C32. */
#ifndef LONGS_H
#define LONGS_H
#include "common.h"
static const uint32_t LLEN[] = {1, 2, 3, 4, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1024, 65535, 65536, 65537};
#define NLLEN ((uint32_t)(sizeof LLEN / sizeof *LLEN))
enum { NLVAR = 16 };
typedef struct { char* p; uint32_t n; bool there; } lvar;       /* p[n] is 0 */
static lvar LVAR[NLVAR]; static uint32_t lv_len;
static void lv_make(uint32_t L) {
    for (int k = 0; k < NLVAR; ++k) {
        int64_t n = L, flip = -1;
        switch (k) {
            case 1: n = (int64_t)L - 1; break; case 2: n = (int64_t)L + 1; break; case 3: n = (int64_t)L + 256; break; case 4: n = (int64_t)L - 256; break;
            case 5: n = (int64_t)L + 65536; break; case 6: n = (int64_t)L - 65536; break; case 7: n = 0; break; case 8: n = L / 2; break; case 9: n = 2 * (int64_t)L; break;
            case 10: flip = 0; break; case 11: flip = (int64_t)L - 1; break; case 12: flip = L / 2; break; case 13: flip = L > 8 ? 8 : -2; break; case 14: flip = L > 7 ? 7 : -2; break; case 15: flip = L > 255 ? 255 : -2; break;
        }
        free(LVAR[k].p); LVAR[k].p = NULL; LVAR[k].there = n >= 0 && flip != -2;
        if (!LVAR[k].there) continue;
        char* p = LVAR[k].p = (char*)malloc((size_t)n + 1); LVAR[k].n = (uint32_t)n;
        for (int64_t i = 0; i < n; ++i) p[i] = (char)('a' + (i * 7 + i / 256) % 26);
        if (flip >= 0) p[flip] ^= (char)0x80;
        p[n] = 0;
    }
    lv_len = L;
}
static bool lv_same(int a, int b) { return LVAR[a].n == LVAR[b].n && !memcmp(LVAR[a].p, LVAR[b].p, LVAR[a].n); }
#endif
