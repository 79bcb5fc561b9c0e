/* c24_server.c - runs programs for a harness of another word size: reads c24_prog records, writes traces. */
#include "c24.h"
#include "env.h"
#include "mc.h"
#include <unistd.h>
#include <stdarg.h>
int mc_tier, mc_verbose, mc_shard_depth;
uint32_t mc_choose(uint32_t n, const char* what) { (void)n; (void)what; return 0; }
uint32_t mc_deviate(int* b, uint32_t n, const char* what) { (void)b; (void)n; (void)what; return 0; }
void mc_fail(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap); abort(); }
void mc_log(const char* fmt, ...) { (void)fmt; }
void mc_step(uint64_t n) { (void)n; }
void mc_eval(uint64_t n) { (void)n; }
uint64_t mc_hash(uint64_t h, const void* p, size_t n) { (void)p; (void)n; return h; }
#define S_(k) extern size_t c24_run_##k(const c24_prog*, uint8_t*); extern uint32_t c24_caps_##k(void);
VF_VARIANTS(S_)
static size_t all(void* p, size_t n) { size_t k = 0; while (k < n) { ssize_t r = read(0, (char*)p + k, n - k); if (r <= 0) _exit(0); k += (size_t)r; } return k; }
static void put(const void* p, size_t n) { size_t k = 0; while (k < n) { ssize_t r = write(1, (const char*)p + k, n - k); if (r <= 0) _exit(1); k += (size_t)r; } }
int main(void) {
    static c24_prog p; static uint8_t out[TRACE_CAP + 64]; uint32_t caps[] = {
#define C_(k) c24_caps_##k(),
        VF_VARIANTS(C_) };
    static size_t (*const run[])(const c24_prog*, uint8_t*) = {
#define R_(k) c24_run_##k,
        VF_VARIANTS(R_) };
    uint32_t nv = sizeof caps / sizeof *caps; put(&nv, 4); put(caps, sizeof caps);
    for (;;) {
        uint32_t which; all(&which, 4);
        if (which < 1000) { all(&p, sizeof p - sizeof p.d); all(p.d, p.n); env_reset(); uint32_t n = (uint32_t)run[which](&p, out); put(&n, 4); put(out, n); continue; }
        static uint64_t ans[BATCH * 8]; uint32_t k = which - 1000, j = 0;
        for (uint32_t i = 0; i < k; ++i) {
            all(&p, sizeof p - sizeof p.d); all(p.d, p.n);
            for (uint32_t v = 0; v < nv; ++v) { ans[j] = 0; if (!(p.need & ~caps[v])) { env_reset(); size_t n = run[v](&p, out); ans[j] = c24_hash(out, n); } ++j; }
        }
        put(ans, j * 8);
    }
}
