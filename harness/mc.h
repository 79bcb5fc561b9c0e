/*
 * mc.h - a small explicit, exhaustive choice-point explorer ("stateless model
 * checker") for sequential code.
 *
 * A harness implements mc_body(). Each call of mc_body() is ONE execution of the
 * real library under a fully controlled environment; every nondeterministic
 * decision (which operation next, which argument, how many bytes the source
 * delivers, whether this allocation fails...) is taken by mc_choose(). The
 * explorer enumerates the tree of choices depth first and completely; nothing is
 * sampled. Work is distributed over forked workers by prefixes of the choice
 * sequence, so every leaf is executed by exactly one worker.
 */
#ifndef MC_H
#define MC_H 1
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>

#ifdef __cplusplus
extern "C" {
#endif

enum { MC_QUICK = 0, MC_THOROUGH = 1 };
extern int mc_tier;              /* MC_QUICK or MC_THOROUGH */
extern int mc_verbose;           /* 1 while replaying: mc_log() prints */
extern int mc_shard_depth;       /* choices that form a unit of work (default 3) */

/* supplied by the harness */
void mc_body(void);

/* returns a value in [0, n); n must be >= 1 and a function of earlier choices */
uint32_t mc_choose(uint32_t n, const char* what);

/* a bounded-deviation choice: 0 is the default answer, anything else costs one
 * deviation from *budget; when the budget is used up only 0 is explored. */
uint32_t mc_deviate(int* budget, uint32_t n, const char* what);

void mc_fail(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void mc_log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_step(uint64_t n);        /* operations applied in lock step to model and code */
void mc_eval(uint64_t n);        /* cases evaluated inside one execution */
void mc_nontrivial(uint64_t n); /* of those, non-trivial by the harness's rule */
void mc_state(uint64_t hash);    /* a reference-model state that was visited */
void mc_outcome(uint64_t hash);  /* an observed behaviour (for vacuity detection) */
void mc_note(int i, uint64_t v); /* i in 0..3: the current inner-loop case, reported on failure */
void mc_tick(void);              /* heartbeat for long inner loops */

/* true if this defect is listed in the known-findings file (then it is counted and
 * reported, not failed) */
bool mc_known(const char* key);

/* finish the current execution immediately (it still counts) */
void mc_done(void) __attribute__((noreturn));

/* identity for harness-side hashing */
uint64_t mc_hash(uint64_t h, const void* p, size_t n);
static inline uint64_t mc_mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h;
}

#define MC_CHECK(cond, ...) do { if (!(cond)) mc_fail(__VA_ARGS__); } while (0)

/* called before every execution (environment reset); see env.c */
void env_reset(void);

#ifdef __cplusplus
}
#endif
#endif
