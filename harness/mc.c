#define _GNU_SOURCE 1
#include "mc.h"
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAX_CHOICES 8192
#define MAX_WORKERS 64
#define CLAIM_BITS (1u << 26)

int mc_tier = MC_QUICK;
int mc_verbose = 0;
int mc_shard_depth = 3;
int mc_nworkers = 8;

enum { SLOT_RUN = 0, SLOT_DONE, SLOT_FAIL, SLOT_DIVERGE };

typedef struct {
    _Atomic int status;
    _Atomic uint64_t beat;
    uint64_t execs, steps, evals, nontriv, choices_made, max_depth, skipped;
    uint32_t pos;
    uint32_t depth;
    uint32_t c[MAX_CHOICES], n[MAX_CHOICES];
    uint64_t note[4];
    uint32_t nsample;
    struct { uint32_t len; uint32_t c[256]; } sample[3];
    char msg[4096];
} slot_t;

typedef struct {
    _Atomic uint64_t nstates, noutcomes;
    _Atomic int saturated;
    _Atomic int stop;
    _Atomic uint32_t known_hits[32];
} shared_t;

static slot_t* slots;
static slot_t* me;
static shared_t* shared;
static _Atomic uint32_t* claims;
static _Atomic uint64_t* stateset; static uint64_t stateset_mask;
static _Atomic uint64_t* outset; static uint64_t outset_mask;
static jmp_buf driver_jmp;
static uint64_t prefix_ordinal;
static int replaying;
static uint32_t* replay_c; static uint32_t replay_len;
static int run_owned;      /* this execution's prefix was claimed by us */
static int in_body;

uint64_t mc_hash(uint64_t h, const void* p, size_t n) {
    const unsigned char* b = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ull; }
    return mc_mix(h, n);
}

static bool set_insert(_Atomic uint64_t* set, uint64_t mask, uint64_t h, _Atomic uint64_t* count) {
    if (h == 0) h = 1;
    uint64_t i = (h * 0x9e3779b97f4a7c15ull) >> 20;
    for (int probe = 0; probe < 64; ++probe, ++i) {
        uint64_t cur = atomic_load_explicit(&set[i & mask], memory_order_relaxed);
        if (cur == h) return false;
        if (cur == 0) {
            uint64_t expect = 0;
            if (atomic_compare_exchange_strong(&set[i & mask], &expect, h)) {
                atomic_fetch_add(count, 1);
                return true;
            }
            if (expect == h) return false;
        }
    }
    atomic_store(&shared->saturated, 1);
    return false;
}

void mc_state(uint64_t h) { if (!replaying) set_insert(stateset, stateset_mask, h, &shared->nstates); }
void mc_outcome(uint64_t h) { if (!replaying) set_insert(outset, outset_mask, h, &shared->noutcomes); }
void mc_step(uint64_t n) { me->steps += n; }
void mc_eval(uint64_t n) { me->evals += n; atomic_fetch_add_explicit(&me->beat, 1, memory_order_relaxed); }
void mc_nontrivial(uint64_t n) { me->nontriv += n; }
void mc_tick(void) { atomic_fetch_add_explicit(&me->beat, 1, memory_order_relaxed); }
void mc_note(int i, uint64_t v) { me->note[i & 3] = v; }

void mc_log(const char* fmt, ...) {
    if (!mc_verbose) return;
    va_list a; va_start(a, fmt); vprintf(fmt, a); va_end(a); putchar('\n'); fflush(stdout);
}

void mc_fail(const char* fmt, ...) {
    va_list a; va_start(a, fmt); vsnprintf(me->msg, sizeof me->msg, fmt, a); va_end(a);
    atomic_store(&me->status, SLOT_FAIL);
    if (replaying) {
        printf("REPLAY-FAIL: %s\n", me->msg);
        fflush(stdout);
    }
    _exit(41);
}

static void diverge(const char* what, uint32_t n, uint32_t was) {
    snprintf(me->msg, sizeof me->msg, "replayed prefix diverged at choice %u (%s): %u alternatives, previously %u",
        me->pos, what, n, was);
    atomic_store(&me->status, SLOT_DIVERGE);
    if (replaying) { printf("REPLAY-DIVERGE: %s\n", me->msg); fflush(stdout); }
    _exit(42);
}

bool mc_known(const char* key) {
    static char list[4096]; static int loaded;
    if (!loaded) { const char* e = getenv("MC_KNOWN"); snprintf(list, sizeof list, ",%s,", e ? e : ""); loaded = 1; }
    char pat[128]; snprintf(pat, sizeof pat, ",%s,", key);
    char* at = strstr(list, pat);
    if (!at) return false;
    int idx = 0; for (char* p = list + 1; p <= at; ++p) if (*p == ',') ++idx;
    if (idx < 32) atomic_fetch_add(&shared->known_hits[idx], 1);
    return true;
}

void mc_done(void) { longjmp(driver_jmp, 1); }

uint32_t mc_choose(uint32_t n, const char* what) {
    if (n == 0) { fprintf(stderr, "mc_choose(0) %s\n", what); _exit(43); }
    uint32_t p = me->pos;
    if (p >= MAX_CHOICES) { fprintf(stderr, "too many choices\n"); _exit(43); }
    if (replaying) {
        uint32_t c = p < replay_len ? replay_c[p] : 0;
        if (c >= n) diverge(what, n, c);
        me->c[p] = c; me->n[p] = n; me->pos++;
        if (mc_verbose) mc_log("  choice %u: %s = %u of %u", p, what, c, n);
        return c;
    }
    if (p < me->depth) {
        if (me->n[p] != n) diverge(what, n, me->n[p]);
    } else {
        me->n[p] = n; me->c[p] = 0; me->depth = p + 1;
    }
    me->pos = p + 1;
    /* shard boundary: claim this prefix or skip it */
    if ((int)me->pos == mc_shard_depth && !run_owned) {
        uint64_t k = prefix_ordinal;
        if (k >= CLAIM_BITS) { fprintf(stderr, "too many shards\n"); _exit(43); }
        uint32_t bit = 1u << (k & 31);
        if (atomic_fetch_or(&claims[k >> 5], bit) & bit) {
            longjmp(driver_jmp, 2);
        }
        run_owned = 1;
    }
    return me->c[p];
}

uint32_t mc_deviate(int* budget, uint32_t n, const char* what) {
    if (*budget <= 0 || n <= 1) return 0;
    uint32_t c = mc_choose(n, what);
    if (c) --*budget;
    return c;
}

static void worker(void) {
    me->depth = 0;
    prefix_ordinal = 0;
    int prefix_state = 0;   /* 0: current prefix undecided, 1: owned */
    for (;;) {
        if (atomic_load_explicit(&shared->stop, memory_order_relaxed)) break;
        me->pos = 0;
        run_owned = prefix_state;
        env_reset();
        int r = setjmp(driver_jmp);
        if (r == 0) {
            in_body = 1;
            mc_body();
        }
        in_body = 0;
        bool counted = false;
        if (r == 2) {
            me->skipped++;
            me->depth = (uint32_t)mc_shard_depth;
            prefix_state = 0;
        } else {
            if ((int)me->pos < mc_shard_depth) {
                /* short execution: everybody runs it, one counts it */
                uint64_t k = prefix_ordinal;
                uint32_t bit = 1u << (k & 31);
                counted = !(atomic_fetch_or(&claims[k >> 5], bit) & bit);
            } else counted = true;
            if (me->pos < me->depth) diverge("end of execution", me->pos, me->depth);
        }
        atomic_fetch_add_explicit(&me->beat, 1, memory_order_relaxed);
        if (counted) {
            me->execs++;
            me->choices_made += me->pos;
            if (me->pos > me->max_depth) me->max_depth = me->pos;
            /* keep the 1st, 64th and 4096th execution of a worker as samples */
            if ((me->execs == 1 || me->execs == 64 || me->execs == 4096) && me->nsample < 3 && me->pos <= 256) {
                me->sample[me->nsample].len = me->pos;
                memcpy(me->sample[me->nsample].c, me->c, me->pos * sizeof(uint32_t));
                me->nsample++;
            }
        }
        if (r != 2) me->depth = me->pos;
        /* backtrack */
        uint32_t old = me->depth;
        while (me->depth > 0 && me->c[me->depth - 1] + 1 >= me->n[me->depth - 1]) me->depth--;
        if (me->depth == 0) { atomic_store(&me->status, SLOT_DONE); break; }
        me->c[me->depth - 1]++;
        if ((int)me->depth <= mc_shard_depth) {
            /* the shard prefix changes */
            prefix_ordinal++;
            prefix_state = 0;
        } else {
            prefix_state = 1;
        }
        (void)old;
    }
    env_reset();
}

static void* shm(size_t n) {
    void* p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(43); }
    return p;
}

static void print_trace(const slot_t* s) {
    printf("\"choices\":[");
    for (uint32_t i = 0; i < s->pos; ++i) printf("%s%u", i ? "," : "", s->c[i]);
    printf("],\"notes\":[%llu,%llu,%llu,%llu]", (unsigned long long)s->note[0], (unsigned long long)s->note[1],
        (unsigned long long)s->note[2], (unsigned long long)s->note[3]);
}

static void print_json_str(const char* s) {
    putchar('"');
    for (; *s; ++s) {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') printf("\\%c", c);
        else if (c < 0x20 || c >= 0x7f) printf("\\u%04x", c);
        else putchar(c);
    }
    putchar('"');
}

int main(int argc, char** argv) {
    double hang_s = 60;
    const char* replay = NULL;
    int single = 0;
    for (int i = 1; i < argc; ++i) {
        if (!strcmp(argv[i], "--tier") && i + 1 < argc) mc_tier = !strcmp(argv[++i], "thorough");
        else if (!strcmp(argv[i], "--jobs") && i + 1 < argc) mc_nworkers = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--hang") && i + 1 < argc) hang_s = atof(argv[++i]);
        else if (!strcmp(argv[i], "--replay") && i + 1 < argc) replay = argv[++i];
        else if (!strcmp(argv[i], "--quiet")) single = 1;
        else { fprintf(stderr, "bad argument %s\n", argv[i]); return 43; }
    }
    if (mc_nworkers > MAX_WORKERS) mc_nworkers = MAX_WORKERS;
    if (mc_nworkers < 1) mc_nworkers = 1;
    slots = shm(sizeof(slot_t) * MAX_WORKERS);
    shared = shm(sizeof *shared);
    me = &slots[0];

    if (replay) {
        replaying = 1;
        mc_verbose = !single;
        replay_c = malloc((strlen(replay) + 2) * sizeof *replay_c);
        const char* p = replay;
        while (*p) {
            char* e; unsigned long v = strtoul(p, &e, 10);
            if (e == p) break;
            replay_c[replay_len++] = (uint32_t)v;
            p = *e == ',' ? e + 1 : e;
        }
        run_owned = 1;
        env_reset();
        if (setjmp(driver_jmp) == 0) mc_body();
        env_reset();
        printf("REPLAY-OK: %u choices\n", me->pos);
        return 0;
    }

    claims = shm(CLAIM_BITS / 8);
    stateset_mask = ((uint64_t)1 << (mc_tier ? 27 : 24)) - 1;
    stateset = shm((stateset_mask + 1) * 8);
    outset_mask = ((uint64_t)1 << 22) - 1;
    outset = shm((outset_mask + 1) * 8);

    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    pid_t pid[MAX_WORKERS]; uint64_t lastbeat[MAX_WORKERS] = {0}; double lastchange[MAX_WORKERS];
    int live = 0;
    fflush(stdout);
    for (int w = 0; w < mc_nworkers; ++w) {
        pid[w] = fork();
        if (pid[w] < 0) { perror("fork"); return 43; }
        if (pid[w] == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); me = &slots[w]; worker(); fflush(NULL); _exit(0); }
        lastchange[w] = 0; ++live;
    }
    int bad = -1; const char* badkind = NULL; int badstatus = 0;
    while (live > 0) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        clock_gettime(CLOCK_MONOTONIC, &t1);
        double now = (double)(t1.tv_sec - t0.tv_sec) + (double)(t1.tv_nsec - t0.tv_nsec) / 1e9;
        if (p > 0) {
            int w = 0; while (w < mc_nworkers && pid[w] != p) ++w;
            pid[w] = 0; --live;
            int s = atomic_load(&slots[w].status);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 43) { fprintf(stderr, "worker reported an internal error\n"); 
                for (int k = 0; k < mc_nworkers; ++k) if (pid[k]) kill(pid[k], SIGKILL);
                return 43; }
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && bad < 0) {
                bad = w; badstatus = st;
                badkind = s == SLOT_FAIL ? "fail" : s == SLOT_DIVERGE ? "diverge" : "crash";
                if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) badkind = "killed";
                atomic_store(&shared->stop, 1);
            }
            continue;
        }
        for (int w = 0; w < mc_nworkers; ++w) if (pid[w]) {
            uint64_t b = atomic_load(&slots[w].beat);
            if (b != lastbeat[w]) { lastbeat[w] = b; lastchange[w] = now; }
            else if (now - lastchange[w] > hang_s) {
                kill(pid[w], SIGKILL);
                if (bad < 0) { bad = w; badkind = "hang"; atomic_store(&shared->stop, 1); }
                lastchange[w] = now;
            }
        }
        struct timespec sl = {0, 2000000}; nanosleep(&sl, NULL);
    }
    clock_gettime(CLOCK_MONOTONIC, &t1);
    double wall = (double)(t1.tv_sec - t0.tv_sec) + (double)(t1.tv_nsec - t0.tv_nsec) / 1e9;
    uint64_t execs = 0, steps = 0, evals = 0, nontriv = 0, choices = 0, maxd = 0;
    for (int w = 0; w < mc_nworkers; ++w) {
        execs += slots[w].execs; steps += slots[w].steps; evals += slots[w].evals; nontriv += slots[w].nontriv; choices += slots[w].choices_made;
        if (slots[w].max_depth > maxd) maxd = slots[w].max_depth;
    }
    printf("{\"executions\":%llu,\"steps\":%llu,\"evals\":%llu,\"nontrivial\":%llu,\"choices\":%llu,\"max_choices\":%llu,"
           "\"states\":%llu,\"outcomes\":%llu,\"saturated\":%d,\"wall\":%.3f,\"exhausted\":%s",
        (unsigned long long)execs, (unsigned long long)steps, (unsigned long long)evals, (unsigned long long)nontriv, (unsigned long long)choices,
        (unsigned long long)maxd, (unsigned long long)shared->nstates, (unsigned long long)shared->noutcomes,
        shared->saturated, wall, bad < 0 ? "true" : "false");
    printf(",\"known_hits\":[");
    for (int i = 0; i < 32; ++i) printf("%s%u", i ? "," : "", shared->known_hits[i]);
    printf("],\"samples\":[");
    int first = 1;
    for (int w = 0; w < mc_nworkers; ++w) for (uint32_t k = 0; k < slots[w].nsample; ++k) {
        printf("%s[", first ? "" : ","); first = 0;
        for (uint32_t i = 0; i < slots[w].sample[k].len; ++i) printf("%s%u", i ? "," : "", slots[w].sample[k].c[i]);
        printf("]");
    }
    printf("]");
    if (bad >= 0) {
        printf(",\"bad\":{\"kind\":\"%s\",\"status\":%d,", badkind, badstatus);
        print_trace(&slots[bad]);
        printf(",\"message\":");
        print_json_str(slots[bad].msg);
        printf("}");
    }
    printf("}\n");
    return bad >= 0 ? 1 : 0;
}
