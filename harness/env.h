/* env.h - the environment seams: allocator ledger and virtual stdio files. */
#ifndef ENV_H
#define ENV_H 1
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif

/* --- allocator --- */
void* vf_malloc(size_t n);
void* vf_realloc(void* p, size_t n);
void vf_free(void* p);

extern int env_fault_budget;      /* deviations left; 0: no faults are injected */
extern int env_alloc_faults_on;   /* allocation failures are among the faults */
extern int env_io_faults_on;      /* I/O failures are among the faults */
extern int env_faults_injected;   /* how many happened in this execution */
extern int env_alloc_dead;        /* every allocation fails from now on */
extern int env_io_dead;           /* every I/O operation fails from now on */
extern const char* env_last_fault;
extern size_t env_live_blocks, env_live_bytes, env_peak_bytes, env_max_request, env_total_bytes, env_alloc_calls;
void env_alloc_stats_reset(void);

/* --- virtual files (fopencookie), reachable through fopen() --- */
typedef struct env_file {
    char name[64];
    uint8_t* data; size_t size, cap;
    bool exists;
    bool seekable;
    int opens, closes;      /* handle ledger */
    size_t reads, writes;   /* calls of the cookie functions */
    size_t max_read_chunk;  /* at most this many bytes per read call (0: no limit) */
} env_file;
env_file* env_file_make(const char* name, const void* data, size_t size, bool seekable);
env_file* env_file_find(const char* name);
FILE* env_fopen(const char* name, const char* mode);   /* harness-side open, no faults */
extern int env_open_handles;
extern int env_file_buf;   /* stdio buffering of files opened from now on: 0 default, -1 none, n: n bytes */

#ifdef __cplusplus
}
#endif
#endif
