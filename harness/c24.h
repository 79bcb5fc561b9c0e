/* c24.h - one program of the corpus that every build of the library executes, and its trace. */
#ifndef C24_H
#define C24_H 1
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { K_WRITE, K_READ, K_NODE };
/* features of a build, and what a program needs */
enum { F_READER = 1, F_EXPECT = 2, F_NODE = 4, F_WRITER = 8, F_EXT = 16, F_COMPAT = 32, F_FLOAT = 64, F_DOUBLE = 128, F_MALLOC = 256, F_STDIO = 512, F_BUILDER = 1024, F_PRINT = 2048, F_64 = 4096 };
typedef struct {
    uint8_t kind, src, how, pad;     /* src: sink or source; how: style */
    uint16_t op;                     /* read, node: call */
    uint16_t a, b;                   /* sizes */
    uint16_t n;                      /* document bytes or write operations */
    uint32_t need;
    uint8_t d[600];
} c24_prog;
enum { TRACE_CAP = 4000, BATCH = 128 };
static inline uint64_t c24_hash(const uint8_t* p, size_t n) { uint64_t h = 14695981039346656037ull; for (size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 1099511628211ull; return (h ^ n) | 1; }
/* write operations */
enum { W_LEAVES = 0, W_END = 200, W_ARR0 = 201 /* .. 205: array of 0..4 */, W_MAP0 = 206 /* ..208: map of 0..2 */, W_BARR = 209, W_BMAP = 210 };
size_t c24_run(const c24_prog* p, uint8_t* out);
uint32_t c24_caps(void);
uint32_t c24_leaf_need(unsigned leaf);   /* ~0: no such leaf */
uint32_t c24_read_need(unsigned op);
uint32_t c24_node_need(unsigned op);
#ifdef __cplusplus
}
#endif
#endif
