#define _GNU_SOURCE 1
#include "env.h"
#include "mc.h"
#include <errno.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define VF_ASAN 1
#endif
#ifdef VF_ASAN
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(p, n) ((void)0)
#define ASAN_UNPOISON_MEMORY_REGION(p, n) ((void)0)
#endif

int env_fault_budget, env_alloc_faults_on, env_io_faults_on, env_faults_injected, env_alloc_dead, env_io_dead;
const char* env_last_fault; static int env_write_dead;
size_t env_live_blocks, env_live_bytes, env_peak_bytes, env_max_request, env_total_bytes, env_alloc_calls;
int env_open_handles, env_file_buf;

/* --- allocator --- */
typedef struct hdr { struct hdr *next, *prev; size_t n; uint64_t magic; } hdr;
#define MAGIC 0x5eedfacecafef00dull
static hdr head = { &head, &head, 0, 0 };

/* very large blocks are stained at both ends only */
static void stain(void* p, int c, size_t n) {
    if (n <= (1u << 18)) { memset(p, c, n); return; }
    memset(p, c, 1u << 16); memset((char*)p + n - 4096, c, 4096);
}
static bool fault(int on, const char* what) {
    if (!on || env_fault_budget <= 0) return false;
    if (mc_deviate(&env_fault_budget, 2, what)) {
        ++env_faults_injected;
        env_last_fault = what;
        return true;
    }
    return false;
}

void* vf_malloc(size_t n) {
    ++env_alloc_calls;
    if (n > env_max_request) env_max_request = n;
    if (env_alloc_dead) return NULL;
    if (n > ((size_t)1 << 30)) return NULL;
    if (n == 0) return NULL;   /* as the C standard lets malloc() do */
    if (env_alloc_faults_on && env_fault_budget > 0) {
        uint32_t c = mc_deviate(&env_fault_budget, 3, "allocation: ok/fail/fail from now on");
        if (c) {
            ++env_faults_injected;
            env_last_fault = "allocation";
            if (c == 2) env_alloc_dead = 1;
            return NULL;
        }
    }
    hdr* h = (hdr*)malloc(sizeof(hdr) + n);
    if (!h) { fprintf(stderr, "harness out of memory\n"); _Exit(43); }
    h->n = n; h->magic = MAGIC;
    h->next = head.next; h->prev = &head; head.next->prev = h; head.next = h;
    stain(h + 1, 0xa5, n);
    ASAN_POISON_MEMORY_REGION(&h->magic, sizeof h->magic);
    ++env_live_blocks; env_live_bytes += n; env_total_bytes += n;
    if (env_live_bytes > env_peak_bytes) env_peak_bytes = env_live_bytes;
    return h + 1;
}

static hdr* check(void* p, const char* what) {
    hdr* h = (hdr*)p - 1;
    ASAN_UNPOISON_MEMORY_REGION(&h->magic, sizeof h->magic);
    if (h->magic != MAGIC) mc_fail("%s of a block that is not live (double free or bad pointer)", what);
    return h;
}

static void release(hdr* h) {
    h->next->prev = h->prev; h->prev->next = h->next;
    --env_live_blocks; env_live_bytes -= h->n;
    h->magic = 0;
    stain(h + 1, 0xdd, h->n);
    free(h);
}

void vf_free(void* p) {
    if (!p) return;
    release(check(p, "free"));
}

void* vf_realloc(void* p, size_t n) {
    if (!p) return vf_malloc(n);
    hdr* h = check(p, "realloc");
    size_t old = h->n;
    ASAN_POISON_MEMORY_REGION(&h->magic, sizeof h->magic);
    void* q = vf_malloc(n);   /* always moves, so stale pointers are noticed */
    if (!q) return NULL;
    memcpy(q, p, old < n ? old : n);
    release(check(p, "realloc"));
    return q;
}

void env_alloc_stats_reset(void) {
    env_peak_bytes = env_live_bytes; env_max_request = env_total_bytes = env_alloc_calls = 0;
}

/* --- files --- */
#define MAXFILES 8
static env_file files[MAXFILES]; static int nfiles;
typedef struct handle { env_file* f; size_t pos; bool append, rd, wr; FILE* fp; struct handle *next; bool open; char vbuf[64]; } handle;
static handle* handles;

env_file* env_file_find(const char* name) {
    for (int i = 0; i < nfiles; ++i) if (!strcmp(files[i].name, name)) return &files[i];
    return NULL;
}
env_file* env_file_make(const char* name, const void* data, size_t size, bool seekable) {
    env_file* f = env_file_find(name);
    if (!f) {
        if (nfiles == MAXFILES) { fprintf(stderr, "too many files\n"); _Exit(43); }
        f = &files[nfiles++];
        memset(f, 0, sizeof *f);
        snprintf(f->name, sizeof f->name, "%s", name);
    }
    free(f->data);
    f->data = (uint8_t*)malloc(size + 1); f->cap = size + 1; f->size = size;
    if (size) memcpy(f->data, data, size);
    f->exists = true; f->seekable = seekable; f->opens = f->closes = 0; f->reads = f->writes = 0; f->max_read_chunk = 0;
    return f;
}

static ssize_t c_read(void* c, char* buf, size_t n) {
    handle* h = (handle*)c;
    h->f->reads++;
    if (env_io_dead) { errno = EIO; return -1; }
    if (env_io_faults_on && env_fault_budget > 0) {
        uint32_t k = mc_deviate(&env_fault_budget, 3, "read: ok/fail/fail from now on");
        if (k) { ++env_faults_injected; env_last_fault = "read"; if (k == 2) env_io_dead = 1; errno = EIO; return -1; }
    }
    size_t left = h->pos < h->f->size ? h->f->size - h->pos : 0;
    if (n > left) n = left;
    if (h->f->max_read_chunk && n > h->f->max_read_chunk) n = h->f->max_read_chunk;
    memcpy(buf, h->f->data + h->pos, n);
    h->pos += n;
    return (ssize_t)n;
}
static ssize_t c_write(void* c, const char* buf, size_t n) {
    handle* h = (handle*)c;
    h->f->writes++;
    if (env_io_dead || env_write_dead) { errno = ENOSPC; return 0; }
    if (env_io_faults_on && env_fault_budget > 0) {
        /* fail outright, fail after half the bytes, fail for good */
        uint32_t k = mc_deviate(&env_fault_budget, 4, "write: ok/fail/short/fail from now on");
        if (k) {
            ++env_faults_injected; env_last_fault = "write";
            if (k == 3) env_io_dead = 1;
            if (k == 2 && n > 1) { env_write_dead = 1; n = n / 2; goto store; } /* disk full; closing works */
            errno = ENOSPC; return 0;
        }
    }
store:;
    env_file* f = h->f;
    if (h->pos + n > f->cap) { f->cap = (h->pos + n) * 2; f->data = (uint8_t*)realloc(f->data, f->cap); }
    if (h->pos > f->size) memset(f->data + f->size, 0, h->pos - f->size);
    memcpy(f->data + h->pos, buf, n);
    h->pos += n;
    if (h->pos > f->size) f->size = h->pos;
    return (ssize_t)n;
}
static int c_seek(void* c, off64_t* off, int whence) {
    handle* h = (handle*)c;
    if (!h->f->seekable) { errno = ESPIPE; return -1; }
    if (env_io_dead) { errno = EIO; return -1; }
    if (fault(env_io_faults_on, "seek")) { errno = EIO; return -1; }
    int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)h->pos : (int64_t)h->f->size;
    int64_t np = base + *off;
    if (np < 0) { errno = EINVAL; return -1; }
    h->pos = (size_t)np; *off = np;
    return 0;
}
static int c_close(void* c) {
    handle* h = (handle*)c;
    h->f->closes++;
    h->open = false; --env_open_handles;
    if (env_io_dead || fault(env_io_faults_on, "close")) { errno = EIO; return -1; }
    return 0;
}

static FILE* do_open(const char* name, const char* mode) {
    env_file* f = env_file_find(name);
    bool rd = mode[0] == 'r' || strchr(mode, '+'), wr = mode[0] != 'r' || strchr(mode, '+');
    if (!f || !f->exists) {
        if (mode[0] == 'r') { errno = ENOENT; return NULL; }
        f = env_file_make(name, NULL, 0, true);
    }
    if (mode[0] == 'w') f->size = 0;
    handle* h = (handle*)calloc(1, sizeof *h);
    h->f = f; h->rd = rd; h->wr = wr; h->open = true; h->next = handles; handles = h;
    if (mode[0] == 'a') h->pos = f->size;
    cookie_io_functions_t io = { rd ? c_read : NULL, wr ? c_write : NULL, c_seek, c_close };
    h->fp = fopencookie(h, mode, io);
    if (env_file_buf < 0) setvbuf(h->fp, NULL, _IONBF, 0); else if (env_file_buf > 0) setvbuf(h->fp, h->vbuf, _IOFBF, (size_t)(env_file_buf < 64 ? env_file_buf : 64)) /* glibc ignores the size without a buffer */;
    f->opens++; ++env_open_handles;
    return h->fp;
}
FILE* env_fopen(const char* name, const char* mode) {
    int b = env_fault_budget; env_fault_budget = 0;
    FILE* f = do_open(name, mode);
    env_fault_budget = b;
    return f;
}

FILE* __wrap_fopen(const char* name, const char* mode);
FILE* __wrap_fopen(const char* name, const char* mode) {
    if (env_io_dead) { errno = EIO; return NULL; }
    if (fault(env_io_faults_on, "open")) { errno = EMFILE; return NULL; }
    return do_open(name, mode);
}

void env_reset(void) {
    env_fault_budget = env_alloc_faults_on = env_io_faults_on = env_faults_injected = env_alloc_dead = env_io_dead = env_write_dead = 0;
    env_last_fault = "none";
    while (handles) {
        handle* h = handles; handles = h->next;
        if (h->open) fclose(h->fp);
        free(h);
    }
    for (int i = 0; i < nfiles; ++i) { free(files[i].data); }
    nfiles = 0;
    while (head.next != &head) {
        hdr* h = head.next;
        ASAN_UNPOISON_MEMORY_REGION(&h->magic, sizeof h->magic);
        release(h);
    }
    env_live_blocks = env_live_bytes = 0; env_open_handles = 0; env_file_buf = 0;
    env_alloc_stats_reset();
}
