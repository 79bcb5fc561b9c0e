/* Objects at and beyond 2^31 and 2^32 bytes (C05, C21, C23): the source really holds that many bytes (one 32 MB file
 * mapped again and again), so every length, offset, size and allocation request has to be right beyond 32 bits.
 * HU=5: trees; HU=21: copying and allocating reads; HU=23: skipping and discarding. */
#define _GNU_SOURCE
#include "common.h"
#include <sys/mman.h>
#include <unistd.h>
#ifndef HU
#define HU 21
#endif
#define STEP ((size_t)32 << 20)
static char* region; static char hist[300];
#define BAD(fmt, ...) mc_fail("%s: " fmt, hist, ##__VA_ARGS__)

static void map_region(size_t total) {
    char path[] = "/tmp/vf_hugeXXXXXX"; int fd = mkstemp(path); if (fd < 0) { perror("mkstemp"); exit(3); }
    unlink(path);
    if (ftruncate(fd, (off_t)STEP)) { perror("ftruncate"); exit(3); }
    char* w = (char*)mmap(NULL, STEP, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (w == MAP_FAILED) { perror("mmap"); exit(3); }
    memset(w, 'a', STEP); munmap(w, STEP);
    size_t n = (total + STEP - 1) / STEP * STEP;
    region = (char*)mmap(NULL, n + STEP, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (region == MAP_FAILED) { perror("mmap"); exit(3); }
    for (size_t o = 0; o < n; o += STEP) if (mmap(region + o, STEP, PROT_READ, MAP_PRIVATE | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); exit(3); }
    close(fd);
}
static struct { size_t at, n; } puts_[16]; static int nputs;
static void unput(void) { while (nputs) { --nputs; memset(region + puts_[nputs].at, 'a', puts_[nputs].n); } }
static void put(size_t at, const void* p, size_t n) {
    if (nputs == 16) abort();
    puts_[nputs].at = at; puts_[nputs++].n = n;
    size_t a = at & ~(size_t)4095, e = (at + n + 4095) & ~(size_t)4095;
    if (mprotect(region + a, e - a, PROT_READ | PROT_WRITE)) { perror("mprotect"); exit(3); }
    memcpy(region + at, p, n);
}
static size_t header(size_t at, int type, uint32_t len, int8_t ext) {
    uint8_t h[6] = {type == 0 ? 0xdb : type == 1 ? 0xc6 : 0xc9, (uint8_t)(len >> 24), (uint8_t)(len >> 16), (uint8_t)(len >> 8), (uint8_t)len, (uint8_t)ext};
    size_t n = type == 2 ? 6 : 5; put(at, h, n); return n;
}
static const uint32_t LEN[] = {0xffffffffu, 0xfffffffeu, 0x80000000u, 0x7fffffffu};
enum { NLEN = 4 };
static const int8_t EXT = -77;

#if HU == 5 || HU == 21
static mpack_tree_t T; static mpack_node_data_t pool[16];
static void tree_on(size_t n) { mpack_tree_init_pool(&T, region, n, pool, 16); }
#endif

#if HU == 5
/* one object, optionally in an array with a second huge one and a nil after it; ending early, exactly or late */
void mc_body(void) {
    mc_shard_depth = 5;
    int type = (int)mc_choose(MPACK_EXTENSIONS ? 3 : 2, "type"); uint32_t len = LEN[mc_choose(NLEN, "length")]; int form = (int)mc_choose(3, "form"); int end = (int)mc_choose(4, "end"); int kind = (int)mc_choose(3, "kind");
    if (end == 3 && form == 0) return;
    size_t total = 0, off1, off2 = 0; uint32_t len2 = form == 2 ? 0xffffffffu : 0;
    if (!region) map_region((size_t)9 << 30);
    unput();
    if (form) { uint8_t h = form == 1 ? 0x92 : 0x93; put(0, &h, 1); total = 1; }
    total += header(total, type, len, EXT); off1 = total; total += len;
    if (form == 2) { total += header(total, 1, len2, EXT); off2 = total; total += len2; }
    if (form) { uint8_t h = 0x2a; put(total, &h, 1); ++total; }
    size_t given = end == 0 ? total : end == 1 ? total + 1000 : end == 2 ? total - 1 : total - 2;
    snprintf(hist, sizeof hist, "%s of %u bytes, form %d, %zu of %zu bytes given, %s", type == 0 ? "str" : type == 1 ? "bin" : "ext", len, form, given, total, kind == 0 ? "pool" : kind == 1 ? "pages" : "size limit");
    mc_state(mc_hash(1, hist, strlen(hist))); env_reset();
    bool ok = end < 2;
    size_t limits[2] = {SIZE_MAX, SIZE_MAX}; int nl = 1; if (kind == 2) { nl = 2; limits[0] = total; limits[1] = total - 1; }
    for (int l = 0; l < nl; ++l) {
        if (kind == 0) tree_on(given); else mpack_tree_init_data(&T, region, given);
        if (kind == 2) mpack_tree_set_limits(&T, limits[l], SIZE_MAX);
        mpack_tree_parse(&T);
        mpack_node_t root = mpack_tree_root(&T); mpack_error_t e = mpack_tree_error(&T);
        mc_eval(1); mc_step(1); mc_outcome((uint64_t)e);
        if (kind == 2 && l == 1) {
            if (ok && e != mpack_error_too_big) BAD("limit one byte short: %s", ES(e));
            if (!ok && e == mpack_ok) BAD("accepted");
        } else if (!ok) { if (e != mpack_error_invalid) BAD("%s", ES(e)); }
        else {
            mc_nontrivial(1);
            if (e) BAD("refused: %s", ES(e));
            if (mpack_tree_size(&T) != total) BAD("the size is %zu", mpack_tree_size(&T));
            mpack_node_t n = root;
            if (form) { if (mpack_node_array_length(root) != (size_t)form + 1) BAD("%zu elements", mpack_node_array_length(root)); n = mpack_node_array_at(root, 0); }
            if (mpack_node_type(n) != (type == 0 ? mpack_type_str : type == 1 ? mpack_type_bin :
#if MPACK_EXTENSIONS
                mpack_type_ext
#else
                mpack_type_nil
#endif
                )) BAD("type %s", mpack_type_to_string(mpack_node_type(n)));
            if (mpack_node_data_len(n) != len || mpack_node_data(n) != region + off1) BAD("%u bytes at offset %td, should be at %zu", mpack_node_data_len(n), mpack_node_data(n) - region, off1);
            if (type == 0 && (mpack_node_strlen(n) != len || mpack_node_str(n) != region + off1)) BAD("string of %zu bytes", mpack_node_strlen(n));
            if (type == 1 && (mpack_node_bin_size(n) != len || mpack_node_bin_data(n) != region + off1)) BAD("bin of %zu bytes", mpack_node_bin_size(n));
#if MPACK_EXTENSIONS
            if (type == 2 && mpack_node_exttype(n) != EXT) BAD("exttype %d", mpack_node_exttype(n));
#endif
            if (form == 2) { mpack_node_t m = mpack_node_array_at(root, 1); if (mpack_node_bin_size(m) != len2 || mpack_node_bin_data(m) != region + off2) BAD("second: %zu bytes at offset %td, should be at %zu", mpack_node_bin_size(m), mpack_node_bin_data(m) - region, off2); }
            if (form && mpack_node_u8(mpack_node_array_at(root, (size_t)form)) != 0x2a) BAD("the element behind is not 42");
            if (mpack_tree_error(&T)) BAD("access: %s", ES(mpack_tree_error(&T)));
            if (env_max_request > 100000) BAD("%zu bytes are requested", env_max_request);
        }
        if (e && (mpack_tree_size(&T) != 0 || mpack_node_type(root) != mpack_type_nil)) BAD("failed with size %zu", mpack_tree_size(&T));
        mpack_tree_destroy(&T);
        if (env_live_blocks) BAD("%zu blocks are left", env_live_blocks);
    }
    mc_log("%s\n", hist);
}
#endif

#if HU == 21
static char small[64];
static void want(mpack_error_t e, mpack_error_t w, const char* what) { mc_eval(1); mc_step(1); if (w != mpack_error_too_big) mc_nontrivial(1); mc_outcome((uint64_t)w); if (e != w) BAD("%s flags %s instead of %s", what, ES(e), ES(w)); }
void mc_body(void) {
    mc_shard_depth = 3;
    int type = (int)mc_choose(MPACK_EXTENSIONS ? 3 : 2, "type"); uint32_t len = LEN[mc_choose(NLEN, "length")]; int api = (int)mc_choose(24, "function");
    if (!region) map_region(((size_t)4 << 30) + STEP);
    unput();
    size_t hdr = header(0, type, len, EXT), total = hdr + len; uint8_t nilb = 0xc0; put(total, &nilb, 1);
    env_reset(); memset(small, 0x5a, sizeof small);
    /* limits: at, below and above the length; every 32-bit truncation of these is far smaller or larger */
    size_t lim[] = {SIZE_MAX, (size_t)1 << 33, ((size_t)1 << 32) + 1, (size_t)1 << 32, 0xffffffffu, 0xfffffffeu, len, (size_t)len + 1, (size_t)len - 1, 16};
    int li = (int)mc_choose(10, "limit"); size_t max = lim[li];
    if ((api == 1 || api == 2) && type == 0 && len < max && (len < 0xfffffffeu || (li != 0 && li != 7))) return;     /* (these read all of it) */
    snprintf(hist, sizeof hist, "%s of %u bytes, function %d, limit %zu", type == 0 ? "str" : type == 1 ? "bin" : "ext", len, api, max);
    mc_state(mc_hash(1, hist, strlen(hist)));
    /* a request for more than 2^30 bytes is refused by the allocator: reaching it with the exact size is what is required */
    if (api < 6) {
        tree_on(total); mpack_tree_parse(&T); mpack_node_t n = mpack_tree_root(&T); if (mpack_tree_error(&T)) BAD("parse: %s", ES(mpack_tree_error(&T)));
        size_t need = api == 0 ? len : (size_t)len + 1; env_max_request = 0;
        switch (api) {
            case 0: { char* p = mpack_node_data_alloc(n, max); if (p) BAD("data_alloc returns data"); want(mpack_tree_error(&T), len > max ? mpack_error_too_big : mpack_error_memory, "data_alloc"); break; }
            case 1: case 2: {
                char* p = api == 1 ? mpack_node_cstr_alloc(n, max) : mpack_node_utf8_cstr_alloc(n, max); if (p) BAD("cstr_alloc returns data");
                want(mpack_tree_error(&T), type ? mpack_error_type : need > max ? mpack_error_too_big : mpack_error_memory, "cstr_alloc"); break; }
            case 3: { if (max > sizeof small) max = sizeof small; size_t k = mpack_node_copy_data(n, small, max); if (k) BAD("copies %zu bytes", k); want(mpack_tree_error(&T), mpack_error_too_big, "copy_data"); break; }
            case 4: { if (max > sizeof small) max = sizeof small; size_t k = mpack_node_copy_utf8(n, small, max); if (k) BAD("copies %zu bytes", k); want(mpack_tree_error(&T), type ? mpack_error_type : mpack_error_too_big, "copy_utf8"); break; }
            case 5: { if (max > sizeof small) max = sizeof small; mpack_node_copy_cstr(n, small, max); if (small[0]) BAD("copies"); want(mpack_tree_error(&T), type ? mpack_error_type : mpack_error_too_big, "copy_cstr"); break; }
        }
        if (mpack_tree_error(&T) == mpack_error_memory && env_max_request != need) BAD("%zu bytes are requested instead of %zu", env_max_request, need);
        if (mpack_tree_error(&T) != mpack_error_memory && env_max_request) BAD("%zu bytes are requested", env_max_request);
        mpack_tree_destroy(&T);
    } else {
        mpack_reader_t r; mpack_reader_init_data(&r, region, total + 1); mpack_error_t e; size_t sz = 77; int8_t et = 55; env_max_request = 0; bool alloc = false; size_t need = len; const char* p = NULL;
        size_t lim32 = max > 0xffffffffu ? 0xffffffffu : max; if (max > sizeof small) max = sizeof small;
        switch (api) {
            case 6: case 7:     /* a limit counts the terminator; it is capped at 2^32-1 */
                p = api == 6 ? mpack_expect_cstr_alloc(&r, lim32 == 0xffffffffu ? lim[0] : lim32) : mpack_expect_utf8_cstr_alloc(&r, lim32); need = (size_t)len + 1; alloc = true;
                want(mpack_reader_error(&r), type ? mpack_error_type : len > lim32 - 1 ? mpack_error_too_big : mpack_error_memory, "expect_cstr_alloc"); break;
            case 8: p = mpack_expect_bin_alloc(&r, lim32, &sz); alloc = true; if (sz) BAD("size %zu", sz); want(mpack_reader_error(&r), type != 1 || len > lim32 ? mpack_error_type : mpack_error_memory, "expect_bin_alloc"); break;
#if MPACK_EXTENSIONS
            case 9: p = mpack_expect_ext_alloc(&r, &et, lim32, &sz); alloc = true; if (sz || et) BAD("size %zu type %d", sz, et); want(mpack_reader_error(&r), type != 2 || len > lim32 ? mpack_error_type : mpack_error_memory, "expect_ext_alloc"); break;
            case 10: { size_t k = mpack_expect_ext_buf(&r, &et, small, max); if (k || et) BAD("returns %zu type %d", k, et); want(mpack_reader_error(&r), type == 2 ? mpack_error_too_big : mpack_error_type, "expect_ext_buf"); break; }
#endif
            case 11: { size_t k = mpack_expect_str_buf(&r, small, max); if (k) BAD("returns %zu", k); want(mpack_reader_error(&r), type == 0 ? mpack_error_too_big : mpack_error_type, "expect_str_buf"); break; }
            case 12: { size_t k = mpack_expect_bin_buf(&r, small, max); if (k) BAD("returns %zu", k); want(mpack_reader_error(&r), type == 1 ? mpack_error_too_big : mpack_error_type, "expect_bin_buf"); break; }
            case 13: mpack_expect_cstr(&r, small, max); if (small[0]) BAD("a string is left"); want(mpack_reader_error(&r), type == 0 ? mpack_error_too_big : mpack_error_type, "expect_cstr"); break;
            case 14: mpack_expect_utf8_cstr(&r, small, max); if (small[0]) BAD("a string is left"); want(mpack_reader_error(&r), type == 0 ? mpack_error_too_big : mpack_error_type, "expect_utf8_cstr"); break;
            case 15: { size_t k = mpack_expect_utf8(&r, small, max); if (k) BAD("returns %zu", k); want(mpack_reader_error(&r), type == 0 ? mpack_error_too_big : mpack_error_type, "expect_utf8"); break; }
            case 16: { mpack_tag_t g = mpack_read_tag(&r); if (mpack_tag_bytes(&g) != len) BAD("tag of %u", mpack_tag_bytes(&g)); p = mpack_read_bytes_alloc(&r, len); alloc = true; want(mpack_reader_error(&r), mpack_error_memory, "read_bytes_alloc"); break; }
            case 17: { mpack_read_tag(&r); p = mpack_read_bytes_inplace(&r, len); want(mpack_reader_error(&r), mpack_ok, "read_bytes_inplace"); if (p != region + hdr) BAD("in place at %td", p - region); p = NULL; goto behind; }
            case 18: { if (li || type || len != 0xffffffffu) { mpack_reader_init_error(&r, mpack_ok); return; } mpack_read_tag(&r); p = mpack_read_utf8_inplace(&r, len); want(mpack_reader_error(&r), mpack_ok, "read_utf8_inplace"); if (p != region + hdr) BAD("in place at %td", p - region); p = NULL; goto behind; }
            case 19: { uint32_t k = mpack_expect_str_max(&r, (uint32_t)lim32); bool ok = type == 0 && len <= lim32; want(mpack_reader_error(&r), ok ? mpack_ok : type == 0 ? mpack_error_too_big : mpack_error_type, "expect_str_max"); if (k != (ok ? len : 0)) BAD("returns %u", k); if (!ok) break; mpack_skip_bytes(&r, len); goto behind; }
            case 20: { uint32_t k = mpack_expect_bin_max(&r, (uint32_t)lim32); bool ok = type == 1 && len <= lim32; want(mpack_reader_error(&r), ok ? mpack_ok : mpack_error_type, "expect_bin_max"); if (k != (ok ? len : 0)) BAD("returns %u", k); if (!ok) break; mpack_skip_bytes(&r, len); goto behind; }
            case 21: { mpack_read_tag(&r); mpack_read_cstr(&r, small, max, len); if (small[0]) BAD("a string is left"); want(mpack_reader_error(&r), mpack_error_too_big, "read_cstr"); break; }
            case 22: { mpack_expect_str_length(&r, (uint32_t)lim32); bool ok = type == 0 && lim32 == len; want(mpack_reader_error(&r), ok ? mpack_ok : mpack_error_type, "expect_str_length"); break; }
            case 23: { mpack_expect_str_match(&r, "b", 1); want(mpack_reader_error(&r), mpack_error_type, "expect_str_match"); break; }
            default: mpack_reader_init_error(&r, mpack_ok); return;
        behind:
            switch (type) { case 0: mpack_done_str(&r); break; case 1: mpack_done_bin(&r); break;
#if MPACK_EXTENSIONS
                default: mpack_done_ext(&r); break;
#endif
            }
            if (mpack_reader_remaining(&r, NULL) != 1) BAD("%zu bytes remain instead of 1", mpack_reader_remaining(&r, NULL));
            mpack_expect_nil(&r); if (mpack_reader_error(&r)) BAD("the nil behind: %s", ES(mpack_reader_error(&r)));
        }
        if (p) BAD("data is returned");
        e = mpack_reader_error(&r);
        if (e == mpack_error_memory && env_max_request != need) BAD("%zu bytes are requested instead of %zu", env_max_request, need);
        if ((!alloc || e != mpack_error_memory) && env_max_request > 4096) BAD("%zu bytes are requested", env_max_request);
        for (size_t i = 16; i < sizeof small; ++i) if (max <= 16 && small[i] != 0x5a) BAD("byte %zu of the destination is written", i);
        mpack_reader_destroy(&r);
    }
    if (env_live_blocks) BAD("%zu blocks are left", env_live_blocks);
    mc_log("%s\n", hist);
}
#endif

#if HU == 23
/* sources: memory; a fill function that never writes more than it must (its bytes are all 'a' apart from the header
 * and the end, so a misplaced position shows); the same with a skip function */
static size_t total, pos, filled, skipped; static uint8_t front[16]; static size_t nfront; static uint8_t back[4]; static size_t nback; static size_t chunk;
static size_t fill(mpack_reader_t* r, char* b, size_t n) {
    (void)r; if (n > chunk) n = chunk; if (n > total - pos) n = total - pos;
    /* only the header and the end differ from the padding; in between it need not be stored again */
    if (n <= 4096 || filled < ((size_t)4 << 20) || total - pos < ((size_t)4 << 20)) memset(b, 'a', n);
    for (size_t i = 0; i < n && pos + i < nfront; ++i) b[i] = (char)front[pos + i];
    if (pos + n > total - nback) for (size_t i = pos >= total - nback ? 0 : total - nback - pos; i < n; ++i) b[i] = (char)back[pos + i - (total - nback)];
    pos += n; filled += n; return n;
}
static void skip(mpack_reader_t* r, size_t n) { if (n > total - pos) { mpack_reader_flag_error(r, mpack_error_io); return; } pos += n; skipped += n; }
void mc_body(void) {
    mc_shard_depth = 4;
    int type = (int)mc_choose(MPACK_EXTENSIONS ? 3 : 2, "type"); uint32_t len = LEN[mc_choose(NLEN, "length")]; int src = (int)mc_choose(4, "source"), way = (int)mc_choose(4, "way"), nest = (int)mc_choose(2, "nested"), shortby = (int)mc_choose(3, "short by");
    if (!region) map_region(((size_t)4 << 30) + STEP);
    unput();
    nfront = 0; if (nest) { uint8_t h = 0x92; put(0, &h, 1); front[nfront++] = h; }
    size_t hdr = header(nfront, type, len, EXT); memcpy(front + nfront, region + nfront, hdr); nfront += hdr;
    total = nfront + len; nback = 0; if (nest) back[nback++] = 0x2b; size_t msg = total + nback; back[nback++] = 0x2a; put(total, back, nback); total += nback;
    total -= (size_t)shortby; nback = nback > (size_t)shortby ? nback - (size_t)shortby : 0;
    snprintf(hist, sizeof hist, "%s of %u bytes%s, %s source of %zu bytes, way %d", type == 0 ? "str" : type == 1 ? "bin" : "ext", len, nest ? " in an array" : "", src == 0 ? "memory" : src == 1 ? "fill" : src == 2 ? "fill and skip" : "4 KB fill", total, way);
    mc_state(mc_hash(1, hist, strlen(hist)));
    env_reset(); pos = filled = skipped = 0; chunk = src == 3 ? 4096 : (size_t)1 << 20; static char buf[1 << 20]; if (src) memset(buf, 'a', sizeof buf);
    mpack_reader_t r; if (src == 0) mpack_reader_init_data(&r, region, total);
    else { mpack_reader_init(&r, buf, sizeof buf, 0); mpack_reader_set_fill(&r, fill); if (src == 2) mpack_reader_set_skip(&r, skip); }
    bool whole = total >= msg;
    if (way == 0) mpack_discard(&r);
    else {
        if (nest && mpack_expect_array(&r) != 2) BAD("array: %s", ES(mpack_reader_error(&r)));
        mpack_tag_t g = mpack_read_tag(&r); if (mpack_tag_bytes(&g) != len) BAD("tag of %u bytes", mpack_tag_bytes(&g));
        if (way == 1) mpack_skip_bytes(&r, len);
        else if (way == 2) { mpack_skip_bytes(&r, len / 3); mpack_skip_bytes(&r, len - len / 3); }
        else { char tmp[5]; mpack_read_bytes(&r, tmp, 5); if (memcmp(tmp, "aaaaa", 5)) BAD("first bytes"); mpack_skip_bytes(&r, len - 10); mpack_read_bytes(&r, tmp, 5); if (!mpack_reader_error(&r) && memcmp(tmp, "aaaaa", 5)) BAD("last bytes"); }
        if (!mpack_reader_error(&r)) switch (type) { case 0: mpack_done_str(&r); break; case 1: mpack_done_bin(&r); break;
#if MPACK_EXTENSIONS
            default: mpack_done_ext(&r); break;
#endif
        }
        if (nest) { uint8_t v = mpack_expect_u8(&r); if (!mpack_reader_error(&r) && v != 0x2b) BAD("the second element is %02x", v); if (!mpack_reader_error(&r)) mpack_done_array(&r); }
    }
    mpack_error_t e = mpack_reader_error(&r); mc_eval(1); mc_step(1); mc_outcome((uint64_t)e);
    if (whole) {
        mc_nontrivial(1); if (e) BAD("%s", ES(e));
        if (src == 0 && mpack_reader_remaining(&r, NULL) != total - msg) BAD("%zu bytes remain", mpack_reader_remaining(&r, NULL));
        if (total > msg) { uint8_t v = mpack_expect_u8(&r); if (mpack_reader_error(&r) || v != 0x2a) BAD("the object behind is %02x (%s)", v, ES(mpack_reader_error(&r))); }
        if (src && filled + skipped != total) BAD("%zu bytes filled and %zu skipped of %zu", filled, skipped, total);
        mpack_discard(&r); if (!mpack_reader_error(&r)) BAD("another object is found at the end");
    } else if (!e) BAD("incomplete data is accepted");
    mpack_reader_destroy(&r); mc_log("%s\n", hist);
}
#endif

#if HU == 1
/* strings and data whose length is at and beyond what a message can hold, through a flushing writer */
static size_t flushed; static uint8_t first[256]; static bool direct;
static void on_flush(mpack_writer_t* w, const char* d, size_t n) {
    (void)w; for (size_t i = 0; i < n && flushed + i < sizeof first; ++i) first[flushed + i] = (uint8_t)d[i];
    if (n > 100000) { if (direct) BAD("the data is passed on twice"); direct = true; if (d < region || d > region + 64) BAD("other data is passed on"); }
    flushed += n;
}
void mc_body(void) {
    mc_shard_depth = 3;
    static const size_t L[] = {0x7ffffffeu, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu, (size_t)1 << 32, ((size_t)1 << 32) + 1, ((size_t)1 << 32) + 40, ((size_t)1 << 32) + 300};
    int api = (int)mc_choose(10, "function"), li = (int)mc_choose(9, "length"); size_t len = L[li]; int before = (int)mc_choose(3, "bytes before");
    static const char* NAME[] = {"write_cstr", "write_cstr_or_nil", "write_utf8_cstr", "write_utf8_cstr_or_nil", "write_str", "write_utf8", "write_bin", "write_ext", "start_bin + write_bytes", "write_object_bytes"};
    if (api >= 4 && api < 9 && len > 0xffffffffu) return;
    if ((api == 2 || api == 3 || api == 5) && (before || (li != 4 && li != 6))) return;     /* (these read all of it) */
    if (!region) map_region(((size_t)4 << 30) + STEP);
    unput(); put(len, "", 1);
    snprintf(hist, sizeof hist, "%s of %zu bytes after %d bytes", NAME[api], len, before * 20); mc_state(mc_hash(1, hist, strlen(hist)));
    env_reset(); flushed = 0; direct = false; memset(first, 0, sizeof first);
    char buf[64]; mpack_writer_t w; mpack_writer_init(&w, buf, sizeof buf); mpack_writer_set_flush(&w, on_flush);
    for (int i = 0; i < before * 20; ++i) mpack_write_u8(&w, 7);
    switch (api) {
        case 0: mpack_write_cstr(&w, region); break;
        case 1: mpack_write_cstr_or_nil(&w, region); break;
        case 2: mpack_write_utf8_cstr(&w, region); break;
        case 3: mpack_write_utf8_cstr_or_nil(&w, region); break;
        case 4: mpack_write_str(&w, region, (uint32_t)len); break;
        case 5: mpack_write_utf8(&w, region, (uint32_t)len); break;
        case 6: mpack_write_bin(&w, region, (uint32_t)len); break;
#if MPACK_EXTENSIONS
        case 7: mpack_write_ext(&w, EXT, region, (uint32_t)len); break;
#endif
        case 8: mpack_start_bin(&w, (uint32_t)len); mpack_write_bytes(&w, region, len); mpack_finish_bin(&w); break;
        case 9: mpack_write_object_bytes(&w, region, len); break;
        default: mpack_writer_destroy(&w); return;
    }
    bool ok = api >= 4 || len <= 0xffffffffu; mpack_error_t e = mpack_writer_error(&w);
    mc_eval(1); mc_step(1); mc_outcome((uint64_t)e); if (ok) mc_nontrivial(1);
    if (e != (ok ? mpack_ok : mpack_error_invalid)) BAD("%s", ES(e));
    if (mpack_writer_destroy(&w) != e) BAD("destroy");
    if (!ok) { if (flushed) BAD("%zu bytes are flushed", flushed); return; }
    uint8_t h[6] = {api == 6 || api == 8 ? 0xc6 : api == 7 ? 0xc9 : 0xdb, (uint8_t)(len >> 24), (uint8_t)(len >> 16), (uint8_t)(len >> 8), (uint8_t)len, (uint8_t)EXT};
    size_t nh = api == 9 ? 0 : api == 7 ? 6 : 5, b = (size_t)before * 20;
    if (flushed != b + nh + len) BAD("%zu bytes are flushed instead of %zu", flushed, b + nh + len);
    if (memcmp(first + b, h, nh)) BAD("header [%s] instead of [%s]", hexs(first + b, nh), hexs(h, nh));
    for (size_t i = b + nh; i < sizeof first; ++i) if (first[i] != 'a') BAD("byte %zu is %02x", i, first[i]);
    mc_log("%s\n", hist);
}
#endif

#if HU == 19
/* one bad byte at the very end (or none) of strings of 2^31 and 2^32 bytes */
void mc_body(void) {
    mc_shard_depth = 3;
    uint32_t len = mc_choose(2, "length") ? 0x80000003u : 0xffffffffu; int bad = (int)mc_choose(5, "bad"), api = (int)mc_choose(6, "function");
    static const char* BADS[] = {"", "\x80", "\xc3", "\xed\xa0\x80", ""};     /* (4: a NUL) */
    if (bad == 2 || bad == 3) { if (mc_tier == 0) return; }
    if (mc_tier == 0 && len != 0xffffffffu && (bad != 1 || api == 1 || api > 3)) return;
    if (!region) map_region(((size_t)4 << 30) + STEP);
    unput(); size_t hdr = header(0, 0, len, 0); if (bad == 4) put(hdr + len - 1, "", 1); else if (bad) put(hdr + len - strlen(BADS[bad]), BADS[bad], strlen(BADS[bad]));
    static const char* NAME[] = {"node_check_utf8", "node_check_utf8_cstr", "read_utf8_inplace", "write_utf8", "node_cstr_alloc", "node_utf8_cstr_alloc"};
    snprintf(hist, sizeof hist, "%s of %u bytes ending in [%s]", NAME[api], len, bad == 4 ? "00" : hexs(BADS[bad], strlen(BADS[bad]))); mc_state(mc_hash(1, hist, strlen(hist)));
    env_reset(); mpack_error_t e, want; bool utf8 = bad == 0 || bad == 4;
    if (api == 2) {
        mpack_reader_t r; mpack_reader_init_data(&r, region, hdr + len); mpack_read_tag(&r); const char* p = mpack_read_utf8_inplace(&r, len); e = mpack_reader_error(&r); want = utf8 ? mpack_ok : mpack_error_type;
        if (p != (utf8 ? region + hdr : NULL)) BAD("returns %p", (void*)p);
        if (!e) mpack_done_str(&r); mpack_reader_destroy(&r);
    } else if (api == 3) {
        char buf[64]; mpack_writer_t w; mpack_writer_init(&w, buf, sizeof buf); mpack_write_utf8(&w, region + hdr, len); e = mpack_writer_error(&w); want = utf8 ? mpack_error_too_big : mpack_error_invalid; mpack_writer_destroy(&w);
    } else {
        mpack_node_data_t pool[4]; mpack_tree_t t; mpack_tree_init_pool(&t, region, hdr + len, pool, 4); mpack_tree_parse(&t); mpack_node_t n = mpack_tree_root(&t); bool ok;
        if (api == 0) { mpack_node_check_utf8(n); ok = utf8; want = ok ? mpack_ok : mpack_error_type; }
        else if (api == 1) { mpack_node_check_utf8_cstr(n); ok = bad == 0; want = ok ? mpack_ok : mpack_error_type; }
        else { char* p = api == 4 ? mpack_node_cstr_alloc(n, SIZE_MAX) : mpack_node_utf8_cstr_alloc(n, SIZE_MAX); ok = api == 4 ? bad != 4 : bad == 0; want = ok ? mpack_error_memory : mpack_error_type; if (p) BAD("returns data"); }
        e = mpack_tree_error(&t); mpack_tree_destroy(&t);
    }
    mc_eval(1); mc_step(1); if (utf8) mc_nontrivial(1); mc_outcome((uint64_t)e);
    if (e != want) BAD("%s instead of %s", ES(e), ES(want));
    mc_log("%s\n", hist);
}
#endif

#if HU == 13 || HU == 14
/* tracking builds: byte counts that no longer fit in 32 bits, of which the low half is what is open */
void mc_body(void) {
    mc_shard_depth = 3;
    int type = (int)mc_choose(MPACK_EXTENSIONS ? 3 : 2, "type"); static const uint32_t OPEN[] = {0, 1, 3, 40, 0x7fffffffu, 0xfffffffeu, 0xffffffffu}; uint32_t open = OPEN[mc_choose(7, "open")]; int api = (int)mc_choose(6, "function"); int hi = (int)mc_choose(5, "high half"); int low = (int)mc_choose(3, "low half");
    static const size_t HI[] = {0, (size_t)1 << 32, (size_t)1 << 33, (size_t)1 << 40, (size_t)1 << 63};
    size_t count = HI[hi] + open - (size_t)low; if (hi == 0 && (count > 0xffffffffu || low)) return;
    bool ok = hi == 0;
    if (!region) map_region(((size_t)4 << 30) + STEP);
    unput(); env_reset();
    snprintf(hist, sizeof hist, "%s of %u bytes, function %d with %zu bytes", type == 0 ? "str" : type == 1 ? "bin" : "ext", open, api, count); mc_state(mc_hash(1, hist, strlen(hist)));
#if HU == 13
    if (api > 1) return;
    char buf[200]; mpack_writer_t w; mpack_writer_init(&w, buf, sizeof buf);
    switch (type) { case 0: mpack_start_str(&w, open); break; case 1: mpack_start_bin(&w, open); break;
#if MPACK_EXTENSIONS
        default: mpack_start_ext(&w, EXT, open); break;
#endif
    }
    if (api == 1 && open) mpack_write_bytes(&w, region, 1), count -= (hi != 0 || open) ? 1 : 0;
    mpack_write_bytes(&w, region, count); mpack_error_t e = mpack_writer_error(&w), want = !ok ? mpack_error_bug : open > 150 ? mpack_error_too_big : mpack_ok;
    if (e == mpack_ok) { switch (type) { case 0: mpack_finish_str(&w); break; case 1: mpack_finish_bin(&w); break;
#if MPACK_EXTENSIONS
        default: mpack_finish_ext(&w); break;
#endif
    } }
    if (mpack_writer_destroy(&w) != e) BAD("destroy");
#else
    size_t hdr = header(0, type, open, EXT); mpack_reader_t r; mpack_reader_init_data(&r, region, hdr + open); mpack_read_tag(&r); const void* p = NULL; bool strcall = false, rem = false; env_max_request = 0;
    switch (api) {
        case 0: mpack_skip_bytes(&r, count); break;
        case 1: p = mpack_read_bytes_inplace(&r, count); rem = true; break;
        case 2: if (open > 100) { mpack_reader_init_error(&r, mpack_ok); return; } p = mpack_read_utf8_inplace(&r, count); strcall = rem = true; break;
        case 3: if (ok && open > 100) { mpack_reader_flag_error(&r, mpack_error_data); mpack_reader_destroy(&r); return; } { char* q = mpack_read_bytes_alloc(&r, count); if (q && !ok) BAD("returns data"); if (q) vf_free(q); } break;
        case 4: { char s[200]; mpack_read_cstr(&r, s, sizeof s, count); strcall = true; if (!ok && s[0]) BAD("a string is left"); break; }
        case 5: { char s[200]; mpack_read_utf8_cstr(&r, s, sizeof s, count); strcall = true; if (!ok && s[0]) BAD("a string is left"); break; }
    }
    mpack_error_t e = mpack_reader_error(&r), want = !ok || (strcall && type) ? mpack_error_bug : (api >= 4 && open > 199) ? mpack_error_too_big : mpack_ok;
    if (rem && want == mpack_ok && p != region + hdr) BAD("in place at %p", p);
    if (rem && want != mpack_ok && p) BAD("data is returned");
    if (env_max_request > 200) BAD("%zu bytes are requested", env_max_request);
    if (e == mpack_ok) { switch (type) { case 0: mpack_done_str(&r); break; case 1: mpack_done_bin(&r); break;
#if MPACK_EXTENSIONS
        default: mpack_done_ext(&r); break;
#endif
    } }
    if (mpack_reader_destroy(&r) != e) BAD("destroy");
#endif
    mc_eval(1); mc_step(1); mc_outcome((uint64_t)e); if (!ok) mc_nontrivial(1);
    /* (a C-string read of more than the buffer holds is wrong in two ways) */
    if (e != want && !(HU == 14 && api >= 4 && count > 199 && e == mpack_error_too_big)) BAD("%s instead of %s", ES(e), ES(want));
    mc_log("%s\n", hist);
}
#endif

#if HU == 22
/* arrays and maps of so many elements that the size of their nodes does not fit in a size_t of 32 bits (or in memory):
 * the elements are all there, so only the size computation decides. The allocator gives at most 2^30 bytes. */
static mpack_tree_t T; static unsigned handled;
static void on_error(mpack_tree_t* t, mpack_error_t e) { (void)t; (void)e; ++handled; }
void mc_body(void) {
    mc_shard_depth = 2;
    static const uint32_t B[] = { 1u << 27, 1u << 28, 3u << 27, 1u << 29 }; static const int D[] = {0, 1, -1, 2, -2, 3, 16, 100, 4096, 1 << 20};
    int big = (int)mc_choose(4, "nodes"), d = (int)mc_choose(10, "difference"), map = (int)mc_choose(2, "map"), before = (int)mc_choose(4, "before"), handler = (int)mc_choose(2, "handler");
    uint32_t nodes = B[big] + (uint32_t)D[d], count = map ? (nodes + 1) / 2 : nodes; nodes = map ? count * 2 : count;
    if (!region) map_region(((size_t)1 << 29) + STEP);
    unput();
    uint8_t h[16]; size_t n = 0;      /* nothing before; the only element; behind another one; behind a nested array */
    if (before == 1) h[n++] = 0x91;
    if (before == 2) { h[n++] = 0x92; h[n++] = 0xc0; }
    if (before == 3) { h[n++] = 0x93; h[n++] = 0x92; h[n++] = 1; h[n++] = 2; }
    h[n++] = map ? 0xdf : 0xdd; for (int i = 3; i >= 0; --i) h[n++] = (uint8_t)(count >> (8 * i));
    put(0, h, n); size_t total = n + nodes + (before == 3);
    snprintf(hist, sizeof hist, "%s of %u elements, position %d, %s handler", map ? "map" : "array", count, before, handler ? "with" : "without");
    mc_state(mc_hash(1, hist, strlen(hist))); env_reset(); handled = 0;
    mpack_tree_init_data(&T, region, total); if (handler) mpack_tree_set_error_handler(&T, on_error);
    mpack_tree_parse(&T);
    mpack_error_t e = mpack_tree_error(&T);
    mc_eval(1); mc_step(1); mc_nontrivial(1); mc_outcome((uint64_t)e);
    if (e != mpack_error_memory && e != mpack_error_too_big) BAD("%s although the nodes cannot be allocated", ES(e));
    if (handled != (unsigned)handler) BAD("the handler is called %u times", handled);
    if (mpack_node_type(mpack_tree_root(&T)) != mpack_type_nil || mpack_tree_size(&T) != 0) BAD("failed with a size or a root");
    if (mpack_tree_destroy(&T) != e) BAD("destroy returns another error");
    if (env_live_blocks) BAD("%zu blocks are left", env_live_blocks);
    mc_log("%s: %s\n", hist, ES(e));
}
#endif

#if HU == 7
/* a node limit and declared counts up to 2^32-1 behind other nodes: too many nodes is too_big, whether or not the sum of
 * the counts fits in a size_t and whatever is there of the data */
static mpack_tree_t T; static uint8_t m[200]; static size_t n, given;
static size_t on_read(mpack_tree_t* t, char* b, size_t k) { (void)t; if (given == n || !k) return 0; *b = (char)m[given++]; return 1; }
void mc_body(void) {
    mc_shard_depth = 2;
    uint32_t first = 1 + mc_choose(40, "elements of the outer array"), at = mc_choose(first, "position"); int map = (int)mc_choose(2, "map"), stream = (int)mc_choose(2, "stream");
    uint32_t count = (map && mc_choose(2, "half") ? 0x7fffffffu : 0xffffffffu) - mc_choose(45, "below"); size_t max = first + 1 + mc_choose(4, "limit");
    n = 0; m[n++] = 0xdc; m[n++] = 0; m[n++] = (uint8_t)first; for (uint32_t i = 0; i < at; ++i) m[n++] = 0x07;
    m[n++] = map ? 0xdf : 0xdd; for (int i = 3; i >= 0; --i) m[n++] = (uint8_t)(count >> (8 * i)); for (int i = 0; i < 50; ++i) m[n++] = 0xc0;
    snprintf(hist, sizeof hist, "%s of %u elements at position %u of %u, at most %zu nodes, %s", map ? "map" : "array", count, at, first, max, stream ? "stream" : "memory");
    mc_state(mc_hash(1, hist, strlen(hist))); env_reset(); given = 0;
    if (stream) { mpack_tree_init_stream(&T, on_read, NULL, SIZE_MAX, max); mpack_tree_parse(&T); }
    else { mpack_tree_init_data(&T, (const char*)m, n); mpack_tree_set_limits(&T, SIZE_MAX, max); mpack_tree_parse(&T); }
    mpack_error_t e = mpack_tree_error(&T); mc_eval(1); mc_step(1); mc_nontrivial(1); mc_outcome((uint64_t)e);
    if (e != mpack_error_too_big) BAD("%s", ES(e));
    if (env_max_request > 10000) BAD("%zu bytes are requested", env_max_request);
    if (mpack_tree_destroy(&T) != e) BAD("destroy returns another error");
    if (env_live_blocks) BAD("%zu blocks are left", env_live_blocks);
    mc_log("%s: %s\n", hist, ES(e));
}
#endif
