/* c24_vm.c - executes one program against the library it was built with and records everything a caller can see.
 * Compiled once per build configuration, as C or C++. */
#include "c24.h"
#include "env.h"
#include "mpack/mpack.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#if defined(VF_DEBUG)
#ifdef __cplusplus
extern "C" {
#endif
void mpack_assert_fail(const char* message) { fprintf(stderr, "internal assertion failed: %s\n", message); abort(); }
void mpack_break_hit(const char* message) { (void)message; }
#ifdef __cplusplus
}
#endif
#endif
#ifdef MPACK_MALLOC
#define HAS_MALLOC 1
#else
#define HAS_MALLOC 0
#endif
#if MPACK_DEBUG && MPACK_STDIO
#define HAS_PRINT 1
#else
#define HAS_PRINT 0
#endif
#if MPACK_STDIO && HAS_MALLOC
#define HAS_FILE 1
#else
#define HAS_FILE 0
#endif
static uint8_t* out_; static size_t on_;
static void putb(const void* p, size_t n) { if (on_ + n > TRACE_CAP) { n = on_ < TRACE_CAP ? TRACE_CAP - on_ : 0; } memcpy(out_ + on_, p, n); on_ += n; }
static void put8(unsigned v) { uint8_t b = (uint8_t)v; putb(&b, 1); }
static void put(uint64_t v) { uint8_t b[8]; for (int i = 0; i < 8; ++i) b[i] = (uint8_t)(v >> (56 - 8 * i)); putb(b, 8); }
static int file_;    /* at the end of a file an error may be io or eof */
static int lenient_; /* what is not a valid object may be invalid or of the wrong type */
static void puterr(mpack_error_t e) { put8(0xE0); put8(file_ && e == mpack_error_eof ? (unsigned)mpack_error_io : lenient_ && (e == mpack_error_type || e == mpack_error_io) ? (unsigned)mpack_error_invalid : (unsigned)e); }
static const char text_[] = "abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789";


#if MPACK_WRITER
static mpack_writer_t W;
#if defined(__cplusplus) || MPACK_HAS_GENERIC
#define GEN(T, v, fn) mpack_write(&W, (T)(v))
#define KV(k, T, v, fn) do { mpack_write_kv(&W, k, (T)(v)); } while (0)
#else
#define GEN(T, v, fn) fn(&W, v)
#define KV(k, T, v, fn) do { mpack_write_cstr(&W, k); fn(&W, v); } while (0)
#endif
#define LEAVES_CORE(X) \
 X(mpack_write_nil(&W)) X(mpack_write_true(&W)) X(mpack_write_bool(&W, false)) X(mpack_write_false(&W)) X(GEN(bool, 1 == 1, mpack_write_bool)) \
 X(mpack_write_i8(&W, -33)) X(mpack_write_i8(&W, -32)) X(mpack_write_i8(&W, 5)) X(mpack_write_i16(&W, -129)) X(mpack_write_i16(&W, 255)) X(mpack_write_i16(&W, 32767)) X(mpack_write_i32(&W, -32769)) X(mpack_write_i32(&W, 65536)) X(mpack_write_i32(&W, -1)) \
 X(mpack_write_i64(&W, -2147483649LL)) X(mpack_write_i64(&W, 4294967296LL)) X(mpack_write_i64(&W, 300)) X(mpack_write_int(&W, -128)) X(mpack_write_u8(&W, 127)) X(mpack_write_u8(&W, 200)) X(mpack_write_u16(&W, 256)) X(mpack_write_u16(&W, 7)) X(mpack_write_u32(&W, 65535)) X(mpack_write_u32(&W, 4294967295u)) \
 X(mpack_write_u64(&W, 4294967295ull)) X(mpack_write_u64(&W, 1ull << 63)) X(mpack_write_u64(&W, 0x8182838485868788ull)) X(mpack_write_i64(&W, -0x0102030405060708LL)) X(mpack_write_u32(&W, 0x818283f4u)) X(mpack_write_i32(&W, -0x01020384)) X(mpack_write_uint(&W, 128)) \
 X(GEN(int8_t, -100, mpack_write_i8)) X(GEN(int16_t, -1000, mpack_write_i16)) X(GEN(int32_t, -100000, mpack_write_i32)) X(GEN(int64_t, -10000000000LL, mpack_write_i64)) X(GEN(uint8_t, 200, mpack_write_u8)) X(GEN(uint16_t, 60000, mpack_write_u16)) X(GEN(uint32_t, 4000000000u, mpack_write_u32)) X(GEN(uint64_t, 10000000000ull, mpack_write_u64)) \
 X(GEN(const char*, "generic", mpack_write_cstr_or_nil)) X(GEN(char*, NULL, mpack_write_cstr_or_nil)) X(GEN(const char*, NULL, mpack_write_cstr_or_nil)) \
 X(mpack_write_str(&W, text_, 0)) X(mpack_write_str(&W, text_, 31)) X(mpack_write_str(&W, text_, 32)) X(mpack_write_str(&W, text_, 256)) X(mpack_write_cstr(&W, "ab")) X(mpack_write_cstr_or_nil(&W, NULL)) X(mpack_write_cstr_or_nil(&W, "x")) X(mpack_write_utf8(&W, "\xc3\xa9", 2)) X(mpack_write_utf8_cstr(&W, "\xe2\x82\xac")) X(mpack_write_utf8_cstr_or_nil(&W, NULL)) X(mpack_write_utf8_cstr_or_nil(&W, "u")) \
 X(mpack_start_str(&W, 40); mpack_write_bytes(&W, text_, 13); mpack_write_bytes(&W, text_ + 13, 27); mpack_finish_str(&W)) X(mpack_write_object_bytes(&W, "\x93\x01\x02\x03", 4)) \
 X(mpack_write_tag(&W, mpack_tag_nil())) X(mpack_write_tag(&W, mpack_tag_bool(true))) X(mpack_write_tag(&W, mpack_tag_int(-70000))) X(mpack_write_tag(&W, mpack_tag_uint(70000))) X(mpack_write_tag(&W, mpack_tag_str(3)); mpack_write_bytes(&W, "tag", 3); mpack_finish_type(&W, mpack_type_str)) X(mpack_write_tag(&W, mpack_tag_array(1)); mpack_write_nil(&W); mpack_finish_type(&W, mpack_type_array)) X(mpack_write_tag(&W, mpack_tag_map(1)); mpack_write_nil(&W); mpack_write_u8(&W, 1); mpack_finish_type(&W, mpack_type_map)) \
 X(mpack_write_bin(&W, text_, 0)) X(mpack_write_bin(&W, text_, 40)) X(mpack_write_bin(&W, text_, 255)) X(mpack_start_bin(&W, 5); mpack_write_bytes(&W, text_, 5); mpack_finish_bin(&W)) X(mpack_write_tag(&W, mpack_tag_bin(2)); mpack_write_bytes(&W, "tb", 2); mpack_finish_type(&W, mpack_type_bin)) \
 X(mpack_start_map(&W, 1); KV("k", int8_t, -5, mpack_write_i8); mpack_finish_map(&W)) X(mpack_start_map(&W, 2); KV("a", uint64_t, 5000000000ull, mpack_write_u64); KV("b", int16_t, -300, mpack_write_i16); mpack_finish_map(&W)) X(mpack_start_map(&W, 3); KV("", bool, true, mpack_write_bool); KV("s", const char*, "str", mpack_write_cstr_or_nil); KV("n", const char*, NULL, mpack_write_cstr_or_nil); mpack_finish_map(&W)) \
 X(mpack_start_map(&W, 4); KV("1", uint8_t, 250, mpack_write_u8); KV("2", uint16_t, 300, mpack_write_u16); KV("3", uint32_t, 70000, mpack_write_u32); KV("4", int32_t, -70000, mpack_write_i32); mpack_finish_map(&W)) X(mpack_start_map(&W, 2); KV("5", int64_t, -7000000000LL, mpack_write_i64); KV("6", char*, NULL, mpack_write_cstr_or_nil); mpack_finish_map(&W)) \
 X(mpack_write_utf8(&W, "\xff", 1)) X(mpack_write_utf8_cstr(&W, "a\xed\xa0\x80")) X(mpack_writer_flag_error(&W, mpack_error_data))
#define LEAVES_EXT(X) \
 X(mpack_write_ext(&W, 5, text_, 1)) X(mpack_write_ext(&W, -7, text_, 2)) X(mpack_write_ext(&W, 127, text_, 4)) X(mpack_write_ext(&W, -128, text_, 8)) X(mpack_write_ext(&W, 0, text_, 16)) X(mpack_write_ext(&W, 1, text_, 0)) X(mpack_write_ext(&W, 1, text_, 3)) X(mpack_write_ext(&W, 1, text_, 256)) \
 X(mpack_start_ext(&W, 9, 6); mpack_write_bytes(&W, text_, 6); mpack_finish_ext(&W)) X(mpack_write_tag(&W, mpack_tag_ext(3, 2)); mpack_write_bytes(&W, "te", 2); mpack_finish_type(&W, mpack_type_ext)) \
 X(mpack_write_timestamp(&W, 0, 0)) X(mpack_write_timestamp(&W, 4294967295LL, 0)) X(mpack_write_timestamp(&W, 4294967296LL, 0)) X(mpack_write_timestamp(&W, 17179869183LL, 999999999)) X(mpack_write_timestamp(&W, 17179869184LL, 1)) X(mpack_write_timestamp(&W, -1, 5)) X(mpack_write_timestamp_seconds(&W, 7))
#if MPACK_FLOAT
#define WF(b) mpack_write_float(&W, fl(b))
#define WFT(b) mpack_write_tag(&W, mpack_tag_float(fl(b)))
#define WFG(b) GEN(float, fl(b), mpack_write_float)
#define WFK(b) KV("f", float, fl(b), mpack_write_float)
static float fl(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
#else
#define WF(b) mpack_write_raw_float(&W, b)
#define WFT(b) mpack_write_tag(&W, mpack_tag_make_raw_float(b))
#define WFG WF
#define WFK(b) do { mpack_write_cstr(&W, "f"); WF(b); } while (0)
#endif
#if MPACK_DOUBLE
#define WD(b) mpack_write_double(&W, db(b))
#define WDT(b) mpack_write_tag(&W, mpack_tag_double(db(b)))
#define WDG(b) GEN(double, db(b), mpack_write_double)
#define WDK(b) KV("d", double, db(b), mpack_write_double)
static double db(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }
#else
#define WD(b) mpack_write_raw_double(&W, b)
#define WDT(b) mpack_write_tag(&W, mpack_tag_make_raw_double(b))
#define WDG WD
#define WDK(b) do { mpack_write_cstr(&W, "d"); WD(b); } while (0)
#endif
#define LEAVES_FLOAT(X) \
 X(WF(0)) X(WF(0x80000000u)) X(WF(0x3fc00000u)) X(WF(0x7f800000u)) X(WF(0x00000001u)) X(WFT(0xc0490fdbu)) X(WFG(0x42f6e979u)) X(mpack_start_map(&W, 1); WFK(0x40000000u); mpack_finish_map(&W)) \
 X(WD(0)) X(WD(1ull << 63)) X(WD(0x3ff8000000000000ull)) X(WD(0x7ff0000000000000ull)) X(WD(1)) X(WDT(0x400921fb54442d18ull)) X(WDG(0x405edd2f1a9fbe77ull)) X(mpack_start_map(&W, 1); WDK(0x4000000000000000ull); mpack_finish_map(&W))
static int leaf_core(int i) { int k = 0;
#define X(...) if (k++ == i) { __VA_ARGS__; return 0; }
    LEAVES_CORE(X)
    return k; }
#if MPACK_EXTENSIONS
static int leaf_ext(int i) { int k = 0; LEAVES_EXT(X) return k; }
#else
static int leaf_ext(int i) { (void)i; return 0; }
#endif
static int leaf_float(int i) { int k = 0; LEAVES_FLOAT(X) return k; }
#undef X
static void leaf(unsigned l) { if (l < 120) leaf_core((int)l); else if (l < 160) leaf_ext((int)l - 120); else leaf_float((int)l - 160); }
static uint8_t sink_[1 << 16]; static size_t sinkn_; static int flushes_, fail_at_;
static void on_flush(mpack_writer_t* w, const char* b, size_t n) { if (++flushes_ == fail_at_) { mpack_writer_flag_error(w, mpack_error_io); return; } if (sinkn_ + n <= sizeof sink_) memcpy(sink_ + sinkn_, b, n); sinkn_ += n; }
static void run_write(const c24_prog* p) {
    static char buf[4096]; char* g = NULL; size_t gs = 0;
    sinkn_ = 0; flushes_ = 0; fail_at_ = p->src == 4 ? p->b : 0;
    switch (p->src) {
        case 0: mpack_writer_init(&W, buf, p->a); break;                                           /* fixed */
        case 1: case 4: mpack_writer_init(&W, buf, p->a); mpack_writer_set_flush(&W, on_flush); break;
#if HAS_MALLOC
        case 2: mpack_writer_init_growable(&W, &g, &gs); break;
#endif
#if HAS_FILE
        case 3: mpack_writer_init_filename(&W, "w"); break;
#endif
        default: put8(255); return;
    }
#if MPACK_COMPATIBILITY
    if (p->how & 1) mpack_writer_set_version(&W, mpack_version_v4);
#endif
    uint8_t st[64]; int sp = 0;
    for (unsigned i = 0; i < p->n; ++i) {
        unsigned o = p->d[i];
        if (o < W_END) leaf(o);
        else if (o == W_END) {
            switch (st[--sp]) {
                case 0: if (p->how & 2) mpack_finish_type(&W, mpack_type_array); else mpack_finish_array(&W); break;
                case 1: if (p->how & 2) mpack_finish_type(&W, mpack_type_map); else mpack_finish_map(&W); break;
#if MPACK_BUILDER
                case 2: mpack_complete_array(&W); break;
                case 3: mpack_complete_map(&W); break;
#endif
            }
        }
        else if (o < W_MAP0) { st[sp++] = 0; if (p->how & 2) mpack_write_tag(&W, mpack_tag_array(o - W_ARR0)); else mpack_start_array(&W, o - W_ARR0); }
        else if (o < W_BARR) { st[sp++] = 1; if (p->how & 2) mpack_write_tag(&W, mpack_tag_map(o - W_MAP0)); else mpack_start_map(&W, o - W_MAP0); }
#if MPACK_BUILDER
        else if (o == W_BARR) { st[sp++] = 2; mpack_build_array(&W); }
        else if (o == W_BMAP) { st[sp++] = 3; mpack_build_map(&W); }
#endif
    }
    mpack_error_t e = mpack_writer_error(&W);
    puterr(e);
    if (p->src == 0) { if (e == mpack_ok) { put(mpack_writer_buffer_used(&W)); putb(buf, mpack_writer_buffer_used(&W)); } }
    e = mpack_writer_destroy(&W); puterr(e);
    switch (p->src) {
        case 1: case 4: if (e == mpack_ok) { put(sinkn_); putb(sink_, sinkn_); } break;
        case 2: if (e == mpack_ok) { put(gs); putb(g, gs); } put8(g != NULL); if (g) vf_free(g); break;
        case 3: if (e == mpack_ok) { env_file* f = env_file_find("w"); if (f) { put(f->size); putb(f->data, f->size); } } put(env_open_handles); break;
    }
}
#else
static int leaf_core(int i) { (void)i; return 0; }
static int leaf_ext(int i) { (void)i; return 0; }
static int leaf_float(int i) { (void)i; return 0; }
#endif

static void tag(mpack_tag_t t) {
    mpack_type_t y = mpack_tag_type(&t); put8((unsigned)y);
    switch (y) {
        case mpack_type_bool: put8(mpack_tag_bool_value(&t)); break;
        case mpack_type_int: put((uint64_t)mpack_tag_int_value(&t)); break;
        case mpack_type_uint: put(mpack_tag_uint_value(&t)); break;
#if MPACK_FLOAT
        case mpack_type_float: { float f = mpack_tag_float_value(&t); uint32_t b; memcpy(&b, &f, 4); put(b); break; }
#else
        case mpack_type_float: put(mpack_tag_raw_float_value(&t)); break;
#endif
#if MPACK_DOUBLE
        case mpack_type_double: { double f = mpack_tag_double_value(&t); uint64_t b; memcpy(&b, &f, 8); put(b); break; }
#else
        case mpack_type_double: put(mpack_tag_raw_double_value(&t)); break;
#endif
        case mpack_type_str: put(mpack_tag_str_length(&t)); break;
        case mpack_type_bin: put(mpack_tag_bin_length(&t)); break;
        case mpack_type_array: put(mpack_tag_array_count(&t)); break;
        case mpack_type_map: put(mpack_tag_map_count(&t)); break;
#if MPACK_EXTENSIONS
        case mpack_type_ext: put(mpack_tag_ext_length(&t)); put8((uint8_t)mpack_tag_ext_exttype(&t)); break;
#endif
        default: break;
    }
}
static const uint8_t* D_; static size_t N_, at_, chunk_; static char buf_[700]; static char cb_[64];
static const char* words_[] = {"a", "ab", "", "key"}; static bool fnd_[4];
static void putf(double d) { uint64_t b; memcpy(&b, &d, 8); put(b); }
static void puts_(const char* s) { if (s == NULL) { put8(0xF0); return; } size_t n = strlen(s); put(n); putb(s, n); }

#if MPACK_READER
static mpack_reader_t R; static int steps_, how_;
static size_t on_fill(mpack_reader_t* r, char* b, size_t n) { (void)r; size_t k = N_ - at_; if (k > n) k = n; if (k > chunk_) k = chunk_; memcpy(b, D_ + at_, k); at_ += k; return k; }
static void content(mpack_type_t y, uint32_t n) {
    switch (how_) {
        case 0: for (uint32_t k; n && !mpack_reader_error(&R); n -= k) { k = n > 16 ? 16 : n; memset(buf_, 1, 16); mpack_read_bytes(&R, buf_, k); putb(buf_, k); } break;
        case 1: { const char* p = y == mpack_type_str ? mpack_read_utf8_inplace(&R, n) : mpack_read_bytes_inplace(&R, n); if (!mpack_reader_error(&R)) putb(p, n); break; }
#if HAS_MALLOC
        case 2: { char* p = mpack_read_bytes_alloc(&R, n); if (!mpack_reader_error(&R)) putb(p, n); if (p) vf_free(p); break; }
#endif
        case 3: if (y == mpack_type_str) { memset(buf_, 3, 64); mpack_read_utf8_cstr(&R, buf_, 60, n); puts_(buf_); break; }
#if MPACK_EXTENSIONS
                if (y == mpack_type_ext) { mpack_timestamp_t t = mpack_read_timestamp(&R, n); put((uint64_t)t.seconds); put(t.nanoseconds); return; }
#endif
                mpack_skip_bytes(&R, n); break;
        default: mpack_skip_bytes(&R, n); break;
    }
    if (mpack_reader_error(&R) == mpack_ok) mpack_done_type(&R, y);
}
static void object(int depth);
static void children(mpack_type_t y, uint32_t n, int depth) {
    uint64_t k = y == mpack_type_map ? (uint64_t)n * 2 : n;
    while (k-- && !mpack_reader_error(&R) && steps_ < 60) object(depth + 1);
    if (!mpack_reader_error(&R) && steps_ < 60) mpack_done_type(&R, y);
}
static void object(int depth) {
    ++steps_;
    if (how_ == 4 && depth == 1) { mpack_discard(&R); put8(0xDD); return; }
    mpack_tag_t t = how_ == 1 ? mpack_peek_tag(&R) : mpack_tag_nil();
    if (how_ == 1) { put8(0xEE); tag(t); }
    t = mpack_read_tag(&R); if (mpack_reader_error(&R)) return;
    tag(t);
    mpack_type_t y = mpack_tag_type(&t);
    if (y == mpack_type_str || y == mpack_type_bin
#if MPACK_EXTENSIONS
        || y == mpack_type_ext
#endif
        ) content(y, mpack_tag_bytes(&t));
    else if (y == mpack_type_array) children(y, mpack_tag_array_count(&t), depth);
    else if (y == mpack_type_map) children(y, mpack_tag_map_count(&t), depth);
}
#if MPACK_EXPECT
static uint32_t u32_; static int8_t i8_; static size_t sz_; static bool b_;
static void opened(mpack_type_t y, uint32_t n) { if (mpack_reader_error(&R)) return; put(n); if (y == mpack_type_array || y == mpack_type_map) children(y, n, 0); else content(y, n); }
#define V(e) put((uint64_t)(e))
#define OPEN(y, e) do { uint32_t n_ = (uint32_t)(e); if (!mpack_reader_error(&R)) opened(mpack_type_##y, n_); else put(n_); } while (0)
#define BUF(stmt, n) do { memset(buf_, 2, 64); stmt; if (!mpack_reader_error(&R)) putb(buf_, n); } while (0)
#define EX_CORE(X) \
 X(V(mpack_expect_u8(&R))) X(V(mpack_expect_u16(&R))) X(V(mpack_expect_u32(&R))) X(V(mpack_expect_u64(&R))) X(V(mpack_expect_i8(&R))) X(V(mpack_expect_i16(&R))) X(V(mpack_expect_i32(&R))) X(V(mpack_expect_i64(&R))) X(V(mpack_expect_uint(&R))) X(V(mpack_expect_int(&R))) \
 X(V(mpack_expect_u8_range(&R, 3, 200))) X(V(mpack_expect_u16_range(&R, 3, 900))) X(V(mpack_expect_u32_range(&R, 3, 90000))) X(V(mpack_expect_u64_range(&R, 3, 1ull << 40))) X(V(mpack_expect_uint_range(&R, 3, 9000))) X(V(mpack_expect_u8_max(&R, 9))) X(V(mpack_expect_u16_max(&R, 300))) X(V(mpack_expect_u32_max(&R, 70000))) X(V(mpack_expect_u64_max(&R, 1ull << 33))) X(V(mpack_expect_uint_max(&R, 9))) \
 X(V(mpack_expect_i8_range(&R, -3, 100))) X(V(mpack_expect_i16_range(&R, -300, 900))) X(V(mpack_expect_i32_range(&R, -70000, 70000))) X(V(mpack_expect_i64_range(&R, -(1LL << 40), 9))) X(V(mpack_expect_int_range(&R, -3, 9))) X(V(mpack_expect_i8_max(&R, 9))) X(V(mpack_expect_i16_max(&R, 9))) X(V(mpack_expect_i32_max(&R, 9))) X(V(mpack_expect_i64_max(&R, 9))) X(V(mpack_expect_int_max(&R, 9))) \
 X(mpack_expect_uint_match(&R, 5)) X(mpack_expect_uint_match(&R, 255)) X(mpack_expect_int_match(&R, -1)) X(mpack_expect_int_match(&R, 127)) X(mpack_expect_nil(&R)) X(V(mpack_expect_bool(&R))) X(mpack_expect_true(&R)) X(mpack_expect_false(&R)) \
 X(OPEN(map, mpack_expect_map(&R))) X(OPEN(map, mpack_expect_map_range(&R, 1, 2))) X(OPEN(map, mpack_expect_map_max(&R, 1))) X(mpack_expect_map_match(&R, 1); OPEN(map, 1)) X(u32_ = 9; b_ = mpack_expect_map_or_nil(&R, &u32_); put8(b_); put(u32_); if (b_) OPEN(map, u32_)) X(u32_ = 9; b_ = mpack_expect_map_max_or_nil(&R, 1, &u32_); put8(b_); put(u32_); if (b_) OPEN(map, u32_)) \
 X(OPEN(array, mpack_expect_array(&R))) X(OPEN(array, mpack_expect_array_range(&R, 1, 2))) X(OPEN(array, mpack_expect_array_max(&R, 1))) X(mpack_expect_array_match(&R, 2); OPEN(array, 2)) X(u32_ = 9; b_ = mpack_expect_array_or_nil(&R, &u32_); put8(b_); put(u32_); if (b_) OPEN(array, u32_)) X(u32_ = 9; b_ = mpack_expect_array_max_or_nil(&R, 1, &u32_); put8(b_); put(u32_); if (b_) OPEN(array, u32_)) \
 X(OPEN(str, mpack_expect_str(&R))) X(OPEN(str, mpack_expect_str_max(&R, 3))) X(mpack_expect_str_length(&R, 1); OPEN(str, 1)) X(BUF(sz_ = mpack_expect_str_buf(&R, buf_, 20), sz_); V(sz_)) X(BUF(sz_ = mpack_expect_utf8(&R, buf_, 20), sz_); V(sz_)) X(mpack_expect_cstr(&R, buf_, 20); puts_(buf_)) X(mpack_expect_cstr(&R, buf_, 2); puts_(buf_)) X(mpack_expect_utf8_cstr(&R, buf_, 20); puts_(buf_)) X(mpack_expect_str_match(&R, "ab", 2)) X(mpack_expect_cstr_match(&R, "")) X(mpack_expect_cstr_match(&R, "key")) \
 X(OPEN(bin, mpack_expect_bin(&R))) X(OPEN(bin, mpack_expect_bin_max(&R, 3))) X(mpack_expect_bin_size(&R, 1); OPEN(bin, 1)) X(BUF(sz_ = mpack_expect_bin_buf(&R, buf_, 20), sz_); V(sz_)) X(BUF(mpack_expect_bin_size_buf(&R, buf_, 2), 2)) \
 X(mpack_expect_tag(&R, mpack_tag_nil())) X(mpack_expect_tag(&R, mpack_tag_uint(5))) X(mpack_expect_tag(&R, mpack_tag_int(-1))) X(V(mpack_expect_enum(&R, words_, 4))) X(V(mpack_expect_enum_optional(&R, words_, 4))) \
 X(keys(0)) X(keys(1))
#define EX_FLOAT(X) X(putf(mpack_expect_float(&R))) X(putf(mpack_expect_float_range(&R, -2.0f, 300.0f)))
#define EX_DOUBLE(X) X(putf(mpack_expect_double(&R))) X(putf(mpack_expect_double_strict(&R))) X(putf(mpack_expect_double_range(&R, -2.0, 300.0)))
#if MPACK_FLOAT
static void strict_float(void) { float f = mpack_expect_float_strict(&R); uint32_t b; memcpy(&b, &f, 4); put(b); }
#else
static void strict_float(void) { put(mpack_expect_raw_float(&R)); }
#endif
#if MPACK_DOUBLE
static void strict_double(void) { double f = mpack_expect_double_strict(&R); uint64_t b; memcpy(&b, &f, 8); put(b); }
#else
static void strict_double(void) { put(mpack_expect_raw_double(&R)); }
#endif
#define EX_EITHER(X) X(strict_float()) X(strict_double())
#define EX_EXT(X) X(put(0); { mpack_timestamp_t t = mpack_expect_timestamp(&R); put((uint64_t)t.seconds); put(t.nanoseconds); }) X(V(mpack_expect_timestamp_truncate(&R))) \
 X(i8_ = 7; u32_ = mpack_expect_ext(&R, &i8_); put8((uint8_t)i8_); OPEN(ext, u32_)) X(i8_ = 7; u32_ = mpack_expect_ext_max(&R, &i8_, 4); put8((uint8_t)i8_); OPEN(ext, u32_)) X(i8_ = 7; mpack_expect_ext_size(&R, &i8_, 4); put8((uint8_t)i8_); OPEN(ext, 4)) X(i8_ = 7; BUF(sz_ = mpack_expect_ext_buf(&R, &i8_, buf_, 20), sz_); put8((uint8_t)i8_); V(sz_))
#define EX_MALLOC(X) X({ char* p = mpack_expect_cstr_alloc(&R, 20); puts_(p); if (p) vf_free(p); }) X({ char* p = mpack_expect_utf8_cstr_alloc(&R, 3); puts_(p); if (p) vf_free(p); }) X(sz_ = 7; { char* p = mpack_expect_bin_alloc(&R, 20, &sz_); V(sz_); put8(p != NULL); if (p) { putb(p, sz_); vf_free(p); } }) \
 X(u32_ = 9; { int* p = mpack_expect_array_alloc(&R, int, 3, &u32_); put(u32_); put8(p != NULL); if (p) vf_free(p); OPEN(array, u32_); }) X(u32_ = 9; { int* p = mpack_expect_array_or_nil_alloc(&R, int, 3, &u32_); put(u32_); put8(p != NULL); if (p) vf_free(p); if (u32_) OPEN(array, u32_); })
#define EX_EXTMALLOC(X) X(i8_ = 7; sz_ = 7; { char* p = mpack_expect_ext_alloc(&R, &i8_, 20, &sz_); put8((uint8_t)i8_); V(sz_); put8(p != NULL); if (p) { putb(p, sz_); vf_free(p); } })
static void keys(int uint_keys) {
    uint32_t n = mpack_expect_map(&R); if (mpack_reader_error(&R)) return;
    memset(fnd_, 0, 4);
    for (uint32_t i = 0; i < n && !mpack_reader_error(&R) && i < 8; ++i) {
        size_t k = uint_keys ? mpack_expect_key_uint(&R, fnd_, 4) : mpack_expect_key_cstr(&R, words_, fnd_, 4);
        put(k); put8((unsigned)(fnd_[0] | fnd_[1] << 1 | fnd_[2] << 2 | fnd_[3] << 3));
        mpack_discard(&R);
    }
    if (!mpack_reader_error(&R)) mpack_done_map(&R);
}
#define X(...) if (k++ == i) { __VA_ARGS__; return 0; }
static int ex_core(int i) { int k = 0; EX_CORE(X) return k; }
static int ex_either(int i) { int k = 0; EX_EITHER(X) return k; }
#if MPACK_FLOAT
static int ex_float(int i) { int k = 0; EX_FLOAT(X) return k; }
#else
static int ex_float(int i) { (void)i; return 0; }
#endif
#if MPACK_DOUBLE
static int ex_double(int i) { int k = 0; EX_DOUBLE(X) return k; }
#else
static int ex_double(int i) { (void)i; return 0; }
#endif
#if MPACK_EXTENSIONS
static int ex_ext(int i) { int k = 0; EX_EXT(X) return k; }
#else
static int ex_ext(int i) { (void)i; return 0; }
#endif
#if HAS_MALLOC
static int ex_malloc(int i) { int k = 0; EX_MALLOC(X) return k; }
#else
static int ex_malloc(int i) { (void)i; return 0; }
#endif
#if HAS_MALLOC && MPACK_EXTENSIONS
static int ex_extmalloc(int i) { int k = 0; EX_EXTMALLOC(X) return k; }
#else
static int ex_extmalloc(int i) { (void)i; return 0; }
#endif
#undef X
typedef int (*table_fn)(int);
static const table_fn ex_[7] = { ex_core, ex_either, ex_float, ex_double, ex_ext, ex_malloc, ex_extmalloc };
#endif
static void run_read(const c24_prog* p) {
    static char sb[128]; steps_ = 0; how_ = p->how & 7; at_ = 0; D_ = p->d; N_ = p->n; chunk_ = p->b ? p->b : 1000;
    switch (p->src) {
        case 0: mpack_reader_init_data(&R, (const char*)p->d, p->n); break;
        case 1: mpack_reader_init(&R, sb, p->a, 0); mpack_reader_set_fill(&R, on_fill); break;
#if HAS_FILE
        case 2: { env_file* f = env_file_make("r", p->d, p->n, true); f->max_read_chunk = p->b; mpack_reader_init_filename(&R, "r"); break; }
#endif
        default: put8(255); return;
    }
    if (p->op == 0) object(0);
#if MPACK_EXPECT
    else ex_[(p->op - 1) / 128]((p->op - 1) % 128);
#endif
    puterr(mpack_reader_error(&R));
    if (p->op && mpack_reader_error(&R) == mpack_ok && steps_ < 60) { how_ = 4; object(0); puterr(mpack_reader_error(&R)); }   /* where it stopped */
    if (mpack_reader_error(&R) == mpack_ok) mpack_reader_flag_error(&R, mpack_error_data);
    put8((unsigned)mpack_reader_destroy(&R) != 0);
    if (p->src == 2) put(env_open_handles);
}
#endif

#if MPACK_NODE
static mpack_tree_t T; static mpack_node_t N;
static size_t on_read(mpack_tree_t* t, char* b, size_t n) { size_t k = N_ - at_; if (k > n) k = n; if (k > chunk_) k = chunk_; if (!k) { mpack_tree_flag_error(t, mpack_error_io); return 0; } memcpy(b, D_ + at_, k); at_ += k; return k; }
static void nwalk(mpack_node_t n, int depth) {
    mpack_type_t y = mpack_node_type(n); tag(mpack_node_tag(n)); if (depth > 60 || on_ > TRACE_CAP - 64) return;
    switch (y) {
        case mpack_type_str: case mpack_type_bin:
#if MPACK_EXTENSIONS
        case mpack_type_ext:
#endif
            putb(mpack_node_data(n), mpack_node_data_len(n)); break;
        case mpack_type_array: for (size_t i = 0; i < mpack_node_array_length(n); ++i) nwalk(mpack_node_array_at(n, i), depth + 1); break;
        case mpack_type_map: for (size_t i = 0; i < mpack_node_map_count(n); ++i) { nwalk(mpack_node_map_key_at(n, i), depth + 1); nwalk(mpack_node_map_value_at(n, i), depth + 1); } break;
        default: break;
    }
}
#define V(e) put((uint64_t)(e))
#define TY(e) do { mpack_node_t n_ = (e); put8((unsigned)mpack_node_type(n_)); put8((unsigned)mpack_node_is_missing(n_)); } while (0)
#define ND_CORE(X) \
 X(V(mpack_node_u8(N))) X(V(mpack_node_i8(N))) X(V(mpack_node_u16(N))) X(V(mpack_node_i16(N))) X(V(mpack_node_u32(N))) X(V(mpack_node_i32(N))) X(V(mpack_node_u64(N))) X(V(mpack_node_i64(N))) X(V(mpack_node_uint(N))) X(V(mpack_node_int(N))) \
 X(V(mpack_node_is_nil(N))) X(V(mpack_node_is_missing(N))) X(mpack_node_nil(N)) X(mpack_node_missing(N)) X(V(mpack_node_bool(N))) X(mpack_node_true(N)) X(mpack_node_false(N)) X(mpack_node_check_utf8(N)) X(mpack_node_check_utf8_cstr(N)) X(V(mpack_node_bin_size(N))) X(V(mpack_node_data_len(N))) X(V(mpack_node_strlen(N))) \
 X({ const char* p = mpack_node_str(N); put8(p != NULL); if (p) putb(p, mpack_node_strlen(N)); }) X({ const char* p = mpack_node_bin_data(N); put8(p != NULL); if (p) putb(p, mpack_node_bin_size(N)); }) X({ const char* p = mpack_node_data(N); put8(p != NULL); if (p) putb(p, mpack_node_data_len(N)); }) \
 X({ size_t n = mpack_node_copy_data(N, buf_, 20); V(n); putb(buf_, n); }) X({ size_t n = mpack_node_copy_utf8(N, buf_, 20); V(n); putb(buf_, n); }) X(mpack_node_copy_cstr(N, buf_, 20); puts_(buf_)) X(mpack_node_copy_utf8_cstr(N, buf_, 20); puts_(buf_)) X(mpack_node_copy_cstr(N, buf_, 2); puts_(buf_)) \
 X(V(mpack_node_enum(N, words_, 4))) X(V(mpack_node_enum_optional(N, words_, 4))) X(V(mpack_node_array_length(N))) X(TY(mpack_node_array_at(N, 0))) X(TY(mpack_node_array_at(N, 2))) X(V(mpack_node_map_count(N))) X(TY(mpack_node_map_key_at(N, 0))) X(TY(mpack_node_map_value_at(N, 1))) \
 X(TY(mpack_node_map_int(N, -1))) X(TY(mpack_node_map_int(N, 5))) X(TY(mpack_node_map_int_optional(N, 5))) X(TY(mpack_node_map_uint(N, 5))) X(TY(mpack_node_map_uint_optional(N, 255))) X(TY(mpack_node_map_str(N, "ab", 2))) X(TY(mpack_node_map_str_optional(N, "", 0))) X(TY(mpack_node_map_cstr(N, "key"))) X(TY(mpack_node_map_cstr_optional(N, "a"))) X(V(mpack_node_map_contains_int(N, -1))) X(V(mpack_node_map_contains_uint(N, 5))) X(V(mpack_node_map_contains_str(N, "ab", 2))) X(V(mpack_node_map_contains_cstr(N, "key")))
#if MPACK_FLOAT
static void nstrict_float(void) { float f = mpack_node_float_strict(N); uint32_t b; memcpy(&b, &f, 4); put(b); }
#else
static void nstrict_float(void) { put(mpack_node_raw_float(N)); }
#endif
#if MPACK_DOUBLE
static void nstrict_double(void) { double f = mpack_node_double_strict(N); uint64_t b; memcpy(&b, &f, 8); put(b); }
#else
static void nstrict_double(void) { put(mpack_node_raw_double(N)); }
#endif
#define ND_EITHER(X) X(nstrict_float()) X(nstrict_double())
#define ND_FLOAT(X) X(putf(mpack_node_float(N)))
#define ND_DOUBLE(X) X(putf(mpack_node_double(N))) X(putf(mpack_node_double_strict(N)))
#define ND_EXT(X) X(V(mpack_node_exttype(N))) X({ mpack_timestamp_t t = mpack_node_timestamp(N); put((uint64_t)t.seconds); put(t.nanoseconds); }) X(V(mpack_node_timestamp_seconds(N))) X(V(mpack_node_timestamp_nanoseconds(N)))
#define ND_MALLOC(X) X({ char* p = mpack_node_data_alloc(N, 20); put8(p != NULL); if (p) { putb(p, mpack_node_data_len(N)); vf_free(p); } }) X({ char* p = mpack_node_cstr_alloc(N, 20); puts_(p); if (p) vf_free(p); }) X({ char* p = mpack_node_utf8_cstr_alloc(N, 4); puts_(p); if (p) vf_free(p); })
#define ND_PRINT(X) X(memset(buf_, 0, 500); mpack_node_print_to_buffer(N, buf_, 500); puts_(buf_)) X(memset(buf_, 0, 500); mpack_print_data_to_buffer((const char*)D_, N_, buf_, 500); puts_(buf_))
#define X(...) if (k++ == i) { __VA_ARGS__; return 0; }
static int nd_core(int i) { int k = 0; ND_CORE(X) return k; }
static int nd_either(int i) { int k = 0; ND_EITHER(X) return k; }
#if MPACK_FLOAT
static int nd_float(int i) { int k = 0; ND_FLOAT(X) return k; }
#else
static int nd_float(int i) { (void)i; return 0; }
#endif
#if MPACK_DOUBLE
static int nd_double(int i) { int k = 0; ND_DOUBLE(X) return k; }
#else
static int nd_double(int i) { (void)i; return 0; }
#endif
#if MPACK_EXTENSIONS
static int nd_ext(int i) { int k = 0; ND_EXT(X) return k; }
#else
static int nd_ext(int i) { (void)i; return 0; }
#endif
#if HAS_MALLOC
static int nd_malloc(int i) { int k = 0; ND_MALLOC(X) return k; }
#else
static int nd_malloc(int i) { (void)i; return 0; }
#endif
#if HAS_PRINT
static int nd_print(int i) { int k = 0; ND_PRINT(X) return k; }
#else
static int nd_print(int i) { (void)i; return 0; }
#endif
#undef X
static int (*const nd_[7])(int) = { nd_core, nd_either, nd_float, nd_double, nd_ext, nd_malloc, nd_print };
static void run_node(const c24_prog* p) {
    static mpack_node_data_t pool[64]; at_ = 0; D_ = p->d; N_ = p->n; chunk_ = p->b ? p->b : 1000;
    switch (p->src) {
        case 0: mpack_tree_init_pool(&T, (const char*)p->d, p->n, pool, p->a); break;
#if HAS_MALLOC
        case 1: mpack_tree_init_data(&T, (const char*)p->d, p->n); break;
        case 2: mpack_tree_init_stream(&T, on_read, NULL, p->a, 40); break;
#endif
#if HAS_FILE
        case 3: env_file_make("t", p->d, p->n, true); mpack_tree_init_filename(&T, "t", p->a); break;
#endif
        default: put8(255); return;
    }
    if (p->how & 1) { bool b = mpack_tree_try_parse(&T); put8(b); if (!b && mpack_tree_error(&T) == mpack_ok) { put8(0x77); goto out; } }
    else mpack_tree_parse(&T);
    puterr(mpack_tree_error(&T));
    if (mpack_tree_error(&T) == mpack_ok) {
        put(mpack_tree_size(&T)); N = mpack_tree_root(&T);
        if (p->op == 0) nwalk(N, 0); else nd_[(p->op - 1) / 128]((p->op - 1) % 128);
        puterr(mpack_tree_error(&T));
        if (p->op == 0 && p->src != 3) {        /* the message behind it */
            mpack_tree_parse(&T); puterr(mpack_tree_error(&T)); if (mpack_tree_error(&T) == mpack_ok) { put(mpack_tree_size(&T)); nwalk(mpack_tree_root(&T), 0); }
        }
    }
out:
    puterr(mpack_tree_destroy(&T));
    if (p->src == 3) put(env_open_handles);
}
#endif

#ifdef __cplusplus
extern "C" {
#endif
uint32_t c24_caps(void) {
    uint32_t c = sizeof(void*) == 8 ? F_64 : 0;
#if MPACK_READER
    c |= F_READER;
#endif
#if MPACK_READER && MPACK_EXPECT
    c |= F_EXPECT;
#endif
#if MPACK_NODE
    c |= F_NODE;
#endif
#if MPACK_WRITER
    c |= F_WRITER;
#endif
#if MPACK_EXTENSIONS
    c |= F_EXT;
#endif
#if MPACK_COMPATIBILITY
    c |= F_COMPAT;
#endif
#if MPACK_FLOAT
    c |= F_FLOAT;
#endif
#if MPACK_DOUBLE
    c |= F_DOUBLE;
#endif
#if HAS_MALLOC
    c |= F_MALLOC;
#endif
#if HAS_FILE
    c |= F_STDIO;
#endif
#if MPACK_WRITER && MPACK_BUILDER
    c |= F_BUILDER;
#endif
#if HAS_PRINT
    c |= F_PRINT;
#endif
    return c;
}
uint32_t c24_leaf_need(unsigned l) {
    if (l < 120) return (int)l < leaf_core(-1) ? 0 : ~0u;
    if (l < 160) return (int)l - 120 < leaf_ext(-1) ? (uint32_t)F_EXT : ~0u;
    return l < 200 && (int)l - 160 < leaf_float(-1) ? 0 : ~0u;
}
uint32_t c24_read_need(unsigned op) {
    if (op == 0) return 0;
#if MPACK_READER && MPACK_EXPECT
    static const uint32_t nd[7] = { 0, 0, F_FLOAT, F_DOUBLE, F_EXT, F_MALLOC, F_EXT | F_MALLOC };
    unsigned t = (op - 1) / 128; if (t < 7 && (int)((op - 1) % 128) < ex_[t](-1)) return nd[t] | F_EXPECT;
#endif
    return ~0u;
}
uint32_t c24_node_need(unsigned op) {
    if (op == 0) return 0;
#if MPACK_NODE
    static const uint32_t nd[7] = { 0, 0, F_FLOAT, F_DOUBLE, F_EXT, F_MALLOC, F_PRINT };
    unsigned t = (op - 1) / 128; if (t < 7 && (int)((op - 1) % 128) < nd_[t](-1)) return nd[t];
#endif
    return ~0u;
}
size_t c24_run(const c24_prog* p, uint8_t* out) {
    out_ = out; on_ = 0; file_ = p->kind == K_READ && p->src == 2; lenient_ = p->pad;
    switch (p->kind) {
#if MPACK_WRITER
        case K_WRITE: run_write(p); break;
#endif
#if MPACK_READER
        case K_READ: run_read(p); break;
#endif
#if MPACK_NODE
        case K_NODE: run_node(p); break;
#endif
        default: put8(254); break;
    }
    put(env_live_blocks);
    return on_;
}
#ifdef __cplusplus
}
#endif
