/* C27: mpack_tag_cmp is a total order whose zero class is value equality. All pairs of a
 * tag alphabet; transitivity through ranks (all pairs) and directly (all triples of a core). */
#include "common.h"
typedef struct { mpack_tag_t t; int cls; bool neg; uint64_t u; int ext; bool exotic; } tv;
#define MAXT 6000
static tv T[MAXT]; static int nt;
enum { C_NIL, C_BOOL, C_NUM, C_F, C_D, C_STR, C_BIN, C_ARR, C_MAP, C_EXT, C_MISSING };
static void add(mpack_tag_t t, int cls, bool neg, uint64_t u, int ext, bool exotic) {
    if (nt == MAXT) mc_fail("harness: tag table full");
    T[nt].t = t; T[nt].cls = cls; T[nt].neg = neg; T[nt].u = u; T[nt].ext = ext; T[nt].exotic = exotic; ++nt;
}
/* the same value as the reader decodes it from an encoding */
static void add_read(const rbuf* b, int cls, bool neg, uint64_t u, int ext, bool exotic) {
    mpack_reader_t r; mpack_reader_init_data(&r, (const char*)b->p, b->n);
    mpack_tag_t t; memset(&t, 0xd5, sizeof t);
    t = mpack_read_tag(&r);
    if (mpack_reader_error(&r) != mpack_ok) mc_fail("reading a header: %s", ES(mpack_reader_error(&r)));
    /* a string's contents are not there: flag to skip the tracking of the remainder */
    mpack_reader_flag_error(&r, mpack_error_data); mpack_reader_destroy(&r);
    add(t, cls, neg, u, ext, exotic);
}
static void num(bool neg, uint64_t u, bool core) {
    rbuf b; rb_init(&b);
    if (neg) {
        add(mpack_tag_make_int((int64_t)u), C_NUM, true, u, 0, !core);
        ref_int(&b, (int64_t)u); add_read(&b, C_NUM, true, u, 0, true);
    } else {
        add(mpack_tag_make_uint(u), C_NUM, false, u, 0, !core);
        if (u <= INT64_MAX) add(mpack_tag_make_int((int64_t)u), C_NUM, false, u, 0, !core);
        ref_uint(&b, u); add_read(&b, C_NUM, false, u, 0, true);
        if (u <= 127) { b.n = 0; rb_u8(&b, 0xd0); rb_u8(&b, (unsigned)u); add_read(&b, C_NUM, false, u, 0, true); }
        if (u <= INT64_MAX) { b.n = 0; rb_u8(&b, 0xd3); rb_be(&b, u, 8); add_read(&b, C_NUM, false, u, 0, true); }
    }
    rb_free(&b);
}
static void build(void) {
    nt = 0;
    rbuf b; rb_init(&b);
    add(mpack_tag_make_nil(), C_NIL, 0, 0, 0, false);
    { mpack_tag_t z = MPACK_TAG_ZERO; add(z, C_MISSING, 0, 0, 0, false); }
    ref_nil(&b); add_read(&b, C_NIL, 0, 0, 0, true);
    for (int v = 0; v < 2; ++v) { add(mpack_tag_make_bool(v), C_BOOL, 0, (uint64_t)v, 0, false); b.n = 0; ref_bool(&b, v); add_read(&b, C_BOOL, 0, (uint64_t)v, 0, true); }
    add(mpack_tag_make_true(), C_BOOL, 0, 1, 0, true); add(mpack_tag_make_false(), C_BOOL, 0, 0, 0, true);
    for (int v = -130; v <= 260; ++v) num(v < 0, (uint64_t)(int64_t)v, v >= -2 && v <= 2);
    for (int k = 8; k < 64; ++k) for (int d = -1; d <= 1; ++d) {
        uint64_t p = ((uint64_t)1 << k) + (uint64_t)(int64_t)d;
        if (p > 260) num(false, p, k == 63 || k == 31);
        if (k < 63 || d <= 0) { uint64_t n = 0 - p; if ((int64_t)n < -130) num(true, n, k == 63 || k == 31); }
    }
    num(false, UINT64_MAX, true); num(false, UINT64_MAX - 1, false);
    num(true, (uint64_t)INT64_MIN, true);
    static const uint32_t len[] = {0,1,2,15,16,31,32,127,128,255,256,257,32767,32768,65535,65536,0x7fffffff,0x80000000,0xfffffffe,0xffffffff};
    for (size_t i = 0; i < sizeof len / 4; ++i) {
        uint32_t n = len[i]; bool ex = !(n < 2 || n == 0x7fffffff || n == 0x80000000 || n == 0xffffffff);
        add(mpack_tag_make_str(n), C_STR, 0, n, 0, ex); add(mpack_tag_make_bin(n), C_BIN, 0, n, 0, ex);
        add(mpack_tag_make_array(n), C_ARR, 0, n, 0, ex); add(mpack_tag_make_map(n), C_MAP, 0, n, 0, ex);
        b.n = 0; ref_str_hdr(&b, n, false); add_read(&b, C_STR, 0, n, 0, true);
        b.n = 0; ref_bin_hdr(&b, n, false); add_read(&b, C_BIN, 0, n, 0, true);
        b.n = 0; ref_array_hdr(&b, n); add_read(&b, C_ARR, 0, n, 0, true);
        b.n = 0; ref_map_hdr(&b, n); add_read(&b, C_MAP, 0, n, 0, true);
#if MPACK_EXTENSIONS
        static const int et[] = {-128,-127,-2,-1,0,1,2,126,127};
        for (size_t j = 0; j < sizeof et / sizeof *et; ++j) {
            add(mpack_tag_make_ext((int8_t)et[j], n), C_EXT, 0, n, et[j], ex || !(et[j] == -128 || et[j] == -1 || et[j] == 0 || et[j] == 127));
            b.n = 0; ref_ext_hdr(&b, (int8_t)et[j], n); add_read(&b, C_EXT, 0, n, et[j], true);
        }
#endif
    }
    static const uint32_t fb[] = {0, 0x80000000, 1, 0x80000001, 0x3f800000, 0xbf800000, 0x3f800001, 0x3f800100, 0x3f810000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7fc00001, 0xffc00000, 0x00800000, 0x000000ff, 0x0000ff00, 0x00ff0000, 0xff000000, 0x01010101, 0x4effffff};
    for (size_t i = 0; i < sizeof fb / 4; ++i) {
#if MPACK_FLOAT
        add(mpack_tag_make_float(f_of(fb[i])), C_F, 0, fb[i], 0, i > 6);
#else
        add(mpack_tag_make_raw_float(fb[i]), C_F, 0, fb[i], 0, i > 6);
#endif
        b.n = 0; ref_f32(&b, fb[i]); add_read(&b, C_F, 0, fb[i], 0, true);
        uint64_t vs[4] = { (uint64_t)fb[i] << 32, (uint64_t)fb[i], bits_d((double)f_of(fb[i])), (uint64_t)fb[i] << 32 | 0xff };
        for (int q = 0; q < 4; ++q) {
#if MPACK_DOUBLE
            add(mpack_tag_make_double(d_of(vs[q])), C_D, 0, vs[q], 0, i > 6 || q);
#else
            add(mpack_tag_make_raw_double(vs[q]), C_D, 0, vs[q], 0, i > 6 || q);
#endif
            b.n = 0; ref_f64(&b, vs[q]); add_read(&b, C_D, 0, vs[q], 0, true);
        }
    }
    rb_free(&b);
}
static bool eq(const tv* a, const tv* b) { return a->cls == b->cls && a->neg == b->neg && a->u == b->u && a->ext == b->ext; }
static const char* tx(const tv* a) { static char s[4][80]; static int k; char* p = s[k = (k + 1) & 3]; snprintf(p, 80, "%s:%lld/%llu:%d", mpack_type_to_string(a->t.type), (long long)(int64_t)a->u, (unsigned long long)a->u, a->ext); return p; }
static int sg(int v) { return v < 0 ? -1 : v > 0; }
static int order_[MAXT]; static int rank_[MAXT]; static bool ready;
static int qcmp(const void* a, const void* b) { int i = *(const int*)a, j = *(const int*)b; int c = mpack_tag_cmp(T[i].t, T[j].t); return c ? c : i - j; }

void mc_body(void) {
    mc_shard_depth = 1;
    if (!ready) {
        ready = true; build();
        for (int i = 0; i < nt; ++i) order_[i] = i;
        qsort(order_, (size_t)nt, sizeof *order_, qcmp);
        int rk = 0;
        for (int i = 0; i < nt; ++i) { if (i && mpack_tag_cmp(T[order_[i - 1]].t, T[order_[i]].t) != 0) ++rk; rank_[order_[i]] = rk; }
    }
    int i = (int)mc_choose((uint32_t)nt, "left tag");
    for (int j = 0; j < nt; ++j) {
        mc_eval(1); mc_nontrivial(i != j); mc_note(0, (uint64_t)j);
        int c = sg(mpack_tag_cmp(T[i].t, T[j].t)), d = sg(mpack_tag_cmp(T[j].t, T[i].t));
        if (c != -d) mc_fail("cmp(%s, %s) = %d but reversed %d", tx(&T[i]), tx(&T[j]), c, d);
        if ((c == 0) != eq(&T[i], &T[j])) mc_fail("cmp(%s, %s) = %d but the values are %s", tx(&T[i]), tx(&T[j]), c, eq(&T[i], &T[j]) ? "equal" : "different");
        if (mpack_tag_equal(T[i].t, T[j].t) != (c == 0)) mc_fail("mpack_tag_equal(%s, %s) disagrees with the comparison", tx(&T[i]), tx(&T[j]));
        if (c != sg(rank_[i] - rank_[j])) mc_fail("cmp(%s, %s) = %d contradicts the order through other tags (not transitive)", tx(&T[i]), tx(&T[j]), c);
    }
    if (!T[i].exotic) for (int j = 0; j < nt; ++j) if (!T[j].exotic) for (int k = 0; k < nt; ++k) if (!T[k].exotic) {
        mc_eval(1);
        if (mpack_tag_cmp(T[i].t, T[j].t) <= 0 && mpack_tag_cmp(T[j].t, T[k].t) <= 0 && mpack_tag_cmp(T[i].t, T[k].t) > 0) mc_fail("not transitive: %s <= %s <= %s", tx(&T[i]), tx(&T[j]), tx(&T[k]));
    }
}
