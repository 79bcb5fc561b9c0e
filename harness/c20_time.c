/* C20: timestamps round-trip in the smallest format and malformed ones are refused. */
#include "common.h"
static int64_t vs[2] ; 
typedef struct { int64_t s; uint32_t ns; } ts;

/* the five readers over an encoded object; want == NULL: must be refused */
static void readers(const uint8_t* d, size_t n, const ts* want, bool type_err, bool isext4only) {
    (void)isext4only;
    for (int a = 0; a < 5; ++a) {
        mc_eval(1);
        ts got = {0, 0}; mpack_error_t e; bool cmp_s = true, cmp_n = true;
        if (a < 3) {
            mpack_reader_t r; mpack_reader_init_data(&r, (const char*)d, n);
            mpack_timestamp_t t = {0, 0};
            if (a == 0) t = mpack_expect_timestamp(&r);
            else if (a == 1) { t.seconds = mpack_expect_timestamp_truncate(&r); cmp_n = false; }
            else {
                mpack_tag_t g = mpack_read_tag(&r);
                if (mpack_tag_type(&g) != mpack_type_ext || mpack_tag_ext_exttype(&g) != MPACK_EXTTYPE_TIMESTAMP) {
                    mpack_reader_flag_error(&r, mpack_error_data); mpack_reader_destroy(&r); continue;
                }
                t = mpack_read_timestamp(&r, mpack_tag_ext_length(&g));
            }
            if (want && mpack_reader_error(&r) == mpack_ok && mpack_reader_remaining(&r, NULL) != 0) mc_fail("timestamp [%s]: %zu bytes left unread", hexs(d, n), mpack_reader_remaining(&r, NULL));
            got.s = t.seconds; got.ns = t.nanoseconds;
            e = mpack_reader_destroy(&r);
        } else {
            mpack_node_data_t pool[300]; mpack_tree_t t; mpack_tree_init_pool(&t, (const char*)d, n, pool, 300); mpack_tree_parse(&t);
            mpack_node_t nd = mpack_tree_root(&t);
            if (mpack_tree_error(&t) != mpack_ok) { if (want) mc_fail("timestamp [%s] does not parse: %s", hexs(d, n), ES(mpack_tree_error(&t))); mpack_tree_destroy(&t); continue; }
            if (a == 3) { mpack_timestamp_t x = mpack_node_timestamp(nd); got.s = x.seconds; got.ns = x.nanoseconds; }
            else { got.ns = mpack_node_timestamp_nanoseconds(nd); t.error = want ? t.error : mpack_ok; got.s = mpack_node_timestamp_seconds(nd); }
            e = mpack_tree_destroy(&t);
        }
        static const char* nm[] = {"expect_timestamp", "expect_timestamp_truncate", "read_timestamp", "node_timestamp", "node_timestamp_seconds/nanoseconds"};
        if (want) {
            mc_nontrivial(1);
            if (e != mpack_ok) mc_fail("%s refuses [%s]: %s", nm[a], hexs(d, n), ES(e));
            if ((cmp_s && got.s != want->s) || (cmp_n && got.ns != want->ns)) mc_fail("%s of [%s] is %lld.%09u, should be %lld.%09u", nm[a], hexs(d, n), (long long)got.s, got.ns, (long long)want->s, want->ns);
        } else {
            if (e == mpack_ok) mc_fail("%s accepts [%s] as %lld.%09u", nm[a], hexs(d, n), (long long)got.s, got.ns);
            if (type_err ? e != mpack_error_type : e != mpack_error_invalid) mc_fail("%s of [%s] flags %s", nm[a], hexs(d, n), ES(e));
            if (got.s || got.ns) mc_fail("%s of [%s] flags an error but returns %lld.%09u", nm[a], hexs(d, n), (long long)got.s, got.ns);
        }
    }
}
static void pair(int64_t s, uint32_t ns) {
    char buf[20]; ts t = {s, ns};
    mpack_writer_t w; mpack_writer_init(&w, buf, sizeof buf);
    switch ((ns ^ (uint32_t)s) & 3) {
        case 0: case 1: mpack_write_timestamp(&w, s, ns); break;
        case 2: { mpack_timestamp_t x; x.seconds = s; x.nanoseconds = ns; mpack_write_timestamp_struct(&w, x); break; }
        default: if (ns) mpack_write_timestamp(&w, s, ns); else mpack_write_timestamp_seconds(&w, s);
    }
    mc_eval(1);
    size_t n = mpack_writer_buffer_used(&w); mpack_error_t e = mpack_writer_destroy(&w);
    if (ns > 999999999u) {
        if (e != mpack_error_bug) mc_fail("writing %lld.%u: %s", (long long)s, ns, ES(e));
        return;
    }
    if (e != mpack_ok) mc_fail("writing %lld.%09u: %s", (long long)s, ns, ES(e));
    static rbuf b; b.n = 0; ref_timestamp(&b, s, ns);
    if (n != b.n || memcmp(b.p, buf, n)) mc_fail("writing %lld.%09u produced [%s]", (long long)s, ns, hexs(buf, n));
    readers(b.p, b.n, &t, false, false);
}
static uint32_t nsv(uint32_t i) {    /* 0, 2^k+d, 10^k+d, limits */
    static const uint32_t p10[] = {1,10,100,1000,10000,100000,1000000,10000000,100000000,1000000000};
    if (i < 96) return (uint32_t)(((uint64_t)1 << (i / 3)) + (uint64_t)(int64_t)((int)(i % 3) - 1));
    i -= 96;
    if (i < 30) return p10[i / 3] + i % 3 - 1;
    i -= 30;
    static const uint32_t x[] = {0x2aaaaaaa, 0x15555555, 0x3b9ac9ff, 0x3b9aca00, 0x3b9aca01, 0x3fffffff, 0xaaaaaaaa, 123456789, 987654321, 0xffffffff};
    return x[i];
}
#define NNS 136u
static int64_t sv(uint32_t i) {
    static const int64_t x[] = {0, 1, -1, 2, -2, 1514862245, 0xffffffffLL, 0x100000000LL, 0x3ffffffffLL, 0x400000000LL, 0x3fffffffeLL, 0x7fffffffffffffffLL, -0x7fffffffffffffffLL - 1, -0x100000000LL, -0x400000000LL, 0x155555555LL, 0x2aaaaaaaaLL, 0x7fffffff, 0x80000000LL, 0xfffffffeLL, 0x0102030405060708LL, -0x0102030405060708LL};
    return x[i];
}
#define NSV 22u

void mc_body(void) {
    mc_shard_depth = 2;
    uint64_t a, b;
    switch (mc_choose(6, "part")) {
        case 0: shard(V64_N, 128, &a, &b);
            for (uint64_t i = a; i < b; ++i) { mc_note(0, i); for (uint32_t q = 0; q < NNS; q += mc_tier ? 1 : 5) pair((int64_t)v64(i), nsv(q)); } break;
        case 1: shard(V32_N, 128, &a, &b);
            for (uint64_t i = a; i < b; ++i) { mc_note(0, i); for (uint32_t q = 0; q < NSV; ++q) pair(sv(q), v32((uint32_t)i)); } break;
        case 2: { /* bit walks around the 34/30 packing */
            uint32_t k = mc_choose(64, "seconds bit");
            for (int d = -2; d <= 2; ++d) for (uint32_t q = 0; q < NNS; ++q) { pair((int64_t)(((uint64_t)1 << k) + (uint64_t)(int64_t)d), nsv(q)); pair((int64_t)(0 - (((uint64_t)1 << k) + (uint64_t)(int64_t)d)), nsv(q)); }
            break; }
        case 3: { /* payload patterns of the 8- and 12-byte formats, in and out of range, in every header form */
            uint32_t q = mc_choose(NNS, "nanoseconds");
            for (uint32_t i = 0; i < NSV; ++i) {
                uint32_t ns = nsv(q); int64_t s = sv(i); ts t = {s, ns}; bool ok = ns <= 999999999u;
                static rbuf x;
                x.n = 0; rb_u8(&x, 0xc7); rb_u8(&x, 12); rb_u8(&x, 0xff); rb_be(&x, ns, 4); rb_be(&x, (uint64_t)s, 8); readers(x.p, x.n, ok ? &t : NULL, false, false);
                x.n = 0; rb_u8(&x, 0xc8); rb_be(&x, 12, 2); rb_u8(&x, 0xff); rb_be(&x, ns, 4); rb_be(&x, (uint64_t)s, 8); readers(x.p, x.n, ok ? &t : NULL, false, false);
                x.n = 0; rb_u8(&x, 0xc9); rb_be(&x, 12, 4); rb_u8(&x, 0xff); rb_be(&x, ns, 4); rb_be(&x, (uint64_t)s, 8); readers(x.p, x.n, ok ? &t : NULL, false, false);
                t.s = s & 0x3ffffffffLL; t.ns = ns & 0x3fffffff; ok = t.ns <= 999999999u;
                x.n = 0; rb_u8(&x, 0xd7); rb_u8(&x, 0xff); rb_be(&x, (uint64_t)t.ns << 34 | (uint64_t)t.s, 8); readers(x.p, x.n, ok ? &t : NULL, false, false);
                x.n = 0; rb_u8(&x, 0xc7); rb_u8(&x, 8); rb_u8(&x, 0xff); rb_be(&x, (uint64_t)t.ns << 34 | (uint64_t)t.s, 8); readers(x.p, x.n, ok ? &t : NULL, false, false);
                t.s = s & 0xffffffffLL; t.ns = 0;
                x.n = 0; rb_u8(&x, 0xd6); rb_u8(&x, 0xff); rb_be(&x, (uint64_t)t.s, 4); readers(x.p, x.n, &t, false, false);
                x.n = 0; rb_u8(&x, 0xc9); rb_be(&x, 4, 4); rb_u8(&x, 0xff); rb_be(&x, (uint64_t)t.s, 4); readers(x.p, x.n, &t, false, false);
            }
            break; }
        case 4: { /* every extension type, every size 0..40, fillers */
            uint32_t et = mc_choose(256, "extension type");
            static const uint8_t fl[] = {0x00, 0x01, 0x7f, 0x80, 0xff};
            for (uint32_t n = 0; n <= 40; ++n) for (int form = 0; form < 4; ++form) for (size_t f = 0; f < sizeof fl; ++f) {
                rbuf x; rb_init(&x);
                if (form == 0) ref_ext_hdr(&x, (int8_t)(uint8_t)et, n); else { rb_u8(&x, 0xc6 + (unsigned)form); rb_be(&x, n, 1 << (form - 1)); rb_u8(&x, et); }
                for (uint32_t i = 0; i < n; ++i) rb_u8(&x, fl[f]);
                const uint8_t* p = x.p + x.n - n; ts t; bool ok = et == 0xff && (n == 4 || n == 8 || n == 12);
                if (ok) {
                    if (n == 4) { t.s = (int64_t)ref_be(p, 4); t.ns = 0; }
                    else if (n == 8) { uint64_t v = ref_be(p, 8); t.s = (int64_t)(v & 0x3ffffffffull); t.ns = (uint32_t)(v >> 34); }
                    else { t.ns = (uint32_t)ref_be(p, 4); t.s = (int64_t)ref_be(p + 4, 8); }
                    if (t.ns > 999999999u) ok = false;
                }
                readers(x.p, x.n, ok ? &t : NULL, et != 0xff, false);
                rb_free(&x);
            }
            break; }
        default: { /* any other type */
            uint32_t h = mc_choose(256, "first byte");
            if (h == 0xc1 || (h >= 0xc7 && h <= 0xc9) || (h >= 0xd4 && h <= 0xd8)) mc_done();
            uint8_t d[64]; memset(d, 0, sizeof d); d[0] = (uint8_t)h;
            readers(d, sizeof d, NULL, true, false);
            break; }
    }
    (void)vs;
}
