/* C17: map lookups and index access of nodes against a plain list of entries. */
#include "common.h"
#include "longs.h"
typedef struct { const char* enc; uint8_t n; char kind; bool neg; uint64_t u; const char* s; uint8_t sl; } key;   /* kind: i number, s string, x other */
#define E(x) x, sizeof(x) - 1
static const key K[] = {
    {E("\x01"), 'i', 0, 1, 0, 0}, {E("\xd0\x01"), 'i', 0, 1, 0, 0}, {E("\xcf\0\0\0\0\0\0\0\x01"), 'i', 0, 1, 0, 0},
    {E("\x00"), 'i', 0, 0, 0, 0}, {E("\xff"), 'i', 1, (uint64_t)-1, 0, 0}, {E("\xd3\xff\xff\xff\xff\xff\xff\xff\xff"), 'i', 1, (uint64_t)-1, 0, 0},
    {E("\xcf\xff\xff\xff\xff\xff\xff\xff\xff"), 'i', 0, UINT64_MAX, 0, 0}, {E("\xcf\x80\0\0\0\0\0\0\0"), 'i', 0, 0x8000000000000000ull, 0, 0}, {E("\xd3\x80\0\0\0\0\0\0\0"), 'i', 1, 0x8000000000000000ull, 0, 0},
    {E("\xcc\xff"), 'i', 0, 255, 0, 0}, {E("\xd1\x01\x01"), 'i', 0, 257, 0, 0}, {E("\xce\0\x01\0\x01"), 'i', 0, 65537, 0, 0}, {E("\xcf\0\0\0\x01\0\0\0\x01"), 'i', 0, 0x100000001ull, 0, 0}, {E("\xd2\xff\xff\xff\x01"), 'i', 1, (uint64_t)-255, 0, 0},
    {E("\xa0"), 's', 0, 0, "", 0}, {E("\xa1" "a"), 's', 0, 0, "a", 1}, {E("\xd9\x01" "a"), 's', 0, 0, "a", 1}, {E("\xa2" "ab"), 's', 0, 0, "ab", 2}, {E("\xa1" "b"), 's', 0, 0, "b", 1}, {E("\xa2" "a\0"), 's', 0, 0, "a\0", 2}, {E("\xa1\x01"), 's', 0, 0, "\x01", 1}, {E("\xa1\xe1"), 's', 0, 0, "\xe1", 1},
    {E("\xc4\x01" "a"), 'x', 0, 0, 0, 0}, {E("\xc0"), 'x', 0, 0, 0, 0}, {E("\xc3"), 'x', 0, 0, 0, 0}, {E("\xca\x3f\x80\0\0"), 'x', 0, 0, 0, 0}, {E("\xcb\x3f\xf0\0\0\0\0\0\0"), 'x', 0, 0, 0, 0}, {E("\x91\x01"), 'x', 0, 0, 0, 0}, {E("\x81\x01\x01"), 'x', 0, 0, 0, 0}, {E("\xd4\x01" "a"), 'x', 0, 0, 0, 0},
};
#define NK ((uint32_t)(sizeof K / sizeof *K))
static const int64_t QI[] = {0, 1, -1, 255, 257, 65537, 0x100000001LL, -255, INT64_MIN, INT64_MAX, 2, -257};
static const uint64_t QU[] = {0, 1, 255, 257, 65537, 0x100000001ull, 0x8000000000000000ull, UINT64_MAX, UINT64_MAX - 254, 2, 1ull << 32};
static const struct { const char* s; uint8_t n; } QS[] = {{"", 0}, {"a", 1}, {"ab", 2}, {"b", 1}, {"a\0", 2}, {"\x01", 1}, {"\xe1", 1}, {"abc", 3}, {"\0", 1}};
#define N_(a) (int)(sizeof a / sizeof *a)

static mpack_tree_t t; static mpack_node_t m; static const char* doc; static size_t docn;
static void res_node(mpack_node_t got, int hits, int val, bool optional, const char* what, const char* q) {
    mpack_error_t e = mpack_tree_error(&t);
    mc_eval(1); mc_nontrivial(hits > 0);
    if (hits == 1) {
        if (e != mpack_ok) mc_fail("%s %s in [%s]: %s", what, q, hexs(doc, docn), ES(e));
        if (mpack_node_u32(got) != (uint32_t)(200 + val) || mpack_tree_error(&t) != mpack_ok) mc_fail("%s %s in [%s] returned the wrong node", what, q, hexs(doc, docn));
    } else if (hits == 0 && optional) {
        if (e != mpack_ok) mc_fail("%s %s (absent) in [%s]: %s", what, q, hexs(doc, docn), ES(e));
        if (!mpack_node_is_missing(got) || mpack_node_type(got) != mpack_type_missing) mc_fail("%s %s (absent) in [%s] is not a missing node", what, q, hexs(doc, docn));
    } else {
        if (e != mpack_error_data) mc_fail("%s %s (%d matches) in [%s]: %s", what, q, hits, hexs(doc, docn), ES(e));
        if (!mpack_node_is_nil(got) || mpack_node_type(got) != mpack_type_nil) mc_fail("%s %s (%d matches) in [%s] does not return nil", what, q, hits, hexs(doc, docn));
        t.error = mpack_ok;
        if (mpack_node_type(got) != mpack_type_nil || mpack_node_is_missing(got)) mc_fail("%s %s (%d matches) in [%s]: the returned node is not a nil node", what, q, hits, hexs(doc, docn));
    }
    t.error = mpack_ok;
}
static void res_has(bool got, int hits, const char* what, const char* q) {
    mc_eval(1);
    mpack_error_t e = mpack_tree_error(&t);
    if (got != (hits == 1)) mc_fail("%s %s (%d matches) in [%s] is %d", what, q, hits, hexs(doc, docn), got);
    if (e != (hits > 1 ? mpack_error_data : mpack_ok)) mc_fail("%s %s (%d matches) in [%s]: %s", what, q, hits, hexs(doc, docn), ES(e));
    t.error = mpack_ok;
}
static void queries(const int* ks, int n) {
    char q[40];
    for (int i = 0; i < N_(QI); ++i) {
        int hits = 0, val = 0;
        for (int j = 0; j < n; ++j) if (K[ks[j]].kind == 'i' && K[ks[j]].neg == (QI[i] < 0) && K[ks[j]].u == (uint64_t)QI[i]) { ++hits; val = j; }
        snprintf(q, sizeof q, "%lld", (long long)QI[i]);
        res_node(mpack_node_map_int(m, QI[i]), hits, val, false, "map_int", q);
        res_node(mpack_node_map_int_optional(m, QI[i]), hits, val, true, "map_int_optional", q);
        res_has(mpack_node_map_contains_int(m, QI[i]), hits, "map_contains_int", q);
    }
    for (int i = 0; i < N_(QU); ++i) {
        int hits = 0, val = 0;
        for (int j = 0; j < n; ++j) if (K[ks[j]].kind == 'i' && !K[ks[j]].neg && K[ks[j]].u == QU[i]) { ++hits; val = j; }
        snprintf(q, sizeof q, "%llu", (unsigned long long)QU[i]);
        res_node(mpack_node_map_uint(m, QU[i]), hits, val, false, "map_uint", q);
        res_node(mpack_node_map_uint_optional(m, QU[i]), hits, val, true, "map_uint_optional", q);
        res_has(mpack_node_map_contains_uint(m, QU[i]), hits, "map_contains_uint", q);
    }
    for (int i = 0; i < N_(QS); ++i) {
        int hits = 0, val = 0, chits = 0, cval = 0;
        size_t cl = strlen(QS[i].s);
        for (int j = 0; j < n; ++j) if (K[ks[j]].kind == 's') {
            if (K[ks[j]].sl == QS[i].n && memcmp(K[ks[j]].s, QS[i].s, QS[i].n) == 0) { ++hits; val = j; }
            if (K[ks[j]].sl == cl && memcmp(K[ks[j]].s, QS[i].s, cl) == 0) { ++chits; cval = j; }
        }
        snprintf(q, sizeof q, "'%s'/%u", QS[i].s, QS[i].n);
        char* x = (char*)malloc(QS[i].n ? QS[i].n : 1); memcpy(x, QS[i].s, QS[i].n);     /* exact size */
        res_node(mpack_node_map_str(m, x, QS[i].n), hits, val, false, "map_str", q);
        res_node(mpack_node_map_str_optional(m, x, QS[i].n), hits, val, true, "map_str_optional", q);
        res_has(mpack_node_map_contains_str(m, x, QS[i].n), hits, "map_contains_str", q);
        free(x);
        res_node(mpack_node_map_cstr(m, QS[i].s), chits, cval, false, "map_cstr", q);
        res_node(mpack_node_map_cstr_optional(m, QS[i].s), chits, cval, true, "map_cstr_optional", q);
        res_has(mpack_node_map_contains_cstr(m, QS[i].s), chits, "map_contains_cstr", q);
    }
}
static void lookup(const int* ks, int n, int wrap) {
    static rbuf b; b.n = 0;
    if (wrap) { rb_u8(&b, 0x93); rb_u8(&b, 0x92); rb_u8(&b, 1); rb_u8(&b, 2); }
    rb_u8(&b, 0x80 + (unsigned)n);
    for (int i = 0; i < n; ++i) { rb_mem(&b, K[ks[i]].enc, K[ks[i]].n); rb_u8(&b, 0xcc); rb_u8(&b, 200 + (unsigned)i); }
    if (wrap) { rb_u8(&b, 0x81); rb_u8(&b, 3); rb_u8(&b, 4); }
    doc = (const char*)b.p; docn = b.n;
    static mpack_node_data_t pool[64];
    if (wrap) mpack_tree_init_data(&t, doc, docn); else mpack_tree_init_pool(&t, doc, docn, pool, 64);
    mpack_tree_parse(&t);
    m = mpack_tree_root(&t); if (wrap) m = mpack_node_array_at(m, 1);
    if (mpack_tree_error(&t) != mpack_ok) mc_fail("[%s] does not parse: %s", hexs(doc, docn), ES(mpack_tree_error(&t)));
    if (mpack_node_map_count(m) != (size_t)n) mc_fail("map_count of [%s]", hexs(doc, docn));
    queries(ks, n);
    static const size_t idx[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, SIZE_MAX, SIZE_MAX / 2, SIZE_MAX / 2 + 1, (size_t)1 << (sizeof(size_t) * 4), SIZE_MAX - 1};
    for (int i = 0; i < N_(idx); ++i) {
        for (int w = 0; w < 2; ++w) {
            mpack_node_t g = w ? mpack_node_map_value_at(m, idx[i]) : mpack_node_map_key_at(m, idx[i]);
            mpack_error_t e = mpack_tree_error(&t); mc_eval(1);
            bool in = idx[i] < (size_t)n;
            if (e != (in ? mpack_ok : mpack_error_data)) mc_fail("map_%s_at(%zu) of [%s]: %s", w ? "value" : "key", idx[i], hexs(doc, docn), ES(e));
            t.error = mpack_ok;
            if (!in) { if (mpack_node_type(g) != mpack_type_nil) mc_fail("out-of-bounds map access does not return nil"); continue; }
            if (w) { if (mpack_node_u8(g) != 200 + idx[i]) mc_fail("map_value_at(%zu) of [%s] is another value", idx[i], hexs(doc, docn)); }
            else { const key* k = &K[ks[idx[i]]];
                bool ok = k->kind == 'i' ? (k->neg ? mpack_node_i64(g) == (int64_t)k->u : mpack_node_u64(g) == k->u) : k->kind == 's' ? (mpack_node_strlen(g) == k->sl && memcmp(mpack_node_str(g), k->s, k->sl) == 0) : mpack_node_type(g) != mpack_type_uint;
                if (!ok || mpack_tree_error(&t) != mpack_ok) mc_fail("map_key_at(%zu) of [%s] is another key", idx[i], hexs(doc, docn)); }
        }
        mpack_node_t g = mpack_node_array_at(m, idx[i]); mc_eval(1);
        if (mpack_tree_error(&t) != mpack_error_type || mpack_node_type(g) != mpack_type_nil) mc_fail("array_at on a map: %s", ES(mpack_tree_error(&t)));
        t.error = mpack_ok; if (mpack_node_type(g) != mpack_type_nil) mc_fail("array_at on a map does not return a nil node");
    }
    if (mpack_node_array_length(m) != 0 || mpack_tree_error(&t) != mpack_error_type) mc_fail("array_length of a map");
    mpack_tree_destroy(&t);
}
static void nonmap(const uint8_t* d, size_t n) {
    static mpack_node_data_t pool[300];
    doc = (const char*)d; docn = n;
    mpack_tree_init_pool(&t, doc, n, pool, 300); mpack_tree_parse(&t);
    if (mpack_tree_error(&t) != mpack_ok) { mpack_tree_destroy(&t); return; }
    m = mpack_tree_root(&t);
    bool ismap = mpack_node_type(m) == mpack_type_map, isarr = mpack_node_type(m) == mpack_type_array;
    if (ismap) { mpack_tree_destroy(&t); return; }
#define TE(call, what) do { mc_eval(1); mc_nontrivial(1); if (!(call) || mpack_tree_error(&t) != mpack_error_type) mc_fail("%s on a %s: %s", what, mpack_type_to_string(mpack_node_type(m)), ES(mpack_tree_error(&t))); t.error = mpack_ok; } while (0)
#define NILN(x) (nn = (x), mpack_node_type(nn) == mpack_type_nil && mpack_node_is_nil(nn))
    mpack_node_t nn;
    TE(NILN(mpack_node_map_int(m, 1)), "map_int"); TE(NILN(mpack_node_map_int_optional(m, 1)), "map_int_optional"); TE(!mpack_node_map_contains_int(m, 1), "map_contains_int");
    TE(NILN(mpack_node_map_uint(m, 1)), "map_uint"); TE(NILN(mpack_node_map_uint_optional(m, 1)), "map_uint_optional"); TE(!mpack_node_map_contains_uint(m, 1), "map_contains_uint");
    TE(NILN(mpack_node_map_str(m, "a", 1)), "map_str"); TE(NILN(mpack_node_map_str_optional(m, "a", 1)), "map_str_optional"); TE(!mpack_node_map_contains_str(m, "a", 1), "map_contains_str");
    TE(NILN(mpack_node_map_cstr(m, "a")), "map_cstr"); TE(NILN(mpack_node_map_cstr_optional(m, "a")), "map_cstr_optional"); TE(!mpack_node_map_contains_cstr(m, "a"), "map_contains_cstr");
    TE(mpack_node_map_count(m) == 0, "map_count"); TE(NILN(mpack_node_map_key_at(m, 0)), "map_key_at"); TE(NILN(mpack_node_map_value_at(m, 0)), "map_value_at");
    if (!isarr) { TE(mpack_node_array_length(m) == 0, "array_length"); TE(NILN(mpack_node_array_at(m, 0)), "array_at"); }
    mpack_tree_destroy(&t);
}
static void arrays(void) {
    static const size_t lens[] = {0, 1, 2, 3, 4, 5, 15, 16, 17, 40};
    size_t n = lens[mc_choose(N_(lens), "length")];
    for (int pooled = 0; pooled < 2; ++pooled) for (unsigned mode = 0; mode < 3; ++mode) {
        rbuf b; rb_init(&b); ref_array_hdr(&b, (uint32_t)n);
        for (size_t i = 0; i < n; ++i) { if (mode == 0) rb_u8(&b, (unsigned)i); else if (mode == 1) { rb_u8(&b, 0x91); rb_u8(&b, (unsigned)i); } else { rb_u8(&b, 0xa1); rb_u8(&b, (unsigned)i); } }
        doc = (const char*)b.p; docn = b.n;
        static mpack_node_data_t pool[128];
        if (pooled) mpack_tree_init_pool(&t, doc, docn, pool, 128); else mpack_tree_init_data(&t, doc, docn);
        mpack_tree_parse(&t); m = mpack_tree_root(&t);
        if (mpack_node_array_length(m) != n) mc_fail("array_length is %zu, not %zu", mpack_node_array_length(m), n);
        for (size_t i = 0; i < n + 4; ++i) {
            size_t ix = i <= n ? i : i == n + 1 ? SIZE_MAX : i == n + 2 ? SIZE_MAX / 2 + 1 : (size_t)1 << (sizeof(size_t) * 4);
            mpack_node_t g = mpack_node_array_at(m, ix); mc_eval(1); mc_nontrivial(ix < n);
            if (mpack_tree_error(&t) != (ix < n ? mpack_ok : mpack_error_data)) mc_fail("array_at(%zu) of %zu: %s", ix, n, ES(mpack_tree_error(&t)));
            t.error = mpack_ok;
            if (ix >= n) { if (mpack_node_type(g) != mpack_type_nil) mc_fail("array_at(%zu) of %zu does not return nil", ix, n); continue; }
            uint64_t v = mode == 0 ? mpack_node_u64(g) : mode == 1 ? mpack_node_u64(mpack_node_array_at(g, 0)) : (uint8_t)mpack_node_str(g)[0];
            if (v != ix) mc_fail("array_at(%zu) is element %llu", ix, (unsigned long long)v);
        }
        mpack_tree_destroy(&t); rb_free(&b);
    }
}
/* keys of every length of a table, next to every key they are easily mistaken for, in both orders */
static void longs(void) {
    uint32_t L = LLEN[mc_choose(NLLEN, "length")], a = mc_choose(NLVAR, "first key"); lv_make(L);
    if (!LVAR[a].there) return;
    mc_state(mc_hash(17 + a, &L, sizeof L));
    for (int b = 0; b <= NLVAR; ++b) {
        bool two = b < NLVAR; if (two && !LVAR[b].there) continue;
        if (L > 1024 && two && b > 2 && a > 2) continue;
        rbuf d; rb_init(&d); ref_map_hdr(&d, two ? 2 : 1);
        ref_str_hdr(&d, LVAR[a].n, false); rb_mem(&d, LVAR[a].p, LVAR[a].n); rb_u8(&d, 0xcc); rb_u8(&d, 200);
        if (two) { ref_str_hdr(&d, LVAR[b].n, false); rb_mem(&d, LVAR[b].p, LVAR[b].n); rb_u8(&d, 0xcc); rb_u8(&d, 201); }
        doc = (const char*)d.p; docn = d.n;
        static mpack_node_data_t pool[8]; mpack_tree_init_pool(&t, doc, docn, pool, 8); mpack_tree_parse(&t); m = mpack_tree_root(&t);
        for (int q = 0; q < NLVAR; ++q) if (LVAR[q].there) {
            int hits = lv_same((int)a, q) + (two && lv_same(b, q)), val = lv_same((int)a, q) ? 0 : 1;
            char w[60]; snprintf(w, sizeof w, "(length %u, variants %u %d, query %d)", L, a, b, q);
            char* x = (char*)malloc(LVAR[q].n ? LVAR[q].n : 1); memcpy(x, LVAR[q].p, LVAR[q].n);
            res_node(mpack_node_map_str(m, x, LVAR[q].n), hits, val, false, "map_str", w);
            res_node(mpack_node_map_str_optional(m, x, LVAR[q].n), hits, val, true, "map_str_optional", w);
            res_has(mpack_node_map_contains_str(m, x, LVAR[q].n), hits, "map_contains_str", w);
            free(x);
            res_node(mpack_node_map_cstr(m, LVAR[q].p), hits, val, false, "map_cstr", w);
            res_node(mpack_node_map_cstr_optional(m, LVAR[q].p), hits, val, true, "map_cstr_optional", w);
            res_has(mpack_node_map_contains_cstr(m, LVAR[q].p), hits, "map_contains_cstr", w);
        }
        mpack_tree_destroy(&t); rb_free(&d);
    }
}
void mc_body(void) {
    mc_shard_depth = 2;
    switch (mc_choose(5, "part")) {
        case 4: longs(); break;
        case 0: { /* maps of every size to the bound, every key tuple */
            int ks[4] = {0};
            ks[0] = (int)mc_choose(NK, "first key");
            ks[1] = (int)mc_choose(NK, "second key");
            lookup(ks, 0, 0); lookup(ks, 1, 0); lookup(ks, 2, 0); lookup(ks, 1, 1); lookup(ks, 2, 1);
            for (int c = 0; c < (int)NK; ++c) {
                ks[2] = c; lookup(ks, 3, 0); lookup(ks, 3, 1);
#ifdef LK4
                for (int d = 0; d < (int)NK; d += mc_tier ? 1 : 3) { ks[3] = d; lookup(ks, 4, d & 1); }
#endif
            }
            break; }
        case 1: { uint8_t d[64]; memset(d, 0, sizeof d); d[0] = (uint8_t)mc_choose(256, "first byte"); nonmap(d, sizeof d); memset(d + 1, 'a', 40); nonmap(d, sizeof d); break; }
        case 2: arrays(); break;
        default: { /* larger maps: the duplicate at every pair of positions */
            int n = 5 + (int)mc_choose(14, "entries"), kind = (int)mc_choose(3, "key kind");
            for (int a = 0; a < n; ++a) for (int bpos = a; bpos < n; ++bpos) {
                rbuf b; rb_init(&b); ref_map_hdr(&b, (uint32_t)n);
                for (int i = 0; i < n; ++i) {
                    int k = i == bpos ? a : i;
                    if (kind == 0) rb_u8(&b, (unsigned)k); else if (kind == 1) { rb_u8(&b, 0xd1); rb_be(&b, (uint64_t)(int64_t)-k - 300, 2); } else { rb_u8(&b, 0xa2); rb_u8(&b, 'k'); rb_u8(&b, (unsigned)('a' + k)); }
                    rb_u8(&b, 0xcc); rb_u8(&b, 200 + (unsigned)i);
                }
                doc = (const char*)b.p; docn = b.n;
                mpack_tree_init_data(&t, doc, docn); mpack_tree_parse(&t); m = mpack_tree_root(&t);
                for (int k = 0; k < n; ++k) {
                    int hits = 0, val = 0; for (int i = 0; i < n; ++i) if ((i == bpos ? a : i) == k) { ++hits; val = i; }
                    char s[3] = {'k', (char)('a' + k), 0};
                    if (kind == 2) { res_node(mpack_node_map_cstr(m, s), hits, val, false, "map_cstr", s); res_node(mpack_node_map_str_optional(m, s, 2), hits, val, true, "map_str_optional", s); res_has(mpack_node_map_contains_cstr(m, s), hits, "map_contains_cstr", s); }
                    else { int64_t q = kind ? -k - 300 : k; res_node(mpack_node_map_int(m, q), hits, val, false, "map_int", "n"); res_node(mpack_node_map_int_optional(m, q), hits, val, true, "map_int_optional", "n"); res_has(mpack_node_map_contains_int(m, q), hits, "map_contains_int", "n");
                        if (!kind) { res_node(mpack_node_map_uint(m, (uint64_t)q), hits, val, false, "map_uint", "n"); res_has(mpack_node_map_contains_uint(m, (uint64_t)q), hits, "map_contains_uint", "n"); } }
                }
                mpack_tree_destroy(&t); rb_free(&b);
            }
            break; }
    }
}
