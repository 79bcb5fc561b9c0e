/* C02: header decoding is exact for every byte sequence. */
#include "common.h"

static uint8_t src[64];
static uint8_t* heap; /* exact-size copy so that reads past the end are caught */

static void check_at(size_t len) {
    rv v; size_t off = 0;
    int want = ref_header(src, len, &off, &v);
#if !MPACK_EXTENSIONS
    bool unsupported = len > 0 && ((src[0] >= 0xc7 && src[0] <= 0xc9) || (src[0] >= 0xd4 && src[0] <= 0xd8));
#endif
    mpack_reader_t r;
    const char* data = (const char*)src;
#ifdef VF_EXACT
    free(heap); heap = (uint8_t*)malloc(len ? len : 1); memcpy(heap, src, len); data = (const char*)heap;
#endif
    for (int pk = 0; pk < 2; ++pk) {
        mpack_reader_init_data(&r, data, len);
        const char* rest; size_t left;
        if (pk) {
            mpack_tag_t p = mpack_peek_tag(&r);
            mpack_tag_t p2 = mpack_peek_tag(&r);
            if (want == REF_OK
#if !MPACK_EXTENSIONS
                && !unsupported
#endif
            ) {
                MC_CHECK(tag_is(p, &v) && tag_is(p2, &v), "[%s] peek gave %s", hexs(src, len), tag_text(p));
                MC_CHECK(mpack_reader_error(&r) == mpack_ok, "[%s] peek flagged %s", hexs(src, len), ES(mpack_reader_error(&r)));
                left = mpack_reader_remaining(&r, &rest);
                MC_CHECK(left == len && rest == data, "[%s] peek consumed %zu bytes", hexs(src, len), len - left);
            }
        }
        mpack_tag_t t = mpack_read_tag(&r);
        mpack_error_t e = mpack_reader_error(&r);
        mc_step(1 + (uint64_t)pk);
        bool ok = want == REF_OK;
#if !MPACK_EXTENSIONS
        if (unsupported) {
            MC_CHECK(e != mpack_ok, "[%s] extension accepted without support", hexs(src, len));
            /* a header that is itself complete enough must be named unsupported */
            if (want == REF_OK) MC_CHECK(e == mpack_error_unsupported, "[%s] extension flagged %s", hexs(src, len), ES(e));
            ok = false;
        }
#endif
        if (ok) {
            MC_CHECK(e == mpack_ok, "[%s] read flagged %s", hexs(src, len), ES(e));
            MC_CHECK(tag_is(t, &v), "[%s] read gave %s", hexs(src, len), tag_text(t));
            left = mpack_reader_remaining(&r, &rest);
            MC_CHECK(len - left == off && rest == data + off, "[%s] read consumed %zu bytes, the header has %zu", hexs(src, len), len - left, off);
            if (v.t == RV_STR || v.t == RV_BIN || v.t == RV_EXT) MC_CHECK(mpack_tag_bytes(&t) == v.n, "[%s] tag bytes", hexs(src, len));
        } else {
            MC_CHECK(e != mpack_ok, "[%s] accepted", hexs(src, len));
            if (want == REF_INVALID) MC_CHECK(e == mpack_error_invalid, "[%s] reserved byte flagged %s", hexs(src, len), ES(e));
            MC_CHECK(mpack_tag_type(&t) == mpack_type_nil, "[%s] error but tag %s", hexs(src, len), tag_text(t));
            if (want == REF_TRUNC && len == 0) MC_CHECK(e == mpack_error_invalid, "empty data flagged %s", ES(e));
        }
        mpack_error_t de = mpack_reader_destroy(&r);
        MC_CHECK((de == mpack_ok) == (e == mpack_ok), "[%s] destroy says %s after %s", hexs(src, len), ES(de), ES(e));
    }
    mc_eval(1);
    if (len > 1) mc_nontrivial(1);
}

static const int extra_of(uint8_t b) {
    switch (b) {
        case 0xc4: case 0xcc: case 0xd0: case 0xd9: return 1;
        case 0xd4: case 0xd5: case 0xd6: case 0xd7: case 0xd8: return 1;
        case 0xc5: case 0xcd: case 0xd1: case 0xda: case 0xdc: case 0xde: case 0xc7: return 2;
        case 0xc8: return 3;
        case 0xc6: case 0xca: case 0xce: case 0xd2: case 0xdb: case 0xdd: case 0xdf: return 4;
        case 0xc9: return 5;
        case 0xcb: case 0xcf: case 0xd3: return 8;
    }
    return 0;
}

void mc_body(void) {
    mc_shard_depth = 3;
    uint32_t group = mc_choose(3, "group");
    if (group == 0) {
        /* every 0-, 1-, 2- and 3-byte input */
        uint32_t b0 = mc_choose(256, "first byte");
        src[0] = (uint8_t)b0;
        if (b0 == 0) check_at(0);
        check_at(1);
        for (uint32_t w = 0; w < 65536; ++w) {
            mc_note(0, w);
            src[1] = (uint8_t)(w >> 8); src[2] = (uint8_t)w;
            if ((w & 0xff) == 0) check_at(2);
            check_at(3);
        }
        mc_outcome(b0);
        return;
    }
    static const uint8_t multi[] = {0xc6, 0xc8, 0xc9, 0xca, 0xcb, 0xce, 0xcf, 0xd2, 0xd3, 0xdb, 0xdd, 0xdf};
    uint32_t k = mc_choose(sizeof multi, "multi-byte header");
    src[0] = multi[k];
    int ex = extra_of(multi[k]);
    if (group == 1) {
        /* truncations, with surrounding bytes */
        for (int len = 0; len <= ex + 3; ++len)
            for (uint32_t f = 0; f < 256; ++f) { memset(src + 1, (int)f, 16); check_at((size_t)len); }
        return;
    }
    uint64_t from, to;
    if (ex == 4) {
        bool all = mc_tier != 0;
        shard(all ? (uint64_t)1 << 32 : V32_N, all ? 256 : 4, &from, &to);
        for (uint64_t i = from; i < to; ++i) {
            uint32_t v = all ? (uint32_t)i : v32((uint32_t)i);
            mc_note(0, v);
            src[1] = (uint8_t)(v >> 24); src[2] = (uint8_t)(v >> 16); src[3] = (uint8_t)(v >> 8); src[4] = (uint8_t)v; src[5] = 0xc1;
            check_at(5 + (i & 1));
        }
    } else if (ex == 3 || ex == 5) {
        shard(V32_N * 8ull, 8, &from, &to);
        for (uint64_t i = from; i < to; ++i) {
            static const uint8_t ty[8] = {0, 1, 0x7f, 0x80, 0xff, 0xfe, 0x55, 0xc1};
            uint32_t v = v32((uint32_t)(i / 8));
            mc_note(0, v);
            if (ex == 5) { src[1] = (uint8_t)(v >> 24); src[2] = (uint8_t)(v >> 16); src[3] = (uint8_t)(v >> 8); src[4] = (uint8_t)v; src[5] = ty[i & 7]; check_at(6); }
            else { src[1] = (uint8_t)(v >> 8); src[2] = (uint8_t)v; src[3] = ty[i & 7]; check_at(4); }
        }
    } else {
        shard(V64_N, 8, &from, &to);
        for (uint64_t i = from; i < to; ++i) {
            uint64_t v = v64(i);
            mc_note(0, v);
            for (int q = 0; q < 8; ++q) src[1 + q] = (uint8_t)(v >> (56 - 8 * q));
            check_at(9);
        }
    }
    mc_outcome(mc_hash(k, src, 10));
}
