/* C12: builders produce the bytes that explicit counts would have produced. */
#include "common.h"

typedef struct bn { uint8_t kind; uint8_t n; bool built; uint8_t style; struct bn* kid[8]; } bn;
enum { L_NIL, L_STR20, L_BIN40, L_U64P, L_STR100, L_STR0, B_ARR, B_MAP };
static bn pool[64]; static int used, budget, nleaf, maxkids;

static void leaf(uint8_t k, mpack_writer_t* w, rbuf* e) {
    const char* p = (const char*)payload();
    mc_step(1);
    switch (k) {
        case L_NIL: if (e) ref_nil(e); else mpack_write_nil(w); break;
        case L_STR0: if (e) ref_str_hdr(e, 0, 0); else mpack_write_cstr(w, ""); break;
        case L_STR20: if (e) { ref_str_hdr(e, 20, 0); rb_mem(e, p, 20); } else mpack_write_str(w, p, 20); break;
        case L_BIN40: if (e) { ref_bin_hdr(e, 40, 0); rb_mem(e, wild() + 2, 40); } else mpack_write_bin(w, (const char*)wild() + 2, 40); break;
        case L_U64P: /* a long integer */
            if (e) ref_uint(e, 0x1122334455667788ull); else mpack_write_u64(w, 0x1122334455667788ull); break;
        case L_STR100: if (e) { ref_str_hdr(e, 100, 0); rb_mem(e, p, 100); }
            else { mpack_start_str(w, 100); mpack_write_bytes(w, p, 60); mpack_write_bytes(w, p + 60, 40); mpack_finish_str(w); } break;
    }
}
static bn* gen(int depth) {
    bn* v = &pool[used++]; memset(v, 0, sizeof *v); v->style = (uint8_t)(used & 3);
    budget--;
    int na = depth < 4 ? (maxkids < budget ? maxkids : budget) + 1 : 0;
    int nm = depth < 4 ? (maxkids / 2 < budget / 2 ? maxkids / 2 : budget / 2) + 1 : 0;
    uint32_t c = mc_choose((uint32_t)(nleaf + 2 * na + 2 * nm), "object");
    if ((int)c < nleaf) { v->kind = (uint8_t)c; return v; }
    c -= (uint32_t)nleaf;
    v->built = c & 1; c >>= 1;
    int kids;
    if ((int)c < na) { v->kind = B_ARR; kids = v->n = (uint8_t)c; }
    else { v->kind = B_MAP; v->n = (uint8_t)(c - (uint32_t)na); kids = 2 * v->n; }
    int reserved = kids;
    for (int i = 0; i < kids; ++i) { --reserved; budget -= reserved; v->kid[i] = gen(depth + 1); budget += reserved; }
    return v;
}
static int open_builds; static const char* flush_problem;
static rbuf out;
static int flushes;
static void on_flush(mpack_writer_t* w, const char* b, size_t n) { (void)w; if (open_builds) flush_problem = "flush called while a build is open"; rb_mem(&out, b, n); ++flushes; }

static void emit(const bn* v, mpack_writer_t* w, rbuf* e) {
    if (v->kind < B_ARR) { leaf(v->kind, w, e); return; }
    int kids = v->kind == B_MAP ? 2 * v->n : v->n;
    mc_step(2);
    if (e) { if (v->kind == B_MAP) ref_map_hdr(e, v->n); else ref_array_hdr(e, v->n); }
    else if (v->built) { if (v->kind == B_MAP) mpack_build_map(w); else mpack_build_array(w); ++open_builds; }
    else if (v->style & 1) mpack_write_tag(w, v->kind == B_MAP ? mpack_tag_map(v->n) : mpack_tag_array(v->n));
    else { if (v->kind == B_MAP) mpack_start_map(w, v->n); else mpack_start_array(w, v->n); }
    for (int i = 0; i < kids; ++i) emit(v->kid[i], w, e);
    if (!e) {
        if (v->built) { --open_builds; if (v->kind == B_MAP) mpack_complete_map(w); else mpack_complete_array(w); }
        else if (v->style & 2) mpack_finish_type(w, v->kind == B_MAP ? mpack_type_map : mpack_type_array);
        else { if (v->kind == B_MAP) mpack_finish_map(w); else mpack_finish_array(w); }
    }
}
static char* text(const bn* v, char* p) {
    static const char* const nm[] = {"nil","str20","bin40","u64","str100","str0"};
    if (v->kind < B_ARR) return p + sprintf(p, "%s ", nm[v->kind]);
    p += sprintf(p, "%s%s(", v->built ? "build-" : "", v->kind == B_MAP ? "map" : "array");
    int kids = v->kind == B_MAP ? 2 * v->n : v->n;
    for (int i = 0; i < kids; ++i) p = text(v->kid[i], p);
    return p + sprintf(p, ") ");
}

/* the outer shape: pre-writes, an outer build with padding, the document, a trailer */
static uint32_t pad, shape; static bn* doc; static uint32_t bigcount;
static void all(mpack_writer_t* w, rbuf* e) {
    const char* p = (const char*)payload();
    if (shape & 1) leaf(L_U64P, w, e);
    #define BUILD_ARR if (!e) { mpack_build_array(w); ++open_builds; }
    #define DONE_ARR if (!e) { --open_builds; mpack_complete_array(w); }
    uint32_t kids = (pad ? 1 : 0) + 1 + (shape & 2 ? 1 : 0) + bigcount;
    if (shape & 4) {
        /* outer map: padding is a key, the document its value; with the trailer as another pair */
        if (e) ref_map_hdr(e, (shape & 2 ? 2 : 1) + bigcount); else { mpack_build_map(w); ++open_builds; }
        if (e) { ref_str_hdr(e, pad, 0); rb_mem(e, p, pad); } else mpack_write_str(w, p, pad);
        emit(doc, w, e);
        if (shape & 2) { leaf(L_NIL, w, e); leaf(L_STR20, w, e); }
        for (uint32_t i = 0; i < bigcount; ++i) { leaf(L_NIL, w, e); leaf(L_NIL, w, e); }
        if (!e) { --open_builds; mpack_complete_map(w); }
    } else {
        if (e) ref_array_hdr(e, kids);
        BUILD_ARR
        if (pad) { if (e) { ref_str_hdr(e, pad, 0); rb_mem(e, p, pad); } else mpack_write_str(w, p, pad); }
        emit(doc, w, e);
        if (shape & 2) leaf(L_BIN40, w, e);
        for (uint32_t i = 0; i < bigcount; ++i) leaf(L_NIL, w, e);
        DONE_ARR
    }
    leaf(L_STR20, w, e);
    if (shape & 8) { /* a second build right after */
        if (e) ref_array_hdr(e, 2);
        BUILD_ARR
        leaf(L_NIL, w, e); emit(doc, w, e);
        DONE_ARR
    }
    leaf(L_NIL, w, e);
}

#ifndef MC_CPADS
#define NO_CALLS
#define MC_CPADS 1
#endif
/* every write function as an element of a build: the bytes of the same calls with explicit counts */
#define WOPS(X) \
 X(mpack_write_i8(w, -1)) X(mpack_write_i8(w, 100)) X(mpack_write_i16(w, 300)) X(mpack_write_i16(w, -129)) X(mpack_write_i32(w, -70000)) X(mpack_write_i64(w, INT64_MIN)) X(mpack_write_int(w, 5)) X(mpack_write_u8(w, 200)) X(mpack_write_u16(w, 1)) X(mpack_write_u16(w, 65535)) X(mpack_write_u32(w, 70000)) X(mpack_write_u64(w, UINT64_MAX)) X(mpack_write_uint(w, 1)) \
 X(mpack_write_float(w, 1.5f)) X(mpack_write_double(w, -2.5)) X(mpack_write_raw_float_(w)) X(mpack_write_raw_double_(w)) X(mpack_write_bool(w, true)) X(mpack_write_true(w)) X(mpack_write_false(w)) X(mpack_write_nil(w)) X(mpack_write_object_bytes(w, "\xc3", 1)) X(mpack_write_object_bytes(w, "\x92\x01\xa1q", 4)) X(mpack_write_object_bytes(w, objbytes, 150)) \
 X(mpack_write_timestamp(w, 5, 0)) X(mpack_write_timestamp(w, 5, 6)) X(mpack_write_timestamp(w, -5, 7)) X(mpack_write_timestamp_seconds(w, 6)) X(mpack_write_tag(w, mpack_tag_uint(4))) X(mpack_write_tag(w, mpack_tag_nil())) \
 X((mpack_write_tag(w, mpack_tag_array(2)), mpack_write_nil(w), mpack_write_true(w), mpack_finish_array(w))) X((mpack_start_array(w, 0), mpack_finish_array(w))) X((mpack_start_map(w, 1), mpack_write_nil(w), mpack_write_u8(w, 9), mpack_finish_map(w))) X((mpack_write_tag(w, mpack_tag_map(0)), mpack_finish_type(w, mpack_type_map))) \
 X((mpack_write_tag(w, mpack_tag_str(3)), mpack_write_bytes(w, "ab", 2), mpack_write_bytes(w, "c", 1), mpack_finish_str(w))) X((mpack_start_str(w, 90), mpack_write_bytes(w, P, 50), mpack_write_bytes(w, P, 40), mpack_finish_str(w))) X((mpack_start_bin(w, 2), mpack_write_bytes(w, "ab", 2), mpack_finish_bin(w))) X((mpack_start_bin(w, 0), mpack_finish_bin(w))) X((mpack_start_ext(w, 7, 16), mpack_write_bytes(w, (const char*)wild(), 16), mpack_finish_ext(w))) \
 X(mpack_write_str(w, "abc", 3)) X(mpack_write_str(w, NULL, 0)) X(mpack_write_utf8(w, "abc", 3)) X(mpack_write_cstr(w, "hello")) X(mpack_write_cstr_or_nil(w, NULL)) X(mpack_write_cstr_or_nil(w, "x")) X(mpack_write_utf8_cstr(w, "y")) X(mpack_write_utf8_cstr_or_nil(w, NULL)) X(mpack_write_utf8_cstr_or_nil(w, "zz")) X(mpack_write_bin(w, "ab", 2)) X(mpack_write_bin(w, (const char*)wild(), 75)) X(mpack_write_ext(w, 3, "ab", 2)) X(mpack_write_ext(w, -9, (const char*)wild(), 33))
#define mpack_write_raw_float_(w) mpack_write_float(w, 0.1f)
#define mpack_write_raw_double_(w) mpack_write_double(w, 0.1)
static char objbytes[150];
static int w_op(mpack_writer_t* w, int i) { int k = 0; const char* P = (const char*)payload();
#define X(...) if (k++ == i) { __VA_ARGS__; return 0; }
    WOPS(X)
#undef X
    return k; }
static void w_open(mpack_writer_t* w, bool built, bool map, uint32_t n) { if (built) { if (map) mpack_build_map(w); else mpack_build_array(w); ++open_builds; } else if (map) mpack_start_map(w, n); else mpack_start_array(w, n); }
static void w_close(mpack_writer_t* w, bool built, bool map) { if (built) { --open_builds; if (map) mpack_complete_map(w); else mpack_complete_array(w); } else if (map) mpack_finish_map(w); else mpack_finish_array(w); }
static void shape2(mpack_writer_t* w, uint32_t sh, bool B, uint32_t pd, int a, int b) {
    #define O(map, n) w_open(w, B, map, n)
    #define C(map) w_close(w, B, map)
    #define PADDING mpack_write_str(w, (const char*)payload(), pd)
    switch (sh) {
        case 0: O(false, 3); PADDING; w_op(w, a); w_op(w, b); C(false); break;
        case 1: O(true, 2); PADDING; w_op(w, a); w_op(w, b); mpack_write_nil(w); C(true); break;
        case 2: O(false, 3); PADDING; O(false, 1); w_op(w, a); C(false); w_op(w, b); C(false); break;
        case 3: O(false, 2); PADDING; mpack_start_array(w, 2); w_op(w, a); w_op(w, b); mpack_finish_array(w); C(false); break;
        case 4: mpack_start_array(w, 3); PADDING; O(false, 1); w_op(w, a); C(false); O(true, 1); w_op(w, b); mpack_write_nil(w); C(true); mpack_finish_array(w); break;
        case 5: O(true, 2); PADDING; w_op(w, a); O(false, 0); C(false); w_op(w, b); C(true); break;
        case 6: O(true, 1); O(false, 2); PADDING; w_op(w, a); C(false); w_op(w, b); C(true); break;
        case 7: O(false, 2); PADDING; mpack_start_map(w, 1); w_op(w, a); O(true, 1); w_op(w, b); mpack_write_nil(w); C(true); mpack_finish_map(w); C(false); w_op(w, a); break;
    }
}
static void calls(void) {
    objbytes[0] = (char)0xc4; objbytes[1] = (char)148; memcpy(objbytes + 2, wild(), 148);
    int n = w_op(NULL, -1); uint32_t sh = mc_choose(8, "shape"); int a = (int)mc_choose((uint32_t)n, "first call"); uint32_t sink = mc_choose(4, "sink: roomy / flush / growable / one short");
    static char want[1000], buf[1000];
    for (int b = 0; b < n; ++b) for (uint32_t pd = 0; pd < MC_CPADS; ++pd) {
        mpack_writer_t w; mpack_writer_init(&w, want, sizeof want); shape2(&w, sh, false, pd, a, b); size_t wn = mpack_writer_buffer_used(&w); if (mpack_writer_destroy(&w)) mc_fail("explicit counts: error");
        char* gd = NULL; size_t gs = 0; out.n = 0; open_builds = 0; flush_problem = NULL;
        if (sink == 2) mpack_writer_init_growable(&w, &gd, &gs); else mpack_writer_init(&w, buf, sink == 1 ? 48 : sink == 3 ? wn - 1 : sizeof buf); if (sink == 1) mpack_writer_set_flush(&w, on_flush);
        shape2(&w, sh, true, pd, a, b); size_t un = mpack_writer_buffer_used(&w); mpack_error_t e = mpack_writer_destroy(&w);
        const char* got = sink == 2 ? gd : sink == 1 ? (const char*)out.p : buf; size_t gn = sink == 2 ? gs : sink == 1 ? out.n : un;
        if (flush_problem) mc_fail("%s", flush_problem);
        if (sink == 3) { if (e != mpack_error_too_big) mc_fail("shape %u, calls %d and %d, padding %u, one byte short: %s", sh, a, b, pd, ES(e)); }
        else if (e || gn != wn || memcmp(got, want, wn)) mc_fail("shape %u, calls %d and %d, padding %u, sink %u: %s, built [%s], with counts [%s]", sh, a, b, pd, sink, ES(e), hexs(got, gn), hexs(want, wn));
        vf_free(gd); mc_step(2); mc_eval(1); if (env_live_blocks) mc_fail("leak");
    }
    mc_state(mc_mix(sh, (uint64_t)a)); mc_tick();
    /* a message cannot be flushed while something is being built */
    if (sink && sink != 3) for (int depth = 0; depth < 6; ++depth) for (int counted = 0; counted < 4; ++counted) {
        mpack_writer_t w; char* gd = NULL; size_t gs = 0; out.n = 0; open_builds = 0;
        if (sink == 2) mpack_writer_init_growable(&w, &gd, &gs); else { mpack_writer_init(&w, buf, 48); mpack_writer_set_flush(&w, on_flush); }
        w_op(&w, a); int opened = 0, kinds[6]; bool any = false;
        for (int i = 0; i < depth; ++i) { kinds[i] = (counted >> (i & 1)) & 1; bool map = i % 3 == 2; w_open(&w, !kinds[i], map, 1); any |= !kinds[i]; ++opened; if (map) mpack_write_nil(&w); }
        if (mpack_writer_error(&w)) mc_fail("setup: %s", ES(mpack_writer_error(&w)));
        size_t flushed = out.n;
        if (sink == 1 || any) { mpack_writer_flush_message(&w); mpack_error_t e = mpack_writer_error(&w), wante = any || (MPACK_WRITE_TRACKING && opened) ? mpack_error_bug : mpack_ok; if (e != wante) mc_fail("flushing a message with %d open (counted: %d): %s", depth, counted, ES(e)); if (wante && out.n != flushed) mc_fail("flushed nevertheless"); }
        mpack_writer_flag_error(&w, mpack_error_data); mpack_writer_destroy(&w); vf_free(gd); mc_eval(1); if (env_live_blocks) mc_fail("leak");
    }
    mc_outcome(mc_hash(sh, want, 20));
}

/* containers of very many elements, plain and nested */
static void many(void) {
    static const uint32_t CN[] = {65535, 65536, 65537, 131071, 131072, 131073, 262144, 1000000, 1048577, 16777217};
    uint32_t n = CN[mc_choose(10, "elements")]; bool map = mc_choose(2, "map"); uint32_t kind = mc_choose(4, "element: byte / 3 bytes / a build / bytes below a counted array");
    if (n > 1100000 && kind) return;
    uint64_t elems = map ? 2 * (uint64_t)n : n; char* gd = NULL; size_t gs = 0; mpack_writer_t w;
    mpack_writer_init_growable(&w, &gd, &gs);
    mpack_build_array(&w); mpack_write_u8(&w, 5);
    if (map) mpack_build_map(&w); else mpack_build_array(&w);
    if (kind == 3) { mpack_start_array(&w, (uint32_t)elems); }
    for (uint64_t i = 0; i < elems; ++i) { if (kind == 0 || kind == 3) mpack_write_bool(&w, i & 1); else if (kind == 1) mpack_write_u16(&w, (uint16_t)(i & 0x3fff) | 0x4000); else if (i % 3) { mpack_build_array(&w); mpack_complete_array(&w); } else { mpack_build_map(&w); mpack_complete_map(&w); } }
    if (kind == 3) { mpack_finish_array(&w); if (map) mpack_write_nil(&w); }
    if (map) mpack_complete_map(&w); else mpack_complete_array(&w);
    mpack_write_u8(&w, 6); mpack_complete_array(&w);
    mpack_error_t e = mpack_writer_destroy(&w); if (e) mc_fail("%u elements: %s", n, ES(e));
    static rbuf b; b.n = 0; ref_array_hdr(&b, 3); ref_uint(&b, 5);
    uint32_t cn = kind == 3 ? 1 : n; if (map) ref_map_hdr(&b, cn); else ref_array_hdr(&b, cn);
    if (kind == 3) ref_array_hdr(&b, (uint32_t)elems);
    for (uint64_t i = 0; i < elems; ++i) { if (kind == 0 || kind == 3) rb_u8(&b, 0xc2 + (i & 1)); else if (kind == 1) ref_uint(&b, (i & 0x3fff) | 0x4000); else rb_u8(&b, i % 3 ? 0x90 : 0x80); }
    if (kind == 3 && map) rb_u8(&b, 0xc0);
    rb_u8(&b, 6);
    if (gs != b.n) mc_fail("a built %s of %u elements (kind %u): %zu bytes instead of %zu", map ? "map" : "array", n, kind, gs, b.n);
    for (size_t i = 0; i < b.n; ++i) if ((uint8_t)gd[i] != b.p[i]) mc_fail("a built %s of %u elements (kind %u): byte %zu is %02x instead of %02x", map ? "map" : "array", n, kind, i, (uint8_t)gd[i], b.p[i]);
    vf_free(gd); mc_step(elems); mc_eval(1); mc_nontrivial(1); mc_state(mc_mix(n, kind * 2 + map));
    if (env_live_blocks) mc_fail("leak");
}
void mc_body(void) {
    mc_shard_depth = 4;
#ifndef NO_CALLS
    if (mc_choose(2, "part")) many(); else calls();
    return;
#else
    (void)calls; (void)many;
#endif
    uint32_t sink = mc_choose(5, "sink");       /* roomy, exact, one short, flush fn, growable */
    shape = mc_choose(16, "outer shape");
    bigcount = 0;
    if (MC_BIG) { static const uint32_t bc[] = {0, 11, 12, 13, 14, 15, 16, 17, 65532, 65533, 65534, 65535, 65536}; bigcount = bc[mc_choose(13, "extra elements")]; }
    pad = mc_choose(MC_PAD, "padding");
    budget = mc_tier ? MC_NODES + 1 : MC_NODES; used = 0; nleaf = MC_LEAVES; maxkids = 4;
    open_builds = 0; flush_problem = NULL; flushes = 0; out.n = 0;
    doc = gen(0);
    static rbuf want; want.n = 0;
    all(NULL, &want);
    char tb[1500]; text(doc, tb);
    mc_state(mc_hash(sink, want.p, want.n));
    mpack_writer_t w; mpack_error_t e; static char* buf; 
    char* gd = NULL; size_t gs = 0;
    #define WHERE "sink %u shape %u pad %u: %s: "
    #define WA sink, shape, pad, tb
    size_t n = sink == 0 ? want.n + 100 : sink == 1 ? want.n : sink == 2 ? want.n - 1 : 40;
    buf = (char*)malloc(n);
    if (sink == 4) mpack_writer_init_growable(&w, &gd, &gs); else mpack_writer_init(&w, buf, n);
    if (sink == 3) mpack_writer_set_flush(&w, on_flush);
    all(&w, NULL);
    e = mpack_writer_error(&w);
    MC_CHECK(!flush_problem, WHERE "%s", WA, flush_problem);
    if (sink == 2) MC_CHECK(e == mpack_error_too_big, WHERE "one byte short: %s", WA, ES(e));
    else MC_CHECK(e == mpack_ok, WHERE "flagged %s", WA, ES(e));
    const char* got = buf; size_t gotn = mpack_writer_buffer_used(&w);
    if (sink < 2) MC_CHECK(gotn == want.n && !memcmp(got, want.p, gotn), WHERE "wrote [%s], expected [%s]", WA, hexs(got, gotn), hexs(want.p, want.n));
    mpack_error_t de = mpack_writer_destroy(&w);
    MC_CHECK(de == e, WHERE "destroy says %s after %s", WA, ES(de), ES(e));
    if (sink == 3) MC_CHECK(out.n == want.n && !memcmp(out.p, want.p, out.n), WHERE "flushed [%s], expected [%s]", WA, hexs(out.p, out.n), hexs(want.p, want.n));
    if (sink == 4) {
        MC_CHECK(gd && gs == want.n && !memcmp(gd, want.p, gs), WHERE "growable [%s], expected [%s]", WA, hexs(gd, gs), hexs(want.p, want.n));
        vf_free(gd);
    }
    free(buf);
    MC_CHECK(env_live_blocks == 0, WHERE "%zu blocks leaked", WA, env_live_blocks);
    mc_outcome(mc_hash(sink * 16 + shape, want.p, want.n));
}
