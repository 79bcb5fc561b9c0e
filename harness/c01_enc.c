/* C01: every write call emits the exact, shortest encoding. */
#include "common.h"

static mpack_version_t ver;
static rbuf exp_b;
static char buf[300000];

typedef void (*wfn)(mpack_writer_t* w, uint64_t a, uint64_t b);

static void one(const char* name, wfn f, uint64_t a, uint64_t b) {
    mpack_writer_t w;
    size_t n = exp_b.n;
    memset(buf, 0x5a, n + 16);
    mpack_writer_init(&w, buf, n + 40);
    if (ver != mpack_version_current) mpack_writer_set_version(&w, ver);
    f(&w, a, b);
    MC_CHECK(mpack_writer_error(&w) == mpack_ok, "%s(%llx,%llx) flagged %s", name, (unsigned long long)a, (unsigned long long)b, ES(mpack_writer_error(&w)));
    size_t used = mpack_writer_buffer_used(&w);
    MC_CHECK(used == n && !memcmp(buf, exp_b.p, n), "%s(%llx,%llx) wrote %zu bytes [%s], expected %zu [%s]",
        name, (unsigned long long)a, (unsigned long long)b, used, hexs(buf, used), n, hexs(exp_b.p, n));
    MC_CHECK(mpack_writer_buffer_left(&w) == 40 && mpack_writer_buffer_size(&w) == n + 40, "%s: buffer accounting", name);
    MC_CHECK(mpack_writer_destroy(&w) == mpack_ok, "%s: destroy flagged", name);

    /* exactly fitting buffer, and one byte too small */
    memset(buf, 0x5a, n + 16);
    mpack_writer_init(&w, buf, n);
    if (ver != mpack_version_current) mpack_writer_set_version(&w, ver);
    f(&w, a, b);
    MC_CHECK(mpack_writer_error(&w) == mpack_ok && mpack_writer_buffer_used(&w) == n && !memcmp(buf, exp_b.p, n),
        "%s(%llx,%llx) into a buffer of exactly %zu bytes: %s", name, (unsigned long long)a, (unsigned long long)b, n, ES(mpack_writer_error(&w)));
    MC_CHECK((uint8_t)buf[n] == 0x5a, "%s wrote outside an exactly fitting buffer", name);
    mpack_writer_destroy(&w);
    if (n > 0) {
        memset(buf, 0x5a, n + 16);
        mpack_writer_init(&w, buf, n - 1);
        if (ver != mpack_version_current) mpack_writer_set_version(&w, ver);
        f(&w, a, b);
        MC_CHECK(mpack_writer_error(&w) == mpack_error_too_big, "%s(%llx,%llx) into %zu of %zu bytes: %s", name,
            (unsigned long long)a, (unsigned long long)b, n - 1, n, ES(mpack_writer_error(&w)));
        MC_CHECK((uint8_t)buf[n - 1] == 0x5a && (uint8_t)buf[n] == 0x5a, "%s wrote outside a too small buffer", name);
        MC_CHECK(mpack_writer_destroy(&w) == mpack_error_too_big, "%s: destroy lost the error", name);
    }
    mc_eval(1); mc_step(3);
    if (n > 1) mc_nontrivial(1);
}

/* ---- integers ---- */
#define W(NAME, EXPR) static void w_##NAME(mpack_writer_t* w, uint64_t a, uint64_t b) { (void)a; (void)b; EXPR; }
W(u8, mpack_write_u8(w, (uint8_t)a)) W(u16, mpack_write_u16(w, (uint16_t)a)) W(u32, mpack_write_u32(w, (uint32_t)a))
W(u64, mpack_write_u64(w, a)) W(uint, mpack_write_uint(w, a))
W(i8, mpack_write_i8(w, (int8_t)a)) W(i16, mpack_write_i16(w, (int16_t)a)) W(i32, mpack_write_i32(w, (int32_t)a))
W(i64, mpack_write_i64(w, (int64_t)a)) W(int, mpack_write_int(w, (int64_t)a))
W(tag_u, mpack_write_tag(w, mpack_tag_make_uint(a))) W(tag_i, mpack_write_tag(w, mpack_tag_make_int((int64_t)a)))
#ifdef mpack_write
W(g_u8, mpack_write(w, (uint8_t)a)) W(g_u16, mpack_write(w, (uint16_t)a)) W(g_u32, mpack_write(w, (uint32_t)a)) W(g_u64, mpack_write(w, (uint64_t)a))
W(g_i8, mpack_write(w, (int8_t)a)) W(g_i16, mpack_write(w, (int16_t)a)) W(g_i32, mpack_write(w, (int32_t)a)) W(g_i64, mpack_write(w, (int64_t)a))
W(g_f, mpack_write(w, f_of((uint32_t)a))) W(g_d, mpack_write(w, d_of(a))) W(g_b, mpack_write(w, (bool)(a != 0))) W(g_s, mpack_write(w, "xyz"))
#endif
W(f32, mpack_write_float(w, f_of((uint32_t)a))) W(f64, mpack_write_double(w, d_of(a)))
W(tag_f, mpack_write_tag(w, mpack_tag_make_float(f_of((uint32_t)a)))) W(tag_d, mpack_write_tag(w, mpack_tag_make_double(d_of(a))))
W(ts, mpack_write_timestamp(w, (int64_t)a, (uint32_t)b))
W(ts_s, mpack_write_timestamp_seconds(w, (int64_t)a))
W(ts_t, mpack_timestamp_t t; t.seconds = (int64_t)a; t.nanoseconds = (uint32_t)b; mpack_write_timestamp_struct(w, t))
W(nil, mpack_write_nil(w)) W(tru, mpack_write_true(w)) W(fal, mpack_write_false(w)) W(boolean, mpack_write_bool(w, a != 0))
W(tag_nil, mpack_write_tag(w, mpack_tag_make_nil())) W(tag_b, mpack_write_tag(w, mpack_tag_make_bool(a != 0)))
W(tag_t, mpack_write_tag(w, mpack_tag_make_true())) W(tag_fa, mpack_write_tag(w, mpack_tag_make_false()))
/* headers: the count goes out, the contents are not needed in a build without tracking */
W(start_array, mpack_start_array(w, (uint32_t)a)) W(start_map, mpack_start_map(w, (uint32_t)a))
W(start_str, mpack_start_str(w, (uint32_t)a)) W(start_bin, mpack_start_bin(w, (uint32_t)a))
W(start_ext, mpack_start_ext(w, (int8_t)b, (uint32_t)a))
W(tag_arr, mpack_write_tag(w, mpack_tag_make_array((uint32_t)a))) W(tag_map, mpack_write_tag(w, mpack_tag_make_map((uint32_t)a)))
W(tag_str, mpack_write_tag(w, mpack_tag_make_str((uint32_t)a))) W(tag_bin, mpack_write_tag(w, mpack_tag_make_bin((uint32_t)a)))
W(tag_ext, mpack_write_tag(w, mpack_tag_make_ext((int8_t)b, (uint32_t)a)))
/* whole objects */
static char text[70100];
W(str, mpack_write_str(w, text, (uint32_t)a)) W(utf8, mpack_write_utf8(w, text, (uint32_t)a))
W(cstr, char s = text[a]; text[a] = 0; mpack_write_cstr(w, text); text[a] = s) W(utf8_cstr, char s = text[a]; text[a] = 0; mpack_write_utf8_cstr(w, text); text[a] = s)
W(cstr_or_nil, char s = text[a]; text[a] = 0; mpack_write_cstr_or_nil(w, text); text[a] = s) W(utf8_cstr_or_nil, char s = text[a]; text[a] = 0; mpack_write_utf8_cstr_or_nil(w, text); text[a] = s)
W(cstr_nil, mpack_write_cstr_or_nil(w, NULL)) W(utf8_cstr_nil, mpack_write_utf8_cstr_or_nil(w, NULL))
W(bin, mpack_write_bin(w, text, (uint32_t)a)) W(ext, mpack_write_ext(w, (int8_t)b, text, (uint32_t)a))
W(raw, mpack_write_object_bytes(w, text, (size_t)a))
W(str_pieces, mpack_start_str(w, (uint32_t)a); mpack_write_bytes(w, text, (size_t)(a / 3)); mpack_write_bytes(w, text + a / 3, (size_t)(a - a / 3)); mpack_finish_str(w))
W(bin_pieces, mpack_start_bin(w, (uint32_t)a); mpack_write_bytes(w, text, (size_t)(a / 2)); mpack_write_bytes(w, text + a / 2, (size_t)(a - a / 2)); mpack_finish_bin(w))
W(ext_pieces, mpack_start_ext(w, (int8_t)b, (uint32_t)a); mpack_write_bytes(w, text, (size_t)(a / 2)); mpack_write_bytes(w, text + a / 2, (size_t)(a - a / 2)); mpack_finish_ext(w))
W(kv_u8, mpack_write_kv(w, "k", (uint8_t)a)) W(kv_i8, mpack_write_kv(w, "k", (int8_t)a)) W(kv_u16, mpack_write_kv(w, "k", (uint16_t)a)) W(kv_i16, mpack_write_kv(w, "k", (int16_t)a))
W(kv_u32, mpack_write_kv(w, "k", (uint32_t)a)) W(kv_i32, mpack_write_kv(w, "k", (int32_t)a)) W(kv_u64, mpack_write_kv(w, "k", (uint64_t)a)) W(kv_i64, mpack_write_kv(w, "k", (int64_t)a))

enum { K_U, K_S };
static const struct { const char* name; wfn f; int bits; int sgn; bool kv; } ints[] = {
    {"write_u8", w_u8, 8, K_U, 0}, {"write_i8", w_i8, 8, K_S, 0}, {"write_u16", w_u16, 16, K_U, 0}, {"write_i16", w_i16, 16, K_S, 0},
    {"write_u32", w_u32, 32, K_U, 0}, {"write_i32", w_i32, 32, K_S, 0}, {"write_u64", w_u64, 64, K_U, 0}, {"write_uint", w_uint, 64, K_U, 0},
    {"write_i64", w_i64, 64, K_S, 0}, {"write_int", w_int, 64, K_S, 0}, {"tag uint", w_tag_u, 64, K_U, 0}, {"tag int", w_tag_i, 64, K_S, 0},
#ifdef mpack_write
    {"generic u8", w_g_u8, 8, K_U, 0}, {"generic i8", w_g_i8, 8, K_S, 0}, {"generic u16", w_g_u16, 16, K_U, 0}, {"generic i16", w_g_i16, 16, K_S, 0},
    {"generic u32", w_g_u32, 32, K_U, 0}, {"generic i32", w_g_i32, 32, K_S, 0}, {"generic u64", w_g_u64, 64, K_U, 0}, {"generic i64", w_g_i64, 64, K_S, 0},
    {"kv u8", w_kv_u8, 8, K_U, 1}, {"kv i8", w_kv_i8, 8, K_S, 1}, {"kv u16", w_kv_u16, 16, K_U, 1}, {"kv i16", w_kv_i16, 16, K_S, 1},
    {"kv u32", w_kv_u32, 32, K_U, 1}, {"kv i32", w_kv_i32, 32, K_S, 1}, {"kv u64", w_kv_u64, 64, K_U, 1}, {"kv i64", w_kv_i64, 64, K_S, 1},
#endif
};
#define NINTS (sizeof ints / sizeof *ints)

static void do_ints(void) {
    uint32_t k = mc_choose(NINTS, "integer function");
    uint64_t from, to, n;
    bool all32 = mc_tier && ints[k].bits == 32 && !ints[k].kv;
    switch (ints[k].bits) {
        case 8: n = 256; break; case 16: n = 65536; break;
        case 32: n = all32 ? (uint64_t)1 << 32 : V32_N; break;
        default: n = V64_N;
    }
    shard(n, all32 ? 512 : 8, &from, &to);
    mc_log("%s over values #%llu..%llu", ints[k].name, (unsigned long long)from, (unsigned long long)to);
    for (uint64_t i = from; i < to; ++i) {
        uint64_t v;
        switch (ints[k].bits) {
            case 8: case 16: v = i; break;
            case 32: v = all32 ? i : v32((uint32_t)i); break;
            default: v = v64(i);
        }
        mc_note(0, v);
        exp_b.n = 0;
        if (ints[k].kv) { ref_str_hdr(&exp_b, 1, ver == mpack_version_v4); rb_u8(&exp_b, 'k'); }
        if (ints[k].sgn == K_U) ref_uint(&exp_b, ints[k].bits == 8 ? (uint8_t)v : ints[k].bits == 16 ? (uint16_t)v : ints[k].bits == 32 ? (uint32_t)v : v);
        else ref_int(&exp_b, ints[k].bits == 8 ? (int8_t)v : ints[k].bits == 16 ? (int16_t)v : ints[k].bits == 32 ? (int32_t)v : (int64_t)v);
        one(ints[k].name, ints[k].f, v, 0);
    }
    mc_outcome(mc_hash(k, exp_b.p, exp_b.n));
}

static void do_floats(void) {
    uint32_t k = mc_choose(6, "float function");
    static const wfn fs[] = {w_f32, w_tag_f, w_f64, w_tag_d,
#ifdef mpack_write
        w_g_f, w_g_d
#else
        w_f32, w_f64
#endif
    };
    bool dbl = k == 2 || k == 3 || k == 5;
    bool all = mc_tier && k == 0;
    uint64_t from, to;
    shard(dbl ? V64_N : all ? (uint64_t)1 << 32 : V32_N, all ? 512 : 8, &from, &to);
    for (uint64_t i = from; i < to; ++i) {
        uint64_t v = dbl ? v64(i) : all ? i : v32((uint32_t)i);
        /* x86-64 SSE moves keep signalling NaNs, so all bit patterns count */
        mc_note(0, v);
        exp_b.n = 0;
        if (dbl) ref_f64(&exp_b, v); else ref_f32(&exp_b, (uint32_t)v);
        one(dbl ? "double" : "float", fs[k], v, 0);
    }
    mc_outcome(mc_hash(1000 + k, exp_b.p, exp_b.n));
}

static const struct { const char* name; wfn f; int kind; } hdrs[] = {
    {"start_array", w_start_array, 0}, {"tag array", w_tag_arr, 0}, {"start_map", w_start_map, 1}, {"tag map", w_tag_map, 1},
    {"start_str", w_start_str, 2}, {"tag str", w_tag_str, 2}, {"start_bin", w_start_bin, 3}, {"tag bin", w_tag_bin, 3},
    {"start_ext", w_start_ext, 4}, {"tag ext", w_tag_ext, 4},
};
static void exp_hdr(int kind, uint64_t a, uint64_t b) {
    bool v4 = ver == mpack_version_v4;
    switch (kind) {
        case 0: ref_array_hdr(&exp_b, (uint32_t)a); break;
        case 1: ref_map_hdr(&exp_b, (uint32_t)a); break;
        case 2: ref_str_hdr(&exp_b, (uint32_t)a, v4); break;
        case 3: ref_bin_hdr(&exp_b, (uint32_t)a, v4); break;
        case 4: ref_ext_hdr(&exp_b, (int8_t)b, (uint32_t)a); break;
    }
}
static void v4_refused(const char* name, wfn f, uint64_t a, uint64_t b) {
    mpack_writer_t w;
    mpack_writer_init(&w, buf, sizeof buf);
    mpack_writer_set_version(&w, mpack_version_v4);
    f(&w, a, b);
    MC_CHECK(mpack_writer_error(&w) == mpack_error_bug, "%s in v4: %s instead of a bug error", name, ES(mpack_writer_error(&w)));
    MC_CHECK(mpack_writer_destroy(&w) == mpack_error_bug, "destroy lost the error");
    mc_eval(1); mc_step(1);
}
static void do_headers(void) {
    uint32_t k = mc_choose(sizeof hdrs / sizeof *hdrs, "header function");
    bool all = mc_tier && hdrs[k].f == w_start_array;
    uint64_t from, to;
    shard(all ? (uint64_t)1 << 32 : V32_N, all ? 512 : 8, &from, &to);
    for (uint64_t i = from; i < to; ++i) {
        uint64_t v = all ? i : v32((uint32_t)i);
        mc_note(0, v);
        exp_b.n = 0;
        if (hdrs[k].kind == 4) {
            uint8_t et = (uint8_t)(i * 37 + v);   /* the type byte is orthogonal; all 256 are walked in do_objects too */
            if (ver == mpack_version_v4) { v4_refused(hdrs[k].name, hdrs[k].f, v, et); continue; }
            exp_hdr(4, v, et);
            one(hdrs[k].name, hdrs[k].f, v, et);
        } else {
            exp_hdr(hdrs[k].kind, v, 0);
            one(hdrs[k].name, hdrs[k].f, v, 0);
        }
    }
    mc_outcome(mc_hash(2000 + k, exp_b.p, exp_b.n));
}

static const struct { const char* name; wfn f; int kind; } objs[] = {
    {"write_str", w_str, 2}, {"write_utf8", w_utf8, 2}, {"write_cstr", w_cstr, 2}, {"write_utf8_cstr", w_utf8_cstr, 2},
    {"write_cstr_or_nil", w_cstr_or_nil, 2}, {"write_utf8_cstr_or_nil", w_utf8_cstr_or_nil, 2}, {"str in pieces", w_str_pieces, 2},
    {"write_bin", w_bin, 3}, {"bin in pieces", w_bin_pieces, 3}, {"write_ext", w_ext, 4}, {"ext in pieces", w_ext_pieces, 4}, {"object_bytes", w_raw, 5},
};
static void do_objects(void) {
    for (size_t i = 0; i < sizeof text; ++i) text[i] = (char)payload()[i % 69997];
    uint32_t k = mc_choose(sizeof objs / sizeof *objs, "object function");
    uint32_t s = mc_choose(8, "shard");
    for (uint32_t n = s; n <= 65600; n += 8) {
        if (n > (mc_tier ? 2000 : 600) && n < 65500) continue;
        mc_note(0, n);
        exp_b.n = 0;
        int types = objs[k].kind == 4 && n < 40 ? 256 : 1;
        for (int t = 0; t < types; ++t) {
            int8_t et = (int8_t)(types == 1 ? (int)n : t);
            if (objs[k].kind == 4 && ver == mpack_version_v4) { v4_refused(objs[k].name, objs[k].f, n, (uint8_t)et); continue; }
            exp_b.n = 0;
            if (objs[k].kind == 5) { if (n == 0) continue; }
            else exp_hdr(objs[k].kind, n, (uint8_t)et);
            rb_mem(&exp_b, text, n);
            one(objs[k].name, objs[k].f, n, (uint8_t)et);
        }
    }
}

static void do_misc(void) {
    uint32_t k = mc_choose(4, "constants / timestamps");
    bool v4 = ver == mpack_version_v4;
    if (k == 0) {
        #define C(NAME, A, E) exp_b.n = 0; E; one(#NAME, w_##NAME, A, 0)
        C(nil, 0, ref_nil(&exp_b)); C(tru, 0, ref_bool(&exp_b, 1)); C(fal, 0, ref_bool(&exp_b, 0));
        C(boolean, 0, ref_bool(&exp_b, 0)); C(boolean, 1, ref_bool(&exp_b, 1)); C(tag_nil, 0, ref_nil(&exp_b));
        C(tag_b, 0, ref_bool(&exp_b, 0)); C(tag_b, 1, ref_bool(&exp_b, 1)); C(tag_t, 0, ref_bool(&exp_b, 1)); C(tag_fa, 0, ref_bool(&exp_b, 0));
        C(cstr_nil, 0, ref_nil(&exp_b)); C(utf8_cstr_nil, 0, ref_nil(&exp_b));
#ifdef mpack_write
        C(g_b, 0, ref_bool(&exp_b, 0)); C(g_b, 1, ref_bool(&exp_b, 1)); C(g_s, 0, ref_str_hdr(&exp_b, 3, v4); rb_mem(&exp_b, "xyz", 3));
#endif
        return;
    }
    /* timestamps: seconds from V64, nanoseconds from a boundary list */
    static const uint32_t ns[] = {0, 1, 2, 255, 256, 65535, 65536, 999999998, 999999999};
    static const wfn fs[] = {w_ts, w_ts_s, w_ts_t};
    uint32_t q = k == 2 ? 0 : mc_choose(9, "nanoseconds");
    uint64_t from, to; shard(V64_N, 4, &from, &to);
    if (q && !mc_tier) { /* quick: the other nanoseconds with every fifth shard value set B only */
        if (from < 2 * V64_A) from = 2 * V64_A; if (to > 2 * V64_A + 2 * V64_B) to = 2 * V64_A + 2 * V64_B;
    }
    for (uint64_t i = from; i < to; ++i) {
        uint64_t v = v64(i);
        mc_note(0, v);
        exp_b.n = 0;
        if (v4) { if (i < 100 || i % 997 == 0) v4_refused("timestamp", fs[k - 1], v, ns[q]); continue; }
        ref_timestamp(&exp_b, (int64_t)v, ns[q]);
        one("timestamp", fs[k - 1], v, ns[q]);
    }
}

void mc_body(void) {
    payload();
    ver = mc_choose(2, "specification version") ? mpack_version_v4 : mpack_version_v5;
    mc_shard_depth = 4;
    switch (mc_choose(5, "group")) {
        case 0: do_ints(); break;
        case 1: do_floats(); break;
        case 2: do_headers(); break;
        case 3: do_objects(); break;
        case 4: do_misc(); break;
    }
}
