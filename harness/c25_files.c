/* C25: file based writers, readers and trees give exactly what their in-memory forms give. */
#include "tree.h"
#include <limits.h>
static char hist[300]; static rbuf msg; static rv doc[8]; static int ndoc;
#define BAD(fmt, ...) mc_fail("%s; file of %zu bytes: " fmt, hist, msg.n, ##__VA_ARGS__)
static const gn leaves[] = { {.t = RV_UINT, .u = 5}, {.t = RV_STR, .n = 3}, {.t = RV_BIN, .n = 9}, {.t = RV_EXT, .ext = 9, .n = 4}, {.t = RV_F64, .u = 0x3ff8000000000000ull}, {.t = RV_INT, .i = -70000}, {.t = RV_NIL}, {.t = RV_UINT, .u = 0x100000000ull}, {.t = RV_STR, .n = 40}, {.t = RV_BOOL, .u = 1}, {.t = RV_F32, .u = 0x3fc00000} };
static void parse_all(void) {
    size_t off = 0; bool x = false; size_t nodes = 0; ndoc = 0;
    while (off < msg.n) { if (ndoc == 8) mc_fail("too many documents"); memset(&doc[ndoc], 0, sizeof doc[0]); if (ref_parse(msg.p, msg.n, &off, &doc[ndoc], &x, &nodes) != REF_OK) mc_fail("generator"); ++ndoc; }
}
static void free_all(void) { while (ndoc) ref_free(&doc[--ndoc]); rb_free(&msg); }
static gn pool_doc[64];
static const uint8_t* many(void) { static uint8_t* m; if (!m) { m = (uint8_t*)malloc(1100000); for (size_t i = 0; i < 1100000; ++i) m[i] = (uint8_t)(i * 2654435761u >> 13); } return m; }
static void add_filler(uint32_t len, int kind) { gn g = {.t = (uint8_t)(kind == 0 ? RV_STR : kind == 1 ? RV_BIN : RV_EXT), .n = len, .data = len > 60000 ? many() : kind ? wild() : payload(), .ext = 7}; g_encode(&msg, &g); }
static void add_small(int i) { gn l = leaves[i % 11]; l.data = pdata(l.t);
    if (i < 11) { g_encode(&msg, &l); return; }
    gn k[4]; for (int j = 0; j < 4; ++j) { k[j] = leaves[(i + 3 * j) % 11]; k[j].data = pdata(k[j].t); }
    gn a = {.t = (uint8_t)(i % 2 ? RV_ARR : RV_MAP), .n = i % 2 ? 4 : 2, .kids = 4, .kid = k}; g_encode(&msg, &a); }
/* ---------------- writing */
static void write_doc(mpack_writer_t* w, const rv* v) {
    const char* p = (const char*)msg.p + v->hdr;
    switch (v->t) {
        case RV_NIL: mpack_write_nil(w); break; case RV_BOOL: mpack_write_bool(w, v->u); break; case RV_UINT: mpack_write_u64(w, v->u); break; case RV_INT: mpack_write_i64(w, v->i); break;
        case RV_F32: mpack_write_float(w, f_of((uint32_t)v->u)); break; case RV_F64: mpack_write_double(w, d_of(v->u)); break;
        case RV_STR: if (v->n % 2) mpack_write_str(w, p, v->n); else { mpack_start_str(w, v->n); mpack_write_bytes(w, p, v->n / 2); mpack_write_bytes(w, p + v->n / 2, v->n - v->n / 2); mpack_finish_str(w); } break;
        case RV_BIN: mpack_write_bin(w, p, v->n); break;
        case RV_EXT: mpack_start_ext(w, v->ext, v->n); mpack_write_bytes(w, p, v->n); mpack_finish_ext(w); break;
        case RV_ARR: mpack_start_array(w, v->n); for (size_t i = 0; i < v->kids; ++i) write_doc(w, &v->kid[i]); mpack_finish_array(w); break;
        case RV_MAP: mpack_start_map(w, v->n); for (size_t i = 0; i < v->kids; ++i) write_doc(w, &v->kid[i]); mpack_finish_map(w); break;
    }
}
static void writers(void) {
    for (int how = 0; how < 4; ++how) for (int vb = 0; vb < 3; ++vb) for (int flush = 0; flush < 2; ++flush) for (int pre = 0; pre < 2; ++pre) {
        /* how: 0 file name, 1 deprecated name, 2 FILE and close, 3 FILE left open */
        if (how < 2 && pre) continue;
        static const int VB[] = {0, -1, 16}; env_reset(); env_file_buf = VB[vb]; mpack_writer_t w; FILE* fp = NULL; env_file* f = NULL;
        snprintf(hist, sizeof hist, "writer %d, stdio buffering %d, flushing %d, %d bytes before", how, VB[vb], flush, 3 * pre);
        static uint8_t old[1200000]; memset(old, 0xEE, msg.n + 10);
        if (how < 2) f = env_file_make("o", old, msg.n + 10, true);      /* an older, longer file is replaced */
        if (how == 0) mpack_writer_init_filename(&w, "o"); else if (how == 1) mpack_writer_init_file(&w, "o");
        else { fp = env_fopen("o", "w"); f = env_file_find("o"); if (pre) fputs("pre", fp); mpack_writer_init_stdfile(&w, fp, how == 2); }
        size_t base = pre ? 3 : 0;
        for (int i = 0; i < ndoc; ++i) {
            write_doc(&w, &doc[i]);
            if (flush) { mpack_writer_flush_message(&w); if (fp) { fflush(fp); if (f->size != base + doc[i].end || memcmp(f->data + base, msg.p, doc[i].end)) BAD("flushing message %d leaves %zu bytes in the file", i, f->size); } }
        }
        if (mpack_writer_error(&w)) BAD("%s", ES(mpack_writer_error(&w)));
        mpack_error_t e = mpack_writer_destroy(&w); if (e) BAD("destroy: %s", ES(e));
        if (how == 3) { if (f->closes) BAD("closed although it was to be left open"); fputs("post", fp); if (fclose(fp)) BAD("closing"); }
        if (f->opens != 1 || f->closes != 1) BAD("%d opens, %d closes", f->opens, f->closes);
        size_t want = base + msg.n + (how == 3 ? 4 : 0);
        if (f->size != want || (pre && memcmp(f->data, "pre", 3)) || memcmp(f->data + base, msg.p, msg.n) || (how == 3 && memcmp(f->data + base + msg.n, "post", 4))) BAD("%zu bytes instead of %zu, or other bytes", f->size, want);
        if (env_live_blocks) BAD("leak");
        mc_step(1); mc_eval(1); mc_nontrivial(1);
    }
}
/* ---------------- reading */
static mpack_reader_t R;
static void read_doc(const rv* v, int how) {
    if (mpack_reader_error(&R)) return;
    if (how == 1) { mpack_discard(&R); return; }
    mpack_tag_t t = mpack_read_tag(&R); if (mpack_reader_error(&R)) return;
    if (!tag_is(t, v)) BAD("tag %s at %zu", tag_text(t), v->start);
    static char b[1200000];
    switch (v->t) {
        case RV_STR: case RV_BIN: case RV_EXT:
            if (how == 2 && mpack_should_read_bytes_inplace(&R, v->n)) { const char* p = mpack_read_bytes_inplace(&R, v->n); if (!mpack_reader_error(&R) && memcmp(p, msg.p + v->hdr, v->n)) BAD("bytes in place at %zu", v->hdr); }
            else if (how == 2) { for (uint32_t i = 0; i < v->n; i += 7) { uint32_t k = v->n - i < 7 ? v->n - i : 7; mpack_read_bytes(&R, b + i, k); } if (!mpack_reader_error(&R) && memcmp(b, msg.p + v->hdr, v->n)) BAD("bytes by 7 at %zu", v->hdr); }
            else if (how == 3) { mpack_skip_bytes(&R, v->n / 2); mpack_read_bytes(&R, b, v->n - v->n / 2); if (!mpack_reader_error(&R) && memcmp(b, msg.p + v->hdr + v->n / 2, v->n - v->n / 2)) BAD("bytes after skipping half at %zu", v->hdr); }
            else if (how == 4) { char* p = mpack_read_bytes_alloc(&R, v->n); if (!mpack_reader_error(&R) && (v->n ? memcmp(p, msg.p + v->hdr, v->n) : 0)) BAD("allocated bytes at %zu", v->hdr); if (p) MPACK_FREE(p); }
            else { mpack_read_bytes(&R, b, v->n); if (!mpack_reader_error(&R) && memcmp(b, msg.p + v->hdr, v->n)) BAD("bytes at %zu", v->hdr); }
            mpack_done_type(&R, mpack_tag_type(&t)); break;
        case RV_ARR: case RV_MAP: for (size_t i = 0; i < v->kids && !mpack_reader_error(&R); ++i) read_doc(&v->kid[i], how); mpack_done_type(&R, mpack_tag_type(&t)); break;
        default: break;
    }
}
/* the file holds pre bytes, then the first cut bytes of the documents */
static void readers(size_t cut) {
    for (int how = 0; how < 5; ++how) for (int src = 0; src < 5; ++src) for (int vb = 0; vb < 3; ++vb) for (int ch = 0; ch < 3; ++ch) for (int pre = 0; pre < 2; ++pre) {
        /* src: 0 file name, 1 deprecated name, 2 FILE and close, 3 FILE left open, 4 non-seekable FILE left open */
        if (src < 2 && pre) continue;
        if (cut != msg.n && (vb == 1 || ch == 1 || src == 1)) continue;
        static const int VB[] = {0, -1, 16}; static const size_t CH[] = {0, 1, 5}; env_reset(); env_file_buf = VB[vb]; FILE* fp = NULL; size_t base = pre ? 5 : 0;
        if ((CH[ch] == 1 && msg.n > 200) || (CH[ch] && msg.n > 60000)) continue;
        uint8_t* c = (uint8_t*)malloc(base + cut + 1); memset(c, 0xc1, base); memcpy(c + base, msg.p, cut); env_file* f = env_file_make("i", c, base + cut, src != 4); free(c); f->max_read_chunk = CH[ch];
        snprintf(hist, sizeof hist, "reader %d, way of reading %d, stdio buffering %d, reads of %zu, %zu bytes already read, cut at %zu", src, how, VB[vb], CH[ch], base, cut);
        if (src == 0) mpack_reader_init_filename(&R, "i"); else if (src == 1) mpack_reader_init_file(&R, "i");
        else { fp = env_fopen("i", "r"); char d[5]; if (base && fread(d, 1, base, fp) != base) BAD("fread"); mpack_reader_init_stdfile(&R, fp, src == 2); }
        if (mpack_reader_error(&R)) BAD("opening: %s", ES(mpack_reader_error(&R)));
        int i = 0; for (; i < ndoc && doc[i].end <= cut; ++i) { read_doc(&doc[i], how); if (mpack_reader_error(&R)) BAD("document %d: %s", i, ES(mpack_reader_error(&R))); }
        size_t pos = i ? doc[i - 1].end : 0;
        const char* rest = NULL; size_t left = mpack_reader_remaining(&R, &rest);
        if (left > cut - pos || memcmp(rest, msg.p + pos, left)) BAD("remaining data after document %d is wrong", i);
        if (src >= 3 && how != 2) {      /* buffered and unread data together are the rest of the file */
            static char tail[1200000]; size_t n = fread(tail, 1, sizeof tail, fp); if (n != cut - pos - left || memcmp(tail, msg.p + pos + left, n)) BAD("%zu bytes are left in the file after %zu buffered of %zu", n, left, cut - pos);
            mpack_error_t e = mpack_reader_destroy(&R); if (e) BAD("destroy: %s", ES(e));
        } else {
            if (i < ndoc) read_doc(&doc[i], how); else mpack_read_tag(&R);
            mpack_error_t be = mpack_reader_error(&R); if (be != mpack_error_io && be != mpack_error_eof) BAD("reading behind the end of the file: %s", ES(be));
            mpack_error_t e = mpack_reader_destroy(&R); if (e != be) BAD("destroy: %s", ES(e));
        }
        if (src >= 3) { if (f->closes) BAD("closed although it was to be left open"); fclose(fp); }
        if (f->opens != 1 || f->closes != 1) BAD("%d opens, %d closes", f->opens, f->closes);
        if (env_live_blocks) BAD("leak");
        mc_step(1); mc_eval(1); mc_nontrivial(1);
    }
}
/* ---------------- trees */
static void trees(size_t cut) {
    size_t mx[] = {0, 1, cut ? cut - 1 : 1, cut, cut + 1, cut / 2, 2 * cut + 1, LONG_MAX, (size_t)LONG_MAX + 1, (size_t)-1};
    for (int m = 0; m < 10; ++m) for (int src = 0; src < 5; ++src) for (int vb = 0; vb < 3; ++vb) for (int ch = 0; ch < 3; ++ch) {
        /* src as above */
        static const int VB[] = {0, -1, 16}; static const size_t CH[] = {0, 1, 5}; env_reset(); env_file_buf = VB[vb]; FILE* fp = NULL;
        if (m && (vb || ch) && mc_tier == 0 && m != 3) continue;
        if (CH[ch] && msg.n > 60000) continue;
        if (m > 7) {
#ifdef VF_DEBUG
            continue;
#endif
        }
        env_file* f = env_file_make("i", msg.p, cut, src != 4); f->max_read_chunk = CH[ch];
        snprintf(hist, sizeof hist, "tree %d, stdio buffering %d, reads of %zu, at most %zu, cut at %zu", src, VB[vb], CH[ch], mx[m], cut);
        mpack_tree_t t;
        if (src == 0) mpack_tree_init_filename(&t, "i", mx[m]); else if (src == 1) mpack_tree_init_file(&t, "i", mx[m]);
        else { fp = env_fopen("i", "r"); mpack_tree_init_stdfile(&t, fp, mx[m], src == 2); }
        /* the whole file is loaded and closed by now */
        if (f->closes != (src < 3 ? f->opens : 0)) BAD("%d opens, %d closes after loading", f->opens, f->closes);
        if (src < 3 && m <= 7 && f->opens != 1) BAD("opened %d times", f->opens);
        if (src >= 3) fclose(fp);
        memset(f->data, 0xc1, f->size);
        mpack_error_t e = mpack_tree_error(&t);
        if (m > 7) { if (e == mpack_ok) BAD("a maximum above LONG_MAX is accepted"); }
        else if (src == 4 && e == mpack_error_io && mc_known("tree-nonseekable")) { }
        else if (cut == 0) { if (e != mpack_error_invalid) BAD("empty file: %s", ES(e)); }
        else if (mx[m] && cut > mx[m]) { if (e != mpack_error_too_big) BAD("too big a file: %s", ES(e)); }
        else {
            if (e) BAD("%s", ES(e));
            int i = 0; for (; i < ndoc && doc[i].end <= cut; ++i) {
                mpack_tree_parse(&t); if (mpack_tree_error(&t)) BAD("document %d: %s", i, ES(mpack_tree_error(&t)));
                const char* d = tree_diff(mpack_tree_root(&t), &doc[i], msg.p); if (d) BAD("document %d: %s", i, d);
                if (mpack_tree_size(&t) != doc[i].end - doc[i].start) BAD("document %d: size %zu", i, mpack_tree_size(&t));
            }
            if (i < ndoc || cut == msg.n) { mpack_tree_parse(&t); if (mpack_tree_error(&t) != mpack_error_invalid) BAD("parsing behind the end: %s", ES(mpack_tree_error(&t))); }
            e = mpack_tree_error(&t); mc_nontrivial(1);
        }
        mpack_error_t d = mpack_tree_destroy(&t); if (d != e) BAD("destroy: %s after %s", ES(d), ES(e));
        if (env_live_blocks) BAD("leak");
        mc_step(1); mc_eval(1); mc_outcome((uint64_t)e);
    }
}
static void missing(void) {
    env_reset(); mpack_reader_t r; mpack_reader_init_filename(&r, "none"); snprintf(hist, sizeof hist, "no such file");
    if (mpack_reader_error(&r) != mpack_error_io) BAD("reader: %s", ES(mpack_reader_error(&r))); if (mpack_read_tag(&r).type != mpack_type_nil) BAD("tag"); if (mpack_reader_destroy(&r) != mpack_error_io) BAD("reader");
    mpack_tree_t t; mpack_tree_init_filename(&t, "none", 0); if (mpack_tree_error(&t) != mpack_error_io) BAD("tree"); mpack_tree_parse(&t); if (!mpack_node_is_nil(mpack_tree_root(&t))) BAD("root"); if (mpack_tree_destroy(&t) != mpack_error_io) BAD("tree");
    if (env_live_blocks) BAD("leak"); mc_eval(1);
}
void mc_body(void) {
    mc_shard_depth = 2; ndoc = 0; rb_free(&msg); (void)pool_doc;
    int part = (int)mc_choose(7, "part: writers / readers / trees / cut readers / cut trees / missing / big objects");
    if (part == 5) { missing(); return; }
    if (part == 6) {
        static const uint32_t big[] = {60001, 65528, 65535, 65536, 65537, 70001, 131071, 131072, 131073, 262144, 300000, 524288, 1048575, 1048576, 1048577};
        uint32_t fl = big[mc_choose(15, "length")]; int kind = (int)mc_choose(3, "kind"), what = (int)mc_choose(3, "writers / readers / trees");
        add_small(3); add_filler(fl, kind); add_small(6); parse_all(); mc_state(mc_hash(3, msg.p, msg.n));
        if (what == 0) writers(); else if (what == 1) readers(msg.n); else trees(msg.n);
    } else if (part < 3) {
        /* filler length puts the following documents across every boundary of the internal buffer */
        uint32_t fl = mc_choose((uint32_t)(MPACK_BUFFER_SIZE <= 64 ? 3 * MPACK_BUFFER_SIZE + 6 : 3 * 28), "filler"); if (MPACK_BUFFER_SIZE > 64) fl = (fl / 28 + 1) * MPACK_BUFFER_SIZE - 20 + fl % 28;
        int kind = (int)mc_choose(3, "filler kind"), s = (int)mc_choose(14, "before"), u = (int)mc_choose(13, "behind");
#ifdef K_FEW      /* (fewer documents around the filler) */
        if (!mc_tier && (s % K_FEW || u % K_FEW)) return;
#endif
        if (s < 13) add_small(s); add_filler(fl, kind); add_small(u); if (u % 3 == 0) { add_small(u + 1); add_filler(3, 0); }
        parse_all(); mc_state(mc_hash(1, msg.p, msg.n));
        if (part == 0) writers(); else if (part == 1) readers(msg.n); else trees(msg.n);
    } else {
        int s = (int)mc_choose(13, "first"); uint32_t fl = mc_choose(3, "filler") * MPACK_BUFFER_SIZE / 2; int u = (int)mc_choose(13, "last");
        add_small(s); add_filler(fl > 100 ? fl - 20 : fl, s % 3); add_small(u); parse_all(); mc_state(mc_hash(2, msg.p, msg.n));
        for (size_t c = 0; c <= msg.n; c += c > 100 && c + 100 < msg.n ? 61 : 1) { if (part == 3) readers(c); else trees(c); mc_tick(); }
    }
    mc_log("%s\nfile %s\n", hist, hexs(msg.p, msg.n)); free_all();
}
