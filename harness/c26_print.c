/* C26: debug printing stays inside its buffer, null-terminates, gives the longest prefix that fits, prints the same
 * text from raw data and from the parsed tree, shows every value and marks erroneous data. */
#include "tree.h"
static rbuf msg; static rv doc; static char hist[100];
#define BAD(fmt, ...) mc_fail("message of %zu bytes %s, %s: " fmt, msg.n, hexs(msg.p, msg.n > 60 ? 60 : msg.n), hist, ##__VA_ARGS__)
typedef struct { char* p; size_t n, cap; unsigned calls; } text;
static void t_cb(void* c, const char* d, size_t n) { text* t = (text*)c; if (n == 0) BAD("the callback is given nothing"); if (t->n + n > t->cap) { t->cap = (t->n + n) * 2 + 64; t->p = (char*)realloc(t->p, t->cap); } memcpy(t->p + t->n, d, n); t->n += n; ++t->calls; }
static text A, B, C;
/* ------------------------------------------------ the values shown by a text: a reader that ignores white space */
static const char *tp, *te;
static void ws(void) { while (tp < te && (*tp == ' ' || *tp == '\n' || *tp == '\t' || *tp == '\r')) ++tp; }
static bool chr(char c) { ws(); if (tp < te && *tp == c) { ++tp; return true; } return false; }
static bool word(const char* w) { ws(); size_t n = strlen(w); if ((size_t)(te - tp) >= n && !memcmp(tp, w, n)) { tp += n; return true; } return false; }
static const char* shows(const rv* v) {
    char x[400]; ws(); const uint8_t* d = msg.p + v->hdr;
    switch (v->t) {
        case RV_NIL: return word("null") || word("nil") ? NULL : "nil";
        case RV_BOOL: return word(v->u ? "true" : "false") ? NULL : "bool";
        case RV_UINT: snprintf(x, sizeof x, "%llu", (unsigned long long)v->u); if (!word(x)) return "unsigned"; return tp < te && *tp >= '0' && *tp <= '9' ? "unsigned has more digits" : NULL;
        case RV_INT: snprintf(x, sizeof x, "%lld", (long long)v->i); if (!word(x)) return "signed"; return tp < te && *tp >= '0' && *tp <= '9' ? "signed has more digits" : NULL;
        case RV_F32: case RV_F64: { double f = v->t == RV_F32 ? (double)f_of((uint32_t)v->u) : d_of(v->u);
            size_t n = 0; while (tp + n < te && !strchr(" ,:]}\n<", tp[n])) ++n; if (n == 0 || n >= sizeof x) return "floating-point text"; memcpy(x, tp, n); x[n] = 0; tp += n;
            if (isnan(f)) return strstr(x, "nan") ? NULL : "NaN";
            char* end; double g = strtod(x, &end); if (*end) return "floating-point number";
            if (isinf(f)) return g == f ? NULL : "infinity";
            return fabs(g - f) <= 1e-6 + fabs(f) * 1e-6 && (signbit(f) == signbit(g) || f == 0) ? NULL : "floating-point value"; }
        case RV_STR: if (!chr('"')) return "opening quote";
            for (uint32_t i = 0; i < v->n; ++i) {
                if (tp >= te) return "string end"; char c = *tp++;
                if (c == '"') return "quote inside a string";
                if (c == '\\') { if (tp >= te) return "string end"; c = *tp++; if (c == 'n') c = '\n'; else if (c != '\\' && c != '"') return "escape"; }
                if ((uint8_t)c != d[i]) return "string byte";
            }
            return tp < te && *tp++ == '"' ? NULL : "closing quote";
        case RV_BIN: case RV_EXT: {
            if (!chr('<')) return "bin/ext opening"; const char* e = (const char*)memchr(tp, '>', (size_t)(te - tp)); if (!e) return "bin/ext closing";
            size_t n = (size_t)(e - tp); if (n >= sizeof x) return "bin/ext text"; memcpy(x, tp, n); x[n] = 0; tp = e + 1;
            char num[40]; snprintf(num, sizeof num, "length %u", v->n); char* l = strstr(x, num); if (!l || (l[strlen(num)] >= '0' && l[strlen(num)] <= '9')) return "bin/ext length";
            if (v->t == RV_EXT) { snprintf(num, sizeof num, "type %d ", v->ext); if (!strstr(x, num)) return "ext type"; if (!strstr(x, "ext")) return "ext"; } else if (!strstr(x, "bin")) return "bin";
            char hex[100] = ""; uint32_t k = v->n < 12 ? v->n : 12; for (uint32_t i = 0; i < k; ++i) sprintf(hex + 2 * i, "%02x", d[i]); if (!strstr(x, hex)) return "bin/ext bytes";
            if ((strstr(x, "...") != NULL) != (v->n > 12)) return "bin/ext ellipsis";
            return NULL; }
        case RV_ARR: if (!chr('[')) return "["; for (size_t i = 0; i < v->kids; ++i) { if (i && !chr(',')) return ", in an array"; const char* e = shows(&v->kid[i]); if (e) return e; } return chr(']') ? NULL : "]";
        case RV_MAP: if (!chr('{')) return "{"; for (size_t i = 0; i < v->kids; ++i) { if (i && !chr(i % 2 ? ':' : ',')) return ", or : in a map"; const char* e = shows(&v->kid[i]); if (e) return e; } return chr('}') ? NULL : "}";
    }
    return "kind";
}
static void showing(const text* t, const char* what) { tp = t->p; te = t->p + t->n; const char* e = shows(&doc); if (!e) { ws(); if (tp != te) e = "text behind the document"; } if (e) BAD("%s does not show the document: %s at byte %zu of \"%.*s\"", what, e, (size_t)(tp - t->p), (int)(t->n > 300 ? 300 : t->n), t->p); }
static void same_but_space(const text* x, const text* y, const char* what) {
    size_t i = 0, j = 0;
    for (;;) { while (i < x->n && (x->p[i] == ' ' || x->p[i] == '\n')) ++i; while (j < y->n && (y->p[j] == ' ' || y->p[j] == '\n')) ++j; if (i == x->n || j == y->n) break; if (x->p[i] != y->p[j]) break; ++i; ++j; }
    if (i != x->n || j != y->n) BAD("%s gives other text", what);
}
static size_t node_skip;      /* sizes not tried for big texts */
static void buffers(mpack_node_t* nd, size_t cut, const text* full) {
    for (size_t n = 1; n <= full->n + 3; ++n) {
        if (full->n > 300 && n > 40 && n + 12 < full->n && (n < 1015 || n > 1035) && n % 97) continue;
        /* exact allocation (sanitized builds) and guard bytes */
        char* b = (char*)malloc(n + 16); memset(b, 0x5a, n + 16);
        snprintf(hist, sizeof hist, "printed from %s to a buffer of %zu", nd ? "a node" : "data", n);
        if (nd) mpack_node_print_to_buffer(*nd, b, n); else mpack_print_data_to_buffer((const char*)msg.p, cut, b, n);
        size_t want = full->n < n - 1 ? full->n : n - 1;
        if (b[want] != 0) BAD("not null-terminated behind %zu characters", want);
        if (memcmp(b, full->p, want)) BAD("not a prefix of the full text");
        for (size_t i = n; i < n + 16; ++i) if (b[i] != 0x5a) BAD("byte %zu behind the buffer is written", i - n);
        free(b); mc_eval(1);
#ifdef VF_EXACT
        b = (char*)malloc(n); if (nd) mpack_node_print_to_buffer(*nd, b, n); else mpack_print_data_to_buffer((const char*)msg.p, cut, b, n); free(b);
#endif
    }
    mc_step(1);
}
static void from_file(FILE* f, text* t) { t->n = 0; char b[4096]; rewind(f); size_t n; while ((n = fread(b, 1, sizeof b, f))) t_cb(t, b, n); }
static void whole(bool every_buffer) {
    env_reset(); A.n = B.n = C.n = 0; const char* data = (const char*)msg.p;
    snprintf(hist, sizeof hist, "printed from data"); mpack_print_data_to_callback(data, msg.n, t_cb, &A); showing(&A, "data printed to a callback");
    snprintf(hist, sizeof hist, "printed from a node"); mpack_tree_t t; mpack_tree_init_data(&t, data, msg.n); mpack_tree_parse(&t); if (mpack_tree_error(&t)) BAD("tree: %s", ES(mpack_tree_error(&t))); mpack_node_t root = mpack_tree_root(&t);
    mpack_node_print_to_callback(root, t_cb, &B); if (A.n != B.n || memcmp(A.p, B.p, A.n)) BAD("the text differs from that of the data: \"%.*s\" / \"%.*s\"", (int)(B.n > 200 ? 200 : B.n), B.p, (int)(A.n > 200 ? 200 : A.n), A.p);
    if (every_buffer) { buffers(NULL, msg.n, &A); buffers(&root, 0, &A); }
    /* files: the same values, indented */
    env_file_make("o", NULL, 0, true); FILE* f = env_fopen("o", "w+");
    snprintf(hist, sizeof hist, "data printed to a file"); mpack_print_data_to_file(data, msg.n, f); from_file(f, &C); showing(&C, "data printed to a file"); fclose(f); if (C.n == 0 || C.p[C.n - 1] != '\n') BAD("no newline at the end"); text D = {0}; t_cb(&D, C.p, C.n);
    f = env_fopen("o", "w+"); snprintf(hist, sizeof hist, "node printed to a file"); mpack_node_print_to_file(root, f); from_file(f, &C); fclose(f); if (C.n != D.n || memcmp(C.p, D.p, C.n)) BAD("the text differs from that of the data"); free(D.p);
    FILE* old = stdout; f = env_fopen("o", "w+"); stdout = f; mpack_print_data_to_stdout(data, msg.n); mpack_node_print_to_stdout(root); mpack_print(data, msg.n); mpack_node_print(root); stdout = old;
    text E = {0}; from_file(f, &E); fclose(f); snprintf(hist, sizeof hist, "printed to stdout"); if (E.n != 4 * C.n) BAD("%zu characters instead of 4 x %zu", E.n, C.n); for (int i = 0; i < 4; ++i) if (memcmp(E.p + (size_t)i * C.n, C.p, C.n)) BAD("print %d differs", i); free(E.p);
    if (mpack_tree_destroy(&t)) BAD("tree error");
    C.n = 0; env_file_make("i", msg.p, msg.n, true); f = env_fopen("i", "r"); snprintf(hist, sizeof hist, "FILE printed"); mpack_print_stdfile_to_callback(f, t_cb, &C); if (C.n != A.n || memcmp(C.p, A.p, A.n)) BAD("the text differs from that of the data"); fclose(f); if (env_file_find("i")->closes != 1) BAD("closed");
    if (env_live_blocks) BAD("leak"); mc_nontrivial(1);
}
static bool has(const text* t, const char* s) { size_t n = strlen(s); for (size_t i = 0; i + n <= t->n; ++i) if (!memcmp(t->p + i, s, n)) return true; return false; }
static void erroneous(size_t cut, bool every_buffer) {      /* the first cut bytes only */
    env_reset(); A.n = B.n = 0; snprintf(hist, sizeof hist, "cut at %zu", cut);
    char* d = (char*)malloc(cut ? cut : 1); memcpy(d, msg.p, cut); mpack_print_data_to_callback(d, cut, t_cb, &A); if (!has(&A, "error")) BAD("no error marker in \"%.*s\"", (int)A.n, A.p); free(d);
    if (every_buffer) buffers(NULL, cut, &A);
    snprintf(hist, sizeof hist, "cut at %zu", cut);
    env_file_make("i", msg.p, cut, true); FILE* f = env_fopen("i", "r"); mpack_print_stdfile_to_callback(f, t_cb, &B); if (!has(&B, "error")) BAD("FILE: no error marker"); fclose(f);
    C.n = 0; env_file_make("o", NULL, 0, true); f = env_fopen("o", "w+"); if (cut) { mpack_print_data_to_file((const char*)msg.p, cut, f); from_file(f, &C); if (!has(&C, "error")) BAD("printed to a file: no error marker"); } fclose(f);
    if (env_live_blocks) BAD("leak"); mc_nontrivial(1); mc_eval(1);
}
static void trailing(size_t extra) {
    rbuf m = {0}; rb_mem(&m, msg.p, msg.n); for (size_t i = 0; i < extra; ++i) rb_u8(&m, 0xc1); env_reset(); A.n = 0; snprintf(hist, sizeof hist, "with %zu bytes behind", extra); mpack_print_data_to_callback((const char*)m.p, m.n, t_cb, &A);
    char x[40]; snprintf(x, sizeof x, "%zu extra", extra); if (!has(&A, x)) BAD("the bytes behind the message are not mentioned"); rb_free(&m);
    mpack_tree_t t; mpack_tree_init_data(&t, "\xc1", 1); mpack_tree_parse(&t); mpack_node_t n = mpack_tree_root(&t); char b[10]; mpack_node_print_to_buffer(n, b, sizeof b); if (strlen(b) > 9) BAD("text"); mpack_tree_destroy(&t); mc_eval(1);
}
static void parse(void) { memset(&doc, 0, sizeof doc); size_t off = 0, nodes = 0; bool x = false; if (ref_parse(msg.p, msg.n, &off, &doc, &x, &nodes) != REF_OK || off != msg.n) mc_fail("generator"); mc_state(mc_hash(7, msg.p, msg.n)); }
/* the number stands in the text as a token of its own */
static bool token(const char* s, const char* num) {
    size_t l = strlen(num);
    for (const char* q = s; (q = strstr(q, num)) != NULL; ++q) if (!(q[l] >= '0' && q[l] <= '9') && (q == s || !((q[-1] >= '0' && q[-1] <= '9') || (q[-1] == '-' && *num != '-')))) return true;
    return false;
}
static void tag_shown(mpack_tag_t t, const char* s, bool describe, const char* prefix, size_t pn) {
    char n1[40] = ""; const char* w = ""; mpack_type_t ty = mpack_tag_type(&t);
    switch (ty) {
        case mpack_type_missing: w = "missing"; break;
        case mpack_type_nil: w = describe ? "nil" : "null"; break;
        case mpack_type_bool: w = mpack_tag_bool_value(&t) ? "true" : "false"; break;
        case mpack_type_int: sprintf(n1, "%" PRIi64, mpack_tag_int_value(&t)); break;
        case mpack_type_uint: sprintf(n1, "%" PRIu64, mpack_tag_uint_value(&t)); if (describe) w = "uint"; break;
        case mpack_type_str: sprintf(n1, "%u", mpack_tag_str_length(&t)); w = "str"; break;
        case mpack_type_bin: sprintf(n1, "%u", mpack_tag_bin_length(&t)); w = "bin"; break;
        case mpack_type_array: sprintf(n1, "%u", mpack_tag_array_count(&t)); w = "array"; break;
        case mpack_type_map: sprintf(n1, "%u", mpack_tag_map_count(&t)); w = "map"; break;
#if MPACK_EXTENSIONS
        case mpack_type_ext: sprintf(n1, "%u", mpack_tag_ext_length(&t)); w = "ext"; { char x[12]; sprintf(x, "%d", mpack_tag_ext_exttype(&t)); if (!token(s, x)) BAD("ext type not shown in \"%s\"", s); } break;
#endif
        default: if (describe) w = ty == mpack_type_float ? "float" : "double"; break;
    }
    if (!strstr(s, w)) BAD("%s not named in \"%s\"", w, s);
    if (*n1 && !token(s, n1)) BAD("%s not shown in \"%s\"", n1, s);
    if (!describe && (ty == mpack_type_int || ty == mpack_type_uint || ty == mpack_type_bool || ty == mpack_type_nil) && strcmp(s, *n1 ? n1 : w)) BAD("shown as \"%s\"", s);
    if (!describe && (ty == mpack_type_bin || !strcmp(w, "ext"))) {
        char hex[100] = ""; size_t k = pn < 12 ? pn : 12; for (size_t i = 0; i < k; ++i) sprintf(hex + 2 * i, "%02x", (uint8_t)prefix[i]);
        if (!strstr(s, hex)) BAD("bytes %s not shown in \"%s\"", hex, s);
        if ((strstr(s, "...") != NULL) != (mpack_tag_bytes(&t) > k)) BAD("%zu of %u bytes shown in \"%s\"", k, mpack_tag_bytes(&t), s);
    }
}
/* buffers of every size for the tag texts */
static void tags(mpack_tag_t t, const char* prefix, size_t pn) {
    for (int which = 0; which < 2; ++which) {
        char full[2000]; if (which) mpack_tag_debug_describe(t, full, sizeof full); else mpack_tag_debug_pseudo_json(t, full, sizeof full, prefix, pn);
        size_t len = strlen(full); snprintf(hist, sizeof hist, "text of tag %s", tag_text(t)); if (len == 0) BAD("no text");
        tag_shown(t, full, which != 0, prefix, pn);
        for (size_t n = 1; n <= len + 3; ++n) {
            char* b = (char*)malloc(n + 16); memset(b, 0x5a, n + 16); if (which) mpack_tag_debug_describe(t, b, n); else mpack_tag_debug_pseudo_json(t, b, n, prefix, pn);
            if (!memchr(b, 0, n)) BAD("not null-terminated in %zu", n); for (size_t i = n; i < n + 16; ++i) if (b[i] != 0x5a) BAD("a byte behind %zu is written", n);
            if (n > len && strcmp(b, full)) BAD("another text in %zu", n);
            free(b); mc_eval(1);
#ifdef VF_EXACT
            b = (char*)malloc(n); if (which) mpack_tag_debug_describe(t, b, n); else mpack_tag_debug_pseudo_json(t, b, n, prefix, pn); free(b);
#endif
        }
        tp = full; te = full + len;
        if (mpack_tag_type(&t) == mpack_type_double && !which) { rv v = {.t = RV_F64, .u = bits_d(mpack_tag_double_value(&t))}; const char* e = shows(&v); if (e) BAD("%s", e); }
    }
    mc_step(1);
}
static const uint8_t nasty[] = "a\n\"\\\0\xff:,<>{}[] \t\r'/z";
static const gn leaves[] = { {.t = RV_UINT, .u = 5}, {.t = RV_STR, .n = 3, .data = (const uint8_t*)"k\n\""}, {.t = RV_BIN, .n = 13}, {.t = RV_NIL}, {.t = RV_F64, .u = 0x3ff8000000000000ull}, {.t = RV_INT, .i = -70000}, {.t = RV_BOOL, .u = 1},
    {.t = RV_EXT, .ext = -7, .n = 1}, {.t = RV_STR, .n = 0}, {.t = RV_F32, .u = 0xc0490fdb}, {.t = RV_BIN, .n = 0}, {.t = RV_STR, .n = 20, .data = nasty}, {.t = RV_UINT, .u = UINT64_MAX}, {.t = RV_INT, .i = INT64_MIN}, {.t = RV_BOOL, .u = 0}, {.t = RV_EXT, .ext = 127, .n = 12}, {.t = RV_EXT, .ext = -128, .n = 40}, {.t = RV_F64, .u = 0x7ff0000000000000ull}, {.t = RV_F64, .u = 0x7ff8000000000000ull} };
static const uint64_t dbl[] = { 0, 0x8000000000000000ull, 0x7fefffffffffffffull, 0xffefffffffffffffull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 1, 0x0010000000000000ull, 0x3ff0000000000000ull, 0x3fb999999999999aull, 0x4340000000000000ull, 0x5fefffffffffffffull, 0x6974e718d7d7625aull, 0x7e37e43c8800759cull, 0xfe37e43c8800759cull };
void mc_body(void) {
    mc_shard_depth = 3; rb_free(&msg); (void)node_skip;
    switch (mc_choose(6, "part: documents / values and sizes / around the internal buffer / big counts / tags / cuts")) {
    case 0: { gctx g; g_init(&g, leaves, mc_tier ? 8 : 5, 5, 3, 4); gn* d = g_doc(&g); for (int i = 0; i < g.used; ++i) if (!g.pool[i].data) g.pool[i].data = payload(); g_encode(&msg, d); parse(); whole(true); break; }
    case 1: { gctx g; g_init(&g, leaves, 19, 3, 2, 3); gn* d = g_doc(&g); for (int i = 0; i < g.used; ++i) if (!g.pool[i].data) g.pool[i].data = payload(); g_encode(&msg, d); parse(); whole(true); ref_free(&doc);
        if (g.used == 1) for (int k = 0; k < 16; ++k) { rb_free(&msg); if (d->t == RV_F64) ref_f64(&msg, dbl[k]); else if (d->t == RV_F32) ref_f32(&msg, bits_f((float)d_of(dbl[k]))); else if (d->t == RV_BIN || d->t == RV_EXT || d->t == RV_STR) { d->n = (uint32_t)k; if (d->t == RV_STR && d->data != payload()) d->n = (uint32_t)k + 5 < 20 ? (uint32_t)k : 20; if (d->data != payload() && d->n > 3 && d->data != nasty) d->n = 3; g_encode(&msg, d); } else break; parse(); whole(true); ref_free(&doc); }
        break; }
    case 2: {      /* the text crosses the ends of the internal buffer at every offset */
        int k = (int)mc_choose(2, "buffers"); uint32_t n = 930 + (uint32_t)k * 1024 + mc_choose(110, "string length"); int l = (int)mc_choose(19, "leaf"), arr = (int)mc_choose(2, "kind");
        gn c = leaves[l]; if (!c.data) c.data = payload(); gn in[2] = {c, c}; gn nest = {.t = RV_ARR, .n = 2, .kids = 2, .kid = in}; gn kk[4] = {{.t = RV_STR, .n = n, .data = payload()}, c, nest, c}; gn a = {.t = (uint8_t)(arr ? RV_ARR : RV_MAP), .n = arr ? 4 : 2, .kids = 4, .kid = kk}; g_encode(&msg, &a); parse(); whole(n % 16 == 0); ref_free(&doc); break; }
    case 3: { static const uint32_t N[] = {31, 32, 33, 255, 256, 300}; uint32_t n = mc_choose(24 + 6, "count"); if (n >= 24) n = N[n - 24]; int m = (int)mc_choose(2, "kind"), depth = (int)mc_choose(4, "depth");
        for (int i = 0; i < depth * 9; ++i) ref_array_hdr(&msg, 1); if (m) ref_map_hdr(&msg, n / 2); else ref_array_hdr(&msg, n); for (uint32_t i = 0; i < (m ? n / 2 * 2 : n); ++i) { if (n < 24 && i % 5 == 3) { ref_array_hdr(&msg, i % 4); for (uint32_t j = 0; j < i % 4; ++j) ref_bool(&msg, j & 1); } else ref_uint(&msg, i * 7919); } parse(); whole(n < 100); break; }
    case 4: { static const uint32_t N[] = {0, 1, 2, 9, 10, 11, 12, 13, 99, 100, 4294967295u}; 
        for (int i = 0; i < 16; ++i) { tags(mpack_tag_double(d_of(dbl[i])), NULL, 0); tags(mpack_tag_float((float)d_of(dbl[i])), NULL, 0); tags(mpack_tag_uint(dbl[i]), NULL, 0); tags(mpack_tag_int((int64_t)dbl[i]), NULL, 0); }
        tags(mpack_tag_nil(), NULL, 0); tags(mpack_tag_bool(true), NULL, 0); tags(mpack_tag_bool(false), NULL, 0); { mpack_tag_t z = MPACK_TAG_ZERO; tags(z, NULL, 0); }
        for (int i = 0; i < 11; ++i) { tags(mpack_tag_array(N[i]), NULL, 0); tags(mpack_tag_map(N[i]), NULL, 0); tags(mpack_tag_str(N[i]), NULL, 0); for (size_t p = 0; p < 16 && p <= N[i]; ++p) { tags(mpack_tag_bin(N[i]), (const char*)payload(), p);
#if MPACK_EXTENSIONS
            tags(mpack_tag_ext(-128, N[i]), (const char*)payload(), p); tags(mpack_tag_ext(5, N[i]), (const char*)payload(), p);
#endif
        } }
        break; }
    case 5: { gctx g; g_init(&g, leaves, mc_tier ? 19 : 9, 4, 3, 4); gn* d = g_doc(&g); for (int i = 0; i < g.used; ++i) { if (!g.pool[i].data) g.pool[i].data = payload(); g.pool[i].form = (uint8_t)(i % 3); } g_encode(&msg, d); parse();
        for (size_t c = 0; c < msg.n; ++c) erroneous(c, msg.n < 30 && c % 3 == 0); trailing(1); trailing(123); break; }
    }
    ref_free(&doc); mc_log("message %s\ntext %.*s\n", hexs(msg.p, msg.n), (int)A.n, A.p);
}
