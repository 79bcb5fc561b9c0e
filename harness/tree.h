/* tree.h - compares a parsed MPack tree with the reference parse */
#ifndef TREE_H
#define TREE_H 1
#include "common.h"

/* NULL if the node has exactly the content of v (parsed from d), else what differs */
static inline const char* tree_diff(mpack_node_t nd, const rv* v, const uint8_t* d) {
    rv h; size_t off = v->start;
    if (ref_header(d, SIZE_MAX / 2, &off, &h) != REF_OK) return "reference header";
    if (!tag_is(mpack_node_tag(nd), &h)) return "tag";
    if (v->t != RV_NIL && mpack_node_is_nil(nd)) return "is_nil";
    if (mpack_node_is_missing(nd)) return "is_missing";
    { mpack_tag_t t = mpack_node_tag(nd); if (mpack_node_type(nd) != mpack_tag_type(&t)) return "type"; }
    const uint8_t* p = d + v->hdr;
    switch (v->t) {
        case RV_BOOL: if (mpack_node_bool(nd) != (v->u != 0)) return "bool"; break;
        case RV_STR:
            if (mpack_node_strlen(nd) != v->n) return "strlen";
            if (mpack_node_data_len(nd) != v->n) return "data_len";
            if (memcmp(mpack_node_str(nd), p, v->n)) return "str bytes";
            if (memcmp(mpack_node_data(nd), p, v->n)) return "data bytes";
            break;
        case RV_BIN:
            if (mpack_node_bin_size(nd) != v->n) return "bin size";
            if (mpack_node_data_len(nd) != v->n) return "data_len";
            if (memcmp(mpack_node_bin_data(nd), p, v->n)) return "bin bytes";
            if (memcmp(mpack_node_data(nd), p, v->n)) return "data bytes";
            break;
#if MPACK_EXTENSIONS
        case RV_EXT:
            if (mpack_node_exttype(nd) != v->ext) return "exttype";
            if (mpack_node_data_len(nd) != v->n) return "data_len";
            if (memcmp(mpack_node_data(nd), p, v->n)) return "ext bytes";
            break;
#endif
        case RV_ARR: {
            if (mpack_node_array_length(nd) != v->n) return "array length";
            for (uint32_t i = 0; i < v->n; ++i) { const char* e = tree_diff(mpack_node_array_at(nd, i), &v->kid[i], d); if (e) return e; }
            break; }
        case RV_MAP: {
            if (mpack_node_map_count(nd) != v->n) return "map count";
            for (uint32_t i = 0; i < v->n; ++i) {
                const char* e = tree_diff(mpack_node_map_key_at(nd, i), &v->kid[2 * i], d); if (e) return e;
                e = tree_diff(mpack_node_map_value_at(nd, i), &v->kid[2 * i + 1], d); if (e) return e;
            }
            break; }
    }
    return NULL;
}
static inline int rv_depth(const rv* v) { int m = 0; for (size_t i = 0; i < v->kids; ++i) { int k = rv_depth(&v->kid[i]); if (k > m) m = k; } return v->n && (v->t == RV_ARR || v->t == RV_MAP) ? m + 1 : 0; }
#endif
