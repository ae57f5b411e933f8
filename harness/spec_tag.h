#include "spec_read.h"
/* Encoding of a tag (object header) in terms of the reference encoders. */
#ifndef SPEC_TAG_H
#define SPEC_TAG_H 1
static inline uint32_t W_fbits(mpack_tag_t t) { return spec_fbits(t.v.f); }
static inline uint64_t W_dbits(mpack_tag_t t) { return spec_dbits(t.v.d); }
static inline bool W_tag_ok(bool v4, mpack_tag_t t) {
    switch ((int)t.type) {
        case mpack_type_nil: case mpack_type_bool: case mpack_type_int: case mpack_type_uint: case mpack_type_float: case mpack_type_double:
        case mpack_type_str: case mpack_type_bin: case mpack_type_array: case mpack_type_map: return true;
        #if MPACK_EXTENSIONS
        case mpack_type_ext: return !v4;
        #endif
        default: return false;
    }
}
static inline size_t W_tag_len(bool v4, mpack_tag_t t) {
    switch ((int)t.type) {
        case mpack_type_nil: case mpack_type_bool: return 1;
        case mpack_type_int: return spec_int_len(t.v.i);
        case mpack_type_uint: return spec_uint_len(t.v.u);
        case mpack_type_float: return 5;
        case mpack_type_double: return 9;
        case mpack_type_str: return spec_str_len(v4, t.v.l);
        case mpack_type_bin: return spec_bin_len(v4, t.v.l);
        #if MPACK_EXTENSIONS
        case mpack_type_ext: return spec_ext_len(t.v.l);
        #endif
        case mpack_type_array: return spec_array_len(t.v.n);
        case mpack_type_map: return spec_map_len(t.v.n);
        default: return 0;
    }
}
static inline uint8_t W_tag_byte(bool v4, mpack_tag_t t, size_t i) {
    switch ((int)t.type) {
        case mpack_type_nil: return 0xc0;
        case mpack_type_bool: return t.v.b ? 0xc3 : 0xc2;
        case mpack_type_int: return spec_int_byte(t.v.i, i);
        case mpack_type_uint: return spec_uint_byte(t.v.u, i);
        case mpack_type_float: return spec_f32_byte(W_fbits(t), i);
        case mpack_type_double: return spec_f64_byte(W_dbits(t), i);
        case mpack_type_str: return spec_str_byte(v4, t.v.l, i);
        case mpack_type_bin: return spec_bin_byte(v4, t.v.l, i);
        #if MPACK_EXTENSIONS
        case mpack_type_ext: return spec_ext_byte(t.exttype, t.v.l, i);
        #endif
        case mpack_type_array: return spec_array_byte(t.v.n, i);
        case mpack_type_map: return spec_map_byte(t.v.n, i);
        default: return 0;
    }
}
#endif
