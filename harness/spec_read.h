/* Reference decoding of a MessagePack header, transcribed from the specification's
 * format table. Pure functions over the header bytes; nothing here comes from mpack. */
#ifndef SPEC_READ_H
#define SPEC_READ_H 1
enum { SK_bad, SK_nil, SK_bool, SK_int, SK_uint, SK_float, SK_double, SK_str, SK_bin, SK_array, SK_map, SK_ext };
static inline uint64_t spec_num(const uint8_t* h, size_t n) { uint64_t v = 0; for (size_t i = 0; i < 8; ++i) if (i < n) v = (v << 8) | h[i]; return v; }
/* bytes of the header, from its first byte (0: not a header) */
static inline size_t spec_hdr_len(uint8_t b) {
    if (b <= 0xbf || b >= 0xe0) return 1;
    switch (b) {
        case 0xc0: case 0xc2: case 0xc3: return 1;
        case 0xc4: case 0xd9: case 0xcc: case 0xd0: return 2;
        case 0xc5: case 0xda: case 0xcd: case 0xd1: case 0xdc: case 0xde: return 3;
        case 0xc6: case 0xdb: case 0xce: case 0xd2: case 0xdd: case 0xdf: case 0xca: return 5;
        case 0xcf: case 0xd3: case 0xcb: return 9;
        case 0xc7: return 3; case 0xc8: return 4; case 0xc9: return 6;
        case 0xd4: case 0xd5: case 0xd6: case 0xd7: case 0xd8: return 2;
        default: return 0; /* 0xc1 */
    }
}
static inline int spec_hdr_kind(uint8_t b) {
    if (b <= 0x7f) return SK_uint;
    if (b >= 0xe0) return SK_int;
    if (b <= 0x8f) return SK_map;
    if (b <= 0x9f) return SK_array;
    if (b <= 0xbf) return SK_str;
    switch (b) {
        case 0xc0: return SK_nil; case 0xc2: case 0xc3: return SK_bool;
        case 0xc4: case 0xc5: case 0xc6: return SK_bin;
        case 0xc7: case 0xc8: case 0xc9: case 0xd4: case 0xd5: case 0xd6: case 0xd7: case 0xd8: return SK_ext;
        case 0xca: return SK_float; case 0xcb: return SK_double;
        case 0xcc: case 0xcd: case 0xce: case 0xcf: return SK_uint;
        case 0xd0: case 0xd1: case 0xd2: case 0xd3: return SK_int;
        case 0xd9: case 0xda: case 0xdb: return SK_str;
        case 0xdc: case 0xdd: return SK_array; case 0xde: case 0xdf: return SK_map;
        default: return SK_bad;
    }
}
/* the number in the header: integer value (sign-extended), float bits, length or count */
static inline uint64_t spec_hdr_val(const uint8_t* h) {
    uint8_t b = h[0];
    if (b <= 0x7f) return b;
    if (b >= 0xe0) return (uint64_t)(int64_t)(int8_t)b;
    if (b <= 0x8f) return b & 15;
    if (b <= 0x9f) return b & 15;
    if (b <= 0xbf) return b & 31;
    switch (b) {
        case 0xc2: return 0; case 0xc3: return 1;
        case 0xc4: case 0xd9: case 0xcc: case 0xc7: return h[1];
        case 0xc5: case 0xda: case 0xcd: case 0xdc: case 0xde: case 0xc8: return spec_num(h + 1, 2);
        case 0xc6: case 0xdb: case 0xce: case 0xdd: case 0xdf: case 0xca: case 0xc9: return spec_num(h + 1, 4);
        case 0xcf: case 0xd3: case 0xcb: return spec_num(h + 1, 8);
        case 0xd0: return (uint64_t)(int64_t)(int8_t)h[1];
        case 0xd1: return (uint64_t)(int64_t)(int16_t)spec_num(h + 1, 2);
        case 0xd2: return (uint64_t)(int64_t)(int32_t)spec_num(h + 1, 4);
        case 0xd4: return 1; case 0xd5: return 2; case 0xd6: return 4; case 0xd7: return 8; case 0xd8: return 16;
        default: return 0;
    }
}
static inline int8_t spec_hdr_ext(const uint8_t* h) {
    switch (h[0]) {
        case 0xc7: return (int8_t)h[2]; case 0xc8: return (int8_t)h[3]; case 0xc9: return (int8_t)h[5];
        case 0xd4: case 0xd5: case 0xd6: case 0xd7: case 0xd8: return (int8_t)h[1];
        default: return 0;
    }
}
#if MPACK_FLOAT
static inline uint32_t spec_fbits(float f) { union { float f; uint32_t u; } x; x.f = f; return x.u; }
#else
static inline uint32_t spec_fbits(uint32_t f) { return f; }
#endif
#if MPACK_DOUBLE
static inline uint64_t spec_dbits(double f) { union { double f; uint64_t u; } x; x.f = f; return x.u; }
#else
static inline uint64_t spec_dbits(uint64_t f) { return f; }
#endif
/* is this the tag for these header bytes? */
static inline bool spec_tag_is(mpack_tag_t t, const uint8_t* h) {
    uint64_t v = spec_hdr_val(h);
    switch (spec_hdr_kind(h[0])) {
        case SK_nil: return t.type == mpack_type_nil;
        case SK_bool: return t.type == mpack_type_bool && t.v.b == (v == 1);
        case SK_int: return t.type == mpack_type_int && t.v.i == (int64_t)v;
        case SK_uint: return t.type == mpack_type_uint && t.v.u == v;
        case SK_float: return t.type == mpack_type_float && spec_fbits(t.v.f) == (uint32_t)v;
        case SK_double: return t.type == mpack_type_double && spec_dbits(t.v.d) == v;
        case SK_str: return t.type == mpack_type_str && t.v.l == (uint32_t)v;
        case SK_bin: return t.type == mpack_type_bin && t.v.l == (uint32_t)v;
        case SK_array: return t.type == mpack_type_array && t.v.n == (uint32_t)v;
        case SK_map: return t.type == mpack_type_map && t.v.n == (uint32_t)v;
        #if MPACK_EXTENSIONS
        case SK_ext: return t.type == mpack_type_ext && t.v.l == (uint32_t)v && t.exttype == spec_hdr_ext(h);
        #endif
        default: return false;
    }
}
#endif
