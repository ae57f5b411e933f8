/* Reference encoding, transcribed from the MessagePack specification
 * (spec.md, "Formats" and "Serialization: type to format conversion").
 * Pure functions; nothing here comes from mpack. */
#ifndef SPEC_WRITE_H
#define SPEC_WRITE_H 1
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>

/* i-th byte of an n-byte big-endian number */
static inline uint8_t spec_be(uint64_t v, size_t n, size_t i) {
    size_t s = n - 1 - i;
    switch (s) {
        case 0: return (uint8_t)v; case 1: return (uint8_t)(v >> 8); case 2: return (uint8_t)(v >> 16);
        case 3: return (uint8_t)(v >> 24); case 4: return (uint8_t)(v >> 32); case 5: return (uint8_t)(v >> 40);
        case 6: return (uint8_t)(v >> 48); default: return (uint8_t)(v >> 56);
    }
}
/* unsigned integers: positive fixint, uint 8/16/32/64 */
static inline size_t spec_uint_len(uint64_t v) {
    return v <= 0x7f ? 1 : v <= 0xff ? 2 : v <= 0xffff ? 3 : v <= 0xffffffffu ? 5 : 9;
}
static inline uint8_t spec_uint_byte(uint64_t v, size_t i) {
    size_t n = spec_uint_len(v);
    if (n == 1) return (uint8_t)v;
    if (i == 0) return n == 2 ? 0xcc : n == 3 ? 0xcd : n == 5 ? 0xce : 0xcf;
    return spec_be(v, n - 1, i - 1);
}
/* signed integers: non-negative ones as unsigned; negative fixint, int 8/16/32/64 */
static inline size_t spec_int_len(int64_t v) {
    if (v >= 0) return spec_uint_len((uint64_t)v);
    return v >= -32 ? 1 : v >= -128 ? 2 : v >= -32768 ? 3 : v >= -2147483647 - 1 ? 5 : 9;
}
static inline uint8_t spec_int_byte(int64_t v, size_t i) {
    size_t n;
    if (v >= 0) return spec_uint_byte((uint64_t)v, i);
    n = spec_int_len(v);
    if (n == 1) return (uint8_t)v;
    if (i == 0) return n == 2 ? 0xd0 : n == 3 ? 0xd1 : n == 5 ? 0xd2 : 0xd3;
    return spec_be((uint64_t)v, n - 1, i - 1);
}
static inline uint8_t spec_f32_byte(uint32_t bits, size_t i) { return i == 0 ? 0xca : spec_be(bits, 4, i - 1); }
static inline uint8_t spec_f64_byte(uint64_t bits, size_t i) { return i == 0 ? 0xcb : spec_be(bits, 8, i - 1); }
static inline uint32_t spec_bits32(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static inline uint64_t spec_bits64(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }

static inline size_t spec_array_len(uint32_t c) { return c <= 15 ? 1 : c <= 0xffff ? 3 : 5; }
static inline uint8_t spec_array_byte(uint32_t c, size_t i) {
    if (c <= 15) return (uint8_t)(0x90 | c);
    if (c <= 0xffff) return i == 0 ? 0xdc : spec_be(c, 2, i - 1);
    return i == 0 ? 0xdd : spec_be(c, 4, i - 1);
}
static inline size_t spec_map_len(uint32_t c) { return c <= 15 ? 1 : c <= 0xffff ? 3 : 5; }
static inline uint8_t spec_map_byte(uint32_t c, size_t i) {
    if (c <= 15) return (uint8_t)(0x80 | c);
    if (c <= 0xffff) return i == 0 ? 0xde : spec_be(c, 2, i - 1);
    return i == 0 ? 0xdf : spec_be(c, 4, i - 1);
}
/* v4: the old "raw" type; no str 8 */
static inline size_t spec_str_len(bool v4, uint32_t c) { return c <= 31 ? 1 : (c <= 0xff && !v4) ? 2 : c <= 0xffff ? 3 : 5; }
static inline uint8_t spec_str_byte(bool v4, uint32_t c, size_t i) {
    switch (spec_str_len(v4, c)) {
        case 1: return (uint8_t)(0xa0 | c);
        case 2: return i == 0 ? 0xd9 : (uint8_t)c;
        case 3: return i == 0 ? 0xda : spec_be(c, 2, i - 1);
        default: return i == 0 ? 0xdb : spec_be(c, 4, i - 1);
    }
}
static inline size_t spec_bin_len(bool v4, uint32_t c) {
    return v4 ? spec_str_len(true, c) : c <= 0xff ? 2 : c <= 0xffff ? 3 : 5;
}
static inline uint8_t spec_bin_byte(bool v4, uint32_t c, size_t i) {
    if (v4) return spec_str_byte(true, c, i);
    switch (spec_bin_len(false, c)) {
        case 2: return i == 0 ? 0xc4 : (uint8_t)c;
        case 3: return i == 0 ? 0xc5 : spec_be(c, 2, i - 1);
        default: return i == 0 ? 0xc6 : spec_be(c, 4, i - 1);
    }
}
static inline bool spec_ext_fix(uint32_t c) { return c == 1 || c == 2 || c == 4 || c == 8 || c == 16; }
static inline size_t spec_ext_len(uint32_t c) { return spec_ext_fix(c) ? 2 : c <= 0xff ? 3 : c <= 0xffff ? 4 : 6; }
static inline uint8_t spec_ext_byte(int8_t type, uint32_t c, size_t i) {
    if (spec_ext_fix(c)) return i == 1 ? (uint8_t)type : c == 1 ? 0xd4 : c == 2 ? 0xd5 : c == 4 ? 0xd6 : c == 8 ? 0xd7 : 0xd8;
    switch (spec_ext_len(c)) {
        case 3: return i == 0 ? 0xc7 : i == 1 ? (uint8_t)c : (uint8_t)type;
        case 4: return i == 0 ? 0xc8 : i <= 2 ? spec_be(c, 2, i - 1) : (uint8_t)type;
        default: return i == 0 ? 0xc9 : i <= 4 ? spec_be(c, 4, i - 1) : (uint8_t)type;
    }
}
/* timestamp extension, type -1: 32, 64 or 96 bits, the shortest that fits */
static inline size_t spec_ts_len(int64_t s, uint32_t ns) {
    if (s < 0 || s > 0x3ffffffffLL) return 15;
    return (ns == 0 && s <= 0xffffffffLL) ? 6 : 10;
}
static inline uint8_t spec_ts_byte(int64_t s, uint32_t ns, size_t i) {
    switch (spec_ts_len(s, ns)) {
        case 6: return i == 0 ? 0xd6 : i == 1 ? 0xff : spec_be((uint64_t)s, 4, i - 2);
        case 10: return i == 0 ? 0xd7 : i == 1 ? 0xff : spec_be(((uint64_t)ns << 34) | (uint64_t)s, 8, i - 2);
        default: return i == 0 ? 0xc7 : i == 1 ? 12 : i == 2 ? 0xff : i < 7 ? spec_be(ns, 4, i - 3) : spec_be((uint64_t)s, 8, i - 7);
    }
}
#endif
