#ifndef VF_RUN
#define VF_RUN 10
#endif
#include "r.h"
#include "shdr.h"
#include "contracts_reader.gen.h"
#include "contracts_expect.gen.h"
static uint32_t O_n; static int8_t O_t;
#define RDR mpack_reader_t r; R_setup(&r, 0); S_numbers()
void h_u8(void) { RDR; chk_mpack_expect_u8(&r); }
void h_u8_range(void) { RDR; uint8_t a = (uint8_t)nd_u64(), b = (uint8_t)nd_u64(); chk_mpack_expect_u8_range(&r, a, b); }
void h_u8_max(void) { RDR; uint8_t b = (uint8_t)nd_u64(); chk_mpack_expect_u8_max(&r, b); }
void h_u16(void) { RDR; chk_mpack_expect_u16(&r); }
void h_u16_range(void) { RDR; uint16_t a = (uint16_t)nd_u64(), b = (uint16_t)nd_u64(); chk_mpack_expect_u16_range(&r, a, b); }
void h_u16_max(void) { RDR; uint16_t b = (uint16_t)nd_u64(); chk_mpack_expect_u16_max(&r, b); }
void h_u32(void) { RDR; chk_mpack_expect_u32(&r); }
void h_u32_range(void) { RDR; uint32_t a = (uint32_t)nd_u64(), b = (uint32_t)nd_u64(); chk_mpack_expect_u32_range(&r, a, b); }
void h_u32_max(void) { RDR; uint32_t b = (uint32_t)nd_u64(); chk_mpack_expect_u32_max(&r, b); }
void h_u64(void) { RDR; chk_mpack_expect_u64(&r); }
void h_u64_range(void) { RDR; uint64_t a = (uint64_t)nd_u64(), b = (uint64_t)nd_u64(); chk_mpack_expect_u64_range(&r, a, b); }
void h_u64_max(void) { RDR; uint64_t b = (uint64_t)nd_u64(); chk_mpack_expect_u64_max(&r, b); }
void h_i8(void) { RDR; chk_mpack_expect_i8(&r); }
void h_i8_range(void) { RDR; int8_t a = (int8_t)nd_u64(), b = (int8_t)nd_u64(); chk_mpack_expect_i8_range(&r, a, b); }
void h_i8_max(void) { RDR; int8_t b = (int8_t)nd_u64(); chk_mpack_expect_i8_max(&r, b); }
void h_i16(void) { RDR; chk_mpack_expect_i16(&r); }
void h_i16_range(void) { RDR; int16_t a = (int16_t)nd_u64(), b = (int16_t)nd_u64(); chk_mpack_expect_i16_range(&r, a, b); }
void h_i16_max(void) { RDR; int16_t b = (int16_t)nd_u64(); chk_mpack_expect_i16_max(&r, b); }
void h_i32(void) { RDR; chk_mpack_expect_i32(&r); }
void h_i32_range(void) { RDR; int32_t a = (int32_t)nd_u64(), b = (int32_t)nd_u64(); chk_mpack_expect_i32_range(&r, a, b); }
void h_i32_max(void) { RDR; int32_t b = (int32_t)nd_u64(); chk_mpack_expect_i32_max(&r, b); }
void h_i64(void) { RDR; chk_mpack_expect_i64(&r); }
void h_i64_range(void) { RDR; int64_t a = (int64_t)nd_u64(), b = (int64_t)nd_u64(); chk_mpack_expect_i64_range(&r, a, b); }
void h_i64_max(void) { RDR; int64_t b = (int64_t)nd_u64(); chk_mpack_expect_i64_max(&r, b); }
void h_uint(void) { RDR; chk_mpack_expect_uint(&r); }
void h_uint_range(void) { RDR; unsigned int a = (unsigned int)nd_u64(), b = (unsigned int)nd_u64(); chk_mpack_expect_uint_range(&r, a, b); }
void h_uint_max(void) { RDR; unsigned int b = (unsigned int)nd_u64(); chk_mpack_expect_uint_max(&r, b); }
void h_int(void) { RDR; chk_mpack_expect_int(&r); }
void h_int_range(void) { RDR; int a = (int)nd_u64(), b = (int)nd_u64(); chk_mpack_expect_int_range(&r, a, b); }
void h_int_max(void) { RDR; int b = (int)nd_u64(); chk_mpack_expect_int_max(&r, b); }
void h_uint_match(void) { RDR; uint64_t v = nd_u64(); chk_mpack_expect_uint_match(&r, v); }
void h_int_match(void) { RDR; int64_t v = (int64_t)nd_u64(); chk_mpack_expect_int_match(&r, v); }
#if MPACK_FLOAT && MPACK_DOUBLE
static float nd_f(void) { uint32_t u = nd_u32(); float f; memcpy(&f, &u, 4); return f; }
static double nd_d(void) { uint64_t u = nd_u64(); double f; memcpy(&f, &u, 8); return f; }
void h_float(void) { RDR; chk_mpack_expect_float(&r); }
void h_double(void) { RDR; chk_mpack_expect_double(&r); }
void h_float_strict(void) { RDR; chk_mpack_expect_float_strict(&r); }
void h_double_strict(void) { RDR; chk_mpack_expect_double_strict(&r); }
void h_float_range(void) { RDR; float a = nd_f(), b = nd_f(); chk_mpack_expect_float_range(&r, a, b); }
void h_double_range(void) { RDR; double a = nd_d(), b = nd_d(); chk_mpack_expect_double_range(&r, a, b); }
#endif
#if !MPACK_FLOAT
void h_raw_float(void) { RDR; chk_mpack_expect_raw_float(&r); }
#endif
#if !MPACK_DOUBLE
void h_raw_double(void) { RDR; chk_mpack_expect_raw_double(&r); }
#endif
void h_nil(void) { RDR; chk_mpack_expect_nil(&r); }
void h_bool(void) { RDR; chk_mpack_expect_bool(&r); }
void h_true(void) { RDR; chk_mpack_expect_true(&r); }
void h_false(void) { RDR; chk_mpack_expect_false(&r); }
static mpack_tag_t nd_tag(void) {
    mpack_tag_t t; memset(&t, 0, sizeof(t));
    t.type = (mpack_type_t)nd_in(0, mpack_type_map + 1);
    #if MPACK_EXTENSIONS
    t.exttype = (int8_t)nd_u8();
    #endif
    t.v.u = nd_u64(); if (t.type == mpack_type_bool) t.v.b = nd_bool();
    return t;
}
void h_tag(void) { RDR; mpack_tag_t t = nd_tag(); chk_mpack_expect_tag(&r, t); }
void h_map(void) { RDR; chk_mpack_expect_map(&r); }
void h_map_range(void) { RDR; uint32_t a = nd_u32(), b = nd_u32(); chk_mpack_expect_map_range(&r, a, b); }
void h_map_max(void) { RDR; uint32_t b = nd_u32(); chk_mpack_expect_map_max(&r, b); }
void h_map_match(void) { RDR; uint32_t b = nd_u32(); chk_mpack_expect_map_match(&r, b); }
void h_map_or_nil(void) { RDR; O_n = nd_u32(); chk_mpack_expect_map_or_nil(&r, &O_n); }
void h_map_max_or_nil(void) { RDR; uint32_t b = nd_u32(); O_n = nd_u32(); chk_mpack_expect_map_max_or_nil(&r, b, &O_n); }
void h_array(void) { RDR; chk_mpack_expect_array(&r); }
void h_array_range(void) { RDR; uint32_t a = nd_u32(), b = nd_u32(); chk_mpack_expect_array_range(&r, a, b); }
void h_array_max(void) { RDR; uint32_t b = nd_u32(); chk_mpack_expect_array_max(&r, b); }
void h_array_match(void) { RDR; uint32_t b = nd_u32(); chk_mpack_expect_array_match(&r, b); }
void h_array_or_nil(void) { RDR; O_n = nd_u32(); chk_mpack_expect_array_or_nil(&r, &O_n); }
void h_array_max_or_nil(void) { RDR; uint32_t b = nd_u32(); O_n = nd_u32(); chk_mpack_expect_array_max_or_nil(&r, b, &O_n); }
void h_str(void) { RDR; chk_mpack_expect_str(&r); }
void h_bin(void) { RDR; chk_mpack_expect_bin(&r); }
void h_str_max(void) { RDR; uint32_t b = nd_u32(); chk_mpack_expect_str_max(&r, b); }
void h_str_length(void) { RDR; uint32_t b = nd_u32(); chk_mpack_expect_str_length(&r, b); }
void h_bin_max(void) { RDR; uint32_t b = nd_u32(); chk_mpack_expect_bin_max(&r, b); }
void h_bin_size(void) { RDR; uint32_t b = nd_u32(); chk_mpack_expect_bin_size(&r, b); }
#if MPACK_EXTENSIONS
void h_ext(void) { RDR; O_t = (int8_t)nd_u8(); chk_mpack_expect_ext(&r, &O_t); }
void h_ext_max(void) { RDR; O_t = (int8_t)nd_u8(); uint32_t b = nd_u32(); chk_mpack_expect_ext_max(&r, &O_t, b); }
void h_ext_size(void) { RDR; O_t = (int8_t)nd_u8(); uint32_t b = nd_u32(); chk_mpack_expect_ext_size(&r, &O_t, b); }
#endif
