#include "n.h"
#include "contracts_text.gen.h"
#include "contracts_node.gen.h"
#ifdef VF_NATIVE
#define KEEP(x) vf_track(x)
#else
#define KEEP(x) (x)
#endif
void h_u8(void) { N_setup(); chk_mpack_node_u8(N); }
void h_i8(void) { N_setup(); chk_mpack_node_i8(N); }
void h_u16(void) { N_setup(); chk_mpack_node_u16(N); }
void h_i16(void) { N_setup(); chk_mpack_node_i16(N); }
void h_u32(void) { N_setup(); chk_mpack_node_u32(N); }
void h_i32(void) { N_setup(); chk_mpack_node_i32(N); }
void h_u64(void) { N_setup(); chk_mpack_node_u64(N); }
void h_i64(void) { N_setup(); chk_mpack_node_i64(N); }
void h_uint(void) { N_setup(); chk_mpack_node_uint(N); }
void h_int(void) { N_setup(); chk_mpack_node_int(N); }
void h_bool(void) { N_setup(); chk_mpack_node_bool(N); }
void h_true(void) { N_setup(); chk_mpack_node_true(N); }
void h_false(void) { N_setup(); chk_mpack_node_false(N); }
void h_nil(void) { N_setup(); chk_mpack_node_nil(N); }
void h_missing(void) { N_setup(); chk_mpack_node_missing(N); }
void h_is_nil(void) { N_setup(); chk_mpack_node_is_nil(N); }
void h_is_missing(void) { N_setup(); chk_mpack_node_is_missing(N); }
void h_type(void) { N_setup(); chk_mpack_node_type(N); }
void h_tag(void) { N_setup(); chk_mpack_node_tag(N); }
#if MPACK_FLOAT && MPACK_DOUBLE
void h_float(void) { N_setup(); N_numbers(); chk_mpack_node_float(N); }
#endif
#if MPACK_FLOAT && MPACK_DOUBLE
void h_double(void) { N_setup(); N_numbers(); chk_mpack_node_double(N); }
#endif
#if MPACK_FLOAT && MPACK_DOUBLE
void h_float_strict(void) { N_setup(); N_numbers(); chk_mpack_node_float_strict(N); }
#endif
#if MPACK_FLOAT && MPACK_DOUBLE
void h_double_strict(void) { N_setup(); N_numbers(); chk_mpack_node_double_strict(N); }
#endif
#if !MPACK_FLOAT
void h_raw_float(void) { N_setup(); N_numbers(); chk_mpack_node_raw_float(N); }
#endif
#if !MPACK_DOUBLE
void h_raw_double(void) { N_setup(); N_numbers(); chk_mpack_node_raw_double(N); }
#endif
#if MPACK_EXTENSIONS
void h_exttype(void) { N_setup(); chk_mpack_node_exttype(N); }
#endif
void h_data_len(void) { N_setup(); chk_mpack_node_data_len(N); }
void h_strlen(void) { N_setup(); chk_mpack_node_strlen(N); }
void h_bin_size(void) { N_setup(); chk_mpack_node_bin_size(N); }
void h_str(void) { N_setup(); chk_mpack_node_str(N); }
void h_data(void) { N_setup(); chk_mpack_node_data(N); }
void h_bin_data(void) { N_setup(); chk_mpack_node_bin_data(N); }
void h_array_length(void) { N_setup(); chk_mpack_node_array_length(N); }
void h_map_count(void) { N_setup(); chk_mpack_node_map_count(N); }
void h_array_at(void) { N_setup(); size_t i = nd_in(0, VF_LIM(10)); chk_mpack_node_array_at(N, i); }
void h_map_key_at(void) { N_setup(); size_t i = nd_in(0, VF_LIM(10)); chk_mpack_node_map_key_at(N, i); }
void h_map_value_at(void) { N_setup(); size_t i = nd_in(0, VF_LIM(10)); chk_mpack_node_map_value_at(N, i); }
void h_check_utf8(void) { N_setup(); chk_mpack_node_check_utf8(N); }
void h_check_utf8_cstr(void) { N_setup(); chk_mpack_node_check_utf8_cstr(N); }
void h_copy_data(void) { N_setup(); size_t n = nd_in(0, VF_BIG); char* buf = vf_obj(n); chk_mpack_node_copy_data(N, buf, n); }
void h_copy_utf8(void) { N_setup(); size_t n = nd_in(0, VF_BIG); char* buf = vf_obj(n); chk_mpack_node_copy_utf8(N, buf, n); }
void h_copy_cstr(void) { N_setup(); size_t n = nd_in(1, VF_BIG); char* buf = vf_obj(n); chk_mpack_node_copy_cstr(N, buf, n); }
void h_copy_utf8_cstr(void) { N_setup(); size_t n = nd_in(1, VF_BIG); char* buf = vf_obj(n); chk_mpack_node_copy_utf8_cstr(N, buf, n); }
void h_data_alloc(void) { N_setup(); size_t n = nd_u64(); KEEP(chk_mpack_node_data_alloc(N, n)); }
void h_cstr_alloc(void) { N_setup(); size_t n = nd_u64(); KEEP(chk_mpack_node_cstr_alloc(N, n)); }
void h_utf8_cstr_alloc(void) { N_setup(); size_t n = nd_u64(); KEEP(chk_mpack_node_utf8_cstr_alloc(N, n)); }
#if MPACK_EXTENSIONS
void h_timestamp(void) { N_setup(); chk_mpack_node_timestamp(N); }
#endif
#if MPACK_EXTENSIONS
void h_timestamp_seconds(void) { N_setup(); chk_mpack_node_timestamp_seconds(N); }
#endif
#if MPACK_EXTENSIONS
void h_timestamp_nanoseconds(void) { N_setup(); chk_mpack_node_timestamp_nanoseconds(N); }
#endif
void h_flag_error(void) { N_setup(); chk_mpack_tree_flag_error(&N_t, nd_err()); }
