#include "w.h"
#include "contracts_writer.gen.h"
#define H(name, type, nd, L, B) void h_##name(void) { mpack_writer_t w; W_setup(&w); \
    type value = (type)nd(); W_need(&w, L(value), B(value, G_I)); chk_mpack_##name(&w, value); }
H(write_u8, uint8_t, nd_u8, spec_uint_len, spec_uint_byte)
H(write_u16, uint16_t, nd_u16, spec_uint_len, spec_uint_byte)
H(write_u32, uint32_t, nd_u32, spec_uint_len, spec_uint_byte)
H(write_u64, uint64_t, nd_u64, spec_uint_len, spec_uint_byte)
H(write_i8, int8_t, nd_u8, spec_int_len, spec_int_byte)
H(write_i16, int16_t, nd_u16, spec_int_len, spec_int_byte)
H(write_i32, int32_t, nd_u32, spec_int_len, spec_int_byte)
H(write_i64, int64_t, nd_u64, spec_int_len, spec_int_byte)
void h_ensure(void) { mpack_writer_t w; W_setup(&w); size_t n = nd_in(1, 32); VF_ASSUME(n > W_LEFT(&w)); chk_mpack_writer_ensure(&w, n); }
void h_straddle(void) {
    mpack_writer_t w; W_setup(&w); size_t n = nd_in(1, VF_LIM(3 * VF_BIG)); VF_ASSUME(n > W_LEFT(&w));
    char* p = vf_obj(n); vf_frame_add(p, n);
    W_need(&w, n, p[G_I]); chk_mpack_write_native_straddle(&w, p, n);
}
void h_native(void) {
    mpack_writer_t w; W_setup(&w); size_t n = nd_in(0, VF_LIM(3 * VF_BIG));
    char* p = vf_obj(n); vf_frame_add(p, n);
    W_need(&w, n, p[G_I]); chk_mpack_write_native(&w, p, n);
}
