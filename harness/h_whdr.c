#include "w.h"
#include "contracts_writer.gen.h"
#define H0(name, N, B) void h_##name(void) { mpack_writer_t w; W_setup(&w); mpack_writer_t* writer = &w; W_need(&w, N, B); chk_mpack_##name(&w); }
H0(write_nil, 1, 0xc0)
H0(write_true, 1, 0xc3)
H0(write_false, 1, 0xc2)
#define H1(name, type, nd, N, B) void h_##name(void) { mpack_writer_t w; W_setup(&w); mpack_writer_t* writer = &w; (void)writer; \
    type value = (type)nd(); W_need(&w, N, B); chk_mpack_##name(&w, value); }
H1(write_bool, bool, nd_bool, 1, value ? 0xc3 : 0xc2)
#if MPACK_FLOAT
static float nd_float(void) { uint32_t u = nd_u32(); float f; memcpy(&f, &u, 4); return f; }
H1(write_float, float, nd_float, 5, spec_f32_byte(spec_bits32(value), G_I))
#else
H1(write_raw_float, uint32_t, nd_u32, 5, spec_f32_byte(value, G_I))
#endif
#if MPACK_DOUBLE
static double nd_double(void) { uint64_t u = nd_u64(); double f; memcpy(&f, &u, 8); return f; }
H1(write_double, double, nd_double, 9, spec_f64_byte(spec_bits64(value), G_I))
#else
H1(write_raw_double, uint64_t, nd_u64, 9, spec_f64_byte(value, G_I))
#endif
H1(start_array, uint32_t, nd_u32, spec_array_len(value), spec_array_byte(value, G_I))
H1(start_map, uint32_t, nd_u32, spec_map_len(value), spec_map_byte(value, G_I))
H1(start_str, uint32_t, nd_u32, spec_str_len(W_V4(&w), value), spec_str_byte(W_V4(&w), value, G_I))
H1(start_bin, uint32_t, nd_u32, spec_bin_len(W_V4(&w), value), spec_bin_byte(W_V4(&w), value, G_I))
#if MPACK_EXTENSIONS
void h_start_ext(void) { mpack_writer_t w; W_setup(&w); int8_t t = (int8_t)nd_u8(); uint32_t n = nd_u32();
    W_need_if(&w, !W_V4(&w), spec_ext_len(n), spec_ext_byte(t, n, G_I)); chk_mpack_start_ext(&w, t, n); }
void h_write_timestamp(void) { mpack_writer_t w; W_setup(&w); int64_t s = (int64_t)nd_u64(); uint32_t ns = nd_u32();
    W_need_if(&w, !W_V4(&w) && ns <= 999999999u, spec_ts_len(s, ns), spec_ts_byte(s, ns, G_I)); chk_mpack_write_timestamp(&w, s, ns); }
#endif
void h_write_tag(void) {
    mpack_writer_t w; W_setup(&w); mpack_tag_t t; memset(&t, 0, sizeof(t));
    #if defined(VF_MODULAR) && defined(VF_SUB)
    t.type = (mpack_type_t)(VF_SUB < 12 ? VF_SUB : nd_in(12, 0x7fffffff));
    #else
    t.type = (mpack_type_t)nd_in(0, 15);
    #endif
    if (t.type == mpack_type_bool) t.v.b = nd_bool(); else t.v.u = nd_u64();
    #if MPACK_EXTENSIONS
    t.exttype = (int8_t)nd_u8();
    #endif
    W_need_if(&w, W_tag_ok(W_V4(&w), t), W_tag_len(W_V4(&w), t), W_tag_byte(W_V4(&w), t, G_I)); chk_mpack_write_tag(&w, t);
}
void h_wflag_error(void) {
    mpack_writer_t w; memset(&w, 0, sizeof(w)); G_err_calls = 0; w.error = nd_bool() ? mpack_ok : nd_err(); if (nd_bool()) w.error_fn = vf_werror;
    vf_frame_add(&w, sizeof(w)); chk_mpack_writer_flag_error(&w, nd_err());
}
