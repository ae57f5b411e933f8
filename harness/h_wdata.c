#include "w.h"
#include "contracts_writer.gen.h"
#define MAXL 0xffffffffu
void h_object_bytes(void) { mpack_writer_t w; W_setup(&w); mpack_writer_t* writer = &w; char* p = D_setup(SIZE_MAX); size_t n = D_n; D_TRACK(G_I); W_need(&w, n, W_DATA(p, G_I)); chk_mpack_write_object_bytes(&w, p, n); }
void h_bytes(void) { mpack_writer_t w; W_setup(&w); mpack_writer_t* writer = &w; char* p = D_setup(SIZE_MAX); size_t n = D_n; D_TRACK(G_I); W_need(&w, n, W_DATA(p, G_I)); chk_mpack_write_bytes(&w, p, n); }
/* data lengths by header size: 0..31, ..2^8-1, ..2^16-1, the rest */
#if defined(VF_SUB) && defined(VF_MODULAR)
#define SUBN() VF_ASSUME(VF_SUB == 0 ? n <= 31 : VF_SUB == 1 ? n > 31 && n <= 255 : VF_SUB == 2 ? n > 255 && n <= 65535 : n > 65535)
#else
#define SUBN() ((void)0)
#endif
#define NEED(C, HL, hb) { SUBN(); size_t hl = HL; D_TRACK(G_I - hl); W_need3(&w, C, hl, hl + (size_t)n, W_SPLIT(hl, hb, W_DATA(p, G_I - hl))); }
void h_str(void) { mpack_writer_t w; W_setup(&w); mpack_writer_t* writer = &w; char* p = D_setup(MAXL); uint32_t n = (uint32_t)D_n; bool v4 = W_V4(&w);
    NEED(true, spec_str_len(v4, n), spec_str_byte(v4, n, G_I)); chk_mpack_write_str(&w, p, n); }
void h_bin(void) { mpack_writer_t w; W_setup(&w); mpack_writer_t* writer = &w; char* p = D_setup(MAXL); uint32_t n = (uint32_t)D_n; bool v4 = W_V4(&w);
    NEED(true, spec_bin_len(v4, n), spec_bin_byte(v4, n, G_I)); chk_mpack_write_bin(&w, p, n); }
#if MPACK_EXTENSIONS
void h_ext(void) { mpack_writer_t w; W_setup(&w); mpack_writer_t* writer = &w; char* p = D_setup(MAXL); uint32_t n = (uint32_t)D_n; int8_t t = (int8_t)nd_u8();
    NEED(!W_V4(&w), spec_ext_len(n), spec_ext_byte(t, n, G_I)); chk_mpack_write_ext(&w, t, p, n); }
#endif
