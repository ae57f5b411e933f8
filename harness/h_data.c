#ifndef VF_RUN
#define VF_RUN 10
#endif
#include "r.h"
#include "shdr.h"
#include "utf8.h"
#include "text.h"
#include "contracts_reader.gen.h"
#include "contracts_expect.gen.h"
#include "contracts_text.gen.h"
#include "contracts_data.gen.h"
static size_t O_n; static int8_t O_t;
#define RDR mpack_reader_t r; R_setup(&r, 0); U_set(SH, S_V); O_n = nd_in(0, 9); O_t = (int8_t)nd_u8()
#ifdef VF_NATIVE
#define KEEP(x) vf_track(x)
#else
#define KEEP(x) (x)
#endif
#define BUF(lo) size_t n = nd_in(lo, VF_BIG); char* buf = vf_obj(n)
void h_str_buf(void) { RDR; BUF(0); chk_mpack_expect_str_buf(&r, buf, n); }
void h_utf8(void) { RDR; BUF(0); chk_mpack_expect_utf8(&r, buf, n); }
void h_bin_buf(void) { RDR; BUF(0); chk_mpack_expect_bin_buf(&r, buf, n); }
void h_bin_size_buf(void) { RDR; size_t n = nd_in(0, VF_LIM(UINT32_MAX)); char* buf = vf_obj(n); chk_mpack_expect_bin_size_buf(&r, buf, (uint32_t)n); }
void h_cstr(void) { RDR; BUF(1); chk_mpack_expect_cstr(&r, buf, n); }
void h_utf8_cstr(void) { RDR; BUF(1); chk_mpack_expect_utf8_cstr(&r, buf, n); }
void h_cstr_alloc(void) { RDR; vf_oom = false; size_t n = nd_in(1, SIZE_MAX); KEEP(chk_mpack_expect_cstr_alloc(&r, n)); }
void h_utf8_cstr_alloc(void) { RDR; vf_oom = false; size_t n = nd_in(1, SIZE_MAX); KEEP(chk_mpack_expect_utf8_cstr_alloc(&r, n)); }
void h_bin_alloc(void) { RDR; vf_oom = false; size_t n = nd_u64(); KEEP(chk_mpack_expect_bin_alloc(&r, n, &O_n)); }
#if MPACK_EXTENSIONS
void h_ext_buf(void) { RDR; BUF(0); chk_mpack_expect_ext_buf(&r, &O_t, buf, n); }
void h_ext_alloc(void) { RDR; vf_oom = false; size_t n = nd_u64(); KEEP(chk_mpack_expect_ext_alloc(&r, &O_t, n, &O_n)); }
#endif
