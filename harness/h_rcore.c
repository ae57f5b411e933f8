#include "r.h"
#include "contracts_reader.gen.h"
static char* P; static size_t PN;
static char* dest(size_t n) { PN = n; P = vf_obj(n); vf_frame_add(P, n); return P; }
void h_flag_error(void) { mpack_reader_t r; R_setup(&r, R_ANY); mpack_error_t e = nd_err(); chk_mpack_reader_flag_error(&r, e); }
void h_fill_range(void) { mpack_reader_t r; R_setup(&r, R_ANY); size_t mn = nd_in(1, VF_BIG), mx = nd_in(1, 2 * VF_BIG); char* p = dest(mx); chk_mpack_fill_range(&r, p, mn, mx); }
void h_ensure_straddle(void) { mpack_reader_t r; R_setup(&r, R_ANY); size_t n = nd_in(1, 3 * VF_BIG); chk_mpack_reader_ensure_straddle(&r, n); }
void h_read_native_straddle(void) { mpack_reader_t r; R_setup(&r, R_ANY); size_t n = nd_in(0, 3 * VF_BIG); char* p = dest(n); chk_mpack_read_native_straddle(&r, p, n); }
void h_read_native(void) { mpack_reader_t r; R_setup(&r, R_ANY); size_t n = nd_in(0, 3 * VF_BIG); char* p = dest(n); chk_mpack_read_native(&r, p, n); }
void h_read_bytes(void) { mpack_reader_t r; R_setup(&r, R_ANY); size_t n = nd_in(0, 3 * VF_BIG); char* p = dest(n); chk_mpack_read_bytes(&r, p, n); }
void h_skip_using_fill(void) { mpack_reader_t r; R_setup(&r, R_ANY); size_t n = nd_in(1, 3 * VF_BIG); chk_mpack_reader_skip_using_fill(&r, n); }
void h_skip_straddle(void) { mpack_reader_t r; R_setup(&r, R_ANY); size_t n = nd_in(1, 3 * VF_BIG); chk_mpack_skip_bytes_straddle(&r, n); }
void h_skip_bytes(void) { mpack_reader_t r; R_setup(&r, R_ANY); size_t n = nd_in(0, 3 * VF_BIG); chk_mpack_skip_bytes(&r, n); }
void h_bytes_inplace(void) { mpack_reader_t r; R_setup(&r, R_ANY); size_t n = nd_in(0, 3 * VF_BIG); chk_mpack_read_bytes_inplace(&r, n); }
void h_bytes_inplace_notrack(void) { mpack_reader_t r; R_setup(&r, R_ANY); size_t n = nd_in(0, 3 * VF_BIG); chk_mpack_read_bytes_inplace_notrack(&r, n); }
