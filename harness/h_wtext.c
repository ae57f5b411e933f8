#include <stddef.h>
#include <stdbool.h>
#if defined(VF_MODULAR)
static size_t vf_strlen(const char* s);
#define MPACK_STRLEN vf_strlen
#endif
#include "w.h"
#include "utf8.h"
#ifdef VF_MODULAR
/* strlen by its specification: the caller's string has D_n bytes before its terminator */
static size_t vf_strlen(const char* s) { VF_CHECK(s == D_p, "strlen-of-the-given-string"); return D_n; }
static bool U_u8;
#define VF_UGHOST 1
#define U_z false
#define U_IS(p, n) ((p) == D_p && (n) == D_n)
#define TX_UTF8 U_u8
#else
#define TX_UTF8 spec_u8((const uint8_t*)D_p, D_n, true)
#endif
#include "contracts_text.gen.h"
#include "contracts_writer.gen.h"
#include "contracts_wtext.gen.h"
static void T_setup(bool c, size_t max) {
    D_n = nd_in(0, max < VF_LIM(3 * VF_BIG) ? max : VF_LIM(3 * VF_BIG)); D_p = vf_obj(D_n + 1);
    #ifdef VF_WIN
    D_k = nondet_vf_size(); D_b = nondet_vf_u8();
    #endif
    #ifdef VF_MODULAR
    U_u8 = D_n == 0 || nd_bool();
    #else
    if (nd_bool()) for (size_t i = 0; i < D_n; ++i) D_p[i] = (char)('a' + i % 26);
    if (c) { D_p[D_n] = 0; D_n = strlen(D_p); }
    #endif
    (void)c;
}
#define WTR(c, max) mpack_writer_t w; W_setup(&w); mpack_writer_t* writer = &w; (void)writer; T_setup(c, max)
#define TRK(C, P) { bool v4 = W_V4(&w); size_t hl = spec_str_len(v4, (uint32_t)D_n); D_TRACK(G_I - hl); size_t n = (P) ? hl + D_n : 1; \
    if ((C) && G_I < n) VF_PIN(G_b, (uint8_t)((P) ? W_SPLIT(hl, spec_str_byte(v4, (uint32_t)D_n, G_I), W_DATA(D_p, G_I - hl)) : 0xc0)); }
void h_utf8(void) { WTR(false, 0xffffffffu); TRK(TX_UTF8, true); chk_mpack_write_utf8(&w, D_p, (uint32_t)D_n); }
void h_cstr(void) { WTR(true, SIZE_MAX); TRK(D_n <= UINT32_MAX, true); chk_mpack_write_cstr(&w, D_p); }
void h_cstr_or_nil(void) { WTR(true, SIZE_MAX); char* p = nd_bool() ? D_p : NULL; TRK(!p || D_n <= UINT32_MAX, p); chk_mpack_write_cstr_or_nil(&w, p); }
void h_utf8_cstr(void) { WTR(true, SIZE_MAX); TRK(D_n <= UINT32_MAX && TX_UTF8, true); chk_mpack_write_utf8_cstr(&w, D_p); }
void h_utf8_cstr_or_nil(void) { WTR(true, SIZE_MAX); char* p = nd_bool() ? D_p : NULL; TRK(!p || (D_n <= UINT32_MAX && TX_UTF8), p); chk_mpack_write_utf8_cstr_or_nil(&w, p); }
