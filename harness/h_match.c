#ifdef VF_MODULAR
#define VF_RUN 1
#define VF_HFACT 1
#else
#define VF_RUN 10
#endif
#include <stdbool.h>
#include <stddef.h>
#ifndef VF_CASE
#define VF_CASE 0
#endif
static bool X_eq; static const char* X_s; static size_t X_n;
#ifdef VF_MODULAR
static char* R_fb; static size_t R_fn; static char R_nobuf; /* the buffer, if it may be refilled */
/* X_eq says that the bytes of the string in the stream are those of str: the next one of them is the next one of str */
static void X_unfold(const char* p, size_t left, const char* s) { if (X_eq && left >= 1) __CPROVER_assume(*p == *s); }
#endif
#include "r.h"
#include "shdr.h"
#ifdef VF_MODULAR
#define X_EQ(p) X_eq
#else
#define X_EQ(p) (memcmp(p, X_s, X_n) == 0)
#endif
#include "contracts_reader.gen.h"
#include "contracts_expect.gen.h"
void h_str_match(void) {
    mpack_reader_t r; R_HSETUP(&r); X_n = nd_in(0, VF_BIG); char* p = vf_obj(X_n); X_s = p; X_eq = nd_bool();
    #ifdef VF_MODULAR
    VF_ASSUME((r.fill != NULL) == VF_CASE);
    R_fb = r.fill ? r.buffer : &R_nobuf; R_fn = r.fill ? r.size : 1;
    #endif
    #ifdef VF_NATIVE
    /* mostly the right string */
    if (nd_bool() && R_LEFT(&r) >= SH + X_n) for (size_t i = 0; i < X_n; ++i) p[i] = r.data[SH + i];
    #endif
    chk_mpack_expect_str_match(&r, p, X_n);
}
void h_native_u8(void) { mpack_reader_t r; R_setup(&r, R_ANY); chk_mpack_expect_native_u8(&r); }
