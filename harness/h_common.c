#include "vf.h"
#define VF_U8 1
#include "utf8.h"
#include "all.h"
#ifdef VF_MODULAR
#define N_VALID(s, n) (V[0] != 0)
#else
static bool spec_no0(const char* s, size_t n) { for (size_t i = 0; i < n; ++i) if (s[i] == 0) return false; return true; }
#define N_VALID(s, n) spec_no0(s, n)
#endif
#include "contracts_common.gen.h"
static char* text(size_t* n) {
    char* p; vf_init(); *n = nd_in(0, VF_LIM(12)); p = vf_obj(*n);
    #ifdef VF_NATIVE
    /* mostly well-formed text, so that the search gets past the first bytes */
    for (size_t i = 0; i < *n; ) {
        static const char* ex[] = {"a", "\0", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xed\x9f\xbf", "\xee\x80\x80", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf", "\x7f"};
        uint64_t k = nd_in(0, 13); if (k > 10) { ++i; continue; }
        size_t l = k == 1 ? 1 : strlen(ex[k]); for (size_t j = 0; j < l && i < *n; ++j) p[i++] = ex[k][j];
    }
    #endif
    vf_frame_add(p, *n); return p;
}
void h_utf8(void) { size_t n; char* p = text(&n); V_of(p, n, true); chk_mpack_utf8_check(p, n); }
void h_utf8_no_null(void) { size_t n; char* p = text(&n); V_of(p, n, false); chk_mpack_utf8_check_no_null(p, n); }
void h_no_null(void) { size_t n; char* p = text(&n); V_of(p, n, false); chk_mpack_str_check_no_null(p, n); }
