/* the built-in replacements of memcpy and friends */
#include "vf.h"
#define VF_MEM 1
static size_t M_k, M_n; static char M_b;
#define M_SGN(x) ((x) < 0 ? -1 : (x) > 0 ? 1 : 0)
#ifdef VF_MODULAR
/* C[i]: order of the bytes from i on (-1, 0, 1), defined backwards from C[n] = 0 */
static signed char* C; static const unsigned char *C_1, *C_2;
static inline void C_unfold(const unsigned char* p) {
    size_t i = (size_t)(VF_OFF(p) - VF_OFF(C_1));
    if (!VF_SAME(p, C_1) || VF_OFF(p) < VF_OFF(C_1) || i >= M_n) { VF_CHECK(0, "position-in-range"); __CPROVER_assume(0); }
    __CPROVER_assume(C[i] == (C_1[i] < C_2[i] ? -1 : C_1[i] > C_2[i] ? 1 : C[i + 1]));
}
#define M_CMP(a, b, n) C[0]
#else
static int spec_cmp(const unsigned char* a, const unsigned char* b, size_t n) { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
#define M_CMP(a, b, n) spec_cmp((const unsigned char*)(a), (const unsigned char*)(b), n)
#endif
#include "all.h"
#include "contracts_common.gen.h"
#ifdef VF_MODULAR
#define LIM VF_BIG
#else
#define LIM 20
#endif
static void k(size_t n) { vf_init(); M_n = n; M_k = nd_in(0, LIM); }
/* source and destination: separate objects, or (for memmove) anywhere in one */
static char *S, *T;
static size_t two(bool overlap) {
    size_t n = nd_in(0, LIM); k(n);
    if (overlap) {
        size_t a = nd_in(0, LIM), b = nd_in(0, LIM); size_t m = (a > b ? a : b) + n;
        char* o = vf_obj(m); S = o + a; T = o + b; vf_frame_add(o, m);
    } else {
        size_t a = nd_in(0, LIM), b = nd_in(0, LIM); char *o = vf_obj(a + n), *q = vf_obj(n + b); S = q; T = o + a;
        vf_frame_add(o, a + n); vf_frame_add(q, n + b);
    }
    M_b = M_k < n ? S[M_k] : 0; return n;
}
void h_memcpy(void) { size_t n = two(false); chk_mpack_memcpy(T, S, n); }
void h_memmove(void) { size_t n = two(true); chk_mpack_memmove(T, S, n); }
void h_memset(void) { size_t n = nd_in(0, LIM), a = nd_in(0, LIM), b = nd_in(0, LIM); k(n); char* o = vf_obj(a + n + b); vf_frame_add(o, a + n + b); chk_mpack_memset(o + a, (int)nd_u32(), n); }
void h_memcmp(void) {
    size_t n = nd_in(0, LIM); k(n); char *a = vf_obj(n), *b = vf_obj(n); vf_frame_add(a, n); vf_frame_add(b, n);
    #ifdef VF_MODULAR
    C = (signed char*)malloc(n + 1); __CPROVER_assume(C != NULL && C[n] == 0); C_1 = (const unsigned char*)a; C_2 = (const unsigned char*)b;
    #else
    if (nd_bool()) { memcpy(b, a, n); if (n && nd_bool()) b[nd_in(0, n - 1)] ^= (char)nd_u8(); }
    #endif
    chk_mpack_memcmp(a, b, n);
}
void h_strlen(void) { size_t n = nd_in(0, LIM), x = nd_in(0, LIM); k(n); char* s = vf_obj(n + 1 + x); s[n] = 0; vf_frame_add(s, n + 1 + x); chk_mpack_strlen(s); }
