/* UTF-8 as the Unicode standard (table 3-7) defines it; nothing here comes from mpack. */
#ifndef VF_UTF8_H
#define VF_UTF8_H 1
/* length of the well-formed sequence at the start of the n > 0 bytes at s, or 0 */
static inline size_t spec_u8_seq(const uint8_t* s, size_t n) {
    uint8_t b = s[0], lo = 0x80, hi = 0xbf; size_t len;
    if (b <= 0x7f) return 1;
    if (b >= 0xc2 && b <= 0xdf) len = 2;
    else if (b >= 0xe0 && b <= 0xef) { len = 3; if (b == 0xe0) lo = 0xa0; if (b == 0xed) hi = 0x9f; }
    else if (b >= 0xf0 && b <= 0xf4) { len = 4; if (b == 0xf0) lo = 0x90; if (b == 0xf4) hi = 0x8f; }
    else return 0;
    if (n < len) return 0;
    if (s[1] < lo || s[1] > hi) return 0;
    if (len > 2 && (s[2] & 0xc0) != 0x80) return 0;
    if (len > 3 && (s[3] & 0xc0) != 0x80) return 0;
    return len;
}
#if defined(VF_MODULAR)
/* V[i]: the V_n bytes at V_s are valid from byte i on. The definition
 *   V[V_n] = true;  V[i] = a well-formed sequence of L bytes (not a zero byte, if refused) starts at i, and V[i + L]
 * determines V; V_unfold states it for one i. */
static uint8_t* V;
static const char* V_s; static size_t V_n; static bool V_an;
static inline void V_unfold(const void* s) {
    size_t i = (size_t)(VF_OFF(s) - VF_OFF(V_s));
    if (!VF_SAME(s, V_s) || VF_OFF(s) < VF_OFF(V_s) || i >= V_n) { VF_CHECK(0, "text-position-in-range"); __CPROVER_assume(0); }
    { size_t l = (!V_an && V_s[i] == 0) ? 0 : spec_u8_seq((const uint8_t*)V_s + i, V_n - i); __CPROVER_assume((V[i] != 0) == (l != 0 && V[i + l] != 0)); }
}
static inline void Z_unfold(const char* s) { /* the same for "no zero byte from i on" */
    size_t i = (size_t)(VF_OFF(s) - VF_OFF(V_s));
    if (!VF_SAME(s, V_s) || VF_OFF(s) < VF_OFF(V_s) || i >= V_n) { VF_CHECK(0, "text-position-in-range"); __CPROVER_assume(0); }
    __CPROVER_assume((V[i] != 0) == (V_s[i] != 0 && V[i + 1] != 0));
}
static inline void V_of(const char* s, size_t n, bool an) { V_s = s; V_n = n; V_an = an; V = (uint8_t*)malloc(n + 1); __CPROVER_assume(V != NULL); __CPROVER_assume(V[n] != 0); }
#define V_VALID(s, n, an) (V[0] != 0)
#else
static inline bool spec_u8(const uint8_t* s, size_t n, bool an) {
    while (n > 0) { size_t l = spec_u8_seq(s, n); if (l == 0 || (!an && s[0] == 0)) return false; s += l; n -= l; }
    return true;
}
#define V_of(s, n, an) ((void)0)
#define V_VALID(s, n, an) spec_u8((const uint8_t*)(s), n, an)
#endif
#endif
