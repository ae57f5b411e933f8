/* The payload: U_n bytes, the first one U_d bytes after the start of the header (or first tracked byte). Whether it is valid UTF-8
 * and free of zero bytes is an arbitrary fact U_u8, U_z about it; the checking functions answer with that
 * fact when, and only when, they are given the payload. */
static uint64_t U_n, U_d;
#ifdef VF_MODULAR
static bool U_u8, U_z;
#define VF_UGHOST 1
#define U_IS(p, n) ((n) == U_n && R_PAY(p, U_d, n))
static void U_set(uint64_t d, uint64_t n) { U_d = d; U_n = n; U_u8 = nd_bool(); U_z = nd_bool(); if (n == 0) U_u8 = U_z = true; }
#define TX_UTF8(p) (U_u8)
#define TX_CSTR(p) (U_z)
#define TX_UCSTR(p) (U_u8 && U_z)
#else
static void U_set(uint64_t d, uint64_t n) { U_d = d; U_n = n; }
static bool spec_no0(const char* s, size_t n) { for (size_t i = 0; i < n; ++i) if (s[i] == 0) return false; return true; }
#define TX_UTF8(p) spec_u8((const uint8_t*)(p), U_n, true)
#define TX_CSTR(p) spec_no0(p, U_n)
#define TX_UCSTR(p) spec_u8((const uint8_t*)(p), U_n, false)
#endif
#define P_AT(p) R_PAY(p, U_d, U_n)
