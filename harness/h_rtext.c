#include "r.h"
#include "utf8.h"
/* The payload of U_n bytes starts U_i before the tracked byte. */
static uint64_t U_n, U_i;
#ifdef VF_MODULAR
static bool U_u8, U_z;
#define VF_UGHOST 1
#define U_IS(p, n) ((n) == U_n && R_RUN_AT(p, U_i, n))
#define RX_UTF8(p) (U_u8)
#define RX_CSTR(p) (U_z)
#define RX_UCSTR(p) (U_u8 && U_z)
#define U_PIN(n) do { U_n = (n); U_i = R_dist; U_u8 = nd_bool(); U_z = nd_bool(); if (U_n == 0) U_u8 = U_z = true; } while (0)
#else
static bool spec_no0(const char* s, size_t n) { for (size_t i = 0; i < n; ++i) if (s[i] == 0) return false; return true; }
#define RX_UTF8(p) spec_u8((const uint8_t*)(p), U_n, true)
#define RX_CSTR(p) spec_no0(p, U_n)
#define RX_UCSTR(p) spec_u8((const uint8_t*)(p), U_n, false)
#define U_PIN(n) do { U_n = (n); U_i = R_dist; } while (0)
#endif
static uint64_t TS_be(const char* p, int n) { uint64_t v = 0; for (int j = 0; j < n; ++j) v = (v << 8) | (uint8_t)p[j]; return v; }
#define TS_LEN(n) ((n) == 4 || (n) == 8 || (n) == 12)
#define TS_OK(p, n) (((n) == 8 ? TS_be(p, 8) >> 34 : (n) == 12 ? TS_be(p, 4) : 0) <= 999999999)
/* the timestamp carries the tracked byte (at index i of the n bytes) where the format puts it */
static bool TS_HAS(mpack_timestamp_t t, size_t n, uint64_t i) {
    uint64_t sec = (uint64_t)t.seconds, nsec = t.nanoseconds;
    if (n == 4) return nsec == 0 && sec <= UINT32_MAX && (i >= 4 || (uint8_t)(sec >> (8 * (3 - i))) == G_b[0]);
    if (n == 8) return sec >> 34 == 0 && (i >= 8 || (uint8_t)((nsec << 34 | sec) >> (8 * (7 - i))) == G_b[0]);
    return i >= 12 || (i < 4 ? (uint8_t)(nsec >> (8 * (3 - i))) : (uint8_t)(sec >> (8 * (11 - i)))) == G_b[0];
}
#undef R_AT0
#define R_AT0 true
#include "contracts_text.gen.h"
#include "contracts_reader.gen.h"
#include "contracts_rtext.gen.h"
#ifdef VF_NATIVE
#define KEEP(x) vf_track(x)
#else
#define KEEP(x) (x)
#endif
#define RDR mpack_reader_t r; uint64_t R_dist = R_ANY; size_t n = nd_in(0, VF_BIG); R_setup(&r, R_dist); U_PIN(n); R_text(&r, n)
static void R_text(mpack_reader_t* r, size_t n) {
    (void)r; (void)n;
    #ifdef VF_NATIVE
    if (nd_bool() && r->buffer) for (size_t i = 0; i < n && i < R_LEFT(r); ++i) { size_t k = (size_t)(r->data - r->buffer) + i; r->buffer[k] = (char)('a' + i % 26); }
    if (R_CONS(r)) return;
    G_b[0] = (uint8_t)r->data[G_f + R_LEFT(r)];
    #endif
}
void h_read_utf8(void) { RDR; char* p = vf_obj(n); chk_mpack_read_utf8(&r, p, n); }
void h_read_cstr(void) { RDR; size_t s = nd_in(1, VF_BIG); char* p = vf_obj(s); chk_mpack_read_cstr(&r, p, s, n); }
void h_read_utf8_cstr(void) { RDR; size_t s = nd_in(1, VF_BIG); char* p = vf_obj(s); chk_mpack_read_utf8_cstr(&r, p, s, n); }
void h_bytes_alloc(void) { RDR; vf_oom = false; bool z = nd_bool(); KEEP(chk_mpack_read_bytes_alloc_impl(&r, n, z)); }
void h_utf8_inplace(void) { RDR; chk_mpack_read_utf8_inplace(&r, n); }
#if MPACK_EXTENSIONS
void h_timestamp(void) { mpack_reader_t r; size_t n = nd_in(0, 5) ? (size_t)4 * nd_in(1, 3) : nd_u64(); R_setup(&r, nd_in(0, 15));
    #ifdef VF_NATIVE
    if (nd_bool() && r.buffer && R_LEFT(&r) >= 12) { char* q = r.buffer + (r.data - r.buffer); if (n == 12) q[0] = 1; if (n == 8) q[0] = 9; if (G_f + R_LEFT(&r) == 0) G_b[0] = (uint8_t)q[0]; }
    #endif
    chk_mpack_read_timestamp(&r, n); }
#endif
