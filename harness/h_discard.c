/* Discarding: one object, whole, in terms of the headers and payloads it consists of. */
#define VF_DISCARD 1
#include "vf.h"
static uint64_t D_need, D_pay, D_floor;
#include "all.h"
#define D_KNOWN(t) ((unsigned)(t).type >= (unsigned)mpack_type_nil && (unsigned)(t).type <= (unsigned)mpack_type_map && D_EXTOK(t))
#if MPACK_EXTENSIONS
#define D_EXTOK(t) true
#define D_ISEXT(t) ((t).type == mpack_type_ext)
#else
#define D_EXTOK(t) true
#define D_ISEXT(t) false
#endif
#define D_KIDS(t) ((t).type == mpack_type_array ? (uint64_t)(t).v.n : (t).type == mpack_type_map ? 2 * (uint64_t)(t).v.n : 0)
#define D_LEN(t) ((t).type == mpack_type_str || (t).type == mpack_type_bin || D_ISEXT(t) ? (uint64_t)(t).v.l : 0)
#define D_BUF_ALLOW(r) ((void)0)
#define D_BUF_HAVOC(r) ((void)0)
#ifdef VF_NATIVE
#undef D_BUF_ALLOW
#define D_BUF_ALLOW(r) vf_frame_allow((r), sizeof(*(r)))
#include "spec_read.h"
/* length of the object at p, 0 if it is not complete */
static size_t D_len(const char* s, size_t n) {
    const uint8_t* p = (const uint8_t*)s; size_t at = 0; uint64_t need = 1;
    while (need) {
        if (at >= n) return 0;
        uint8_t c = p[at]; size_t h = 1; uint64_t kids = 0, pay = 0;
        #define BE(k) ({ uint64_t v = 0; if (n - at < 1 + (k)) return 0; for (int i = 0; i < (k); ++i) v = v << 8 | p[at + 1 + i]; h += (k); v; })
        if (c < 0x80 || c >= 0xe0 || c == 0xc0 || c == 0xc2 || c == 0xc3) ;
        else if (c < 0x90) kids = 2 * (c & 15); else if (c < 0xa0) kids = c & 15; else if (c < 0xc0) pay = c & 31;
        else if (c == 0xc1) return 0;
        else if (c <= 0xc6) pay = BE(1 << (c - 0xc4));
        else if (c <= 0xc9) { if (!MPACK_EXTENSIONS) return 0; pay = BE(1 << (c - 0xc7)) + 1; }
        else if (c <= 0xcb) pay = 4 << (c - 0xca);
        else if (c <= 0xd3) pay = 1 << ((c - 0xcc) & 3);
        else if (c <= 0xd8) { if (!MPACK_EXTENSIONS) return 0; pay = (1 << (c - 0xd4)) + 1; }
        else if (c <= 0xdb) pay = BE(1 << (c - 0xd9));
        else if (c <= 0xdd) kids = BE(2 << (c - 0xdc)); else kids = 2 * BE(2 << (c - 0xde));
        if (n - at - h < pay) return 0;
        at += h + pay; need = need - 1 + kids;
    }
    return at;
}
#define D_ONE(e0, d0, have) ((e0) != mpack_ok ? reader->data == (d0) : reader->error == mpack_ok ? (size_t)(reader->data - (d0)) == D_len(d0, have) : D_len(d0, have) == 0)
#else
#define D_ONE(e0, d0, have) (reader->error != mpack_ok || (D_pay == 0 && D_need == need0 - 1))
#endif
#ifdef VF_MODULAR
/* (the recursive calls are replaced by the contract, this one is not: vf/loops.py) */
#define mpack_discard vf_self_mpack_discard
#endif
#include "contracts_discard.gen.h"
void h_discard(void) {
    mpack_reader_t r; vf_init(); memset(&r, 0, sizeof(r));
    #ifdef VF_NATIVE
    size_t n = nd_in(0, VF_BIG); char* p = vf_obj(n);
    for (size_t i = 0; i < n; ++i) if (nd_in(0, 2)) { uint64_t v = nd_in(0, 40); p[i] = (char)(v < 8 ? 0x91 + v % 4 : v < 12 ? 0x81 + v % 3 : v < 16 ? 0xa0 + v % 3 : v < 20 ? 0xd4 + v % 3 : v < 36 ? 0xc0 + v : v); }
    mpack_reader_init_data(&r, p, n); D_need = 1; D_pay = D_floor = 0; if (nd_in(0, 9) == 0) mpack_reader_flag_error(&r, mpack_error_io);
    #else
    static char b[1]; r.buffer = b; r.data = b; r.end = b; r.error = nd_bool() ? mpack_ok : mpack_error_io;
    D_pay = 0; D_floor = nd_in(0, VF_BIG); D_need = D_floor + 1;
    #endif
    chk_mpack_discard(&r);
}
