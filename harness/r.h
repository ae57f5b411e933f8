/* Reader: ghost state and environment */
#include "vf.h"
#ifndef VF_RUN
#define VF_RUN 1
#endif
/* The input stream is the bytes in the buffer followed by what the fill (or skip) function
 * is still to deliver. VF_RUN consecutive bytes of it are tracked: the first one is G_f
 * bytes ahead of the next byte to be delivered (modulo 2^64: delivered already); they are
 * G_b[0], G_b[1], ... Everything else the environment delivers is arbitrary. */
static uint64_t G_f; static uint8_t G_b[VF_RUN];
/* with VF_RUN > 1 the last tracked byte is not the next one but the one at distance G_gap */
static uint64_t G_gap;
#if defined(VF_MODULAR) && defined(VF_WINDOW) && VF_RUN > 1
#define R_SEEN (VF_RUN - 1)
#else
#define R_SEEN VF_RUN
#endif
/* (in window mode that byte is not modelled: nothing there is written at all) */
#define R_J(j) (VF_RUN > 1 && (j) == VF_RUN - 1 ? G_gap : (uint64_t)(j))
static bool G_bad;               /* fill or skip called in an error state */
static uint64_t G_fills;         /* fill and skip calls so far */
static int G_err_calls, G_err_seen;
static bool G_fill_fail;
#define R_BYTE_AT(p, i, n) ((i) >= (n) || (uint8_t)(p)[i] == G_b[0])
#define R_LEFT(r) ((size_t)(VF_OFF((r)->end) - VF_OFF((r)->data)))
/* for loop invariants: a reader whose data and end have moved on since the loop was entered with d and e */
#define R_LOOP(r, d, e) (VF_SAME((r)->data, d) && VF_SAME((r)->end, d) && VF_OFF((r)->data) <= VF_OFF((r)->end) \
    && ((r)->fill ? VF_OFF((r)->data) >= VF_OFF((r)->buffer) && (size_t)(VF_OFF((r)->end) - VF_OFF((r)->buffer)) <= (r)->size : VF_OFF((r)->data) >= VF_OFF(d) && VF_OFF((r)->end) <= VF_OFF(e)) \
    && ((r)->error == mpack_ok || (r)->data == (r)->end))
#ifdef VF_MODULAR
/* memmove by its contract: destination range changed, the tracked byte (at G_at before the move) arrives */
static const char* G_at;
static void* vf_memmove(void* d, const void* s, size_t n) {
    VF_CHECK(VF_RW(d, n) && VF_R(s, n), "memmove-ranges-valid");
    if (n > 0) {
        bool t = G_at != NULL && VF_SAME(G_at, s) && VF_OFF(G_at) >= VF_OFF(s) && (size_t)(VF_OFF(G_at) - VF_OFF(s)) < n;
        char b = t ? *G_at : 0; size_t k = t ? (size_t)(VF_OFF(G_at) - VF_OFF(s)) : 0;
        __CPROVER_havoc_slice(d, n);
        if (t) ((char*)d)[k] = b;
    }
    return d;
}
#define MPACK_MEMMOVE vf_memmove
#endif
#include "all.h"
#include "spec_read.h"

/* distance of the tracked bytes from the read position */
#define G_I (G_f + (uint64_t)R_LEFT(reader))

static inline mpack_error_t nd_err(void) { return (mpack_error_t)nd_in(mpack_error_io, mpack_error_eof); }
static void vf_rerror(mpack_reader_t* r, mpack_error_t e) { (void)r; ++G_err_calls; G_err_seen = (int)e; }

static size_t vf_fill(mpack_reader_t* r, char* p, size_t count) {
    size_t got;
    VF_CHECK(VF_RW(p, count), "fill-destination-writable");
    if (r->error != mpack_ok) G_bad = true;
    VF_ASSUME(G_fills != UINT64_MAX); ++G_fills;
    if (G_fill_fail) {
        if (nd_in(0, 7) == 0) { mpack_reader_flag_error(r, nd_err()); return nd_bool() ? 0 : count; }
        if (nd_in(0, 7) == 0) return nd_bool() ? 0 : (size_t)-1;
    }
    if (count == 0) return 0;
    got = nd_in(1, count);
    #ifdef VF_MODULAR
    __CPROVER_havoc_slice(p, got);
    #else
    for (size_t i = 0; i < got; ++i) p[i] = (char)nd_u8();
    #endif
    #if VF_RUN == 1
    if (G_f < got) p[G_f] = (char)G_b[0];
    #else
    for (size_t j = 0; j < VF_RUN; ++j) if (G_f + R_J(j) < got) p[G_f + R_J(j)] = (char)G_b[j];
    #endif
    G_f -= got;
    return got;
}
static void vf_skip(mpack_reader_t* r, size_t count) {
    if (r->error != mpack_ok) G_bad = true;
    VF_ASSUME(G_fills != UINT64_MAX); ++G_fills;
    if (G_fill_fail && nd_in(0, 3) == 0) { mpack_reader_flag_error(r, nd_err()); return; }
    G_f -= count;
}
/* window mode: the reader's data and buffer are two separate small objects (see W_setup) */
#if defined(VF_MODULAR) && defined(VF_WINDOW)
#define VF_WIN 1
#define VF_WINSIZE 16
typedef struct { char b[VF_WINSIZE]; } R_wint; R_wint nondet_vf_win(void);
static R_wint R_wa, R_wb;
void* vf_memcpy(void* d, const void* s, size_t n) {
    VF_CHECK(n <= 8, "memcpy.unmodelled");
    for (size_t i = 0; i < 8; ++i) if (i < n) ((char*)d)[i] = ((const char*)s)[i];
    return d;
}
#define R_MEM_HAVOC(r) if ((r)->fill) R_wb = nondet_vf_win()
#define R_IN(p, i) ((uint64_t)VF_OFF(p) + (i) < VF_WINSIZE)
#define R_WIN(p) (VF_SAME(p, R_wa.b) || VF_SAME(p, R_wb.b))
#define R_RW(p, n) (R_WIN(p) || VF_RW(p, n))
#define R_R(p, n) (R_WIN(p) || VF_R(p, n))
#else
#define R_MEM_HAVOC(r) { size_t vf_n = (r)->fill ? (r)->size : 0; if (vf_n) __CPROVER_havoc_slice((r)->buffer, vf_n); }
#define R_IN(p, i) true
#define R_RW(p, n) VF_RW(p, n)
#define R_R(p, n) VF_R(p, n)
#endif
#define R_MEM_ALLOW(r) vf_frame_allow((r)->buffer, (r)->fill ? (r)->size : 0)
static bool R_INV(const mpack_reader_t* r) {
    return (r->buffer != NULL || r->size == 0) && VF_SAME(r->data, r->end) && VF_OFF(r->data) <= VF_OFF(r->end)
        && (r->fill == NULL || (r->fill == vf_fill && r->size >= MPACK_READER_MINIMUM_BUFFER_SIZE
            #ifndef VF_WIN
            && VF_SAME(r->data, r->buffer) && VF_OFF(r->data) >= VF_OFF(r->buffer) && VF_OFF(r->end) - VF_OFF(r->buffer) <= (long long)r->size
            #endif
            ))
        && R_RW(r->buffer, r->size) && R_R(r->data, R_LEFT(r))
        && (r->skip == NULL || (r->skip == vf_skip && r->fill != NULL))
        && (r->error == mpack_ok || r->data == r->end)
        && (r->error_fn == NULL || r->error_fn == vf_rerror);
}
#ifdef VF_WIN
#define R_BASE(d) (reader->data)
#else
#define R_BASE(d) (reader->fill ? (const char*)reader->buffer : (d))
#endif
#if VF_RUN == 1
#define R_RUN_AT R_BYTE_AT
static bool R_CONS(const mpack_reader_t* reader) { return R_BYTE_AT(reader->data, G_I, R_LEFT(reader)); }
#else
static bool R_CONS(const mpack_reader_t* reader) {
    uint64_t i = G_I;
    for (size_t j = 0; j < R_SEEN; ++j) if (R_IN(reader->data, i + j) && i + R_J(j) < R_LEFT(reader) && (uint8_t)reader->data[i + R_J(j)] != G_b[j]) return false;
    return true;
}
/* those of the tracked bytes that are among the n bytes at p (the first at index i) have arrived there */
static bool R_RUN_AT_(const char* p, uint64_t i, size_t n) {
    #ifdef VF_WIN
    const size_t j0 = VF_RUN - 1; /* (G_gap may also be one of the others) */
    #else
    const size_t j0 = 0;
    #endif
    for (size_t j = j0; j < VF_RUN; ++j) if (i + R_J(j) < n && (uint8_t)p[i + R_J(j)] != G_b[j]) return false;
    return true;
}
#define R_RUN_AT(p, i, n) R_RUN_AT_(p, i, n)
#endif
/* `at` for one tracked byte anywhere */
#ifdef VF_MODULAR
#define R_ANY nd_in(0, (uint64_t)1 << 44)
#else
#define R_ANY nd_in(0, 4 * VF_BIG)
#endif
/* An arbitrary reader, the tracked bytes `at` bytes ahead of the read position. */
static void R_setup(mpack_reader_t* r, uint64_t at) {
    size_t before, left, after; char* obj;
    vf_init();
    memset(r, 0, sizeof(*r));
    before = nd_in(0, VF_BIG); left = nd_in(0, VF_BIG); after = nd_in(0, VF_BIG);
    r->error = nd_in(0, 3) ? mpack_ok : nd_err();
    if (r->error != mpack_ok) { after += left; left = 0; }
    r->error_fn = nd_bool() ? vf_rerror : NULL;
    r->fill = nd_bool() ? vf_fill : NULL;
    r->skip = r->fill && nd_bool() ? vf_skip : NULL;
#ifdef VF_WIN
    R_wa = nondet_vf_win(); R_wb = nondet_vf_win();
    r->data = R_wa.b; r->end = r->data + left;
    if (r->fill || nd_bool()) { r->buffer = R_wb.b; r->size = before + left + after; }
    VF_ASSUME(r->fill == NULL || r->size >= MPACK_READER_MINIMUM_BUFFER_SIZE);
    vf_frame_add(&R_wa, sizeof(R_wa)); vf_frame_add(&R_wb, sizeof(R_wb));
#else
    VF_ASSUME(r->fill == NULL || before + left + after >= MPACK_READER_MINIMUM_BUFFER_SIZE);
    obj = vf_obj(before + left + after);
    if (r->fill || nd_bool()) { r->buffer = obj; r->size = before + left + after; }
    r->data = obj + before; r->end = r->data + left;
    vf_frame_add(obj, before + left + after);
#endif
    G_f = at - left; G_fill_fail = nd_bool();
    #if VF_RUN > 1
    G_gap = R_ANY;
    #endif
    G_bad = false; G_err_calls = 0; G_fills = 0;
    for (size_t j = 0; j < VF_RUN; ++j) { G_b[j] = nd_u8(); if (j < R_SEEN && at + R_J(j) < left) VF_PIN(G_b[j], (uint8_t)r->data[at + R_J(j)]); }
    #if VF_RUN > 1
    if (G_gap < VF_RUN - 1) VF_PIN(G_b[VF_RUN - 1], G_b[G_gap]);
    #endif
    vf_frame_add(r, sizeof(*r));
    #ifdef VF_MODULAR
    G_at = at < left ? r->data + at : NULL;
    #endif
}
