/* Writer: ghost state and environment */
#include "vf.h"
#include "all.h"
#include "spec_write.h"
#include "spec_tag.h"

/* The output stream is the bytes handed to flush followed by the bytes in the buffer. One of
 * its bytes (any) is tracked: it has to be G_b, and it lives, or lived, or will live at
 * buffer offset G_t in the coordinates of the current buffer contents: below the buffer
 * it was flushed already, at or beyond the position it is still to be written. */
static int64_t G_t; static uint8_t G_b;
static bool G_ok;                /* the tracked byte was right when it was flushed */
static bool G_bad;               /* flush called in an error state */
static uint64_t G_flushes;       /* flush calls so far */
static int G_err_calls; static mpack_error_t G_err_seen;
static bool G_flush_fail;        /* this environment's flush may fail */

#define W_SIZE(w) ((size_t)(VF_OFF((w)->end) - VF_OFF((w)->buffer)))
#define W_LEFT(w) ((size_t)(VF_OFF((w)->end) - VF_OFF((w)->position)))
#define W_USED(w) ((size_t)(VF_OFF((w)->position) - VF_OFF((w)->buffer)))
/* distance of the tracked byte from the write position; the next n bytes contain it iff G_I < n */
#define G_I ((uint64_t)G_t - (uint64_t)VF_OFF(writer->position))
#if MPACK_COMPATIBILITY
#define W_V4(w) ((w)->version <= mpack_version_v4)
#else
#define W_V4(w) false
#endif
#define W_SPLIT(n, head, tail) (G_I < (n) ? (uint8_t)(head) : (uint8_t)(tail))

static inline mpack_error_t nd_err(void) { return (mpack_error_t)nd_in(mpack_error_io, mpack_error_eof); }
static void vf_flush(mpack_writer_t* w, const char* data, size_t count);
static void vf_werror(mpack_writer_t* w, mpack_error_t e) { (void)w; ++G_err_calls; G_err_seen = e; }

/* Window mode. Only VF_WINSIZE bytes of the buffer object are modelled (those at the
 * position, VF_CASE 0 and 2, or at the start of the buffer, VF_CASE 1); a load or store
 * outside them is a failed obligation. Bulk copies go through vf_memcpy, which checks the
 * bounds and keeps the tracked byte, in the window or in G_out. So the contents claimed by
 * the contracts (always about the one tracked byte, which is any byte) are exact. */
#if defined(VF_MODULAR) && defined(VF_WINDOW)
#define VF_WIN 1
#define VF_WINSIZE 16
static char W_win[VF_WINSIZE];
static uint8_t G_out;
static mpack_writer_t* W_cur;
#define W_WIN W_win
typedef struct { char b[VF_WINSIZE]; } W_wint; W_wint nondet_vf_win(void); uint8_t nondet_vf_u8(void);
static void nd_window(void) { W_wint v = nondet_vf_win(); for (int i = 0; i < VF_WINSIZE; ++i) W_WIN[i] = v.b[i]; G_out = nondet_vf_u8(); }
#define W_TBYTE(w) ((uint64_t)G_t >= VF_WINSIZE ? G_out : (uint8_t)W_WIN[(uint64_t)G_t])
/* The caller's data: D_n bytes at D_p, of which the tracked one (index D_k) is D_b. */
static char* D_p; static size_t D_n, D_k; static uint8_t D_b;
#define W_SRC(s, i) (D_p != NULL && VF_SAME(s, D_p) ? ((uint64_t)VF_OFF(s) + (uint64_t)(i) == D_k ? D_b : nondet_vf_u8()) : (uint8_t)((const char*)(s))[i])
static bool W_inbuf(const void* p, size_t n) { return VF_OFF(p) >= VF_OFF(W_cur->buffer) && VF_OFF(p) <= VF_OFF(W_cur->end) && n <= (size_t)(VF_OFF(W_cur->end) - VF_OFF(p)); }
void* vf_memcpy(void* d, const void* s, size_t n) {
    if (n == 0) return d;
    VF_CHECK(VF_R(s, n), "memcpy.source");
    if (VF_SAME(d, W_win)) {
        VF_CHECK(W_inbuf(d, n), "memcpy.destination");
        W_wint v = nondet_vf_win(); uint64_t o = (uint64_t)VF_OFF(d), t = (uint64_t)G_t;
        char sv = 0; if (t - o < n) sv = (char)W_SRC(s, t - o);
        for (int i = 0; i < VF_WINSIZE; ++i) if ((uint64_t)i - o < n) W_win[i] = t == (uint64_t)i ? sv : v.b[i];
        if (t - o < n && t >= VF_WINSIZE) G_out = (uint8_t)sv;
    } else {
        VF_CHECK(n <= 8, "memcpy.unmodelled");
        for (size_t i = 0; i < 8; ++i) if (i < n) ((char*)d)[i] = ((const char*)s)[i];
    }
    return d;
}
#define W_MEM_HAVOC(w) { W_wint v = nondet_vf_win(); for (int i = 0; i < VF_WINSIZE; ++i) if ((uint64_t)i - (uint64_t)VF_OFF((w)->buffer) < W_SIZE(w)) W_win[i] = v.b[i]; G_out = nondet_vf_u8(); }
#define W_FORGET() (G_out = nondet_vf_u8())
/* byte i of caller data, where used in a contract */
#define W_DATA(p, i) W_SRC(p, i)
#else
static char* D_p; static size_t D_n;
#define W_DATA(p, i) (p)[i]
#define W_TBYTE(w) ((uint8_t)(w)->buffer[G_t - VF_OFF((w)->buffer)])
#define W_MEM_HAVOC(w) { size_t vf_n = W_SIZE(w); if (vf_n) __CPROVER_havoc_slice((w)->buffer, vf_n); }
#define W_FORGET() ((void)0)
#endif
#define W_MEM_ALLOW(w) vf_frame_allow((w)->buffer, W_SIZE(w))
#define W_GH_ALLOW(w) ((void)0)
#define W_GH_HAVOC(w) W_FORGET()

/* The environment's flush: takes the bytes, may fail with any error. */
static void vf_flush(mpack_writer_t* w, const char* data, size_t count) {
    uint64_t i = (uint64_t)G_t - (uint64_t)VF_OFF(w->buffer); uint8_t b = 0; /* these are bytes 0..count-1 beyond what was flushed before */
    #ifdef VF_WIN
    if (VF_SAME(data, W_win)) {
        VF_CHECK(W_inbuf(data, count), "flush-data-readable");
        uint64_t t = (uint64_t)VF_OFF(data) + i;
        if (i < count) b = t < VF_WINSIZE ? (uint8_t)W_win[t] : t == (uint64_t)G_t ? G_out : nondet_vf_u8();
    } else
    #endif
    {
        VF_CHECK(VF_R(data, count), "flush-data-readable");
        if (i < count) b = W_DATA(data, i);
    }
    if (i < count && b != G_b) G_ok = false;
    if (w->error != mpack_ok) G_bad = true;
    ++G_flushes; G_t = (int64_t)((uint64_t)G_t - count);
    W_FORGET();
    if (G_flush_fail && nd_bool()) mpack_writer_flag_error(w, nd_err());
}

static bool W_INV(const mpack_writer_t* w) {
    return w->buffer != NULL && VF_SAME(w->buffer, w->position) && VF_SAME(w->buffer, w->end)
        && VF_OFF(w->buffer) <= VF_OFF(w->position) && VF_OFF(w->position) <= VF_OFF(w->end)
        #ifndef VF_WIN
        && VF_RW(w->buffer, W_SIZE(w))
        #endif
        && (w->flush == NULL || (w->flush == vf_flush && W_SIZE(w) >= MPACK_WRITER_MINIMUM_BUFFER_SIZE))
        && (w->error_fn == NULL || w->error_fn == vf_werror)
        #if MPACK_BUILDER
        && w->builder.current_build == NULL
        #endif
        ;
}
static bool W_CONS(const mpack_writer_t* w) {
    return G_ok && !(G_t >= VF_OFF(w->buffer) && G_t < VF_OFF(w->position) && W_TBYTE(w) != G_b);
}

/* An arbitrary writer. Outside window mode the buffer lies inside a larger object (the
 * bytes around it belong to somebody else and are covered by the frame check). */
static void W_setup(mpack_writer_t* w) {
    size_t used, left, pre; char* obj;
    memset(w, 0, sizeof(*w));
    used = nd_in(0, VF_BIG); left = nd_in(0, VF_BIG);
#ifdef VF_WIN
    obj = W_WIN; nd_window(); W_cur = w; (void)pre;
    #if VF_CASE != 1
    w->position = obj; w->buffer = obj - used; w->end = obj + left;
    #else
    w->buffer = obj; w->position = obj + used; w->end = w->position + left;
    #endif
#else
    #ifdef VF_MODULAR
    pre = 0;
    #else
    pre = nd_in(0, VF_LIM(2));
    #endif
    obj = vf_obj(pre + used + left);
    w->buffer = obj + pre; w->position = w->buffer + used; w->end = w->position + left;
#endif
    #if MPACK_COMPATIBILITY
    w->version = nd_bool() ? mpack_version_v5 : mpack_version_v4;
    #endif
    w->error = nd_bool() ? mpack_ok : nd_err();
    w->error_fn = nd_bool() ? vf_werror : NULL;
    w->flush = nd_bool() ? vf_flush : NULL;
    VF_ASSUME(w->flush == NULL || used + left >= MPACK_WRITER_MINIMUM_BUFFER_SIZE);
    G_flush_fail = nd_bool();
    #ifdef VF_MODULAR
    G_t = (int64_t)nd_u64(); VF_ASSUME(G_t >= -(int64_t)(1ll << 44) && G_t <= (int64_t)(1ll << 44));
    #else
    G_t = VF_OFF(w->buffer) - 4 + (int64_t)nd_in(0, used + 3 * VF_BIG);
    #endif
    G_b = nd_u8(); G_ok = true; G_bad = false; G_err_calls = 0; G_flushes = 0;
    if (G_t >= VF_OFF(w->buffer) && G_t < VF_OFF(w->position)) VF_PIN(G_b, W_TBYTE(w));
    #ifdef VF_WIN
    vf_frame_add(obj, VF_WINSIZE);
    #else
    vf_frame_add(obj, (size_t)(w->end - obj));
    #endif
    vf_frame_add(w, sizeof(*w));
}
/* `need` bytes will be written, the tracked one of which is `byte` (an expression in G_I).
 * The cases cover everything: 0 all fits, 1 not even the first `first` bytes fit, 2 in between. */
#define W_need(w, need, byte) W_need3(w, true, need, need, byte)
#define W_need_if(w, c, need, byte) W_need3(w, c, need, need, byte)
#define W_need3(w, c, first, need, byte) do { \
    mpack_writer_t* writer = (w); \
    if ((c) && G_I < (need)) VF_PIN(G_b, (uint8_t)(byte)); \
    W_case(W_LEFT(writer) >= (need), W_LEFT(writer) >= (first)); \
} while (0)
#if defined(VF_WIN) && VF_CASE == 0
#define VF_FITS 1   /* everything fits: the slow path must not be entered at all */
#else
#define VF_FITS 0
#endif
/* the caller's data, up to max bytes; its tracked byte is the one that becomes the tracked byte of the stream */
static char* D_setup(size_t max) {
    D_n = nd_in(0, max < VF_LIM(3 * VF_BIG) ? max : VF_LIM(3 * VF_BIG));
    D_p = vf_obj(D_n);
    #ifdef VF_WIN
    D_k = nondet_vf_size(); D_b = nondet_vf_u8();
    #endif
    return D_p;
}
#if defined(VF_WIN)
#define D_TRACK(i) VF_ASSUME(D_k == (uint64_t)(i))
#else
#define D_TRACK(i) ((void)0)
#endif
#if defined(VF_WIN)
#define W_case(fits, first) VF_ASSUME(VF_CASE == 0 ? (fits) : VF_CASE == 1 ? !(first) : (!(fits) && (first)))
#else
#define W_case(fits, first) ((void)0)
#endif
