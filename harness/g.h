/* Growable and file writers, closing a writer. Tracked: byte G_k (any) of the output is G_b. */
#include "vf.h"
#include <stdio.h>
static uint64_t G_k; static uint8_t G_b;
#ifdef VF_MODULAR
/* memcpy and realloc by their contracts, for the tracked byte */
static const void* G_src; static uint64_t G_srck;   /* the caller's data, and which byte of it is the tracked one */
static void* g_memcpy(void* d, const void* s, size_t n) {
    if (n == 0) return d;
    VF_CHECK(VF_RW(d, n) && VF_R(s, n), "memcpy-ranges-valid");
    uint64_t k = VF_SAME(s, G_src) ? G_srck - (uint64_t)VF_OFF(s) : G_k - (uint64_t)VF_OFF(s);
    bool t = k < n; char b = t ? ((const char*)s)[k] : 0;
    __CPROVER_havoc_slice(d, n);
    if (t) ((char*)d)[k] = b;
    return d;
}
#define MPACK_MEMCPY g_memcpy
static void* g_realloc(void* p, size_t n) {
    char* q; size_t m;
    if (p == NULL) return vf_malloc(n);
    q = (char*)vf_malloc(n);
    if (q == NULL) return NULL;
    m = __CPROVER_OBJECT_SIZE(p); if (m > n) m = n;
    if (G_k < m) q[G_k] = ((char*)p)[G_k];
    vf_free(p);
    return q;
}
#define vf_realloc g_realloc
#endif
/* the environment's file */
static uint64_t F_len;           /* bytes written to (or read from) the file so far */
static bool F_ok;                /* the tracked byte of the file is right */
static bool F_short;             /* a write came up short */
static int F_opens, F_closes; static bool F_close_fails, F_null; static char F_obj;
static bool F_fail;
#define F_FILE ((FILE*)(void*)&F_obj)
static size_t f_fwrite(const void* p, size_t size, size_t n, FILE* f) {
    VF_CHECK(f == F_FILE && F_closes == 0, "fwrite-file");
    VF_CHECK(size == 1, "fwrite-size");
    VF_CHECK(n == 0 || VF_R(p, n), "fwrite-data-readable");
    if (F_fail && n > 0 && nd_bool()) { F_short = true; n = nd_in(0, n - 1); }
    if (G_k - F_len < n && ((const uint8_t*)p)[G_k - F_len] != G_b) F_ok = false;
    F_len += n;
    return n;
}
static int f_fclose(FILE* f) { VF_CHECK(f == F_FILE && F_closes == 0, "fclose-file"); ++F_closes; return F_close_fails ? EOF : 0; }
static FILE* f_fopen(const char* name, const char* mode) { (void)name; (void)mode; ++F_opens; return F_null ? NULL : F_FILE; }
#define fwrite f_fwrite
#define fclose f_fclose
#define fopen f_fopen
#include "all.h"
static int G_err_calls, G_err_seen;
static void vf_werror(mpack_writer_t* w, mpack_error_t e) { (void)w; ++G_err_calls; G_err_seen = (int)e; }
static inline mpack_error_t nd_err(void) { return (mpack_error_t)nd_in(mpack_error_io, mpack_error_eof); }
#define W_SIZE(w) ((size_t)(VF_OFF((w)->end) - VF_OFF((w)->buffer)))
#define W_LEFT(w) ((size_t)(VF_OFF((w)->end) - VF_OFF((w)->position)))
#define W_USED(w) ((size_t)(VF_OFF((w)->position) - VF_OFF((w)->buffer)))
static bool G_INV(const mpack_writer_t* w) {
    return w->buffer != NULL && VF_SAME(w->buffer, w->position) && VF_SAME(w->buffer, w->end)
        && VF_OFF(w->buffer) <= VF_OFF(w->position) && VF_OFF(w->position) <= VF_OFF(w->end)
        && VF_RW(w->buffer, W_SIZE(w)) && W_SIZE(w) >= MPACK_WRITER_MINIMUM_BUFFER_SIZE
        && (w->error_fn == NULL || w->error_fn == vf_werror)
        #if MPACK_BUILDER
        && w->builder.current_build == NULL
        #endif
        ;
}
/* the tracked byte, if already written, is in the buffer */
static bool G_CONS(const mpack_writer_t* w) { return !(G_k < W_USED(w)) || (uint8_t)w->buffer[G_k] == G_b; }
static char* G_data; static size_t G_dsize;      /* where the growable writer delivers */
static void G_common(mpack_writer_t* w) {
    vf_init(); memset(w, 0, sizeof(*w));
    G_err_calls = 0; G_err_seen = 0; vf_oom = false; vf_live = 0; G_data = NULL; G_dsize = 0;
    F_len = 0; F_ok = true; F_short = false; F_opens = F_closes = 0; F_close_fails = nd_in(0, 3) == 0; F_null = nd_in(0, 3) == 0; F_fail = nd_bool();
    #ifdef VF_MODULAR
    G_src = NULL; G_k = nd_u64();
    #else
    G_k = nd_in(0, 3 * VF_BIG);
    #endif
    G_b = nd_u8();
}
/* a writer with an allocated buffer; GROW: set up as mpack_writer_init_growable() does */
static void G_setup(mpack_writer_t* w, bool grow) {
    G_common(w);
    size_t used = nd_in(0, VF_BIG), left = nd_in(0, VF_BIG); char* obj;
    VF_ASSUME(used + left >= MPACK_WRITER_MINIMUM_BUFFER_SIZE);
    #ifdef VF_NATIVE
    obj = (char*)malloc(used + left); for (size_t i = 0; i < used + left; ++i) obj[i] = (char)(i * 7);
    #else
    obj = vf_obj(used + left);
    #endif
    ++vf_live;
    w->buffer = obj; w->position = obj + used; w->end = obj + used + left;
    w->error = nd_in(0, 3) ? mpack_ok : nd_err(); w->error_fn = nd_bool() ? vf_werror : NULL;
    if (grow) {
        mpack_growable_writer_t* g = (mpack_growable_writer_t*)mpack_writer_get_reserved(w);
        g->target_data = &G_data; g->target_size = &G_dsize;
        w->flush = mpack_growable_writer_flush; w->teardown = mpack_growable_writer_teardown;
    }
    if (G_k < used) VF_PIN(G_b, (uint8_t)obj[G_k]);
}
