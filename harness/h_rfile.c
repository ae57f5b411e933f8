/* Reading files. The environment's file holds F_flen bytes, byte G_k (any) of which is G_b. */
#define VF_RFILE 1
#include "vf.h"
#include <stdio.h>
#include <errno.h>
#undef errno
static int F_errno;
#define errno F_errno
static uint64_t G_k; static uint8_t G_b;
static uint64_t F_pos, F_flen; static bool F_eof, F_ferr, F_flaky, F_seekable;
static int F_opens, F_closes; static bool F_close_fails, F_null; static char F_obj;
#define F_FILE ((FILE*)(void*)&F_obj)
static void f_content(char* p, size_t n) {
#ifdef VF_MODULAR
    if (n) __CPROVER_havoc_slice(p, n);
    if (G_k - F_pos < n) p[G_k - F_pos] = (char)G_b;
#else
    for (size_t i = 0; i < n; ++i) p[i] = F_pos + i == G_k ? (char)G_b : (char)(i * 31 + 7);
#endif
}
static size_t f_fread(void* p, size_t size, size_t n, FILE* f) {
    VF_CHECK(f == F_FILE && F_closes == 0, "fread-file");
    VF_CHECK(size == 1, "fread-size");
    VF_CHECK(n == 0 || VF_RW(p, n), "fread-destination-writable");
    uint64_t left = F_pos < F_flen ? F_flen - F_pos : 0; size_t got = n < left ? n : (size_t)left;
    if (F_flaky) { size_t g = nd_in(0, VF_BIG); if (g < got) { got = g; F_ferr = true; } }
    if (got < n && !F_ferr) F_eof = true;
    f_content((char*)p, got); F_pos += got;
    return got;
}
static int f_fseek(FILE* f, long off, int whence) {
    VF_CHECK(f == F_FILE && F_closes == 0, "fseek-file");
    if (!F_seekable) { errno = ESPIPE; if (F_flaky && nd_bool()) F_ferr = true; return -1; }
    if (whence == SEEK_CUR && off < 0 && (uint64_t)-off > F_pos) { errno = EINVAL; return -1; }
    F_pos = whence == SEEK_END ? F_flen + (uint64_t)off : whence == SEEK_SET ? (uint64_t)off : F_pos + (uint64_t)off; F_eof = false;
    return 0;
}
static long f_ftell(FILE* f) { VF_CHECK(f == F_FILE && F_closes == 0, "ftell-file"); if (!F_seekable) { errno = ESPIPE; return -1; } return (long)F_pos; }
static int f_fclose(FILE* f) { VF_CHECK(f == F_FILE && F_closes == 0, "fclose-file"); ++F_closes; return F_close_fails ? EOF : 0; }
static FILE* f_fopen(const char* name, const char* mode) { VF_CHECK(mode[0] == 'r' && mode[1] == 'b', "fopen-mode"); (void)name; ++F_opens; return F_null ? NULL : F_FILE; }
#define fread f_fread
#define fseek f_fseek
#define ftell f_ftell
#define feof(f) (F_eof)
#define ferror(f) (F_ferr)
#define fclose f_fclose
#define fopen f_fopen
#define L_LEFT(r) ((uint64_t)(VF_OFF((r)->end) - VF_OFF((r)->data)))
#define L_AT(p, pos, n) (!(G_k - (uint64_t)(pos) < (uint64_t)(n)) || (uint8_t)((const char*)(p))[G_k - (uint64_t)(pos)] == G_b)
#define L_OWNED(r) ((r)->buffer != NULL && VF_RW((r)->buffer, (r)->size) && (r)->context == F_FILE && F_closes == 0)
#include "all.h"
static int G_err_calls, G_err_seen;
static void vf_rerror(mpack_reader_t* r, mpack_error_t e) { (void)r; ++G_err_calls; G_err_seen = (int)e; }
static inline mpack_error_t nd_err(void) { return (mpack_error_t)nd_in(mpack_error_io, mpack_error_eof); }
static void L_common(void) {
    vf_init(); G_err_calls = 0; G_err_seen = 0; vf_oom = false; vf_live = 0;
    F_flen = nd_in(0, VF_BIG); F_pos = nd_in(0, F_flen); F_eof = nd_bool() && F_pos == F_flen; F_ferr = false; F_flaky = nd_bool(); F_seekable = nd_bool();
    F_opens = F_closes = 0; F_close_fails = nd_bool(); F_null = nd_bool();
    #ifdef VF_MODULAR
    G_k = nd_u64();
    #else
    G_k = nd_in(0, 2 * VF_BIG);
    #endif
    G_b = nd_u8();
}
static void L_reader(mpack_reader_t* r) {
    L_common(); memset(r, 0, sizeof(*r));
    size_t n = nd_in(MPACK_READER_MINIMUM_BUFFER_SIZE, VF_BIG), e = nd_in(0, n), d = nd_in(0, e);
    #ifdef VF_NATIVE
    r->buffer = (char*)malloc(n);
    #else
    r->buffer = vf_obj(n);
    #endif
    ++vf_live; r->size = n; r->data = r->buffer + d; r->end = r->buffer + e;
    r->fill = mpack_file_reader_fill; r->skip = mpack_file_reader_skip; r->context = F_FILE; r->error_fn = nd_bool() ? vf_rerror : NULL;
    r->teardown = nd_bool() ? mpack_file_reader_teardown_close : mpack_file_reader_teardown;
}
#include "contracts_rfile.gen.h"
#ifdef VF_NATIVE
#define DONE(p) vf_track(p)
#else
#define DONE(p) ((void)0)
#endif
void h_lfill(void) {
    mpack_reader_t r; L_reader(&r); size_t n = nd_in(1, VF_BIG); char* p = vf_obj(n); vf_frame_add(&r, sizeof(r)); vf_frame_add(p, n);
    chk_mpack_file_reader_fill(&r, p, n); DONE(r.buffer);
}
void h_lskip(void) {
    mpack_reader_t r; L_reader(&r); r.data = r.end; vf_frame_add(&r, sizeof(r)); vf_frame_add(r.buffer, r.size);
    chk_mpack_file_reader_skip(&r, nd_in(1, VF_BIG)); DONE(r.buffer);
}
void h_ldestroy(void) { mpack_reader_t r; L_reader(&r); r.error = nd_bool() ? mpack_ok : nd_err(); vf_frame_add(&r, sizeof(r)); chk_mpack_reader_destroy(&r); }
void h_linit(void) { mpack_reader_t r; L_common(); chk_mpack_reader_init_stdfile(&r, F_FILE, nd_bool()); DONE(r.buffer); }
void h_linit_name(void) { mpack_reader_t r; L_common(); chk_mpack_reader_init_filename(&r, "x"); DONE(r.buffer); }
static void L_treefree(mpack_tree_t* t) {
#ifdef VF_NATIVE
    if (t->error == mpack_ok && t->context) { vf_track((void*)(uintptr_t)t->data); vf_track(t->context); }
#else
    (void)t;
#endif
}
void h_ltree(void) { mpack_tree_t t; L_common(); chk_mpack_tree_init_stdfile(&t, F_FILE, nd_in(0, VF_BIG), nd_bool()); L_treefree(&t); }
void h_ltree_name(void) { mpack_tree_t t; L_common(); chk_mpack_tree_init_filename(&t, "x", nd_in(0, VF_BIG)); L_treefree(&t); }
void h_ltree_destroy(void) {
    mpack_tree_t t; L_common(); memset(&t, 0, sizeof(t));
    size_t n = nd_in(1, VF_BIG); mpack_file_tree_t* ft;
    #ifdef VF_NATIVE
    ft = (mpack_file_tree_t*)malloc(sizeof(*ft)); ft->data = (char*)malloc(n);
    #else
    ft = (mpack_file_tree_t*)vf_obj(sizeof(*ft)); ft->data = vf_obj(n);
    #endif
    vf_live = 2; ft->size = n; mpack_tree_init_data(&t, ft->data, n); mpack_tree_set_context(&t, ft); mpack_tree_set_teardown(&t, mpack_file_tree_teardown);
    t.error = nd_bool() ? mpack_ok : nd_err();
    chk_mpack_tree_destroy(&t);
}
