#define VF_WCLOSE 1
#include "g.h"
static int C_flushes, C_teardowns, C_err; static bool C_ffail, C_tfail;
static void c_flush(mpack_writer_t* w, const char* p, size_t n) {
    VF_CHECK(n == 0 || VF_R(p, n), "flush-data-readable");
    VF_CHECK(w->error == mpack_ok, "no-flush-in-error-state");
    ++C_flushes;
    if (G_k - F_len < n && (uint8_t)p[G_k - F_len] != G_b) F_ok = false;
    F_len += n;
    if (C_ffail) { if (!C_err) C_err = (int)mpack_error_io; mpack_writer_flag_error(w, mpack_error_io); }
}
static void c_teardown(mpack_writer_t* w) { ++C_teardowns; if (C_tfail) { if (!C_err) C_err = (int)mpack_error_data; mpack_writer_flag_error(w, mpack_error_data); } }
#include "contracts_grow.gen.h"
static void C_setup(mpack_writer_t* w) { G_setup(w, false); C_flushes = C_teardowns = C_err = 0; C_ffail = nd_in(0, 3) == 0; C_tfail = nd_in(0, 3) == 0;
    w->flush = nd_in(0, 3) ? c_flush : NULL; w->teardown = nd_bool() ? c_teardown : NULL; vf_frame_add(w, sizeof(*w)); }
#ifdef VF_NATIVE
#define DONE(w) vf_track((w).buffer)
#else
#define DONE(w) ((void)0)
#endif
void h_cdestroy(void) { mpack_writer_t w; C_setup(&w); vf_frame_add(w.buffer, W_USED(&w)); chk_mpack_writer_destroy(&w); DONE(w); }
void h_cflush_message(void) { mpack_writer_t w; C_setup(&w); vf_frame_add(w.buffer, W_USED(&w)); chk_mpack_writer_flush_message(&w); DONE(w); }
void h_cset_flush(void) { mpack_writer_t w; C_setup(&w); w.end = w.position + nd_in(0, W_LEFT(&w)); chk_mpack_writer_set_flush(&w, nd_bool() ? c_flush : NULL); DONE(w); }
