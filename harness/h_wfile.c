#define VF_WFILE 1
#include "g.h"
#include "contracts_grow.gen.h"
static void Fw_setup(mpack_writer_t* w) { G_setup(w, false); w->context = F_FILE; w->flush = mpack_file_writer_flush; w->teardown = nd_bool() ? mpack_file_writer_teardown_close : mpack_file_writer_teardown;
    F_len = nd_in(0, VF_BIG); vf_frame_add(w, sizeof(*w)); }
void h_fflush(void) {
    mpack_writer_t w; Fw_setup(&w); size_t n = nd_in(0, VF_BIG); char* d = vf_obj(n); vf_frame_add(d, n);
    if (G_k - F_len < n) VF_PIN(G_b, (uint8_t)d[G_k - F_len]);
    chk_mpack_file_writer_flush(&w, d, n);
    #ifdef VF_NATIVE
    vf_track(w.buffer);
    #endif
}
void h_fdestroy(void) { mpack_writer_t w; Fw_setup(&w); if (G_k - F_len < W_USED(&w)) VF_PIN(G_b, (uint8_t)w.buffer[G_k - F_len]); chk_mpack_writer_destroy(&w); }
#ifdef VF_NATIVE
#define DONE vf_track(w.buffer)
#else
#define DONE ((void)0)
#endif
void h_finit(void) { mpack_writer_t w; G_common(&w); chk_mpack_writer_init_stdfile(&w, F_FILE, nd_bool()); DONE; }
void h_finit_name(void) { mpack_writer_t w; G_common(&w); chk_mpack_writer_init_filename(&w, "x"); DONE; }
