#define VF_GROW 1
#include "g.h"
#include "contracts_grow.gen.h"
void h_gflush(void) {
    mpack_writer_t w; G_setup(&w, true); VF_ASSUME(w.error == mpack_ok); vf_frame_add(&w, sizeof(w));
    if (nd_bool()) { size_t n = W_USED(&w); if (nd_bool()) { w.position = w.buffer; } chk_mpack_growable_writer_flush(&w, w.buffer, n); }
    else {
        size_t n = nd_in(1, VF_BIG); char* d = vf_obj(n); vf_frame_add(d, n);
        #ifdef VF_MODULAR
        G_src = d; G_srck = G_k - W_USED(&w);
        #endif
        if (G_k - W_USED(&w) < n) VF_PIN(G_b, (uint8_t)d[G_k - W_USED(&w)]);
        chk_mpack_growable_writer_flush(&w, d, n);
    }
    #ifdef VF_NATIVE
    vf_track(w.buffer);
    #endif
}
#ifdef VF_NATIVE
#define DONE vf_track(w.buffer)
#else
#define DONE ((void)0)
#endif
void h_gensure(void) { mpack_writer_t w; G_setup(&w, true); vf_frame_add(&w, sizeof(w)); chk_mpack_writer_ensure(&w, nd_in(1, MPACK_WRITER_MINIMUM_BUFFER_SIZE)); DONE; }
void h_gstraddle(void) {
    mpack_writer_t w; G_setup(&w, true); vf_frame_add(&w, sizeof(w));
    size_t n = nd_in(1, VF_BIG); char* d = vf_obj(n); vf_frame_add(d, n);
    #ifdef VF_MODULAR
    G_src = d; G_srck = G_k - W_USED(&w);
    #endif
    if (G_k - W_USED(&w) < n) VF_PIN(G_b, (uint8_t)d[G_k - W_USED(&w)]);
    chk_mpack_write_native_straddle(&w, d, n); DONE;
}
void h_gflush_message(void) { mpack_writer_t w; G_setup(&w, true); vf_frame_add(&w, sizeof(w)); chk_mpack_writer_flush_message(&w); DONE; }
void h_gdestroy(void) { mpack_writer_t w; G_setup(&w, true); vf_frame_add(&w, sizeof(w)); chk_mpack_writer_destroy(&w);
    #ifdef VF_NATIVE
    vf_track(G_data);
    #endif
}
void h_ginit(void) { mpack_writer_t w; G_common(&w); vf_frame_add(&G_data, sizeof(G_data)); chk_mpack_writer_init_growable(&w, &G_data, &G_dsize);
    if (w.error == mpack_ok) { VF_CHECK(w.flush == mpack_growable_writer_flush && w.teardown == mpack_growable_writer_teardown, "init_growable.functions"); }
    DONE; }
