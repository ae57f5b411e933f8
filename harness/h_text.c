/* debug text: bounded and terminated */
#include "vf.h"
#define VF_TEXT 1
#include <stdarg.h>
#include <stdio.h>
#ifdef VF_CBMC
/* snprintf and strncpy by their standard contracts: any bytes in the given room */
int nondet_vf_int(void); char nondet_vf_char(void);
int snprintf(char* s, size_t n, const char* f, ...) { VF_CHECK(n == 0 || VF_RW(s, n), "snprintf-room"); (void)f; if (n) __CPROVER_havoc_slice(s, n); return nondet_vf_int(); }
char* strncpy(char* d, const char* s, size_t n) { VF_CHECK(n == 0 || VF_RW(d, n), "strncpy-room"); (void)s; if (n) __CPROVER_havoc_slice(d, n); return d; }
#endif
void mpack_assert_fail(const char* m) { (void)m; VF_CHECK(0, "mpack-assertion"); VF_ASSUME(0); }
void mpack_break_hit(const char* m) { (void)m; VF_CHECK(0, "mpack-break"); VF_ASSUME(0); }
#ifdef VF_MODULAR
#define T_TERM(b, n) ((b)[(n) - 1] == 0)
#else
static bool t_term(const char* b, size_t n) { return memchr(b, 0, n) != NULL; }
#define T_TERM(b, n) t_term(b, n)
#endif
static char* T_b; static size_t T_n;
#include "all.h"
static int64_t P_t; static uint8_t P_b; static bool P_ok;
static void vf_print(void* c, const char* data, size_t count) {
    VF_CHECK(c == &P_ok, "print-context");
    VF_CHECK(VF_R(data, count), "print-data-readable");
    if (P_t >= 0 && P_t < (int64_t)count && (uint8_t)data[P_t] != P_b) P_ok = false;
    P_t -= (int64_t)count;
}
static bool P_INV(const mpack_print_t* p) {
    return p->buffer != NULL && p->size > 0 && p->count <= p->size && VF_RW(p->buffer, p->size) && (p->callback == NULL || p->callback == vf_print)
        && P_ok && !(P_t >= 0 && P_t < (int64_t)p->count && (uint8_t)p->buffer[P_t] != P_b);
}
#include "contracts_common.gen.h"
static mpack_tag_t any_tag(void) {
    mpack_tag_t t; memset(&t, 0, sizeof(t)); t.type = (mpack_type_t)nd_in(0, 14); t.v.u = nd_u64(); if (t.type == mpack_type_bool) { bool b = nd_bool(); t.v.u = 0; t.v.b = b; }
    #if MPACK_EXTENSIONS
    t.exttype = (int8_t)nd_u8();
    #endif
    return t;
}
void h_pseudo_json(void) {
    vf_init(); size_t n = nd_in(1, VF_LIM(80)), m = nd_in(0, VF_LIM(20)); char *b = vf_obj(n), *p = vf_obj(m); vf_frame_add(b, n); vf_frame_add(p, m);
    chk_mpack_tag_debug_pseudo_json(any_tag(), b, n, p, m);
}
void h_bin_ext(void) {
    vf_init(); size_t n = nd_in(1, VF_LIM(80)), m = nd_in(0, VF_LIM(20)); char *b = vf_obj(n), *p = vf_obj(m); vf_frame_add(b, n); vf_frame_add(p, m);
    size_t l = nd_u64(); T_b = b; T_n = n; chk_mpack_tag_debug_complete_bin_ext(any_tag(), l, b, n, p, m);
}
void h_describe(void) { vf_init(); size_t n = nd_in(1, VF_LIM(80)); char *b = vf_obj(n); vf_frame_add(b, n); chk_mpack_tag_debug_describe(any_tag(), b, n); }
static mpack_print_t P;
static void P_setup(void) {
    vf_init(); memset(&P, 0, sizeof(P)); P.size = nd_in(1, VF_LIM(40)); P.count = nd_in(0, P.size); P.buffer = vf_obj(P.size);
    P.callback = nd_bool() ? vf_print : NULL; P.context = &P_ok;
    P_ok = true; P_b = nd_u8(); P_t = (int64_t)nd_in(0, VF_LIM(400)) - (int64_t)VF_LIM(100);
    if (P_t >= 0 && P_t < (int64_t)P.count) VF_PIN(P_b, (uint8_t)P.buffer[P_t]);
    vf_frame_add(P.buffer, P.size); vf_frame_add(&P, sizeof(P));
}
void h_print_append(void) {
    P_setup(); size_t n = nd_in(0, VF_LIM(100)); char* d = vf_obj(n); vf_frame_add(d, n);
    if (P_t >= (int64_t)P.count && P_t < (int64_t)(P.count + n)) VF_PIN(P_b, (uint8_t)d[P_t - (int64_t)P.count]);
    chk_mpack_print_append(&P, d, n);
}
void h_print_flush(void) { P_setup(); chk_mpack_print_flush(&P); }
