#ifndef VF_RUN
#define VF_RUN 10
#endif
#include "r.h"
#include "shdr.h"
#include "contracts_reader.gen.h"
/* split by the first byte of the header, for the sake of the solver */
static void first(void) {
    uint8_t b = G_b[0];
    #ifndef VF_CASE
    #define VF_CASE 9
    #endif
    if (VF_CASE == 0) VF_ASSUME(b < 0xc0 || b >= 0xe0);
    if (VF_CASE == 1) VF_ASSUME(b >= 0xc0 && b <= 0xc6);
    if (VF_CASE == 2) VF_ASSUME(b >= 0xc7 && b <= 0xc9);
    if (VF_CASE == 3) VF_ASSUME(b >= 0xca && b <= 0xcf);
    if (VF_CASE == 4) VF_ASSUME(b >= 0xd0 && b <= 0xd8);
    if (VF_CASE == 5) VF_ASSUME(b >= 0xd9 && b <= 0xdf);
}
void h_read_tag(void) { mpack_reader_t r; R_setup(&r, 0); first(); chk_mpack_read_tag(&r); }
void h_peek_tag(void) { mpack_reader_t r; R_setup(&r, 0); first(); chk_mpack_peek_tag(&r); }
