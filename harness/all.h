/* The verified text: mpack's own source files, unmodified, in one translation unit.
 * (VF_SRC(x) is either /repo/src/mpack/x or the same file with loop invariants
 * inserted in front of loop bodies.) */
#define MPACK_INTERNAL 1
#ifdef VF_NATIVE
#define MPACK_EMIT_INLINE_DEFS 1
#endif
#include "mpack/mpack.h"
#if defined(VF_CBMC) && !defined(VF_KEEP_FORMAT)
/* pretty-printing plays no part here; its calls are given a body only where it is the subject */
#endif
#include "mpack/mpack-platform.c"
#include "mpack/mpack-common.c"
#include "mpack/mpack-writer.c"
#include "mpack/mpack-reader.c"
#include "mpack/mpack-expect.c"
#include "mpack/mpack-node.c"
#ifdef VF_MODULAR
/* any tag; written through one union member, as the verifier takes the members of an uninitialised union for independent */
static inline mpack_tag_t vf_any_tag(void) {
    mpack_tag_t a, t; memset(&t, 0, sizeof(t));
    t.type = a.type; t.v.u = a.v.u;
    #if MPACK_EXTENSIONS
    t.exttype = a.exttype;
    #endif
    return t;
}
#endif
