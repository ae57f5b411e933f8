/* Common layer of all harnesses. One harness text, three builds:
 *
 *   VF_MODULAR  goto-cc + cbmc: inputs unconstrained, callees replaced by their contracts.
 *   VF_REFUTE   goto-cc + cbmc: real callee bodies, small sizes, loops unwound; only
 *               used to turn a failed obligation into a concrete input.
 *   VF_NATIVE   gcc + ASan/UBSan: the same harness executed, inputs replayed from a
 *               recorded list or drawn from a PRNG.
 */
#ifndef VF_H
#define VF_H 1
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
void* vf_memcpy(void* d, const void* s, size_t n);

#if defined(VF_MODULAR) || defined(VF_REFUTE)
#define VF_CBMC 1
#else
#define VF_NATIVE 1
#endif

#define VF_IMPLIES(a, b) (!(a) || (b))

#ifdef VF_CBMC
uint64_t nondet_vf_u64(void);
#ifdef VF_MODULAR
static inline uint64_t nd_u64(void) { return nondet_vf_u64(); }
#else
uint64_t vf_rec;
static inline uint64_t nd_u64(void) { uint64_t vf_v = nondet_vf_u64(); vf_rec = vf_v; return vf_v; }
#endif
#define VF_ASSUME(x) __CPROVER_assume(x)
size_t nondet_vf_size(void);
static inline size_t vf_any_size(void) { size_t n = nondet_vf_size(); __CPROVER_assume(n <= ((size_t)1 << 44)); return n; }
/* any position in the object of base, at or behind base */
#if defined(VF_WINDOW)
#define vf_into(base) ((char*)(base) + vf_any_size())
#else
static inline char* vf_into(const void* base) {
    size_t n = nondet_vf_size();
    __CPROVER_assume(base != NULL ? n <= __CPROVER_OBJECT_SIZE(base) - __CPROVER_POINTER_OFFSET(base) : n == 0);
    return (char*)base + n;
}
#endif
#define VF_CHECK(x, name) __CPROVER_assert(x, name)
#ifdef VF_MODULAR
#define VF_REACH(name) __CPROVER_assert(0, "reach:" name)
#define VF_REACH_RET(name) __CPROVER_assert(0, "reach-return:" name)
#ifndef VF_BIGBITS
#define VF_BIGBITS 40
#endif
#define VF_BIG ((size_t)1 << VF_BIGBITS)     /* object sizes: any value up to this */
#define VF_LIM(small) VF_BIG
#else
#define VF_REACH(name) ((void)0)
#define VF_REACH_RET(name) ((void)0)
#ifndef VF_SMALL
#define VF_SMALL 64
#endif
#define VF_BIG ((size_t)VF_SMALL)
#define VF_LIM(small) ((size_t)(small))
#endif
#define VF_RW(p, n) __CPROVER_rw_ok((const void*)(p), (size_t)(n))
#define VF_R(p, n) __CPROVER_r_ok((const void*)(p), (size_t)(n))
#ifndef VF_OBJBITS
#define VF_OBJBITS 8
#endif
#define VF_OFF(p) ((long long)((unsigned long long)__CPROVER_POINTER_OFFSET((const void*)(p)) << VF_OBJBITS) >> VF_OBJBITS)
#define VF_SAME(p, q) __CPROVER_same_object((const void*)(p), (const void*)(q))
static inline uint64_t nd_in(uint64_t lo, uint64_t hi) { uint64_t v = nd_u64(); __CPROVER_assume(lo <= v && v <= hi); return v; }
/* v := e where the prover needs a relation but the execution a value */
#define VF_PIN(v, e) __CPROVER_assume((v) == (e))

#else /* ---------------- native ---------------- */
#include <stdio.h>
#include <setjmp.h>
extern jmp_buf vf_skip_buf;
extern bool vf_replaying;
uint64_t vf_next(void);
void vf_fail(const char* name) __attribute__((noreturn));
void* vf_track(void* p);
#define nd_u64() vf_next()
#define VF_ASSUME(x) do { if (!(x)) longjmp(vf_skip_buf, 1); } while (0)
#define VF_CHECK(x, name) do { if (!(x)) vf_fail(name); } while (0)
#define VF_REACH(name) ((void)0)
#define VF_REACH_RET(name) ((void)0)
#ifndef VF_SMALL
#define VF_SMALL 160
#endif
#define VF_BIG ((size_t)VF_SMALL)
#define VF_LIM(small) ((size_t)(small))
#define VF_RW(p, n) ((void)(p), (void)(n), true)
#define VF_R(p, n) ((void)(p), (void)(n), true)
#define VF_OFF(p) ((long long)(intptr_t)(p))
#define VF_SAME(p, q) ((void)(p), (void)(q), true)
uint64_t nd_in(uint64_t lo, uint64_t hi);
#define VF_PIN(v, e) ((v) = (__typeof__(v))(e))
#endif

static inline bool nd_bool(void) { return (bool)(nd_in(0, 1) == 1); }
static inline uint32_t nd_u32(void) { return (uint32_t)nd_u64(); }
static inline uint16_t nd_u16(void) { return (uint16_t)nd_u64(); }
static inline uint8_t nd_u8(void) { return (uint8_t)nd_u64(); }

/* a fresh object of n bytes with arbitrary content */
#ifndef VF_RECBYTES
#define VF_RECBYTES 48
#endif
static inline char* vf_obj(size_t n) {
    char* p = (char*)malloc(n);
    VF_ASSUME(p != NULL);
#ifdef VF_NATIVE
    vf_track(p);
#endif
#ifndef VF_MODULAR
    for (size_t i = 0; i < VF_RECBYTES; ++i)
        if (i < n) p[i] = (char)nd_u8();
#endif
#ifdef VF_NATIVE
    for (size_t i = VF_RECBYTES; i < n; ++i) p[i] = (char)(i * 37 + 11);
#endif
    return p;
}

/* ---------------- frame probe ---------------- */
#define VF_MAXFR 6
static struct { const unsigned char* p; size_t n; } vf_fr[VF_MAXFR];
static int vf_frn;
static inline void vf_init(void) { vf_frn = 0; }   /* statics are arbitrary where loop contracts are applied */
static inline void vf_frame_add(const void* p, size_t n) { vf_fr[vf_frn].p = (const unsigned char*)p; vf_fr[vf_frn].n = n; ++vf_frn; }
#ifdef VF_CBMC
static bool vf_probe_on, vf_probe_allowed;
static const unsigned char* vf_probe;
static unsigned char vf_probe_old;
static inline void vf_frame_begin(void) {
    vf_probe_on = false; vf_probe_allowed = false;
    #ifdef VF_NOFRAME
    return;
    #endif
    if (vf_frn == 0) return;
    uint64_t i = nondet_vf_u64(), j = nondet_vf_u64();
    __CPROVER_assume(i < (uint64_t)vf_frn && j < vf_fr[i].n);
    vf_probe = vf_fr[i].p + j; vf_probe_old = *vf_probe; vf_probe_on = true;
}
static inline void vf_frame_allow(const void* p, size_t n) {
    if (vf_probe_on && VF_SAME(p, vf_probe) && VF_OFF(vf_probe) >= VF_OFF(p) && (size_t)(VF_OFF(vf_probe) - VF_OFF(p)) < n)
        vf_probe_allowed = true;
}
static inline void vf_frame_allow_obj(const void* p) {
    if (vf_probe_on && VF_SAME(p, vf_probe)) vf_probe_allowed = true;
}
#define vf_frame_end(name) __CPROVER_assert(!vf_probe_on || vf_probe_allowed || *vf_probe == vf_probe_old, name)
#else
static unsigned char* vf_fr_copy[VF_MAXFR];
static unsigned char* vf_fr_ok[VF_MAXFR];
static inline void vf_frame_begin(void) {
    for (int i = 0; i < vf_frn; ++i) {
        vf_fr_copy[i] = (unsigned char*)vf_track(malloc(vf_fr[i].n ? vf_fr[i].n : 1));
        vf_fr_ok[i] = (unsigned char*)vf_track(calloc(vf_fr[i].n ? vf_fr[i].n : 1, 1));
        memcpy(vf_fr_copy[i], vf_fr[i].p, vf_fr[i].n);
    }
}
static inline void vf_frame_allow(const void* p, size_t n) {
    const unsigned char* a = (const unsigned char*)p;
    for (int i = 0; i < vf_frn; ++i)
        for (size_t j = 0; j < vf_fr[i].n; ++j)
            if (vf_fr[i].p + j >= a && vf_fr[i].p + j < a + n) vf_fr_ok[i][j] = 1;
}
static inline void vf_frame_allow_obj(const void* p) {
    const unsigned char* a = (const unsigned char*)p;
    for (int i = 0; i < vf_frn; ++i)
        if (a >= vf_fr[i].p && a <= vf_fr[i].p + vf_fr[i].n) memset(vf_fr_ok[i], 1, vf_fr[i].n);
}
static inline void vf_frame_end_(const char* name) {
    for (int i = 0; i < vf_frn; ++i)
        for (size_t j = 0; j < vf_fr[i].n; ++j)
            if (!vf_fr_ok[i][j] && vf_fr[i].p[j] != vf_fr_copy[i][j]) vf_fail(name);
}
#define vf_frame_end(name) vf_frame_end_(name)
#endif

/* ---------------- allocator given to mpack ---------------- */
extern int vf_live;          /* objects currently allocated by mpack */
extern bool vf_oom;          /* some allocation was refused */
void* vf_malloc(size_t n);
void vf_free(void* p);
void* vf_realloc(void* p, size_t n);
#ifdef VF_CBMC
int vf_live; bool vf_oom;
#define VF_MAXALLOC ((size_t)1 << 46)
void* vf_malloc(size_t n) {
    void* p;
    if (nd_in(0, 15) == 0 || n > VF_MAXALLOC) { vf_oom = true; return NULL; }
    p = malloc(n); __CPROVER_assume(p != NULL); ++vf_live;
    return p;
}
void vf_free(void* p) {
    if (p == NULL) return;
    free(p); --vf_live;
}
void* vf_realloc(void* p, size_t n) {
    char* q; size_t m;
    if (p == NULL) return vf_malloc(n);
    q = (char*)vf_malloc(n);
    if (q == NULL) return NULL;
    m = __CPROVER_OBJECT_SIZE(p);
    if (m > n) m = n;
    if (m > 0) memcpy(q, p, m);
    vf_free(p);
    return q;
}
#endif
#endif
