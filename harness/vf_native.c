/* Execution of a harness: replay of a recorded input list, or random search. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <setjmp.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include VF_HARNESS
#define VF_CAT_(a, b) a##b
#define VF_CAT(a, b) VF_CAT_(a, b)
jmp_buf vf_skip_buf;
bool vf_replaying;
static uint64_t* vf_list; static size_t vf_listn;
static uint64_t* vf_log; static size_t vf_logn, vf_logcap;
static uint64_t vf_s;
static const char* vf_out;
static uint64_t vf_rnd(void) { vf_s ^= vf_s << 13; vf_s ^= vf_s >> 7; vf_s ^= vf_s << 17; return vf_s * 0x2545F4914F6CDD1DULL; }
static void vf_push(uint64_t v) {
    if (vf_logn == vf_logcap) { vf_logcap = vf_logcap ? 2 * vf_logcap : 4096; vf_log = (uint64_t*)realloc(vf_log, vf_logcap * 8); }
    vf_log[vf_logn++] = v;
}
static uint64_t vf_draw(void) {
    static const uint64_t edge[] = {0,1,2,3,4,7,8,15,16,17,31,32,33,63,64,127,128,129,255,256,257,32767,32768,65535,65536,65537,
        0x7fffffff,0x80000000u,0xffffffffu,0x100000000ull,0x3ffffffffull,0x400000000ull,999999999,1000000000,
        0x7fffffffffffffffull,0x8000000000000000ull,0xffffffffffffffffull};
    uint64_t r = vf_rnd();
    switch (r & 7) {
        case 0: case 1: return edge[(r >> 8) % (sizeof(edge) / sizeof(*edge))];
        case 2: return (uint64_t)-(int64_t)((r >> 8) % 140);
        case 3: return (r >> 8) % 256;
        case 4: return (uint64_t)1 << ((r >> 8) % 64);
        case 5: return (r >> 8) >> ((r >> 3) % 56);
        case 6: return 0 - ((r >> 8) >> ((r >> 3) % 56));
        default: return vf_rnd();
    }
}
uint64_t vf_next(void) {
    uint64_t v;
    if (vf_replaying) v = vf_logn < vf_listn ? vf_list[vf_logn] : 0; else v = vf_draw();
    vf_push(v); return v;
}
uint64_t nd_in(uint64_t lo, uint64_t hi) {
    uint64_t v;
    if (vf_replaying) { v = vf_logn < vf_listn ? vf_list[vf_logn] : lo; if (v < lo || v > hi) { vf_push(v); longjmp(vf_skip_buf, 1); } vf_push(v); return v; }
    v = vf_draw();
    if (v < lo || v > hi) v = hi - lo == UINT64_MAX ? v : lo + vf_rnd() % (hi - lo + 1);
    vf_push(v); return v;
}
static void** vf_tr; static size_t vf_trn, vf_trcap;
void* vf_track(void* p) {
    if (vf_trn == vf_trcap) { vf_trcap = vf_trcap ? 2 * vf_trcap : 1024; vf_tr = (void**)realloc(vf_tr, vf_trcap * sizeof(void*)); }
    vf_tr[vf_trn++] = p; return p;
}
static void vf_dump(const char* what) {
    FILE* f = vf_out ? fopen(vf_out, "w") : NULL;
    if (f) { fprintf(f, "%s\n", what); for (size_t i = 0; i < vf_logn; ++i) fprintf(f, "%llu\n", (unsigned long long)vf_log[i]); fclose(f); }
}
void vf_fail(const char* name) { printf("VF-FAIL %s\n", name); fflush(stdout); vf_dump(name); _exit(9); }
/* allocator: may refuse any request; counts live objects */
int vf_live; bool vf_oom;
typedef struct vf_blk { struct vf_blk* next; void* p; size_t n; } vf_blk;
static vf_blk* vf_blks;
void* vf_malloc(size_t n) {
    if (nd_in(0, 15) == 0 || n > ((size_t)1 << 28)) { vf_oom = true; return NULL; }
    vf_blk* b = (vf_blk*)malloc(sizeof(*b)); b->p = malloc(n); b->n = n; b->next = vf_blks; vf_blks = b; ++vf_live;
    memset(b->p, 0xa5, n);
    return b->p;
}
void vf_free(void* p) {
    if (p == NULL) return;
    for (vf_blk** q = &vf_blks; *q; q = &(*q)->next)
        if ((*q)->p == p) { vf_blk* b = *q; *q = b->next; free(b->p); free(b); --vf_live; return; }
    vf_fail("free-of-unknown-pointer");
}
void* vf_realloc(void* p, size_t n) {
    void* q;
    if (p == NULL) return vf_malloc(n);
    q = vf_malloc(n); if (q == NULL) return NULL;
    for (vf_blk* b = vf_blks; b; b = b->next) if (b->p == p) { memcpy(q, p, b->n < n ? b->n : n); vf_free(p); return q; }
    vf_fail("realloc-of-unknown-pointer");
}
void __sanitizer_set_death_callback(void (*)(void));
static void vf_death(void) { vf_dump("sanitizer"); }
static void vf_abrt(int s) { (void)s; vf_dump("sanitizer"); _exit(9); }
static void vf_sig(int s) { (void)s; vf_dump("hang"); _exit(8); }
static void vf_reset(void) {
    for (size_t i = 0; i < vf_trn; ++i) free(vf_tr[i]);
    vf_trn = 0; vf_logn = 0; vf_frn = 0;
    while (vf_blks) { vf_blk* b = vf_blks; vf_blks = b->next; free(b->p); free(b); }
    vf_live = 0; vf_oom = false;
}
int main(int argc, char** argv) {
    /* prog replay FILE | prog random SEED SECONDS OUT */
    __sanitizer_set_death_callback(vf_death); signal(SIGABRT, vf_abrt);
    if (argc >= 3 && !strcmp(argv[1], "replay")) {
        FILE* f = fopen(argv[2], "r"); char line[512]; unsigned long long v;
        if (!f) return 2;
        if (!fgets(line, sizeof(line), f)) return 2;
        vf_list = (uint64_t*)malloc(8 * 1000000);
        while (vf_listn < 1000000 && fscanf(f, "%llu", &v) == 1) vf_list[vf_listn++] = v;
        fclose(f); vf_replaying = true;
        if (setjmp(vf_skip_buf)) { printf("VF-SKIP (an assumption of the harness is not met)\n"); return 7; }
        VF_CAT(VF_ENTRY,)();
        printf("VF-OK\n"); vf_reset(); return 0;
    }
    if (argc >= 5 && !strcmp(argv[1], "random")) {
        uint64_t seed = strtoull(argv[2], 0, 10); double secs = atof(argv[3]); vf_out = argv[4];
        struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
        volatile unsigned long long n = 0, done = 0;
        signal(SIGALRM, vf_sig);
        for (;; ++n) {
            if ((n & 63) == 0) { alarm(20); clock_gettime(CLOCK_MONOTONIC, &t); if ((t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec) > secs) break; }
            vf_reset();
            vf_s = (seed + 1) * 0x9E3779B97F4A7C15ULL + n * 0xD1B54A32D192ED03ULL; if (!vf_s) vf_s = 1;
            vf_rnd(); vf_rnd();
            if (setjmp(vf_skip_buf)) continue;
            VF_CAT(VF_ENTRY,)();
            ++done;
        }
        printf("VF-OK iterations=%llu completed=%llu\n", n, done); return 0;
    }
    return 2;
}
