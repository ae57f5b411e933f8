/* tags: comparison (relational lemmas over the real function), constructors and accessors */
#include "vf.h"
#include "all.h"
static mpack_tag_t nd_tag(void) {
    mpack_tag_t t; memset(&t, 0, sizeof(t));
    #ifdef VF_NATIVE
    { static mpack_tag_t last; if (nd_in(0, 3) == 0) { t = last; if (nd_bool()) return t; t.v.u ^= nd_in(0, 255); last = t;
        if (t.type == mpack_type_bool) t.v.b = (t.v.u & 1) != 0; return t; }
    #endif
    t.type = (mpack_type_t)nd_in(0, 11);
    VF_ASSUME(MPACK_EXTENSIONS || (int)t.type != 11);
    t.v.u = nd_u64();
    if (t.type == mpack_type_bool) { bool b = nd_bool(); t.v.u = 0; t.v.b = b; }
    #if MPACK_EXTENSIONS
    t.exttype = (int8_t)nd_u8();
    #endif
    #ifdef VF_NATIVE
    last = t; }
    #endif
    return t;
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
/* do the two denote the same value? */
static bool same(mpack_tag_t a, mpack_tag_t b) {
    bool ia = a.type == mpack_type_int || a.type == mpack_type_uint, ib = b.type == mpack_type_int || b.type == mpack_type_uint;
    if (ia || ib) {
        if (!(ia && ib)) return false;
        bool na = a.type == mpack_type_int && a.v.i < 0, nb = b.type == mpack_type_int && b.v.i < 0;
        return na == nb && a.v.u == b.v.u;
    }
    if (a.type != b.type) return false;
    switch (a.type) {
        case mpack_type_missing: case mpack_type_nil: return true;
        case mpack_type_bool: return a.v.b == b.v.b;
        case mpack_type_float: return (uint32_t)a.v.u == (uint32_t)b.v.u;
        case mpack_type_double: return a.v.u == b.v.u;
        case mpack_type_str: case mpack_type_bin: return a.v.l == b.v.l;
        case mpack_type_array: case mpack_type_map: return a.v.n == b.v.n;
        #if MPACK_EXTENSIONS
        case mpack_type_ext: return a.v.l == b.v.l && a.exttype == b.exttype;
        #endif
        default: return false;
    }
}
void h_cmp_pair(void) {
    mpack_tag_t a = nd_tag(), b = nd_tag(), a0 = a, b0 = b;
    int ab = mpack_tag_cmp(a, b), ba = mpack_tag_cmp(b, a);
    VF_REACH("mpack_tag_cmp");
    VF_CHECK((ab == 0) == same(a, b), "mpack_tag_cmp.equal-iff-same-value");
    VF_CHECK(sgn(ab) == -sgn(ba), "mpack_tag_cmp.antisymmetric");
    VF_CHECK(mpack_tag_equal(a, b) == same(a, b), "mpack_tag_equal.iff-same-value");
    VF_CHECK(memcmp(&a, &a0, sizeof(a)) == 0 && memcmp(&b, &b0, sizeof(b)) == 0, "mpack_tag_cmp.frame");
}
void h_cmp_triple(void) {
    mpack_tag_t a = nd_tag(), b = nd_tag(), c = nd_tag();
    int ab = mpack_tag_cmp(a, b), bc = mpack_tag_cmp(b, c), ac = mpack_tag_cmp(a, c);
    VF_REACH("mpack_tag_cmp");
    VF_CHECK(!(ab <= 0 && bc <= 0) || ac <= 0, "mpack_tag_cmp.transitive");
    VF_CHECK(!(ab <= 0 && bc < 0) || ac < 0, "mpack_tag_cmp.transitive-strict");
    VF_CHECK(!(ab == 0) || sgn(ac) == sgn(bc), "mpack_tag_cmp.congruent");
}
/* constructors and accessors are exact */
void h_tag_make(void) {
    uint64_t u = nd_u64(); bool b = nd_bool(); mpack_tag_t t;
    t = mpack_tag_make_nil(); VF_CHECK(t.type == mpack_type_nil, "mpack_tag_make_nil");
    t = mpack_tag_make_bool(b); VF_CHECK(t.type == mpack_type_bool && t.v.b == b && mpack_tag_bool_value(&t) == b, "mpack_tag_make_bool");
    t = mpack_tag_make_true(); VF_CHECK(t.type == mpack_type_bool && t.v.b, "mpack_tag_make_true");
    t = mpack_tag_make_false(); VF_CHECK(t.type == mpack_type_bool && !t.v.b, "mpack_tag_make_false");
    t = mpack_tag_make_int((int64_t)u); VF_CHECK(t.type == mpack_type_int && t.v.u == u && (uint64_t)mpack_tag_int_value(&t) == u, "mpack_tag_make_int");
    t = mpack_tag_make_uint(u); VF_CHECK(t.type == mpack_type_uint && t.v.u == u && mpack_tag_uint_value(&t) == u, "mpack_tag_make_uint");
    t = mpack_tag_make_array((uint32_t)u); VF_CHECK(t.type == mpack_type_array && t.v.n == (uint32_t)u && mpack_tag_array_count(&t) == (uint32_t)u, "mpack_tag_make_array");
    t = mpack_tag_make_map((uint32_t)u); VF_CHECK(t.type == mpack_type_map && t.v.n == (uint32_t)u && mpack_tag_map_count(&t) == (uint32_t)u, "mpack_tag_make_map");
    t = mpack_tag_make_str((uint32_t)u); VF_CHECK(t.type == mpack_type_str && t.v.l == (uint32_t)u && mpack_tag_str_length(&t) == (uint32_t)u && mpack_tag_bytes(&t) == (uint32_t)u, "mpack_tag_make_str");
    t = mpack_tag_make_bin((uint32_t)u); VF_CHECK(t.type == mpack_type_bin && t.v.l == (uint32_t)u && mpack_tag_bin_length(&t) == (uint32_t)u && mpack_tag_bytes(&t) == (uint32_t)u, "mpack_tag_make_bin");
    #if MPACK_EXTENSIONS
    int8_t e = (int8_t)nd_u8();
    t = mpack_tag_make_ext(e, (uint32_t)u); VF_CHECK(t.type == mpack_type_ext && t.exttype == e && t.v.l == (uint32_t)u && mpack_tag_ext_length(&t) == (uint32_t)u && mpack_tag_ext_exttype(&t) == e && mpack_tag_bytes(&t) == (uint32_t)u, "mpack_tag_make_ext");
    #endif
    VF_REACH("tag constructors");
}
/* big-endian loads and stores: byte i of an n-byte value is bits 8(n-1-i).. of it */
static uint64_t be(const uint8_t* p, size_t n) { uint64_t v = 0; for (size_t i = 0; i < 8; ++i) if (i < n) v = v << 8 | p[i]; return v; }
static uint8_t E_m[24], E_0[24];
static uint8_t* cell(uint32_t* at) { vf_init(); *at = (uint32_t)nd_in(0, 7); for (int i = 0; i < 24; ++i) E_m[i] = E_0[i] = nd_u8(); return E_m + *at; }
static bool wrote(uint32_t at, size_t n, uint64_t v) {
    bool ok = true;
    for (uint32_t i = 0; i < 24; ++i) if ((i < at || i >= at + n) && E_m[i] != E_0[i]) ok = false;
    return ok && be(E_m + at, n) == v;
}
#define LD(T, name, n) { uint8_t* p = cell(&at); VF_CHECK((uint64_t)(T)mpack_load_##name((const char*)p) == (uint64_t)(T)be(p, n), "mpack_load_" #name); VF_CHECK(memcmp(E_m, E_0, 24) == 0, "mpack_load_" #name ".frame"); }
#define ST(T, name, n) { uint8_t* p = cell(&at); T v = (T)nd_u64(); mpack_store_##name((char*)p, v); \
    VF_CHECK(wrote(at, n, (uint64_t)v & (n == 8 ? ~0ull : ((1ull << (8 * n % 64)) - 1))), "mpack_store_" #name); VF_CHECK(mpack_load_##name((const char*)p) == v, "mpack_load_" #name ".inverse"); }
void h_endian(void) {
    uint32_t at;
    LD(uint8_t, u8, 1) LD(uint16_t, u16, 2) LD(uint32_t, u32, 4) LD(uint64_t, u64, 8)
    LD(int8_t, i8, 1) LD(int16_t, i16, 2) LD(int32_t, i32, 4) LD(int64_t, i64, 8)
    VF_REACH("loads");
}
void h_endian_store(void) {
    uint32_t at;
    ST(uint8_t, u8, 1) ST(uint16_t, u16, 2) ST(uint32_t, u32, 4) ST(uint64_t, u64, 8)
    ST(int8_t, i8, 1) ST(int16_t, i16, 2) ST(int32_t, i32, 4) ST(int64_t, i64, 8)
    VF_REACH("stores");
}
void h_endian_float(void) {
    uint32_t at; uint8_t* p;
    #if MPACK_FLOAT
    { p = cell(&at); union { float f; uint32_t u; } v, w; v.f = mpack_load_float((const char*)p); VF_CHECK(v.u == (uint32_t)be(p, 4), "mpack_load_float");
      w.u = nd_u32(); mpack_store_float((char*)p, w.f); VF_CHECK(wrote(at, 4, w.u), "mpack_store_float"); }
    #endif
    #if MPACK_DOUBLE
    { p = cell(&at); union { double f; uint64_t u; } v, w; v.f = mpack_load_double((const char*)p); VF_CHECK(v.u == be(p, 8), "mpack_load_double");
      w.u = nd_u64(); mpack_store_double((char*)p, w.f); VF_CHECK(wrote(at, 8, w.u), "mpack_store_double"); }
    #endif
    VF_REACH("floats");
}
