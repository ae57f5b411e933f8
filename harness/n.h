/* Nodes: one arbitrary node of an arbitrary tree */
#include "vf.h"
static int G_err_calls, G_err_seen;
#include "all.h"
#include "spec_read.h"
#include "utf8.h"
static void vf_terror(mpack_tree_t* t, mpack_error_t e) { (void)t; ++G_err_calls; G_err_seen = (int)e; }
static bool T_INV(const mpack_tree_t* t) { return (t->error_fn == NULL || t->error_fn == vf_terror) && t->nil_node.type == mpack_type_nil && t->missing_node.type == mpack_type_missing; }
static mpack_tree_t N_t; static mpack_node_data_t N_own; static mpack_node_t N;
#define N_T (node.data->type)
#define N_L (node.data->len)
#define N_FITU(lo, hi) ((N_T == mpack_type_uint || (N_T == mpack_type_int && node.data->value.i >= 0)) && node.data->value.u >= (uint64_t)(lo) && node.data->value.u <= (uint64_t)(hi))
#define N_FITS(lo, hi) ((N_T == mpack_type_int || (N_T == mpack_type_uint && node.data->value.u <= (uint64_t)INT64_MAX)) && node.data->value.i >= (int64_t)(lo) && node.data->value.i <= (int64_t)(hi))
#if MPACK_EXTENSIONS
#define N_ISEXT (N_T == mpack_type_ext)
#else
#define N_ISEXT false
#endif
#define N_ISDATA (N_T == mpack_type_str || N_T == mpack_type_bin || N_ISEXT)
#define N_DATA (node.tree->data + node.data->value.offset)
#define N_CHILD(i) (node.data->value.children + (i))
static uint64_t N_at; /* any index */
#define N_COPIED(p) (!(N_at < N_L) || (p)[N_at] == N_DATA[N_at])
#if MPACK_FLOAT && MPACK_DOUBLE
/* the numeric value as a float and as a double */
static float N_f; static double N_d;
static void N_numbers(void) {
    mpack_node_t node = N;
    N_f = N_T == mpack_type_uint ? (float)node.data->value.u : N_T == mpack_type_int ? (float)node.data->value.i : N_T == mpack_type_float ? node.data->value.f : (float)node.data->value.d;
    N_d = N_T == mpack_type_uint ? (double)node.data->value.u : N_T == mpack_type_int ? (double)node.data->value.i : N_T == mpack_type_float ? (double)node.data->value.f : node.data->value.d;
}
#define N_SAMEF(r) (spec_fbits(r) == spec_fbits(N_f) || ((r) != (r) && N_f != N_f && N_T != mpack_type_float))
#define N_SAMED(r) (spec_dbits(r) == spec_dbits(N_d) || ((r) != (r) && N_d != N_d && N_T != mpack_type_double))
#define N_ISNUM (N_T == mpack_type_uint || N_T == mpack_type_int || N_T == mpack_type_float || N_T == mpack_type_double)
#else
static void N_numbers(void) {}
#endif
static bool N_tag_is(mpack_tag_t t, mpack_node_t node) {
    if (t.type != N_T) return false;
    switch ((int)N_T) {
        case mpack_type_bool: return t.v.b == node.data->value.b;
        case mpack_type_int: return t.v.i == node.data->value.i;
        case mpack_type_uint: return t.v.u == node.data->value.u;
        case mpack_type_float: return spec_fbits(t.v.f) == spec_fbits(node.data->value.f);
        case mpack_type_double: return spec_dbits(t.v.d) == spec_dbits(node.data->value.d);
        case mpack_type_str: case mpack_type_bin: return t.v.l == N_L;
        case mpack_type_array: case mpack_type_map: return t.v.n == N_L;
        #if MPACK_EXTENSIONS
        case mpack_type_ext: return t.v.l == N_L && t.exttype == (int8_t)N_DATA[-1];
        #endif
        default: return true;
    }
}
/* timestamp data, as the specification has it */
static uint64_t N_be(const char* p, int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) v = (v << 8) | (uint8_t)p[i]; return v; }
#define N_TSLEN (N_L == 4 || N_L == 8 || N_L == 12)
static uint32_t N_ts_nsec(mpack_node_t node) { return N_L == 4 ? 0 : N_L == 8 ? (uint32_t)(N_be(N_DATA, 8) >> 34) : (uint32_t)N_be(N_DATA, 4); }
static int64_t N_ts_sec(mpack_node_t node) { return N_L == 4 ? (int64_t)N_be(N_DATA, 4) : N_L == 8 ? (int64_t)(N_be(N_DATA, 8) & (((uint64_t)1 << 34) - 1)) : (int64_t)N_be(N_DATA + 4, 8); }
#define N_ISTS (N_ISEXT && (int8_t)N_DATA[-1] == -1)
#define N_TSOK (N_ISTS && N_TSLEN && N_ts_nsec(node) <= 999999999)
/* text facts, see text.h */
#ifdef VF_MODULAR
#define VF_UGHOST 1
static bool U_u8, U_z; static const char* U_p; static size_t U_n;
#define U_IS(p, n) ((p) == U_p && (n) == U_n)
#define NX_UTF8 U_u8
#define NX_CSTR U_z
#define NX_UCSTR (U_u8 && U_z)
#else
static bool spec_no0(const char* s, size_t n) { for (size_t i = 0; i < n; ++i) if (s[i] == 0) return false; return true; }
#define NX_UTF8 spec_u8((const uint8_t*)N_DATA, N_L, true)
#define NX_CSTR spec_no0(N_DATA, N_L)
#define NX_UCSTR spec_u8((const uint8_t*)N_DATA, N_L, false)
#endif
static inline mpack_error_t nd_err(void) { return (mpack_error_t)nd_in(mpack_error_io, mpack_error_eof); }
static void N_setup(void) {
    mpack_tree_t* t = &N_t; size_t size; char* obj; uint64_t which; mpack_node_t node;
    vf_init(); memset(t, 0, sizeof(*t)); memset(&N_own, 0, sizeof(N_own));
    G_err_calls = 0; G_err_seen = 0; vf_oom = false;
    t->error = nd_in(0, 3) ? mpack_ok : nd_err(); t->error_fn = nd_bool() ? vf_terror : NULL;
    t->nil_node.type = mpack_type_nil; t->missing_node.type = mpack_type_missing;
    size = nd_in(0, VF_BIG); obj = vf_obj(size); t->data = obj; t->data_length = size;
    which = nd_in(0, 7);
    N.tree = t; N.data = which == 0 ? &t->nil_node : which == 1 ? &t->missing_node : &N_own; node = N;
    if (which > 1) {
        N_own.type = (mpack_type_t)nd_in(mpack_type_nil, mpack_type_map); N_own.len = nd_u32(); N_own.value.u = nd_u64();
        if (N_own.type == mpack_type_bool) { N_own.value.u = 0; N_own.value.b = nd_bool(); }
        #if MPACK_EXTENSIONS && defined(VF_NATIVE)
        if (N_own.type == mpack_type_map && nd_in(0, 3)) N_own.type = mpack_type_ext;
        if (N_own.type == mpack_type_ext && size > 13 && nd_in(0, 7)) { N_own.len = nd_in(0, 5) ? 4 * (uint32_t)nd_in(1, 3) : 5; N_own.value.offset = nd_in(1, size - 12); obj[N_own.value.offset - 1] = (char)-1; if (N_own.len == 12 && nd_bool()) obj[N_own.value.offset] = 1; if (N_own.len == 8 && nd_bool()) obj[N_own.value.offset] = 7; }
        #endif
        if (N_ISDATA) {
            #ifdef VF_NATIVE
            if (N_own.value.offset > size) N_own.value.offset = nd_in(N_ISEXT, size);
            if (N_own.len > size - N_own.value.offset) N_own.len = (uint32_t)nd_in(0, size - N_own.value.offset);
            #endif
            VF_ASSUME(N_own.value.offset <= size && N_own.len <= size - N_own.value.offset && (!N_ISEXT || N_own.value.offset >= 1));
            #ifdef VF_NATIVE
            if (N_T == mpack_type_str && nd_bool()) for (size_t i = 0; i < N_own.len; ++i) obj[N_own.value.offset + i] = (char)('a' + i % 26);
            #endif
        }
        if (N_T == mpack_type_array || N_T == mpack_type_map) {
            size_t n;
            #ifndef VF_MODULAR
            N_own.len %= 9;
            #endif
            n = (size_t)N_own.len * (N_T == mpack_type_map ? 2 : 1);
            N_own.value.children = (mpack_node_data_t*)(void*)vf_obj(n * sizeof(mpack_node_data_t));
        }
    }
    #ifdef VF_MODULAR
    U_u8 = nd_bool(); U_z = nd_bool(); U_p = N_ISDATA ? N_DATA : NULL; U_n = N_L; if (U_n == 0) U_u8 = U_z = true;
    #endif
    N_at = nd_in(0, VF_BIG);
    vf_frame_add(t, sizeof(*t)); vf_frame_add(obj, size); vf_frame_add(&N_own, sizeof(N_own));
}
