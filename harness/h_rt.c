/* What is written reads back. The writer's contracts give the bytes (spec_write.h, spec_tag.h),
 * the reader's contracts the decoding (spec_read.h): here is the lemma that one undoes the other.
 * Executed (native) it is a real round trip through a writer and a reader. */
#include "vf.h"
#include "all.h"
#include "spec_write.h"
#include "spec_tag.h"
static mpack_tag_t any_tag(void) {
    mpack_tag_t t; memset(&t, 0, sizeof(t));
    t.type = (mpack_type_t)nd_in(1, 11);
    if (t.type == mpack_type_bool) t.v.b = nd_bool(); else t.v.u = nd_u64();
    #ifdef VF_NATIVE
    if (t.type != mpack_type_bool && nd_bool()) t.v.u = (((uint64_t)1 << nd_in(0, 63)) - nd_in(0, 2)) ^ (nd_bool() ? UINT64_MAX : 0);
    #endif
    #if MPACK_EXTENSIONS
    t.exttype = (int8_t)nd_u8();
    #endif
    return t;
}
/* the tag that should come back */
static bool back_as(mpack_tag_t t, bool v4, int kind, uint64_t val, int8_t ext) {
    (void)ext;
    switch ((int)t.type) {
        case mpack_type_nil: return kind == SK_nil;
        case mpack_type_bool: return kind == SK_bool && val == (uint64_t)t.v.b;
        case mpack_type_int: return kind == (t.v.i >= 0 ? SK_uint : SK_int) && val == (uint64_t)t.v.i;
        case mpack_type_uint: return kind == SK_uint && val == t.v.u;
        case mpack_type_float: return kind == SK_float && val == W_fbits(t);
        case mpack_type_double: return kind == SK_double && val == W_dbits(t);
        case mpack_type_str: return kind == SK_str && val == t.v.l;
        case mpack_type_bin: return kind == (v4 ? SK_str : SK_bin) && val == t.v.l;
        case mpack_type_array: return kind == SK_array && val == t.v.n;
        case mpack_type_map: return kind == SK_map && val == t.v.n;
        #if MPACK_EXTENSIONS
        case mpack_type_ext: return kind == SK_ext && val == t.v.l && ext == t.exttype;
        #endif
        default: return false;
    }
}
void h_rt(void) {
    mpack_tag_t t = any_tag(); bool v4 = false; uint8_t h[16] = {0};
    #if MPACK_COMPATIBILITY
    v4 = nd_bool();
    #endif
    VF_ASSUME(W_tag_ok(v4, t));
    for (size_t i = 0; i < 10; ++i) h[i] = W_tag_byte(v4, t, i);
    VF_REACH("rt"); VF_REACH_RET("rt");
    VF_CHECK(spec_hdr_len(h[0]) == W_tag_len(v4, t), "round-trip.length");
    VF_CHECK(back_as(t, v4, spec_hdr_kind(h[0]), spec_hdr_val(h), spec_hdr_ext(h)), "round-trip.value");
    #ifndef VF_MODULAR
    { char buf[32]; mpack_writer_t w; mpack_reader_t r; mpack_tag_t u; size_t n, i; memset(buf, 0x55, sizeof(buf));
      mpack_writer_init(&w, buf, sizeof(buf));
      #if MPACK_COMPATIBILITY
      mpack_writer_set_version(&w, v4 ? mpack_version_v4 : mpack_version_v5);
      #endif
      mpack_write_tag(&w, t); n = mpack_writer_buffer_used(&w);
      VF_CHECK(w.error == mpack_ok && n == W_tag_len(v4, t), "round-trip.written");
      for (i = 0; i < 10; ++i) if (i < n) VF_CHECK((uint8_t)buf[i] == h[i], "round-trip.written");
      mpack_reader_init_data(&r, buf, n); u = mpack_read_tag(&r);
      VF_CHECK(r.error == mpack_ok && r.data == r.end && spec_tag_is(u, h), "round-trip.read"); }
    #endif
}
#if MPACK_EXTENSIONS
static uint64_t be(const uint8_t* p, int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) v = (v << 8) | p[i]; return v; }
void h_rt_ts(void) {
    int64_t s = (int64_t)nd_u64(); uint32_t ns = nd_u32(); uint8_t h[16]; size_t n, len;
    #ifdef VF_NATIVE
    if (nd_bool()) s = (int64_t)(((uint64_t)1 << nd_in(0, 63)) - nd_in(0, 2)); ns %= 1000000000; if (nd_bool()) ns = 0;
    #endif
    VF_ASSUME(ns <= 999999999);
    n = spec_ts_len(s, ns);
    for (size_t i = 0; i < 15; ++i) h[i] = i < n ? spec_ts_byte(s, ns, i) : 0;
    VF_REACH("rt"); VF_REACH_RET("rt");
    len = (size_t)spec_hdr_val(h); { size_t hl = spec_hdr_len(h[0]);
    VF_CHECK(spec_hdr_kind(h[0]) == SK_ext && spec_hdr_ext(h) == -1 && hl + len == n, "round-trip.timestamp-header");
    if (len == 4) VF_CHECK(s == (int64_t)be(h + 2, 4) && ns == 0, "round-trip.timestamp4");
    else if (len == 8) VF_CHECK(s == (int64_t)(be(h + 2, 8) & (((uint64_t)1 << 34) - 1)) && ns == be(h + 2, 8) >> 34, "round-trip.timestamp8");
    else VF_CHECK(len == 12 && hl == 3 && s == (int64_t)be(h + 7, 8) && ns == be(h + 3, 4), "round-trip.timestamp12"); }
    #ifndef VF_MODULAR
    { char buf[32]; mpack_writer_t w; mpack_reader_t r; mpack_tag_t u; mpack_timestamp_t x;
      mpack_writer_init(&w, buf, sizeof(buf)); mpack_write_timestamp(&w, s, ns);
      VF_CHECK(w.error == mpack_ok && mpack_writer_buffer_used(&w) == n && memcmp(buf, h, n) == 0, "round-trip.written");
      mpack_reader_init_data(&r, buf, n); u = mpack_read_tag(&r); x = mpack_read_timestamp(&r, u.v.l);
      VF_CHECK(r.error == mpack_ok && r.data == r.end && x.seconds == s && x.nanoseconds == ns, "round-trip.read"); }
    #endif
}
#endif
