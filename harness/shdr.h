/* The header at the read position, by the MessagePack specification: formed by the tracked bytes G_b[0..8]; or
 * (VF_HFACT) by bytes H_b of their own, where the one tracked byte is at distance G_gap from the start of the header. */
#ifdef VF_HFACT
static uint8_t H_b[9];
#define SB H_b
#define R_AT0 (G_I == G_gap)
#define R_PAY(p, off, n) R_BYTE_AT(p, G_gap - (uint64_t)(off), n)
#define R_HSETUP(r) do { G_gap = R_ANY; R_setup(r, G_gap); for (int j = 0; j < 9; ++j) { H_b[j] = nd_u8(); if ((uint64_t)j == G_gap) VF_PIN(H_b[j], G_b[0]); } } while (0)
#else
#define SB G_b
#define R_AT0 (G_I == 0)
#define R_PAY(p, off, n) R_RUN_AT(p, (uint64_t)0 - (uint64_t)(off), n)
#define R_HSETUP(r) R_setup(r, 0)
#endif
#define SH (spec_hdr_len(SB[0]))
#define S_KIND spec_hdr_kind(SB[0])
#define S_V spec_hdr_val(SB)
#if MPACK_EXTENSIONS
#define S_KNOWN (S_KIND != SK_bad)
#else
#define S_KNOWN (S_KIND != SK_bad && S_KIND != SK_ext)
#endif
#define S_HAVE (left0 >= 1 && S_KNOWN && left0 >= SH)
static inline bool S_FITU(uint64_t lo, uint64_t hi) { return (S_KIND == SK_uint || (S_KIND == SK_int && (int64_t)S_V >= 0)) && S_V >= lo && S_V <= hi; }
static inline bool S_FITS(int64_t lo, int64_t hi) { return (S_KIND == SK_int || (S_KIND == SK_uint && S_V <= INT64_MAX)) && (int64_t)S_V >= lo && (int64_t)S_V <= hi; }
#if MPACK_FLOAT && MPACK_DOUBLE
static inline float S_bf(void) { uint32_t u = (uint32_t)S_V; float f; memcpy(&f, &u, 4); return f; }
static inline double S_bd(void) { uint64_t u = S_V; double d; memcpy(&d, &u, 8); return d; }
/* the number as a float and as a double, computed once by S_numbers() */
static float S_f; static double S_d;
#define S_FLT S_f
#define S_DBL S_d
#define S_FLT_ (S_KIND == SK_uint ? (float)S_V : S_KIND == SK_int ? (float)(int64_t)S_V : S_KIND == SK_float ? S_bf() : (float)S_bd())
#define S_DBL_ (S_KIND == SK_uint ? (double)S_V : S_KIND == SK_int ? (double)(int64_t)S_V : S_KIND == SK_float ? (double)S_bf() : S_bd())
static inline void S_numbers(void) { S_f = S_FLT_; S_d = S_DBL_; }
/* the same bits where the type is that of the encoding, else the same number, or not a number either */
static inline bool S_ISF(float r) { if (S_KIND == SK_float) return spec_fbits(r) == (uint32_t)S_V; { float e = S_FLT; return r == e || (r != r && e != e); } }
static inline bool S_ISD(double r) { if (S_KIND == SK_double) return spec_dbits(r) == S_V; { double e = S_DBL; return r == e || (r != r && e != e); } }
#else
static inline void S_numbers(void) {}
#endif
#define S_VALIDTAG(t) ((int)(t).type >= mpack_type_nil && (int)(t).type <= mpack_type_map)
static inline bool S_TAGEQ(mpack_tag_t t) {
    if (t.type == mpack_type_uint) return S_FITU(t.v.u, t.v.u);
    if (t.type == mpack_type_int) return S_FITS(t.v.i, t.v.i);
    return spec_tag_is(t, SB);
}
