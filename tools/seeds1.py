from mkseed import seed
H = '#include "mpack/mpack.h"\n#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>\n'
seed('w01-i64-hi16', 'W01', 'a 64-bit signed value with bits 32..47 all clear and a higher bit set, e.g. 1<<48',
 'such values are written as a 32-bit integer, losing the high bits',
 [('mpack-writer.c', '''        } else if (value <= MPACK_UINT32_MAX) {
            MPACK_WRITE_ENCODED(mpack_encode_u32, MPACK_TAG_SIZE_U32, (uint32_t)value);
        } else {
            MPACK_WRITE_ENCODED(mpack_encode_u64, MPACK_TAG_SIZE_U64, (uint64_t)value);
        }
        #endif
    } else if (value >= MPACK_INT8_MIN) {
        MPACK_WRITE_ENCODED(mpack_encode_i8, MPACK_TAG_SIZE_I8, (int8_t)value);
    } else if (value >= MPACK_INT16_MIN) {
        MPACK_WRITE_ENCODED(mpack_encode_i16, MPACK_TAG_SIZE_I16, (int16_t)value);
    } else if (value >= MPACK_INT32_MIN) {''', '''        } else if ((uint16_t)(value >> 32) == 0) {
            MPACK_WRITE_ENCODED(mpack_encode_u32, MPACK_TAG_SIZE_U32, (uint32_t)value);
        } else {
            MPACK_WRITE_ENCODED(mpack_encode_u64, MPACK_TAG_SIZE_U64, (uint64_t)value);
        }
        #endif
    } else if (value >= MPACK_INT8_MIN) {
        MPACK_WRITE_ENCODED(mpack_encode_i8, MPACK_TAG_SIZE_I8, (int8_t)value);
    } else if (value >= MPACK_INT16_MIN) {
        MPACK_WRITE_ENCODED(mpack_encode_i16, MPACK_TAG_SIZE_I16, (int16_t)value);
    } else if (value >= MPACK_INT32_MIN) {''')],
 H + '''int main(void) { char b[64]; mpack_writer_t w; mpack_writer_init(&w, b, sizeof b); mpack_write_i64(&w, (int64_t)1 << 48);
 size_t n = mpack_writer_buffer_used(&w); if (mpack_writer_destroy(&w)) return 1;
 return n == 9 && !memcmp(b, "\\xcf\\0\\1\\0\\0\\0\\0\\0\\0", 9) ? 0 : 1; }
''')
seed('w02-nan-canon', 'W02', 'a double that is a NaN other than the canonical one',
 'the payload and sign of a NaN are lost when it is written',
 [('mpack-common.h', """    v.d = value;
    mpack_store_u64(p, v.u);
}
#endif

#if MPACK_FLOAT && !MPACK_DOUBLE
/**""", """    v.d = value;
    if (value != value)
        v.u = MPACK_UINT64_C(0x7ff8000000000000);
    mpack_store_u64(p, v.u);
}
#endif

#if MPACK_FLOAT && !MPACK_DOUBLE
/**""")],
 H + """int main(void) { char b[64]; mpack_writer_t w; mpack_writer_init(&w, b, sizeof b); uint64_t u = 0xfff8000000001234ull; double d; memcpy(&d, &u, 8); mpack_write_double(&w, d);
 size_t n = mpack_writer_buffer_used(&w); if (mpack_writer_destroy(&w)) return 1;
 return n == 9 && !memcmp(b, "\\xcb\\xff\\xf8\\0\\0\\0\\0\\x12\\x34", 9) ? 0 : 1; }
""")
seed('w03-str8-room', 'W03', 'a string of 32 to 255 bytes written when the buffer has room for exactly its length plus one byte',
 'the last byte is written past the end of the buffer',
 [('mpack-writer.c', 'if (count + MPACK_TAG_SIZE_STR8 <= mpack_writer_buffer_left(writer)) {', 'if (count + MPACK_TAG_SIZE_FIXSTR <= mpack_writer_buffer_left(writer)) {')],
 H + '''static char out[4096]; static size_t n; static void fl(mpack_writer_t* w, const char* d, size_t c) { memcpy(out + n, d, c); n += c; }
int main(void) { for (size_t pre = 0; pre <= 64; ++pre) { char* b = malloc(64), s[50]; memset(s, 'x', 50); mpack_writer_t w; n = 0; mpack_writer_init(&w, b, 64); mpack_writer_set_flush(&w, fl);
 for (size_t i = 0; i < pre; ++i) mpack_write_nil(&w);
 mpack_write_str(&w, s, 50); mpack_write_nil(&w); if (mpack_writer_destroy(&w)) return 1; free(b);
 if (n != pre + 53 || memcmp(out + pre, "\\xd9\\x32", 2) || memcmp(out + pre + 2, s, 50)) return 1; } return 0; }
''')
seed('w03-straddle-refill', 'W03', 'data bigger than the room left, not bigger than the buffer, with a flush function that fails only for the second part',
 'raw data that fits exactly the emptied buffer is cut by one byte when the flush happened in the middle of it',
 [('mpack-writer.c', '''        mpack_memcpy(writer->position, p, count);
        writer->position += count;
    }
}

// Writes encoded bytes''', '''        mpack_memcpy(writer->position, p, count);
        writer->position += count;
        if (writer->position == writer->end)
            --writer->position;
    }
}

// Writes encoded bytes''')],
 H + '''static char out[4096]; static size_t n; static void fl(mpack_writer_t* w, const char* d, size_t c) { memcpy(out + n, d, c); n += c; }
int main(void) { for (size_t len = 0; len <= 80; ++len) { char* b = malloc(64), s[80]; for (int i = 0; i < 80; ++i) s[i] = (char)i; mpack_writer_t w; n = 0; mpack_writer_init(&w, b, 64); mpack_writer_set_flush(&w, fl);
 mpack_start_bin(&w, (uint32_t)len); mpack_write_bytes(&w, s, len); mpack_finish_bin(&w); mpack_write_nil(&w); if (mpack_writer_destroy(&w)) return 1; free(b);
 if (n != len + 3 || memcmp(out + 2, s, len) || (unsigned char)out[n - 1] != 0xc0) { printf("len %zu n %zu\\n", len, n); return 1; } } return 0; }
''')
