"""Registry: proof units, and which units decide which property."""
from .engine import Unit, VERIF
from . import gen
import os
_C = [c for f in sorted(os.listdir(os.path.join(VERIF, "contracts"))) if f.endswith(".ct") and f != "templates.ct" for c in gen.parse(os.path.join(VERIF, "contracts", f))]
INTERNAL = {c.name for c in _C if c.static}
U = {}
BY_FN = {}
def add(name, *a, **k):
    u = Unit(name, *a, **k); U[name] = u
    if u.internal is None: u.internal = u.fn in INTERNAL
    (None if k.get('aux') else BY_FN.setdefault(u.fn, []).append(name))
    return u

# ---------------------------------------------------------------- writer
for t in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64'):
    add('write_' + t, 'h_wint', 'h_write_' + t, 'mpack_write_' + t, replace=['mpack_writer_ensure'], cases=(0, 1), cfgs=('rel', 'size'), window=True)
add('ensure', 'h_wint', 'h_ensure', 'mpack_writer_ensure', cases=(1,), window=True)
add('straddle', 'h_wint', 'h_straddle', 'mpack_write_native_straddle', cases=(1,), window=True)
add('write_native', 'h_wint', 'h_native', 'mpack_write_native', replace=['mpack_write_native_straddle'], cases=(0, 1), window=True)

for t in ('nil', 'true', 'false', 'bool', 'float', 'double'):
    add('write_' + t, 'h_whdr', 'h_write_' + t, 'mpack_write_' + t, replace=['mpack_writer_ensure'], cases=(0, 1), window=True)
add('write_raw_float', 'h_whdr', 'h_write_raw_float', 'mpack_write_raw_float', replace=['mpack_writer_ensure'], cases=(0, 1), cfgs=('nofloat',), window=True)
add('write_raw_double', 'h_whdr', 'h_write_raw_double', 'mpack_write_raw_double', replace=['mpack_writer_ensure'], cases=(0, 1), cfgs=('nodouble',), window=True)
for t in ('array', 'map', 'str', 'bin', 'ext'):
    add('start_' + t, 'h_whdr', 'h_start_' + t, 'mpack_start_' + t, replace=['mpack_writer_ensure'], cases=(0, 1), cfgs=('rel', 'plain') if t in ('str', 'bin') else ('rel',), window=True)
add('write_timestamp', 'h_whdr', 'h_write_timestamp', 'mpack_write_timestamp', replace=['mpack_writer_ensure'], cases=(0, 1), window=True)
add('write_tag', 'h_whdr', 'h_write_tag', 'mpack_write_tag', replace=['mpack_writer_ensure'], cases=tuple('%d/%d' % (c, t) for t in range(13) for c in (0, 1)), cfgs=('rel',), window=True, vac_ok=('1/0', '1/12'))
SN = ['mpack_writer_ensure', 'mpack_write_native_straddle']
add('object_bytes', 'h_wdata', 'h_object_bytes', 'mpack_write_object_bytes', replace=SN, cases=(0, 1), window=True)
add('bytes', 'h_wdata', 'h_bytes', 'mpack_write_bytes', replace=SN, cases=(0, 1), window=True)
DS = tuple('%d/%d' % (c, s) for c in (0, 1, 2) for s in range(4))
add('str', 'h_wdata', 'h_str', 'mpack_write_str', replace=SN, cases=tuple(x for x in DS if x != '2/0'), window=True)
add('str_short', 'h_wdata', 'h_str', 'mpack_write_str', replace=SN, cases=('2/0',), cost=5)
add('str_size', 'h_wdata', 'h_str', 'mpack_write_str', replace=SN, cases=DS, cfgs=('size',), window=True)
add('bin', 'h_wdata', 'h_bin', 'mpack_write_bin', replace=SN, cases=DS, window=True)
add('ext', 'h_wdata', 'h_ext', 'mpack_write_ext', replace=SN, cases=DS, window=True)

W4 = []
add('wflag_error', 'h_whdr', 'h_wflag_error', 'mpack_writer_flag_error')
for t in ('utf8', 'cstr', 'cstr_or_nil', 'utf8_cstr', 'utf8_cstr_or_nil'):
    W4.append('wt_' + t); add('wt_' + t, 'h_wtext', 'h_' + t, 'mpack_write_' + t, replace=['mpack_write_str', 'mpack_write_nil', 'mpack_utf8_check', 'mpack_writer_flag_error'], window=True)

# ---------------------------------------------------------------- writer: growing, closing, files
W5, C10 = [], []
WRM = r'mpack_(reader|tree)_init_(filename|stdfile|file|growable)\w*|mpack_print\w*|mpack_node_print\w*|mpack_tree_init\w*'
def gadd(t, h, fn, grp=W5, rm=r'|mpack_writer_init_(filename|stdfile)', **k): grp.append(t); add(t, h, 'h_' + t, 'mpack_' + fn, aux=True, **dict(dict(rmbody=WRM + rm), **k))
gadd('gflush', 'h_grow', 'growable_writer_flush'); gadd('gensure', 'h_grow', 'writer_ensure'); gadd('gstraddle', 'h_grow', 'write_native_straddle')
gadd('gflush_message', 'h_grow', 'writer_flush_message'); gadd('gdestroy', 'h_grow', 'writer_destroy'); gadd('ginit', 'h_grow', 'writer_init_growable')
gadd('cdestroy', 'h_wclose', 'writer_destroy', rm=r'|mpack_writer_init_\w+'); gadd('cflush_message', 'h_wclose', 'writer_flush_message', rm=r'|mpack_writer_init_\w+'); gadd('cset_flush', 'h_wclose', 'writer_set_flush', rm=r'|mpack_writer_init_\w+')
FW = r'|mpack_writer_init_growable'
gadd('fflush', 'h_wfile', 'file_writer_flush', rm=FW); gadd('fdestroy', 'h_wfile', 'writer_destroy', rm=FW); gadd('finit', 'h_wfile', 'writer_init_stdfile', rm=FW); gadd('finit_name', 'h_wfile', 'writer_init_filename', rm=FW)

RF = r'mpack_writer_init_\w+|mpack_print\w*|mpack_node_print\w*'
def ladd(t, fn, **k): C10.append(t); add(t, 'h_rfile', 'h_' + t, 'mpack_' + fn, aux=True, rmbody=RF, **k)
ladd('lfill', 'file_reader_fill'); ladd('lskip', 'file_reader_skip', replace=['mpack_reader_skip_using_fill'])
ladd('ldestroy', 'reader_destroy'); ladd('linit', 'reader_init_stdfile'); ladd('linit_name', 'reader_init_filename')
ladd('ltree', 'tree_init_stdfile', loops=('mpack_file_tree_read',)); ladd('ltree_name', 'tree_init_filename', loops=('mpack_file_tree_read',)); ladd('ltree_destroy', 'tree_destroy')
C10 += ['fflush', 'fdestroy', 'finit', 'finit_name']

# ---------------------------------------------------------------- common
add('utf8', 'h_common', 'h_utf8', 'mpack_utf8_check', loops=('mpack_utf8_check_impl',))
add('utf8_no_null', 'h_common', 'h_utf8_no_null', 'mpack_utf8_check_no_null', loops=('mpack_utf8_check_impl',))
for t in ('memcpy', 'memmove', 'memset', 'memcmp', 'strlen'):
    add(t, 'h_mem', 'h_' + t, 'mpack_' + t, loops=('mpack_' + t,), cfgs=('nostd',))
add('no_null', 'h_common', 'h_no_null', 'mpack_str_check_no_null', loops=('mpack_str_check_no_null',))

add('tag_cmp_pair', 'h_tag', 'h_cmp_pair', 'mpack_tag_cmp', cfgs=('rel', 'plain'))
add('tag_cmp_triple', 'h_tag', 'h_cmp_triple', 'mpack_tag_cmp', cfgs=('rel',))
add('tag_make', 'h_tag', 'h_tag_make', 'mpack_tag_make_int', contract=False)
for t in ('endian', 'endian_store', 'endian_float'):
    add(t, 'h_tag', 'h_' + t, 'mpack_load_u32', contract=False, cfgs=('rel', 'nobuiltin') if t != 'endian_float' else ('rel',))

add('bin_ext', 'h_text', 'h_bin_ext', 'mpack_tag_debug_complete_bin_ext', cfgs=('dbg',), loops=('mpack_tag_debug_complete_bin_ext',))
for t, f in (('pseudo_json', 'tag_debug_pseudo_json'), ('describe', 'tag_debug_describe'), ('print_append', 'print_append'), ('print_flush', 'print_flush')):
    add(t, 'h_text', 'h_' + t, 'mpack_' + f, cfgs=('dbg',), replace=['mpack_tag_debug_complete_bin_ext'] if t == 'pseudo_json' else [])

# ---------------------------------------------------------------- reader
RMB = r'mpack_(reader|tree|writer)_init_(filename|stdfile|file|growable)\w*|mpack_print\w*|mpack_node_print\w*|mpack_tree_init\w*'
FE = ['mpack_reader_flag_error']
add('rflag_error', 'h_rcore', 'h_flag_error', 'mpack_reader_flag_error')
add('fill_range', 'h_rcore', 'h_fill_range', 'mpack_fill_range', loops=('mpack_fill_range',), replace=FE, rmbody=RMB)
FR = FE + ['mpack_fill_range']
SK = FE + ['mpack_fill_range', 'mpack_reader_skip_using_fill']
def radd(n, fn, replace, **k): add(n, 'h_rcore', 'h_' + n, 'mpack_' + fn, replace=replace, **dict(dict(rmbody=RMB), **k))
radd('ensure_straddle', 'reader_ensure_straddle', FR)
radd('read_native_straddle', 'read_native_straddle', FR)
radd('read_native', 'read_native', FE + ['mpack_read_native_straddle'])
radd('read_bytes', 'read_bytes', FE + ['mpack_read_native'])
radd('skip_using_fill', 'reader_skip_using_fill', FR, loops=('mpack_reader_skip_using_fill',))
radd('skip_straddle', 'skip_bytes_straddle', SK)
radd('skip_bytes', 'skip_bytes', FE + ['mpack_skip_bytes_straddle'])
radd('bytes_inplace', 'read_bytes_inplace', FE + ['mpack_read_bytes_inplace_notrack'])
radd('bytes_inplace_notrack', 'read_bytes_inplace_notrack', FE + ['mpack_reader_ensure_straddle'])
add('read_tag', 'h_rtag', 'h_read_tag', 'mpack_read_tag', replace=FE + ['mpack_reader_ensure_straddle'], cases=tuple(range(6)), cost=5, window=True, rmbody=RMB)
add('peek_tag', 'h_rtag', 'h_peek_tag', 'mpack_peek_tag', replace=FE + ['mpack_reader_ensure_straddle'], cases=tuple(range(6)), cost=5, window=True, rmbody=RMB)

XT = FE + ['mpack_read_tag']
XS = FE + ['mpack_reader_ensure_straddle']
E1, E3 = [], []
def xadd(t, rep, grp, **k):
    n = 'x_' + t; grp.append(n)
    add(n, 'h_expect', 'h_' + t, 'mpack_expect_' + t, replace=FE + ['mpack_' + r for r in rep], window=True, rmbody=RMB, **k)
for t in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64'):
    xadd(t, ['read_tag'], E1)
    xadd(t + '_range', ['expect_' + t], E1); xadd(t + '_max', ['expect_%s_range' % t], E1)
for t in ('uint', 'int'):
    q = t[0] + '32'
    xadd(t, ['expect_' + q], E1); xadd(t + '_range', ['expect_%s_range' % q], E1); xadd(t + '_max', ['expect_%s_range' % t], E1)
xadd('uint_match', ['expect_u64'], E1); xadd('int_match', ['expect_i64'], E1)
for t in ('float', 'double', 'float_strict', 'double_strict'): xadd(t, ['read_tag'], E1)
for t in ('float', 'double'): xadd(t + '_range', ['expect_' + t], E1)
xadd('raw_float', ['read_tag'], E1, cfgs=('nofloat',)); xadd('raw_double', ['read_tag'], E1, cfgs=('nofloat',))
for t in ('nil', 'bool'): xadd(t, ['reader_ensure_straddle'], E3)
for t in ('true', 'false'): xadd(t, ['expect_bool'], E3)
xadd('tag', ['read_tag'], E3)
for t in ('map', 'array'):
    xadd(t, ['read_tag'], E3); xadd(t + '_range', ['expect_' + t], E3); xadd(t + '_max', ['expect_%s_range' % t], E3); xadd(t + '_match', ['expect_' + t], E3)
    xadd(t + '_or_nil', ['read_tag'], E3); xadd(t + '_max_or_nil', ['expect_%s_or_nil' % t], E3)
E2 = []
xadd('str', ['reader_ensure_straddle'], E2); xadd('bin', ['read_tag'], E2); xadd('ext', ['read_tag'], E2)
for t in ('str_max', 'str_length', 'bin_max', 'bin_size', 'ext_max', 'ext_size'): xadd(t, ['expect_' + t[:3]], E2)

TX = ['utf8_check', 'utf8_check_no_null', 'str_check_no_null']
def dadd(t, rep, grp=E2, **k):
    n = 'd_' + t; grp.append(n)
    add(n, 'h_data', 'h_' + t, 'mpack_expect_' + t, replace=FE + ['mpack_' + r for r in rep], window=True, rmbody=RMB, **k)
dadd('str_buf', ['expect_str', 'read_bytes']); dadd('utf8', ['expect_str_buf'] + TX); dadd('bin_buf', ['expect_bin', 'read_bytes'])
dadd('bin_size_buf', ['expect_bin_size', 'read_bytes']); dadd('ext_buf', ['expect_ext', 'read_bytes'])
for t in ('cstr', 'utf8_cstr'): dadd(t, ['expect_str', 'read_native'] + TX)
for t in ('cstr_alloc', 'utf8_cstr_alloc'): dadd(t, ['expect_str_max', 'read_native'] + TX)
dadd('bin_alloc', ['expect_bin_max', 'read_native']); dadd('ext_alloc', ['expect_ext_max', 'read_native'])

add('native_u8', 'h_match', 'h_native_u8', 'mpack_expect_native_u8', replace=XS, rmbody=RMB)
add('str_match', 'h_match', 'h_str_match', 'mpack_expect_str_match', replace=FE + ['mpack_expect_str_length', 'mpack_expect_native_u8'], loops=('mpack_expect_str_match',), cases=(0, 1), cost=5, rmbody=RMB);
R3 = []
def tadd(t, fn, rep, **k):
    R3.append(t); add(t, 'h_rtext', 'h_' + t, 'mpack_' + fn, replace=FE + ['mpack_' + r for r in rep], **dict(dict(rmbody=RMB), **k))
tadd('read_utf8', 'read_utf8', ['read_native'] + TX); tadd('read_cstr', 'read_cstr', ['read_native'] + TX); tadd('read_utf8_cstr', 'read_utf8_cstr', ['read_native'] + TX)
tadd('bytes_alloc', 'read_bytes_alloc_impl', ['read_native']); tadd('utf8_inplace', 'read_utf8_inplace', ['read_bytes_inplace_notrack'] + TX)
add('timestamp', 'h_rtext', 'h_timestamp', 'mpack_read_timestamp', replace=FE + ['mpack_read_native_straddle'], rmbody=RMB)
PROPSR = ['fill_range', 'ensure_straddle', 'read_native_straddle', 'read_native', 'read_bytes', 'skip_using_fill', 'skip_straddle', 'skip_bytes', 'bytes_inplace', 'bytes_inplace_notrack']

add('discard', 'h_discard', 'h_discard', 'mpack_discard', replace=['mpack_read_tag', 'mpack_skip_bytes', 'mpack_discard'], loops=('mpack_discard',), rmbody=RMB)

# ---------------------------------------------------------------- nodes
FT = ['mpack_tree_flag_error']
N2, N3, N5, N6 = [], [], [], []
def nadd(t, grp, rep=(), **k):
    n = 'n_' + t; grp.append(n)
    add(n, 'h_node', 'h_' + t, 'mpack_node_' + t, replace=FT + ['mpack_' + r for r in rep], **dict(dict(rmbody=RMB), **k))
add('n_flag_error', 'h_node', 'h_flag_error', 'mpack_tree_flag_error')
for t in ('u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'uint', 'int', 'bool', 'true', 'false', 'nil', 'missing', 'is_nil', 'is_missing', 'type', 'float', 'double', 'float_strict', 'double_strict'): nadd(t, N2)
nadd('tag', N2, cfgs=('rel', 'plain'))
for t in ('raw_float', 'raw_double'): nadd(t, N2, cfgs=('nofloat',))
for t in ('array_length', 'map_count', 'array_at', 'map_key_at', 'map_value_at'): nadd(t, N5)
for t in ('exttype', 'strlen', 'bin_size', 'str', 'bin_data'): nadd(t, N3)
for t in ('data_len', 'data'): nadd(t, N3, cfgs=('rel', 'plain'))
TX = ['utf8_check', 'utf8_check_no_null', 'str_check_no_null']
for t in ('copy_data', 'data_alloc'): nadd(t, N3, cfgs=('rel', 'plain'))
for t in ('check_utf8', 'check_utf8_cstr', 'copy_utf8', 'copy_cstr', 'copy_utf8_cstr', 'cstr_alloc', 'utf8_cstr_alloc'): nadd(t, N3, TX)
for t in ('timestamp', 'timestamp_seconds', 'timestamp_nanoseconds'): nadd(t, N6)

add('rt', 'h_rt', 'h_rt', 'mpack_write_tag', contract=False)
add('rt_ts', 'h_rt', 'h_rt_ts', 'mpack_write_timestamp', contract=False)

# ---------------------------------------------------------------- properties
PROPS = {
    'W04': dict(units=W4),
    'W05': dict(units=W5),
    'C10': dict(units=C10),
    'W07': dict(units=['wflag_error', 'ensure', 'straddle', 'write_u8', 'write_i64', 'write_nil', 'write_double', 'start_map', 'start_ext', 'write_tag', 'write_timestamp', 'write_native', 'object_bytes', 'bytes', 'str', 'str_size', 'cdestroy', 'cflush_message', 'cset_flush', 'fflush']),
    'N02': dict(units=N2), 'N03': dict(units=N3), 'N05': dict(units=N5),
    'E01': dict(units=E1), 'E02': dict(units=E2), 'E03': dict(units=E3),
    'R01': dict(units=['read_tag', 'peek_tag']),
    'R02': dict(units=PROPSR),
    'C05': dict(units=['pseudo_json', 'describe', 'print_append', 'print_flush']),
    'C02': dict(units=['tag_cmp_pair', 'tag_cmp_triple', 'tag_make']),
    'C03': dict(units=['endian', 'endian_store', 'endian_float']),
    'C06': dict(units=['memcpy', 'memmove', 'memset', 'memcmp', 'strlen']),
    'C01': dict(units=['utf8', 'utf8_no_null', 'no_null']),
    'R03': dict(units=['ensure_straddle', 'read_native', 'read_bytes', 'skip_bytes', 'bytes_inplace', 'read_tag', 'x_nil', 'x_bool', 'd_str_buf', 'd_cstr', 'd_bin_alloc'] + R3),
    'R04': dict(units=['discard']),
    'R05': dict(units=['rflag_error', 'read_native', 'read_bytes', 'skip_bytes', 'bytes_inplace', 'read_tag', 'read_utf8', 'read_cstr', 'bytes_alloc', 'x_nil', 'x_bool', 'x_u8', 'x_float', 'x_map', 'x_array_or_nil', 'x_tag', 'd_bin_buf']),
    'R06': dict(units=['timestamp'] + N6),
    'R07': dict(units=['rt', 'rt_ts', 'write_tag', 'read_tag', 'write_timestamp', 'timestamp']),
    'W01': dict(units=['write_' + t for t in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64')]),
    'W02': dict(units=['write_' + t for t in ('nil', 'true', 'false', 'bool', 'float', 'double', 'raw_float', 'raw_double', 'timestamp', 'tag')] + ['start_' + t for t in ('array', 'map', 'str', 'bin', 'ext')]),
    'W03': dict(units=['object_bytes', 'bytes', 'str', 'str_short', 'str_size', 'bin', 'ext']),
}

def units_of(prop):
    """listed units plus the units that enforce every contract they rely on"""
    todo = list(PROPS[prop]['units']); out = []
    while todo:
        n = todo.pop(0)
        if n in out: continue
        out.append(n)
        for r in U[n].replace: todo += BY_FN.get(r, [])
    return [U[n] for n in out]
