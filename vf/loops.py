"""Loop contracts, inserted mechanically after the header of a loop identified by
(file, function, ordinal of the loop in the function). The text of the program is not
otherwise changed; a loop that cannot be found is left alone (and then unwound).

Each entry: (file, function, ordinal, contract, ghost). `contract` is the assigns / invariant
/ decreases text; `ghost` is a statement over ghost state put at the start of the loop body
(it may only instantiate the definition of a specification function, see harness/vf.h)."""
import re

A, I, D = '__CPROVER_assigns', '__CPROVER_loop_invariant', '__CPROVER_decreases'
def inv(*xs): return ' '.join('%s(%s)' % (I, x) for x in xs)
def asg(x): return '%s(%s) ' % (A, x)
def dec(x): return ' %s(%s)' % (D, x)
ENTRY = '__CPROVER_loop_entry'

TABLE = [
 # fallback memory functions (mpack-platform.c); M_k is any index, see harness/h_mem.c
 ('mpack-platform.c', 'mpack_memcmp', 0,
  asg('n, us1, us2') + inv('n <= M_n', 'VF_SAME(us1, s1) && VF_SAME(us2, s2)', '(size_t)(VF_OFF(us1) - VF_OFF(s1)) == M_n - n && (size_t)(VF_OFF(us2) - VF_OFF(s2)) == M_n - n',
   'C[0] == C[M_n - n]') + dec('n'), 'C_unfold(us1);'),
 ('mpack-platform.c', 'mpack_memcpy', 0,
  asg('n, dst, src, __CPROVER_object_upto((char*)s1, M_n)') + inv('n <= M_n', 'VF_SAME(dst, s1) && VF_SAME(src, s2)', '(size_t)(VF_OFF(dst) - VF_OFF(s1)) == M_n - n && (size_t)(VF_OFF(src) - VF_OFF(s2)) == M_n - n',
   'M_k >= M_n - n || ((const char*)s1)[M_k] == M_b') + dec('n'), ''),
 ('mpack-platform.c', 'mpack_memmove', 0,
  asg('n, p1, p2, __CPROVER_object_upto((char*)s1, M_n)') + inv('n <= M_n', 'VF_SAME(p1, s1) && VF_SAME(p2, s2)', '(size_t)(VF_OFF(p1) - VF_OFF(s1)) == n && (size_t)(VF_OFF(p2) - VF_OFF(s2)) == n',
   'M_k >= M_n || (M_k >= n ? ((const char*)s1)[M_k] == M_b : ((const char*)s2)[M_k] == M_b)') + dec('n'), ''),
 ('mpack-platform.c', 'mpack_memmove', 1,
  asg('n, p1, p2, __CPROVER_object_upto((char*)s1, M_n)') + inv('n <= M_n', 'VF_SAME(p1, s1) && VF_SAME(p2, s2)', '(size_t)(VF_OFF(p1) - VF_OFF(s1)) == M_n - n && (size_t)(VF_OFF(p2) - VF_OFF(s2)) == M_n - n',
   'M_k >= M_n || (M_k < M_n - n ? ((const char*)s1)[M_k] == M_b : ((const char*)s2)[M_k] == M_b)') + dec('n'), ''),
 ('mpack-platform.c', 'mpack_memset', 0,
  asg('n, us, __CPROVER_object_upto((char*)s, M_n)') + inv('n <= M_n', 'VF_SAME(us, s)', '(size_t)(VF_OFF(us) - VF_OFF(s)) == M_n - n',
   'M_k >= M_n - n || ((const unsigned char*)s)[M_k] == (unsigned char)c') + dec('n'), ''),
 ('mpack-platform.c', 'mpack_strlen', 0,
  asg('p') + inv('VF_SAME(p, s)', 'VF_OFF(p) >= VF_OFF(s) && (size_t)(VF_OFF(p) - VF_OFF(s)) <= M_n', 'M_k >= (size_t)(VF_OFF(p) - VF_OFF(s)) || s[M_k] != 0')
  + dec('M_n - (size_t)(VF_OFF(p) - VF_OFF(s))'), ''),
 # UTF-8: V[i] = "the text is valid from byte i on"; each turn of the loop unfolds its definition once (harness/utf8.h)
 ('mpack-common.c', 'mpack_utf8_check_impl', 0,
  asg('str, count') + inv('count <= V_n', 'VF_SAME(str, V_s)', '(size_t)(VF_OFF(str) - VF_OFF(V_s)) == V_n - count', '(V[0] != 0) == (V[V_n - count] != 0)') + dec('count'),
  'V_unfold(str);'),
 ('mpack-common.c', 'mpack_str_check_no_null', 0,
  asg('i') + inv('i <= bytes', '(V[0] != 0) == (V[i] != 0)') + dec('bytes - i'), 'Z_unfold(str + i);'),
 ('mpack-common.c', 'mpack_tag_debug_complete_bin_ext', 0,
  asg('i, hex_bytes, buffer, buffer_size, __CPROVER_object_upto(T_b, T_n)') + inv('VF_SAME(buffer, T_b)', 'VF_OFF(buffer) >= VF_OFF(T_b)', 'buffer_size <= T_n && (size_t)(VF_OFF(buffer) - VF_OFF(T_b)) == T_n - buffer_size', 'i <= prefix_size', 'hex_bytes == i && i <= MPACK_PRINT_BYTE_COUNT')
  + dec('MPACK_PRINT_BYTE_COUNT - i'), ''),
 # discarding: see contracts/discard.ct
 ('mpack-reader.c', 'mpack_discard', 0,
  asg('var.v.n, reader->error, D_need, D_pay') + inv('reader->error == mpack_ok', 'D_pay == 0 && D_need == D_floor + var.v.n') + dec('var.v.n'), ''),
 ('mpack-reader.c', 'mpack_discard', 1,
  asg('var.v.n, reader->error, D_need, D_pay') + inv('reader->error == mpack_ok', 'D_pay == 0 && D_need == D_floor + 2 * (uint64_t)var.v.n') + dec('var.v.n'), ''),
 # files
 ('mpack-node.c', 'mpack_file_tree_read', 0,
  asg('total, F_pos, F_eof, F_ferr, __CPROVER_object_upto(file_tree->data, (size_t)size)') + inv('total >= 0 && total <= size', 'F_pos == (uint64_t)total', 'L_AT(file_tree->data, 0, total)') + dec('size - total'), ''),
 # reader
 ('mpack-reader.c', 'mpack_fill_range', 0,
  asg('count, reader->error, reader->end, G_f, G_fills, G_bad, G_err_calls, G_err_seen, __CPROVER_object_upto(p, max_bytes)')
  + inv('count <= max_bytes', 'reader->error == mpack_ok && !G_bad', 'reader->end == %s(reader->end)' % ENTRY, 'G_f == %s(G_f) - count' % ENTRY, 'G_fills >= %s(G_fills) && (count == 0 || G_fills > %s(G_fills))' % (ENTRY, ENTRY), 'G_err_calls == %s(G_err_calls) && G_err_seen == %s(G_err_seen)' % (ENTRY, ENTRY),
   'R_BYTE_AT(p, %s(G_f), count)' % ENTRY) + dec('max_bytes - count'), ''),
 ('mpack-reader.c', 'mpack_reader_skip_using_fill', 0,
  asg('count, reader->error, reader->end, G_f, G_fills, G_bad, G_err_calls, G_err_seen, __CPROVER_object_upto(reader->buffer, reader->size)')
  + inv('count > 0 && count <= %s(count)' % ENTRY, 'reader->error == mpack_ok && !G_bad', 'reader->end == %s(reader->end)' % ENTRY, 'G_f - %s(G_f) == count - %s(count)' % (ENTRY, ENTRY), 'G_fills >= %s(G_fills) && (count == %s(count) || G_fills > %s(G_fills))' % (ENTRY, ENTRY, ENTRY), 'G_err_calls == %s(G_err_calls) && G_err_seen == %s(G_err_seen)' % (ENTRY, ENTRY))
  + dec('count'), ''),
 ('mpack-expect.c', 'mpack_expect_str_match', 0,
  asg('len, str, reader->data, reader->end, reader->error, G_f, G_fills, G_bad, G_err_calls, G_err_seen, __CPROVER_object_upto(R_fb, R_fn)')
  + inv('len <= X_n', 'VF_SAME(str, X_s) && (size_t)(VF_OFF(str) - VF_OFF(X_s)) == X_n - len', 'R_LOOP(reader, %s(reader->data), %s(reader->end))' % (ENTRY, ENTRY),
        'reader->error != mpack_ok || (R_LEFT(reader) + G_f == ((uint64_t)(VF_OFF(__CPROVER_loop_entry(reader->end)) - VF_OFF(__CPROVER_loop_entry(reader->data))) + __CPROVER_loop_entry(G_f)) - (X_n - len) && R_BYTE_AT(reader->data, G_f + R_LEFT(reader), R_LEFT(reader)))',
        'reader->error != mpack_ok || !(((uint64_t)(VF_OFF(__CPROVER_loop_entry(reader->end)) - VF_OFF(__CPROVER_loop_entry(reader->data))) + __CPROVER_loop_entry(G_f)) < X_n - len) || (uint8_t)X_s[((uint64_t)(VF_OFF(__CPROVER_loop_entry(reader->end)) - VF_OFF(__CPROVER_loop_entry(reader->data))) + __CPROVER_loop_entry(G_f))] == G_b[0]',
        '!G_bad && (G_fills > %s(G_fills) || (G_fills == %s(G_fills) && G_f == %s(G_f)))' % (ENTRY, ENTRY, ENTRY), 'reader->error == mpack_ok ? G_err_calls == %s(G_err_calls) && G_err_seen == %s(G_err_seen) : G_err_calls == %s(G_err_calls) + (reader->error_fn != NULL) && (reader->error_fn == NULL ? G_err_seen == %s(G_err_seen) : G_err_seen == (int)reader->error)' % (ENTRY, ENTRY, ENTRY, ENTRY),
        '(((size_t)(VF_OFF(__CPROVER_loop_entry(reader->end)) - VF_OFF(__CPROVER_loop_entry(reader->data)))) >= X_n) ? reader->error == mpack_ok && G_fills == %s(G_fills) && R_LEFT(reader) == ((size_t)(VF_OFF(__CPROVER_loop_entry(reader->end)) - VF_OFF(__CPROVER_loop_entry(reader->data)))) - (X_n - len) : reader->fill != NULL || R_LEFT(reader) <= ((size_t)(VF_OFF(__CPROVER_loop_entry(reader->end)) - VF_OFF(__CPROVER_loop_entry(reader->data))))' % ENTRY) + dec('len'), 'X_unfold(reader->data, R_LEFT(reader), str);'),
]

# recursive functions: the definition is renamed vf_self_X (and checked under that name), so that
# calls of X, the recursive ones included, are calls of another function with X's contract
SELF = {('mpack-reader.c', 'mpack_discard')}

def blank(text):
    """comments and literals replaced by spaces, same length"""
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), text, flags=re.S)

def match(b, i, o, c):
    d = 0
    while i < len(b):
        if b[i] == o: d += 1
        elif b[i] == c:
            d -= 1
            if d == 0: return i
        i += 1
    return -1

def body(b, fn):
    for m in re.finditer(r'\b%s\s*\(' % fn, b):
        e = match(b, m.end() - 1, '(', ')')
        if e < 0: continue
        k = e + 1
        while k < len(b) and b[k].isspace(): k += 1
        if k < len(b) and b[k] == '{' and not re.search(r'[=;,(&|!?]\s*$', b[max(0, m.start() - 3):m.start()]):
            return k, match(b, k, '{', '}'), m.start()
    return None

def stmt_end(b, k):
    """index just behind the statement starting at k"""
    while b[k].isspace(): k += 1
    if b[k] == '{': return match(b, k, '{', '}') + 1
    m = re.match(r'(if|while|for)\s*\(', b[k:])
    if m:
        e = stmt_end(b, match(b, k + m.end() - 1, '(', ')') + 1)
        m2 = re.match(r'\s*else\b', b[e:])
        return stmt_end(b, e + m2.end()) if m.group(1) == 'if' and m2 else e
    d = 0
    while not (b[k] == ';' and d == 0):
        d += b[k] in '([{'; d -= b[k] in ')]}'; k += 1
    return k + 1

def inject(fname, text, fns):
    todo = [t for t in TABLE if t[0] == fname and t[1] in fns]
    if not todo: return text, {}, []
    b = blank(text); ins = []; done = {}; notes = []
    for f, fn, no, contract, ghost in todo:
        r = body(b, fn)
        if not r: notes.append('%s: no function %s' % (f, fn)); continue
        ls = [m for m in re.finditer(r'\b(while|for)\s*\(', b[r[0]:r[1]])]
        if no >= len(ls): notes.append('%s: no loop %d in %s' % (f, no, fn)); continue
        p = r[0] + ls[no].end() - 1; e = match(b, p, '(', ')')
        k = e + 1
        while b[k].isspace(): k += 1
        if b[k] == ';' : notes.append('%s: loop %d of %s has no body' % (f, no, fn)); continue
        ins.append((e + 1, ' ' + ' '.join(contract.split()) + ' '))
        if ghost:
            if b[k] == '{': ins.append((k + 1, ' ' + ghost + ' '))
            else: ins.append((stmt_end(b, k), ' } ')); ins.append((k, '{ ' + ghost + ' '))
        done[(fn, no)] = contract
    for f, fn in SELF:
        if f == fname and fn in fns and body(b, fn): ins.append((body(b, fn)[2], 'vf_self_'))
    for pos, s in sorted(ins, reverse=True): text = text[:pos] + s + text[pos:]
    return text, done, notes
