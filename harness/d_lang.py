"""Drivers for the language: C01, C02, C03, C20."""
import datashape
from datashape import dshape, pprint
from datashape.error import DataShapeSyntaxError
import datashape.coretypes as ct

import gen
from alpha import cp, guarded, mk, outcome, term, uncp, unnum
from gen import G, mutate, mutchar, spell, Speller, TOKENS


def perr(f, text=None):
    """Like outcome, with the place of a syntax error."""
    how, v = guarded(f)
    if how == 'err' and isinstance(v, DataShapeSyntaxError):
        return place(v)
    if how == 'ok':
        return outcome(lambda: v)
    if how == 'hang':
        return ['hang']

    def again():
        raise v
    return outcome(again)


def place(v):
    try:
        xs = [v.lexpos, v.lineno, v.col_offset]
        if any(type(x) is not int or abs(x) > 10**9 for x in xs):
            return ['crash', 'place of the error: %r' % (xs,)]
        if repr(v) != str(v):
            return ['crash', 'repr and str of the error differ']
        return ['syn'] + xs + [cp(v.line), cp(str(v))]
    except Exception as e:
        return ['crash', 'rendering: %s' % type(e).__name__]


CURATED = [
    '', ' ', '#', '# only a comment', '\n', 'int32', ' int32 ', '3 * int32', '3*int32', '3 * 4 * int32', 'var * int32',
    '... * int32', 'A... * int32', 'A * ... * int32', 'A... * B * int32', '... * ... * int32', '... * A... * int32',
    '{a: ... * ... * int32}', '... * {a: ... * int32}', '(... * int32, ... * int32)', '?int32', '??int32', '? int32', '3 * ?int32',
    '?3 * int32', '?(3 * int32)', 'option[int32]', 'option[?int32]', 'option[3 * int32]', '{}', '{a: int32}', '{a: int32,}',
    '{a: int32, a: int32}', '{,}', '{a: int32,,}', '{a:}', '{a int32}', '{1: int32}', "{'1': int32}", '{"a b": int32}',
    '{True: int32}', '{False: int32, Truex: int32}', '{_: int32}', '{Upper: int32}', '()', '(,)', '(int32)', '(int32,)',
    '(int32, int32)', '(int32,,)', '() -> int32', '(int32) -> int32', '(A, B) -> C', '(int32 -> int32)', 'int32 -> int32',
    '(int32) -> (int32) -> int32', '(int32) ->', '-> int32', 'string', 'string[3]', 'string[A]', "string['A']", "string[3, 'A']",
    "string['A', 3]", 'string[-3]', 'string[]', 'string[3,]', "string['nope']", 'string[True]', 'int32[]', 'int32[3]', 'int32[ ]',
    'complex[float32]', 'complex[float64]', 'complex[real]', 'complex[int32]', 'complex[tp=float32]', 'complex[]', 'complex',
    'decimal[3]', 'decimal[3, 2]', 'decimal[precision=3, scale=2]', 'decimal[3, scale=2]', 'decimal[scale=2]', 'decimal[scale=2, 3]',
    'decimal[precision=3, precision=4]', 'decimal[3, precision=4]', 'decimal[3, 2, 1]', 'decimal', "decimal['3']", 'decimal[int32]',
    "datetime['UTC']", "datetime[tz='UTC']", 'datetime[UTC]', 'datetime[]', 'datetime[tz=]', "time[zt='UTC']", "date['UTC']",
    "timedelta['us']", "timedelta[unit='days']", "timedelta['fortnight']", "timedelta[us]", 'timedelta', "units['m']",
    "units['m', int32]", "units[unit='m', tp=int32]", 'units[m]', 'units', "map[int32, string]", 'map[int32]', 'map', 'map[int32, 3]',
    'map[key=int32, value=string]', 'map[int32, value=string]', 'categorical[[1, 2]]', "categorical[['a', 'b']]",
    "categorical[['a', 'b'], type=string, ordered=True]", 'categorical[]', "categorical[['a', 1]]", 'categorical[[]]',
    'categorical[[True, False], ordered=True]', 'categorical[[int32, int64]]', "struct[['a'], [int32]]", "struct[['a', 'b'], [int32]]",
    "struct[[], []]", "struct[['a', 'a'], [int32, int32]]", 'tuple[[int32, int64]]', 'tuple[[]]', 'tuple[int32]',
    'funcproto[[int32], int64]', 'funcproto[[], int64]', 'typevar[A]', "typevar['A'] * int32", 'fixed[3] * int32',
    "ellipsis['A'] * int32", 'ellipsis * int32', 'ellipsis', 'var', '...', '3', '3 *', '* int32', '3 * 4', '3 * var', '3 * *', 'A',
    'A * B', 'A...', 'A... *', 'int32 * int32', 'int32 * 3', 'int32 int32', 'int32, int32', '3 * int32 # trailing', '3 * # mid\n int32',
    '3 * int32 #', '-3 * int32', '03 * int32', '0 * int32', '00', '1_000 * int32', '3 * int32;', '3.5 * int32', '3 * "int32"', "'a'",
    'True', 'False * int32', 'Truex * int32', 'True * int32', '[int32]', '[', ']', '{', '}', '(', ')', '{a: int32', '(int32', 'map[int32',
    '{a: {b: {c: int32}}}', '{a: 3 * {b: var * int32}}', '3 * {a: int32}', '{"a": int32, \'b\': int32}', '{"": int32}',
    '{"\\u0041": int32}', '{"\\n": int32}', '{"\\x41": int32}', '{"\\\\": int32}', '{"a\nb": int32}', "{'it\\'s': int32}",
    '{"say \\"x\\"": int32}', "{'say \\\"x': int32}", '{"\\u00": int32}', '{"\\ud83d\\ude00": int32}', '{"unterminated: int32}',
    'intptr', 'uintptr', 'int', 'real', 'bool', 'void', 'object', 'null', 'bytes', 'char', 'json', 'complex64', 'complex128',
    'complex_float64', 'float', 'double', 'str', 'Int32', 'INT32', 'int_', 'uint', 'int128', 'bigint', 'any', 'array', 'list',
    '5000000000 * int32', '99999999999999999999999999 * int32', '3 * ?{a: ?int32}', '?{a: int32}', '?(int32, int32)',
    '{a: A... * int32, b: A... * int32}', 'map[... * int32, ... * int32]', "units['m', ... * ... * int32]", '?... * ... * int32',
    '(... * ... * int32) -> int32', '... * (... * int32) -> int32', '3 * (int32) -> int32', '{a: (int32) -> int32, b: int32}',
    'A * (B * int32, C * D)', '{type: int32}', '{int32: int32}', '{var: var * int32}', '{a: int32}{b: int32}', '{a: int32} * 3',
    "datetime[tz='']", "datetime['a', 'b']", 'time[3]', 'timedelta[unit=3]', 'string[[3]]', 'option[]', 'option[int32, int32]',
    'option[3]', 'option', 'var[3] * int32', 'var * var', '3 * typevar', 'A[3] * int32', 'A[3]', '? *', '?', '3 ? int32', '3 * ? ? int32',
    'int32\x00', '\ufeffint32', '\xa0int32', 'int32\u2028', 'é', '{é: int32}', "{'é': int32}", '1 * 2 * 3 * 4 * 5 * 6 * 7 * int8',
]


def soup(rng):
    return [rng.choice(TOKENS) for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 8, 12]))]


WRAPS = [(['('], [')']), (['(', 'int8', ','], [')']), (['('], [',', 'int8', ')']), (['('], [')', '->', 'int8']),
         (['(', ')', '->'], []), (['{', 'a', ':'], ['}']), (['{', 'a', ':', 'int8', ',', 'b', ':'], [',', '}']),
         (['{', "'c'", ':'], [',', 'd', ':', 'int8', '}']), (['?', '('], [')']), (['option', '['], [']']),
         (['map', '[', 'int8', ','], [']']), (['map', '['], [',', 'int8', ']']), (['3', '*'], []),
         (['var', '*'], []), (['N', '*'], []), (['fixed', '[', '2', ']', '*'], []), (['?', '{', 'a', ':'], ['}'])]


def deep(rng):
    """A type wrapped many times, in one way or in several."""
    toks = [rng.choice(['int32', 'T', 'string', 'int64', '?int8', 'datetime', '()', '{}'])]
    ways = rng.sample(WRAPS, rng.choice([1, 1, 2, 3, 6]))
    goal = rng.choice([20, 40, 70, 100])
    while len(toks) < goal:
        a, b = rng.choice(ways)
        toks = a + toks + b
    return toks


def wide(rng, size):
    """A long text of many short parts, right up to a place somewhere in it, or to its end."""
    n = 120 * size + rng.randint(0, 20)
    toks = rng.choice([lambda: ['{'] + sum((['f%d' % i, ':', 'int8', ','] for i in range(n)), []) + ['z', ':', '?', 'bool', '}'],
                       lambda: ['('] + ['date', ','] * (2 * n) + ['string', ')'],
                       lambda: ['('] + ['A', ','] * (2 * n) + ['B', ')', '->', 'C'],
                       lambda: ['categorical', '[', '['] + sum(([str(i), ','] for i in range(2 * n)), []) + ['-1', ']', ']'],
                       lambda: ['2', '*'] * min(2 * n, 300) + ['int32']])()
    if rng.random() < 0.5:
        toks = mutate(rng, toks)
    return rng.choice(['', ' ', '  ']).join(toks)


def texts(c, n, lines=False):
    """Texts in and around the language."""
    rng = c.rng
    g = G(rng)
    for t in c.mine(CURATED):
        yield t
    for s in c.mine([wide(rng, 1), wide(rng, 2), wide(rng, 10)]):
        yield s
    for i in range(n):
        k = rng.random()
        g.nasty = rng.choice([0, 0.1, 0.5])
        g.wild = rng.random() < 0.1
        sp = Speller(rng)
        toks = deep(rng) if rng.random() < 0.03 else sp.t(g.term(rng.choice([0, 1, 2, 2, 3])))
        if len(toks) > 120 and (len(toks) > 600 or rng.random() > 0.05):
            continue
        if k < 0.4:
            yield sp.layout(toks)
        elif k < 0.65:
            yield sp.layout(mutate(rng, toks))
        elif k < 0.85:
            s = sp.layout(toks)
            for _ in range(rng.choice([1, 1, 2])):
                s = mutchar(rng, s)
            yield s
        elif k < 0.93:
            yield sp.layout(soup(rng))
        else:
            s = sp.layout(toks)
            yield s[:rng.randint(0, len(s))]


def C01(c):
    for s in texts(c, c.scale(2200, 40000)):
        c.emit('parse', 'dshape(%r)' % s, text=cp(s), out=perr(lambda: dshape(s)))


def C02(c):
    rng = c.rng
    for s in texts(c, c.scale(1800, 30000)):
        if rng.random() < 0.3:
            s = s.replace(' ', rng.choice(['\n', '\n\n', ' \n ', '\r\n', ' # c\n']))
        if rng.random() < 0.2:
            s = rng.choice(['\n', '# first\n', '   \n\n', '\r\n\t']) + s
        c.emit('syn', 'dshape(%r)' % s, text=cp(s), out=perr(lambda: dshape(s)))
    for _ in range(c.scale(150, 2000)):
        n = rng.randint(0, 12)
        s = ''.join(rng.choice('ab \n\n\t\r*?') for _ in range(n))
        p = rng.randint(0, n)
        c.emit('errobj', 'DataShapeSyntaxError(%d, "<nofile>", %r, "m")' % (p, s), text=cp(s), pos=p,
               out=outcome(lambda: DataShapeSyntaxError(p, '<nofile>', s, 'm'), conv=None) if False else errobj(p, s))


def errobj(p, s):
    how, v = guarded(lambda: DataShapeSyntaxError(p, '<nofile>', s, 'm'))
    if how == 'ok' and (v.msg, str(v).split()[-2:], v.filename) != ('m', ['DataShapeSyntaxError:', 'm'], '<nofile>'):
        return ['crash', 'the message is %s' % v.msg]
    return place(v) if how == 'ok' else ['crash', how]


NAMES = dict(vars(datashape))
NAMES.update((n, getattr(ct, n)) for n in dir(ct))


def read(s):
    return outcome(lambda: dshape(s))


def printed(c, t, x, route, f, py):
    how, s = guarded(f)
    if how != 'ok' or type(s) is not str:
        c.emit('print', py, t=t, route=route, text=[], back=['crash', how if how != 'ok' else type(s).__name__])
        return
    back = outcome(lambda: eval(s, dict(NAMES))) if route == 'repr' else read(s)
    c.emit('print', '%s -> %s' % (py, s), t=t, route=route, text=[] if route == 'repr' else cp(s), back=back)


def show(t):
    try:
        return str(mk(t))
    except Exception:
        return repr(t)


def C03(c):
    rng = c.rng
    g = G(rng)
    for i in range(c.scale(900, 14000)):
        g.nasty = rng.choice([0, 0.2, 0.7])
        g.big = rng.choice([0, 0.2])
        t = g.term(rng.choice([0, 1, 2, 2, 3, 4]))
        how, x = guarded(lambda: mk(t))
        if how != 'ok':
            c.emit('print', 'building %r' % (t,), t=t, route='str', text=[], back=['crash', how])
            continue
        printed(c, t, x, 'str', lambda: str(x), 'str of %r' % (t,))
        w = rng.choice([0, 1, 5, 10, 20, 30, 40, 60, 79, 80, 81, 120, 200, 10**6, -1])
        if rng.random() < 0.7:
            printed(c, t, x, 'pprint', lambda: pprint(x, width=w), 'pprint(width=%d) of %r' % (w, t))
        else:
            printed(c, t, x, 'pprint', lambda: pprint(x), 'pprint of %r' % (t,))
        if t[0] in ('ds', 'rec', 'tup'):
            printed(c, t, x, 'repr', lambda: repr(x), 'repr of %r' % (t,))
        elif rng.random() < 0.5:
            printed(c, t, x, 'repr', lambda: repr(ct.DataShape(x)), 'repr of a DataShape of %r' % (t,))


CONSTS = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float16', 'float32', 'float64',
          'complex64', 'complex128', 'real', 'null', 'void', 'object_', 'bool_', 'string', 'json', 'date_', 'time_', 'datetime_',
          'timedelta_', 'bytes_', 'char', 'int_', 'float_', 'complex_float32', 'complex_float64']
CONST_NAME = {'object_': 'object', 'bool_': 'bool', 'date_': 'date', 'time_': 'time', 'datetime_': 'datetime', 'bytes_': 'bytes',
              'timedelta_': 'timedelta', 'complex_float32': 'complex[float32]', 'complex_float64': 'complex[float64]',
              'int_': 'int', 'float_': 'real'}


def alias(c, s):
    how, x = guarded(lambda: dshape(s))
    out = perr(lambda: dshape(s))
    printed, size, align = '', 0, 0
    if how == 'ok' and out[0] == 'ok':
        try:
            printed = str(x)
            m = x.measure
            if type(m) is ct.CType and m.name != 'void':
                size, align = m.itemsize, m.alignment
                if type(size) is not int or type(align) is not int:
                    size = align = -1
        except Exception as e:
            printed = 'error %s' % type(e).__name__
    c.emit('alias', 'dshape(%r)' % s, text=cp(s), out=out, printed=cp(printed), size=size, align=align)


def C20(c):
    rng = c.rng
    texts = []
    words = ['year', 'month', 'week', 'day', 'date', 'hour', 'minute', 'second', 'millisecond', 'microsecond', 'nanosecond',
             'ns', 'us', 'ms', 's', 'm', 'h', 'D', 'W', 'M', 'Y', 'ps', 'fs', 'as', 'd', 'w', 'y', 'H', 'S', 'min', 'sec', 'µs', 'usec',
             'Day', 'DAY', 'fortnight', 'decade', 'century', 'mo', 'hr', '', 'ss', 'sss', 'ssss', 'mss', 'uss', 'nss', 'hs', 'Ds', 'Ys']
    junk = list('_-.,\t/1sS$"') + ['\xe9', '\u2003', '\x00', '\\n', '  ', '__']
    words += [x for w in ('day', 'D', 'us', 'hours', 'week') for j in junk for x in (j + w, w + j, j + w + j) if '"' not in x]
    for w in words + [w + 's' for w in words] + [w + 'ss' for w in words[:12]] + [' ' + w for w in words[:20]] + [w + ' ' for w in words[:20]]:
        texts.append("timedelta['%s']" % w)
        texts.append("timedelta[unit='%s']" % w)
    encs = ['A', 'ascii', 'U8', 'utf-8', 'utf_8', 'utf8', 'U16', 'utf-16', 'utf_16', 'utf16', 'U32', 'utf-32', 'utf_32', 'utf32',
            'UTF-8', 'u8', 'a', 'Ascii', 'ASCII', 'latin1', 'utf-7', 'U7', 'utf 8', 'utf', 'U', '8', 'U64', 'U08', 'utf-08', 'utf__8']
    encs += [x for e in ('A', 'U8', 'utf-8') for j in '_-. ,\t1$' for x in (j + e, e + j)]
    for e in encs:
        texts += ["string['%s']" % e, "string[7, '%s']" % e, 'string["%s"]' % e]
    names = ['bool', 'bytes', 'char', 'int8', 'int16', 'int32', 'int64', 'intptr', 'int', 'uint8', 'uint16', 'uint32', 'uint64', 'uintptr',
             'float16', 'float32', 'float64', 'complex64', 'complex128', 'real', 'complex', 'string', 'json', 'date', 'time', 'datetime',
             'timedelta', 'null', 'void', 'object', 'uint', 'long', 'float', 'double', 'float128', 'complex256', 'int128', 'str', 'unicode',
             'text', 'boolean', 'number', 'bool_', 'int_', 'any', 'blob', 'byte', 'short', 'half', 'single', 'struct', 'tuple', 'option',
             'map', 'categorical', 'decimal', 'units', 'funcproto', 'typevar', 'fixed', 'var', 'ellipsis', 'complex_float32', 'cfloat32',
             'complex32', 'float8', 'int4', 'int24', 'uint24', 'size', 'ssize', 'timestamp', 'none', 'date_', 'option_']
    for n in names:
        texts += [n, '3 * ' + n, '?' + n, '{x: %s}' % n, n + ' * int32', n.capitalize(), n.upper() + 'x', ' %s ' % n,
                  'map[%s, %s]' % (n, n), '(%s) -> %s' % (n, n), 'complex[%s]' % n, 'complex[tp=%s]' % n,
                  'complex[3 * %s]' % n, 'complex[?%s]' % n, 'complex[{a: %s}]' % n, 'complex[tp=var * %s]' % n, 'complex[(%s)]' % n]
    for a in ['intptr', 'int', 'uintptr', 'real', 'complex', 'complex64', 'complex128']:
        for b in ['intptr', 'int', 'uintptr', 'real', 'complex']:
            texts += ['{a: %s, b: %s}' % (a, b), "units['m', %s]" % a, 'struct[["a"], [%s]]' % b, 'tuple[[%s, %s]]' % (a, b),
                      'funcproto[[%s], %s]' % (a, b), 'option[%s]' % a, 'option[ds=%s]' % a, 'map[key=%s, value=%s]' % (a, b),
                      'map[value=%s, key=%s]' % (a, b), 'map[%s, value=%s]' % (a, b)]
    for s in c.mine(texts):
        alias(c, s)
    g = G(rng, nasty=0.05)
    for _ in range(c.scale(900, 15000)):
        t = g.term(rng.choice([0, 0, 1, 1, 2, 3]))
        if len(str(t)) < 9000:
            alias(c, spell(rng, t))
    if c.shard == 0:
        for n in CONSTS:
            if hasattr(ct, n):
                c.emit('const', 'datashape.' + n, name=cp(CONST_NAME.get(n, n)), out=outcome(lambda: getattr(ct, n)))


# ------------------------------------------------------ replay of generated behaviours
def parse_same(d):
    """[text, result] enumerated by MC_Lang: result is ["ok", T], ["syn", pos], ["exc"] or ["any"]."""
    text, want = uncp(d[0]), d[1]
    got = perr(lambda: dshape(text))
    py = 'dshape(%r)' % text
    if got[0] in ('hang', 'crash'):
        yield 'parse.crash', '%s -> %s' % (py, got)
    elif want[0] == 'ok':
        if got != want:
            yield 'parse.value', '%s -> %s, should be %s' % (py, got, want)
    elif want[0] != 'any' and got[0] not in ('exc', 'syn'):
        yield 'parse.accepted', '%s -> %s, should be refused' % (py, got)


def syn_same(d):
    text, want = uncp(d[0]), d[1]
    got = perr(lambda: dshape(text))
    py = 'dshape(%r)' % text
    if want[0] == 'syn':
        if got[0] != 'syn':
            if got[0] != 'ok' and got[0] != 'weird':
                yield 'error.class', '%s -> %s, should be a syntax error at %d' % (py, got, want[1])
        elif got[1] != want[1]:
            yield 'error.position', '%s -> %s, should be at %d' % (py, got[:4], want[1])
    if got[0] == 'syn' and want[0] != 'any':
        p, s = got[1], text
        if not 0 <= p <= len(s):
            yield 'error.outside', '%s -> %s' % (py, got[:4])
        else:
            start = s.rfind('\n', 0, p) + 1
            end = s.find('\n', p)
            line = s[start:end if end >= 0 else len(s)]
            if got[2:5] != [s.count('\n', 0, p) + 1, p - start, cp(line)]:
                yield 'error.place', '%s -> %s' % (py, got[:4])
            if '\n    %s\n    %s^\n' % (line, ' ' * (p - start)) not in uncp(got[5]):
                yield 'error.rendered', '%s -> %s' % (py, uncp(got[5]))


def print_same(d):
    """[T, text] enumerated by MC_Types: the canonical text of T."""
    t, text = d[0], uncp(d[1])
    how, x = guarded(lambda: mk(t))
    if how != 'ok':
        yield 'build.crash', 'building %r: %s' % (t, x)
        return
    forms = [('str', lambda: str(x)), ('pprint', lambda: pprint(x)), ('pprint12', lambda: pprint(x, width=12))]
    for name, f in forms:
        how, s = guarded(f)
        if how != 'ok' or read(s) != ['ok', t]:
            yield 'print.reads', '%s of %s -> %r reads as %s' % (name, t, s, read(s) if how == 'ok' else how)
    if t[0] in ('ds', 'rec', 'tup'):
        how, s = guarded(lambda: repr(x))
        back = outcome(lambda: eval(s, dict(NAMES))) if how == 'ok' else how
        if back != ['ok', t]:
            yield 'print.repr', 'repr of %s -> %s evaluates to %s' % (t, s, back)


def canon_same(d):
    t, text = d[0], uncp(d[1])
    how, x = guarded(lambda: dshape(text))
    got = outcome(lambda: x) if how == 'ok' else [how]
    if got != ['ok', t]:
        yield 'alias.value', 'dshape(%r) -> %s, should be %s' % (text, got, t)
        return
    s = str(x)
    if nolayout(s) != nolayout(text):
        yield 'alias.printed', 'str(dshape(%r)) -> %r' % (text, s)


def nolayout(s):
    """The text without blanks outside quotes, quotes and escapes as they are."""
    out, q, i = '', None, 0
    while i < len(s):
        ch = s[i]
        if q:
            out += ch
            if ch == '\\':
                i += 1
                out += s[i]
            elif ch == q:
                q = None
        elif ch in '\'"':
            q = ch
            out += "'"
        elif not ch.isspace():
            out += ch
        i += 1
    return out
