"""Random terms of the specification and texts which spell them."""
from alpha import cp, num, uncp, unnum

INTS = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64']
FLOATS = ['float16', 'float32', 'float64']
COMPLEX = ['complex[float32]', 'complex[float64]']
NUMS = INTS + FLOATS + COMPLEX
CTS = NUMS + ['bool', 'void', 'object', 'char']
UNITS = ['ns', 'us', 'ms', 's', 'm', 'h', 'D', 'W', 'M', 'Y']
ENCS = ['A', 'U8', 'U16', 'U32']
WORDS = ['a', 'b', 'x', 'id', 'name', 'amount', 'Ab', '_z', 'f0', 'f1', 'True', 'Truest', 'False', 'type', 'int32',
         'var', 'struct', 'A', 'None', 'x1', 'True_', 'k', 'long_field_name_for_line_breaking', 'é', 'naïve']
NASTY = ["it's", 'say "hi"', "both ' and \"", 'a b', '1st', '', '3', 'a-b', 'a.b', 'back\\slash', '\\n', 'tab\there',
         'new\nline', 'cr\rx', '\x00', '\x1f', '\x7f', '\u2028', '\u3042\u3044', '\U0001f600', '\ud800', '#no', '# c',
         ', b: int32', '{', '}', ':', '*', '?', '...', 'True\n', 'a\n', ' lead', 'trail ', '\\u0041', '\\', '"', "'",
         '\\"', "\\'", '""', "'''", '\xa0', '\x85', '\x0b', '\x0c', '\x08', 'a\u0300', '${x}', '%s', '%(a)s', '{0}', '\ufeff',
         'UTC\u2029', '\x1b[0m', 'ß', 'İ']
TZS = ['UTC', 'America/New_York', 'Europe/Berlin', 'EST5EDT', '+01:00', '']
UPS = ['A', 'B', 'T', 'N', 'X', 'Abc', 'T1', 'M_', 'Truth', 'Falsey', 'None', 'TRUE']


class G(object):
    def __init__(self, rng, nasty=0.15, big=0.1):
        self.rng = rng
        self.nasty = nasty
        self.big = big
        self.wild = False       # any number of wildcards in a datashape

    def pick(self, xs):
        return self.rng.choice(xs)

    def chance(self, p):
        return self.rng.random() < p

    # ------------------------------------------------------------- leaves
    def anytext(self):
        r = self.rng
        if self.chance(0.75):
            if self.chance(0.25):     # in the middle of an ordinary text
                return self.pick(TZS) + self.pick(NASTY) + self.pick(['', '', 'x', '/Z'])
            return self.pick(NASTY)
        n = r.randint(0, 8) if not self.chance(0.02) else r.randint(260, 330)
        out = ''
        for _ in range(n):
            k = r.random()
            if k < 0.5:
                out += chr(r.randint(32, 126))
            elif k < 0.6:
                out += chr(r.randint(0, 31))
            elif k < 0.7:
                out += self.pick('\'"\\')
            elif k < 0.8:
                out += chr(r.randint(127, 255))
            elif k < 0.95:
                out += chr(r.randint(256, 0xffff))
            else:
                out += chr(r.randint(0x10000, 0x10ffff))
        return out

    def name(self):
        if self.chance(0.002):
            return self.pick(['w', 'long_', 'Name']) * self.rng.randint(70, 300)
        return self.anytext() if self.chance(self.nasty) else self.pick(WORDS)

    def names(self, n):
        out = []
        while len(out) < n:
            x = self.name()
            if x not in out:
                out.append(x)
            elif self.chance(0.5):
                y = x + str(len(out))
                if y not in out:
                    out.append(y)
        return out

    def size(self):
        r = self.rng
        k = r.random()
        if k < self.big:
            return r.choice([2**31 - 1, 2**31, 2**32, 2**63 - 1, 2**63, 2**64, 10**20, r.getrandbits(70),
                             9999, 10000, 10001, 99999999, 100000000])
        if k < 0.25:
            return r.choice([0, 1])
        return r.randint(0, 12)

    def tz(self):
        return [] if self.chance(0.5) else [cp(self.anytext() if self.chance(self.nasty) else self.pick(TZS))]

    def leaf(self):
        k = self.rng.randint(0, 19)
        if k < 8:
            return ['ct', self.pick(CTS)]
        if k == 8:
            return ['null']
        if k == 9:
            return ['date']
        if k == 10:
            return ['bytes']
        if k == 11:
            return ['json']
        if k == 12:
            return ['time', self.tz()]
        if k == 13:
            return ['datetime', self.tz()]
        if k == 14:
            return ['td', self.pick(UNITS)]
        if k in (15, 16):
            return ['str', [num(self.size())] if self.chance(0.5) else [], self.pick(ENCS)]
        if k == 17:
            return ['dec', num(self.size()), num(self.size() if self.chance(0.8) else -self.size())]
        if k == 18:
            return ['tv', cp(self.pick(UPS))]
        return ['str', [], 'U8']

    def cats(self):
        n = self.pick([0, 1, 2, 3, 3, 5, 10, 10, 11, 12, 25]) if not self.chance(0.03) else self.rng.randint(33, 130)
        kind = self.pick(['int', 'str', 'str', 'bool'])
        if kind == 'int':
            return [['int', num(self.rng.randint(-20, 20) if self.chance(.8) else -self.size())] for _ in range(n)]
        if kind == 'bool':
            return [['bool', self.chance(0.5)] for _ in range(n)]
        return [['str', cp(self.name())] for _ in range(n)]

    def dim(self, ell=True):
        k = self.rng.random()
        if k < 0.55:
            return ['fix', num(self.size())]
        if k < 0.75:
            return ['var']
        if k < 0.9 or not ell:
            return ['tv', cp(self.pick(UPS))]
        return ['ell', [] if self.chance(0.5) else [cp(self.pick(UPS))]]

    def dims(self, n=None, ell=True):
        n = self.many([0, 0, 0, 1, 1, 2, 3] if not self.wild else [0, 0, 1, 2, 2, 3]) if n is None else n
        out, seen = [], False
        for _ in range(n):
            d = self.dim(ell and not seen or self.wild)
            if self.wild and self.chance(0.4):
                d = ['ell', []]
            seen = seen or d[0] == 'ell'
            out.append(d)
        return out

    def many(self, ns):
        """A small number, sometimes a larger one, now and then a huge one."""
        k = self.rng.random()
        if k > 1 - 0.003:
            return self.rng.randint(17, 36) if k < 1 - 0.0015 else self.rng.randint(65, 130)
        return self.rng.randint(4, 8) if k < 0.03 else self.rng.randint(9, 14) if k < 0.036 else self.pick(ns)

    # -------------------------------------------------------------- terms
    def again(self, ts):
        """Now and then several of the parts are the same."""
        if len(ts) > 1 and self.chance(0.2):
            t = self.pick(ts)
            return [t if self.chance(0.6) else x for x in ts]
        return ts

    def measure(self, depth):
        if depth <= 0 or self.chance(0.35):
            return self.leaf()
        k = self.rng.randint(0, 13)
        if k < 5:
            n = self.many([0, 1, 1, 2, 2, 3, 4])
            depth = -1 if n > 16 else depth - (n > 4)
            names = self.names(n)
            return ['rec', [[cp(x), t] for x, t in zip(names, self.again([self.term(depth - 1) for _ in names]))]]
        if k < 7:
            n = self.many([0, 1, 2, 2, 3])
            depth = -1 if n > 16 else depth - (n > 4)
            return ['tup', self.again([self.term(depth - 1) for _ in range(n)])]
        if k < 8:
            n = self.many([0, 1, 2, 3])
            depth = -1 if n > 16 else depth - (n > 4)
            ts = self.again([self.term(depth - 1) for _ in range(n + 1)])
            return ['fun', ts[:-1], ts[-1]]
        if k < 11:
            return ['opt', self.term(depth - 1)]
        if k == 11:
            return ['map'] + self.again([self.term(depth - 1), self.term(depth - 1)])
        if k == 12:
            return ['units', cp(self.anytext() if self.chance(self.nasty) else self.pick(['m', 'kg', 'm/s^2'])),
                    ['ct', 'float64'] if self.chance(0.4) else self.term(depth - 1)]
        cats = self.cats()
        ty = self.pick([['ct', 'int64'], ['str', [], 'U8'], ['ct', 'bool'], ['ct', 'int8']])
        if self.chance(0.2):
            ty = mzr(self.measure(depth - 1))
        return ['cat', cats, ty, self.chance(0.5)]

    def term(self, depth=2):
        ds = self.dims()
        m = self.measure(depth)
        return ['ds', ds, m] if ds else m


def mzr(t):
    return t[2] if t[0] == 'ds' else t


# ------------------------------------------------------------------ spelling
ESC = {'\b': 'b', '\f': 'f', '\n': 'n', '\r': 'r', '\t': 't'}
UNIT_LONG = {'Y': 'year', 'M': 'month', 'W': 'week', 'D': 'day', 'h': 'hour', 'm': 'minute', 's': 'second',
             'ms': 'millisecond', 'us': 'microsecond', 'ns': 'nanosecond'}
ENC_LONG = {'A': ['A', 'ascii'], 'U8': ['U8', 'utf-8', 'utf_8', 'utf8'], 'U16': ['U16', 'utf-16', 'utf_16', 'utf16'],
            'U32': ['U32', 'utf-32', 'utf_32', 'utf32']}
CT_ALIAS = {'int32': ['int32', 'int'], 'int64': ['int64', 'intptr'], 'uint64': ['uint64', 'uintptr'],
            'float64': ['float64', 'real'], 'complex[float32]': ['complex64', ('complex', 'float32')],
            'complex[float64]': ['complex128', 'complex', ('complex', 'float64'), ('complex', 'real')]}


class Speller(object):
    """Tokens of one of the many spellings of a term; layout() glues them."""

    def __init__(self, rng, plain=False):
        self.rng = rng
        self.plain = plain

    def chance(self, p):
        return not self.plain and self.rng.random() < p

    def q(self, s):
        quote = '"' if self.chance(0.5) else "'"
        out = quote
        for c in s:
            o = ord(c)
            if c == quote:
                out += '\\' + c if not self.chance(0.2) else '\\u%04x' % o
            elif c in ESC and (c in '\n\r' or self.chance(0.7)):
                out += '\\' + ESC[c] if not self.chance(0.2) else '\\u%04X' % o
            elif c == '\\' or 0xd800 <= o < 0xe000:
                out += '\\u%04x' % o
            elif o < 0x10000 and self.chance(0.08):
                out += '\\u%04x' % o
            else:
                out += c
        return out + quote

    def name(self, s):
        import re
        if re.match(r'[_a-zA-Z][_a-zA-Z0-9]*\Z', s) and s not in ('True', 'False') and not self.chance(0.3):
            return s
        return self.q(s)

    def lst(self, items, trailing=False):
        out = []
        for i, x in enumerate(items):
            if i:
                out.append(',')
            out += x
        if trailing and items and self.chance(0.3):
            out.append(',')
        return out

    def kw(self, name, toks):
        return [name, '='] + toks

    def d(self, d):
        k = d[0]
        if k == 'fix':
            return [str(unnum(d[1]))]
        if k == 'var':
            return ['var']
        if k == 'tv':
            return [uncp(d[1])]
        if d[1]:
            return [uncp(d[1][0]), '...']
        return ['ellipsis'] if self.chance(0.3) else ['...']

    def t(self, t):
        k = t[0]
        if k == 'ds':
            out = []
            for d in t[1]:
                out += self.d(d) + ['*']
            return out + self.t(t[2])
        if k == 'ct':
            al = CT_ALIAS.get(t[1], [t[1]])
            a = al[0] if self.plain else self.rng.choice(al)
            if isinstance(a, tuple):
                x = [a[1]]
                return [a[0], '['] + (self.kw('tp', x) if self.chance(0.3) else x) + [']']
            return [a]
        if k in ('null', 'date', 'bytes', 'json'):
            return [k]
        if k in ('time', 'datetime'):
            if not t[1]:
                return [k]
            x = [self.q(uncp(t[1][0]))]
            return [k, '['] + (self.kw('tz', x) if not self.chance(0.5) else x) + [']']
        if k == 'td':
            if t[1] == 'us' and self.chance(0.3):
                return ['timedelta']
            u = t[1]
            if self.chance(0.6):
                u = UNIT_LONG[u] + ('s' if self.chance(0.5) else '')
                if u == 'days' and self.chance(0.3):
                    u = 'date'
            if self.chance(0.1):
                u = ' ' + u + ' '
            x = [self.q(u)]
            return ['timedelta', '['] + (self.kw('unit', x) if not self.chance(0.5) else x) + [']']
        if k == 'units':
            x = [self.q(uncp(t[1]))]
            if t[2] == ['ct', 'float64'] and self.chance(0.5):
                return ['units', '['] + x + [']']
            y = self.t(t[2])
            if self.chance(0.3):
                a = [self.kw('unit', x), self.kw('tp', y)]
                if self.chance(0.5):
                    a.reverse()
                return ['units', '['] + self.lst(a) + [']']
            return ['units', '['] + self.lst([x, y]) + [']']
        if k == 'str':
            e = self.q(ENC_LONG[t[2]][0] if self.plain else self.rng.choice(ENC_LONG[t[2]]))
            if t[1]:
                n = str(unnum(t[1][0]))
                if t[2] == 'U8' and self.chance(0.7):
                    return ['string', '[', n, ']']
                return ['string', '[', n, ',', e, ']']
            if t[2] == 'U8' and not self.chance(0.3):
                return ['string']
            return ['string', '[', e, ']']
        if k == 'dec':
            p, s = [str(unnum(t[1]))], [str(unnum(t[2]))]
            if s == ['0'] and self.chance(0.5):
                return ['decimal', '['] + (self.kw('precision', p) if self.chance(0.5) else p) + [']']
            r = self.rng.randint(0, 3)
            a = [[p, s], [p, self.kw('scale', s)], [self.kw('precision', p), self.kw('scale', s)],
                 [self.kw('scale', s), self.kw('precision', p)]][r]
            return ['decimal', '['] + self.lst(a) + [']']
        if k == 'tv':
            return [uncp(t[1])]
        if k == 'opt':
            x = self.t(t[1])
            if x[0] == '?' or self.chance(0.2):
                return ['option', '['] + (self.kw('ds', x) if self.chance(0.2) else x) + [']']
            return ['?'] + x
        if k == 'map':
            a, b = self.t(t[1]), self.t(t[2])
            if self.chance(0.2):
                return ['map', '['] + self.lst([self.kw('key', a), self.kw('value', b)]) + [']']
            return ['map', '['] + self.lst([a, b]) + [']']
        if k == 'rec':
            if self.chance(0.12):
                ns = ['['] + self.lst([[self.q(uncp(n))] for n, _ in t[1]]) + [']']
                ts = ['['] + self.lst([self.t(x) for _, x in t[1]]) + [']']
                a = [ns, ts] if not self.chance(0.3) else [self.kw('names', ns), self.kw('dshapes', ts)]
                return ['struct', '['] + self.lst(a) + [']']
            return ['{'] + self.lst([[self.name(uncp(n)), ':'] + self.t(x) for n, x in t[1]], True) + ['}']
        if k == 'tup':
            xs = [self.t(x) for x in t[1]]
            if self.chance(0.15):
                l = ['['] + self.lst(xs) + [']']
                return ['tuple', '['] + (self.kw('dshapes', l) if self.chance(0.3) else l) + [']']
            return ['('] + self.lst(xs, True) + [')']
        if k == 'fun':
            xs, r = [self.t(x) for x in t[1]], self.t(t[2])
            if self.chance(0.15):
                l = ['['] + self.lst(xs) + [']']
                return ['funcproto', '['] + self.lst([l, r]) + [']']
            return ['('] + self.lst(xs, True) + [')', '->'] + r
        if k == 'cat':
            cs = []
            for c in t[1]:
                cs.append([self.q(uncp(c[1])) if c[0] == 'str' else str(unnum(c[1])) if c[0] == 'int' else str(c[1])])
            a = ['['] + self.lst(cs) + [']']
            if self.chance(0.2):
                a = self.kw('categories', a)
                return ['categorical', '['] + self.lst([a, self.kw('type', self.t(t[2])), self.kw('ordered', [str(t[3])])]) + [']']
            if self.chance(0.2):
                return ['categorical', '['] + self.lst([a, self.t(t[2]), [str(t[3])]]) + [']']
            if self.chance(0.2):
                return ['categorical', '['] + self.lst([a, self.kw('ordered', [str(t[3])])]) + [']']
            return ['categorical', '['] + self.lst([a, self.kw('type', self.t(t[2])), self.kw('ordered', [str(t[3])])]) + [']']
        raise ValueError(t)

    def gap(self):
        r = self.rng.random()
        if r < 0.45:
            return ' '
        if r < 0.8:
            return ''
        if r < 0.84:
            return self.comment()
        return self.rng.choice(['  ', '\n', '\t', '\n    ', '\r\n', '\x0b', '\x0c', '\u2003', '\xa0', '# note\n', ' #x: {[(\n', '\n#\n',
                                '#' + "'" + '\n', '\x1f', '\x85', '\u3000', '\n\n\n', '# caf\xe9 * ? \u2028 still\n'])

    def comment(self):
        """A comment ends at the end of the line only, whatever stands in it."""
        r = self.rng
        return '#' + ''.join(r.choice(['\r', '\r', '\x0b', '\x0c', '\x1c', '\x1e', '\x85', '\u2028', '\u2029', '\xe9', '#', '"', "'", '\\', '%', '*', '$', ' x', ' int8', ' }',
                                       '{', '?', '\x00', '\t', '-', '>', '...']) for _ in range(r.randint(0, 4))) + '\n'

    def layout(self, toks):
        wordy = lambda c: c.isalnum() or c == '_' or c == '-'
        out = ''
        for t in toks:
            g = ('' if t in ',:)]}' else ' ') if self.plain else self.gap()
            if out and not g and (wordy(out[-1]) and wordy(t[0]) or (out[-1] == '.' and t[0] == '.')
                                  or (out[-1] == '-' and t[0] == '>')):
                g = ' '
            if out and out[-1] in '-' and t[0] in '0123456789>':
                g = g or ' '
            out += g + t
        if not self.plain:
            out += self.gap()
        return out


def spell(rng, t, plain=False):
    s = Speller(rng, plain)
    return s.layout(s.t(t))


TOKENS = ['3', '0', '-1', '12', 'var', 'int32', 'int', 'string', 'A', 'T', 'N', 'true', 'True', 'False', 'Truthy', '_u', 'xyz', "'a'",
          '"b c"', "''", '*', ',', '=', ':', '[', ']', '{', '}', '(', ')', '...', '->', '?', 'option', 'struct', 'tuple', 'map',
          'decimal', 'complex', 'float32', 'categorical', 'timedelta', 'units', 'time', 'datetime', 'tz', 'unit', 'funcproto',
          'ellipsis', 'fixed', 'typevar', 'type', 'ordered', 'precision', 'void', 'bytes', 'null', 'json', 'date', 'bool', 'char']


def mutate(rng, toks):
    toks = list(toks)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.randint(0, 5)
        i = rng.randrange(len(toks) + 1)
        j = rng.randrange(len(toks) + 1)
        if k == 0 and toks:
            del toks[min(i, len(toks) - 1)]
        elif k == 1:
            toks.insert(i, rng.choice(TOKENS))
        elif k == 2 and toks:
            toks[min(i, len(toks) - 1)] = rng.choice(TOKENS)
        elif k == 3 and toks:
            toks.insert(j, toks[min(i, len(toks) - 1)])
        elif k == 4 and toks:
            i, j = min(i, len(toks) - 1), min(j, len(toks) - 1)
            toks[i], toks[j] = toks[j], toks[i]
        elif toks:
            del toks[i:]
    return toks


def mutchar(rng, s):
    i = rng.randrange(len(s) + 1)
    c = rng.choice(list('$%^&!;.-_\'"\\/ \n#<>@`~|') + ['.', '..', '->', '\u2028', '\r', '\x0b', '\xe9', '0', '7', 'Z', '_', "\\x", '\x00', '\u0663', '\u017f', '\u212a', '\xb2', '\u0301', '\ufeff', '\x1c', '\x85', '\xa0', '\u3000', '\u200b', '\u2019'])
    k = rng.randint(0, 2)
    if k == 0:
        return s[:i] + c + s[i:]
    if k == 1:
        return s[:i] + c + s[i + 1:]
    return s[:i] + s[i + 1:]
