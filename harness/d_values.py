"""Drivers for values: equality (C04), copies (C05), construction (C06)."""
import copy
import json
import os
import pickle
import subprocess
import sys
import tempfile
from collections import OrderedDict
from decimal import Decimal as PyDecimal
from fractions import Fraction

import numpy as np
import datashape
from datashape import dshape, DataShape, Record, Option, R
import datashape.coretypes as ct

from alpha import attrs, cp, dim, guarded, mk, mkdim, num, outcome, term, uncp, unnum, wrap
from gen import G, spell


# ------------------------------------------------------------------ equality
def flat(dims, m):
    """The dimensions in front of a term."""
    if m[0] == 'ds':
        dims, m = dims + m[1], m[2]
    return ['ds', dims, m] if dims else m


def tweak(g, t, depth=0):
    """A term that differs from t in one place, or is the same."""
    r = g.rng
    k = t[0]
    if k == 'ds':
        dims, m = list(t[1]), t[2]
        w = r.randint(0, 5)
        if w == 0:
            dims[r.randrange(len(dims))] = g.dim(False)
        elif w == 1:
            dims = dims[::-1]
        elif w == 2:
            dims.insert(r.randrange(len(dims) + 1), g.dim(False))
        elif w == 3:
            del dims[r.randrange(len(dims))]
        else:
            m = tweak(g, m, depth + 1)
        return flat(dims, m)
    if r.random() < 0.15:
        return ['opt', t]
    if r.random() < 0.1:
        return flat([g.dim(False)], t)
    if k == 'opt':
        return t[1] if r.random() < 0.3 else ['opt', tweak(g, t[1], depth + 1)]
    if k == 'rec' and t[1]:
        fs = [list(f) for f in t[1]]
        w, i = r.randint(0, 4), r.randrange(len(fs))
        if w == 0:
            fs = fs[::-1]
        elif w == 1:
            fs[i][0] = fs[i][0] + [95]
            if any(f[0] == fs[i][0] for j, f in enumerate(fs) if j != i):
                return t
        elif w == 2 and len(fs) > 1:
            a, b = fs[0][0], fs[1][0]
            fs[0][0], fs[1][0] = b, a
        elif w == 3:
            del fs[i]
        else:
            fs[i][1] = tweak(g, fs[i][1], depth + 1)
        return ['rec', fs]
    if k in ('tup', 'fun') and t[1]:
        xs = list(t[1])
        w, i = r.randint(0, 3), r.randrange(len(t[1]))
        if w == 0:
            xs = xs[::-1]
        elif w == 1:
            del xs[i]
        elif w == 2:
            xs.append(xs[i])
        else:
            xs[i] = tweak(g, xs[i], depth + 1)
        return [k, xs] + t[2:]
    if k == 'fun':
        return ['fun', t[1], tweak(g, t[2])]
    if k == 'map':
        w = r.randint(0, 2)
        return ['map', t[2], t[1]] if w == 0 else ['map', tweak(g, t[1]), t[2]] if w == 1 else ['map', t[1], tweak(g, t[2])]
    if k == 'units':
        return ['units', t[1] + [50], t[2]] if r.random() < 0.5 else ['units', t[1], tweak(g, t[2])]
    if k == 'str':
        return ['str', t[1], r.choice(['A', 'U8', 'U16', 'U32'])] if r.random() < 0.5 else ['str', [num(r.randint(0, 3))] if r.random() < 0.7 else [], t[2]]
    if k == 'dec':
        return ['dec', t[2] if t[2][0] >= 0 else t[1], t[1]] if r.random() < 0.5 else ['dec', t[1], num(r.randint(0, 3))]
    if k in ('time', 'datetime'):
        return ['datetime' if k == 'time' else 'time', t[1]] if r.random() < 0.5 else [k, g.tz()]
    if k == 'cat':
        w = r.randint(0, 6)
        if w == 0:
            return ['cat', t[1][::-1], t[2], t[3]]
        if w > 3:
            cs, i = list(t[1]), r.randint(0, max(0, len(t[1]) - 1))
            i = len(cs) - 1 if cs and r.random() < 0.4 else i
            if w == 4 or not cs:
                cs.insert(len(cs) if r.random() < 0.5 else i, g.pick(g.cats() or [['str', [97]]]))
            elif w == 5:
                del cs[i]
            else:
                k, v = cs[i]
                cs[i] = [k, num(unnum(v) + 1) if k == 'int' else not v if k == 'bool' else v + [98]]
            return ['cat', cs, t[2], t[3]]
        if w == 1:
            return ['cat', t[1], t[2], not t[3]]
        if w == 2:
            return ['cat', [['int', num(int(c[1]))] if c[0] == 'bool' else c for c in t[1]], t[2], t[3]]
        return ['cat', t[1], ['ct', 'int16'], t[3]]
    return g.leaf() if r.random() < 0.8 else g.measure(1)


def context(g):
    """A place in a composite type: a function from the type that is there to the whole."""
    r = g.rng
    k = r.choice(['rec', 'rec', 'tup', 'fun', 'ret', 'opt', 'key', 'value', 'units', 'cat', 'dims'])
    n = r.randint(1, 3)
    i = r.randrange(n)
    others = [g.leaf() for _ in range(n)]
    put = lambda t: others[:i] + [t] + others[i + 1:]
    if k == 'rec':
        names = [list(map(ord, x)) for x in g.names(n)]
        return lambda t: ['rec', [[x, y] for x, y in zip(names, put(t))]]
    if k == 'tup':
        return lambda t: ['tup', put(t)]
    if k == 'fun':
        return lambda t: ['fun', put(t), others[0]]
    if k == 'ret':
        return lambda t: ['fun', others, t]
    if k == 'opt':
        return lambda t: ['opt', t]
    if k == 'key':
        return lambda t: ['map', t, others[0]]
    if k == 'value':
        return lambda t: ['map', others[0], t]
    if k == 'units':
        return lambda t: ['units', [109], t]
    if k == 'cat':
        from gen import mzr
        cs = g.cats()
        return lambda t: ['cat', cs, mzr(t), False]
    ds = g.dims(n, False)
    return lambda t: flat(ds, t)


def variant(rng, t):
    """The object of a term, made in one of several ways."""
    w = rng.randint(0, 5)
    x = mk(t)
    if w == 0:
        return x, 'constructors'
    if w == 1:
        return wrap(x), 'DataShape(...)'
    if w == 2:
        from gen import mzr
        from d_lang import read
        s = spell(rng, t)
        if read(s) == ['ok', t]:
            return dshape(s), 'text'
        return x, 'constructors'
    if w == 3:
        return pickle.loads(pickle.dumps(wrap(x))), 'pickled DataShape'
    if w == 4 and t[0] == 'ds':
        return mkdim(t[1][0]) * mk(['ds', t[1][1:], t[2]] if t[1][1:] else t[2]), 'product'
    if t[0] == 'rec':
        return Record(OrderedDict((uncp(n), mk(v)) for n, v in t[1])), 'OrderedDict'
    return copy.deepcopy(x), 'deep copy'


def entry(rng, v):
    """An object for ['term', T], ['dim', d], ['int', n] or ['other', what]."""
    if v[0] == 'term':
        return variant(rng, v[1])
    if v[0] == 'dim':
        return mkdim(v[1]), 'dimension'
    if v[0] == 'int':
        n = unnum(v[1])
        return n, 'integer'
    return OTHERS[v[1]], 'other'


OTHERS = {'text': 'int32', 'none': None, 'list': [], 'float': 3.5, 'object': object(), 'type': int, 'dtype': np.dtype('int32'),
          'tuple': ('int32',), 'three': '3', 'bytes': b'int32'}


def alikes():
    """Terms and objects of other classes of the same name that have the same parts."""
    for t in [['time', [cp('UTC')]], ['datetime', []], ['td', 's'], ['opt', ['ct', 'int8']], ['map', ['ct', 'int8'], ['date']], ['date'], ['var'], ['tv', cp('A')],
              ['dec', num(3), num(1)], ['str', [num(3)], 'A'], ['cat', [['int', num(1)]], ['ct', 'int64'], False], ['units', cp('m'), ['ct', 'int8']], ['ct', 'int8']]:
        x = mkdim(t) if t[0] == 'var' else mk(t)
        body = {'__slots__': tuple(x.__slots__), 'abstract': True}
        if hasattr(x, 'cls'):
            body['cls'] = x.cls
        K = type(ct.Mono)(type(x).__name__, (ct.Mono,), body)
        y = K.__new__(K)
        for s in K.__slots__:
            setattr(y, s, getattr(x, s))
        yield t, x, y


def six(a, b):
    early = a == b
    ha = hash(a)
    hb = ha if type(b) in (list, dict) else hash(b)
    out = [a == b, b == a, a != b, b != a]
    if any(type(x) is not bool for x in out):
        raise AssertionError('not booleans: %r' % out)
    if early != out[0]:
        raise AssertionError('another answer once they were hashed')
    same = ha == hb
    stable = hash(a) == ha and (type(b) in (list, dict) or hash(b) == hb)
    return out + [same, stable]


def eq(c, va, vb):
    rng = c.rng
    try:
        a, ra = entry(rng, va)
        b, rb = entry(rng, vb)
    except Exception as e:
        c.emit('eq', 'making %r and %r: %r' % (va, vb, e), a=va, b=vb, out=['crash'])
        return
    out = outcome(lambda: six(a, b), conv=lambda x: x)
    c.emit('eq', '%s (%s) == %s (%s)' % (text(a), ra, text(b), rb), a=[va[0], va[1]] if va[0] != 'other' else ['other', va[1]],
           b=[vb[0], vb[1]] if vb[0] != 'other' else ['other', vb[1]], out=out)


def text(x):
    try:
        return str(x)[:200]
    except Exception as e:
        return repr(e)


def collide(g):
    """Two terms that differ, but whose parts have the same hash or print alike."""
    r = g.rng
    far = sys.hash_info.modulus

    def ints():
        if r.random() < 0.5:
            n = r.choice([0, 1, 3, 10])
            return [num(n), num(n + far * r.choice([1, 1, 2]))]
        return [num(-1), num(-2)]
    k = r.randint(0, 5)
    if k == 5:     # the same in what is printed of them
        n = r.choice([11, 12, 21, 101])
        t, u = [['cat', [['int', num(i)] for i in list(range(10)) + list(range(m, m + n - 10))], ['ct', 'int64'], False] for m in (10, 12)]
    elif k == 0:
        x, s = ints(), num(r.choice([0, 2, -1]))
        t, u = [['dec', n, s] for n in x] if r.random() < 0.5 else [['dec', s, n] for n in x]
    elif k == 1:
        rest = [num(r.randint(0, 3)) for _ in range(r.choice([0, 0, 1]))]
        t, u = [['cat', [['int', n] for n in [m] + rest if m not in rest], ['ct', 'int64'], False] for m in ints()]
    elif k == 2:
        n = r.randint(0, 5)
        t, u = [['str', [num(m)], r.choice('AA') if n < 3 else 'U8'] for m in (n, n + far)]
    elif k == 3:
        n, m = r.randint(0, 5), g.leaf()
        t, u = [flat([['fix', num(i)]], m) for i in (n, n + far)]
    else:          # hashes of parts that might be combined in a commutative way
        a, b = ['fix', num(2)], ['fix', num(3)]
        m = g.leaf()
        t, u = flat([a, b], m), flat([b, a], m)
    for _ in range(r.choice([0, 0, 1, 2])):
        f = context(g)
        t, u = f(t), f(u)
    return (t, u) if r.random() < 0.5 else (u, t)


def broad(g):
    """Two terms of many parts that differ in one of them, most of the time."""
    r = g.rng
    n = r.choice([17, 18, 26, 33, 34, 45, 66, 101, 130])
    k = r.randint(0, 7)
    i = r.choice([-1, -1, -2, n // 2])
    parts = [g.leaf()] * n
    if k < 2:
        names = [cp('f%d' % j) for j in range(n)]
        late = list(names)
        if r.random() < 0.3:
            late[i] = cp('g')
        f = lambda xs: ['rec', [list(x) for x in zip(late if xs is not parts else names, xs)]]
    elif k == 2:
        f = lambda xs: ['tup', xs]
    elif k == 3:
        last = g.leaf()
        f = lambda xs: ['fun', xs, last]
    elif k == 4:
        parts, last = [['fix', num(2)]] * n, g.leaf()
        f = lambda xs: ['ds', xs, last]
    elif k == 5:
        parts = [['int', num(j)] for j in range(n)]
        f = lambda xs: ['cat', xs, ['ct', 'int64'], False]
    elif k == 6:
        parts = [['str', cp('c%d' % j)] for j in range(n)]
        f = lambda xs: ['cat', xs, ['str', [], 'U8'], True]
    else:
        parts = [g.leaf()]
        n = min(n, 60)

        def f(xs):
            t = xs[0]
            for _ in range(n):
                t = ['map', ['ct', 'int8'], t] if n % 2 else ['rec', [[cp('a'), t]]]
            return t
    others = list(parts)
    if r.random() < 0.85:
        p = others[i if len(parts) > 1 else 0]
        others[i if len(parts) > 1 else 0] = r.choice([['var'], ['fix', num(3)]]) if p[0] == 'fix' else ['int', num(-7)] if p[0] == 'int' else \
            ['str', cp('other')] if k == 6 else r.choice([tweak(g, p), ['opt', p]])
    t, u = f(parts), f(others)
    return (t, u) if r.random() < 0.5 else (u, t)


def C04(c):
    rng = c.rng
    g = G(rng)
    for i in range(c.scale(1500, 25000)):
        g.nasty, g.big = rng.choice([(0, 0), (0.1, 0.1)])
        t = g.term(rng.choice([0, 1, 1, 2, 3]))
        k = rng.random()
        if k < 0.35:
            u = t
        elif k < 0.8:
            u = tweak(g, t)
            if rng.random() < 0.2:
                u = tweak(g, u)
        else:
            u = g.term(rng.choice([0, 0, 1, 2]))
        if k > 0.15 and rng.random() < 0.3:
            if k < 0.8 and rng.random() < 0.5:
                t = g.leaf() if rng.random() < 0.5 else ['cat', g.cats(), g.pick([['ct', 'int64'], ['str', [], 'U8']]), g.chance(0.5)]
                u = tweak(g, t)
            for _ in range(rng.randint(1, 3)):
                f = context(g)
                t, u = f(t), f(u)
        if rng.random() < 0.1:
            t, u = collide(g)
        elif rng.random() < 0.03:
            t, u = broad(g)
        if k < 0.9:
            eq(c, ['term', t], ['term', u])
        elif k < 0.95:
            d = g.dim()
            o = rng.choice([['dim', g.dim()], ['dim', d], ['int', d[1] if d[0] == 'fix' else num(3)], ['int', num(rng.randint(-1, 4))],
                            ['term', u], ['dim', ['fix', num(rng.randint(0, 4))]]])
            x, y = (['dim', d], o) if rng.random() < 0.5 else (['dim', ['fix', num(rng.randint(0, 4))]], o)
            if [x, y] == [y, x] or not (x[0] == 'int' and y[0] == 'int'):
                eq(c, x, y)
        else:
            x = rng.choice([['term', t], ['dim', g.dim(False)]])
            names = sorted(OTHERS)
            eq(c, x, ['other', rng.choice(names)])
    for t, x, y in alikes() if c.shard == 0 else []:
        for p, q in ((x, y), (wrap(x), y)) if t[0] not in ('var', 'tv') else ((x, y),):
            c.emit('eq', '%r == %r of another class %s' % (p, q, type(q)), a=['term', t] if t[0] != 'var' else ['dim', t], b=['other', 'alike'],
                   out=outcome(lambda: six(p, q), conv=lambda v: v))


def eq_same(d):
    """[a, b, equal] enumerated by MC_Eq."""
    a, b, want = d
    x, y = mk(a), mk(b)
    for p, q in ((x, y), (wrap(x), y), (wrap(x), wrap(y))):
        how, got = guarded(lambda: six(p, q))
        if how != 'ok':
            yield 'eq.failed', '%s == %s: %r' % (text(p), text(q), got)
        else:
            if got[:4] != [want, want, not want, not want]:
                yield 'eq.value', '%r == %r -> %s, should be %s' % (p, q, got[:4], want)
            if want and not got[4] or not got[5]:
                yield 'eq.hash', 'hashes of %r and %r: %s' % (p, q, got[4:])


# -------------------------------------------------------------------- copies
def registry_view():
    reg = ct.Type._registry if hasattr(ct.Type, '_registry') else {}
    return sorted((k, id(v)) for k, v in reg.items())


def flags(x, y, reg):
    """What a copy y of x has to agree in, apart from the term."""
    def ok(f):
        how, v = guarded(f)
        return how == 'ok' and bool(v)
    return [['type', type(x) is type(y)],
            ['eq', ok(lambda: x == y and y == x and not x != y)],
            ['hash', ok(lambda: hash(x) == hash(y))],
            ['text', ok(lambda: str(x) == str(y) and repr(x) == repr(y))],
            ['attrs', ok(lambda: attrs(x) == attrs(y))],
            ['registry', registry_view() == reg],
            ['usable', ok(lambda: use(x) == use(y))]]


def use(x):
    """What can be done with a datashape."""
    out = []
    for f in (lambda: 3 * x, lambda: Option(x), lambda: datashape.to_numpy_dtype(x), lambda: x.to_numpy_dtype(), lambda: x.subarray(0),
              lambda: DataShape(x), lambda: datashape.dshape([4, x]), lambda: x.subshape[0], lambda: datashape.pprint(x),
              lambda: pickle.loads(pickle.dumps(x)) == x, lambda: x.to_numpy(), lambda: {x: 1}[x], lambda: Record([('f', x)])):
        how, v = guarded(f)
        out.append((how, repr(v) if how == 'ok' else type(v).__name__))
    return out


def ways():
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        yield 'pickle%d' % p, lambda x, p=p: pickle.loads(pickle.dumps(x, p))
    yield 'copy', copy.copy
    yield 'deepcopy', copy.deepcopy
    yield 'rebuild', lambda x: type(x)(*x.parameters)


WAYS = list(ways())


def tv(x):
    """['term', T] or ['dim', d] of an object."""
    if isinstance(x, (ct.Fixed, ct.Var, ct.Ellipsis)):
        return ['dim', dim(x)]
    return ['term', term(x)]


def copies(c, v, x, some=None):
    for name, f in WAYS:
        if some and c.rng.random() > some:
            continue
        if name == 'rebuild' and type(x) is ct.CType:
            continue
        reg = registry_view()
        how, y = guarded(lambda: f(x))
        out = outcome(lambda: y, conv=tv) if how == 'ok' else [how]
        c.emit('copy', '%s of %s' % (name, text(x)), t=v, how=name, out=out,
               flags=flags(x, y, reg) if how == 'ok' and out[0] == 'ok' else [])


LOADER = r'''
import json, pickle, sys, os
sys.path.insert(0, sys.argv[1])
import alpha
from d_values import tv, attrs, use, text
import datashape
from datashape import dshape
out = []
for i, b in enumerate(pickle.load(open(sys.argv[2], 'rb'))):
    try:
        y = pickle.loads(b)
        v = tv(y)
        fresh = alpha.mk(v[1]) if v[0] == 'term' else alpha.mkdim(v[1])
        if type(y) is datashape.DataShape:
            fresh = alpha.wrap(fresh)
        out.append([v, str(y), repr(attrs(y)), bool(y == fresh and hash(y) == hash(fresh)), use(y) == use(fresh), type(y).__name__])
    except Exception as e:
        out.append(['crash', repr(e)])
print(json.dumps(out))
'''


def other_process(c, objs):
    """Load pickles in another process with another hash seed."""
    path = tempfile.mkdtemp(prefix='verif')
    try:
        f = os.path.join(path, 'p')
        with open(f, 'wb') as h:
            pickle.dump([pickle.dumps(x, c.rng.randint(0, pickle.HIGHEST_PROTOCOL)) for v, x in objs], h)
        env = dict(os.environ, PYTHONHASHSEED=str(c.rng.randint(1, 10**6)))
        p = subprocess.run([sys.executable, '-W', 'ignore', '-c', LOADER, os.path.dirname(os.path.abspath(__file__)), f],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        rows = json.loads(p.stdout.decode()) if p.returncode == 0 else [['crash', p.stderr.decode()[-300:]]] * len(objs)
    finally:
        for n in os.listdir(path):
            os.unlink(os.path.join(path, n))
        os.rmdir(path)
    for (v, x), row in zip(objs, rows):
        if row[0] == 'crash':
            c.emit('copy', '%s loaded in another process: %s' % (text(x), row[1]), t=v, how='process', out=['crash'], flags=[])
        else:
            c.emit('copy', '%s loaded in another process' % text(x), t=v, how='process', out=['ok', row[0]],
                   flags=[['text', row[1] == str(x)], ['attrs', row[2] == repr(attrs(x))], ['eq', row[3]], ['usable', row[4]],
                          ['type', row[5] == type(x).__name__]])


def C05(c):
    rng = c.rng
    g = G(rng)
    objs = []
    for v in c.mine(LEAVES):
        x = mk(v)
        copies(c, ['term', v], x)
        copies(c, ['term', v], wrap(x))
        objs.append((['term', v], x))
    for i in range(c.scale(110, 2500)):
        g.nasty = rng.choice([0, 0.1, 0.4])
        if rng.random() < 0.12:
            d = g.dim()
            v, x = ['dim', d] if d[0] != 'tv' else ['term', d], mkdim(d)
        else:
            t = g.term(rng.choice([0, 1, 2, 2, 3]))
            x, _ = variant(rng, t)
            v = ['term', t]
        if rng.random() < 0.5:
            hash(x)       # a cached hash must not travel
        copies(c, v, x, None if rng.random() < 0.3 else 0.5)
        objs.append((v, x))
    other_process(c, objs[:c.scale(150, 1500)])
    other_process(c, objs[:c.scale(150, 1500)])


from gen import CTS, UNITS, ENCS  # noqa: E402
LEAVES = ([['ct', n] for n in CTS] + [['td', u] for u in UNITS] + [['str', [], e] for e in ENCS] + [['str', [num(5)], e] for e in ENCS] +
          [['null'], ['date'], ['bytes'], ['json'], ['time', []], ['time', [cp('UTC')]], ['datetime', []], ['datetime', [cp('')]],
           ['tv', cp('A')], ['dec', num(5), num(2)], ['dec', num(5), num(-2)], ['units', cp('m'), ['ct', 'float64']],
           ['units', cp('m'), ['ds', [['fix', num(3)]], ['ct', 'int8']]], ['rec', []], ['tup', []], ['fun', [], ['ct', 'int8']],
           ['map', ['ct', 'int8'], ['str', [], 'U8']], ['opt', ['opt', ['ct', 'int8']]], ['opt', ['ds', [['var']], ['ct', 'int8']]],
           ['cat', [], ['str', [], 'U8'], False], ['cat', [['int', num(i)] for i in range(12)], ['ct', 'int64'], True],
           ['ds', [['ell', [cp('A')]], ['fix', num(0)]], ['ct', 'int8']], ['ds', [['ell', []], ['tv', cp('N')], ['var']], ['null']]])


# -------------------------------------------------------------- construction
class Thing(object):
    pass


def value(rng, v, ctor=None):
    k = v[0]
    if k == 'int':
        n = unnum(v[1])
        # NumPy integers are taken where any index is
        return np.int64(n) if ctor in ('fixed', 'decimal') and rng and rng.random() < 0.3 and abs(n) < 2**62 else n
    if k == 'text':
        return uncp(v[1])
    if k == 'term':
        x = mk(v[1])
        return wrap(x) if rng and rng.random() < 0.3 else x
    if k == 'dim':
        return mkdim(v[1])
    if k == 'bool':
        return v[1]
    if k == 'none':
        return None
    if k == 'list':
        from alpha import mkcat
        return [mkcat([v[1], x]) for x in v[2]]
    if rng and rng.random() < 0.25 and ctor not in ('dshape', 'mul'):
        return rng.choice([['int32'], [3, datashape.int32], (3, 'int32'), ('int8',), [datashape.int8], [ct.Fixed(3)], [[3, 'int8']]])
    return rng.choice([2.5, b'int8', Thing(), [], {}, Fraction(1, 2), PyDecimal(2), np.dtype('int8'), int, Thing, 3.0, object()]) if rng else 2.5


def construct(ctor, args, rng=None):
    """The call that builds from the values."""
    xs = args
    if ctor == 'ds':
        return lambda: DataShape(*xs)
    if ctor == 'list':
        return lambda: dshape(tuple(xs) if rng and rng.random() < 0.5 else list(xs))
    if ctor == 'dshape':
        return lambda: dshape(xs[0])
    if ctor == 'mul':
        return lambda: xs[0] * xs[1]
    if ctor == 'opt':
        return lambda: Option(xs[0])
    if ctor == 'map':
        return lambda: ct.Map(*xs)
    if ctor == 'tup':
        return lambda: ct.Tuple(tuple(xs) if rng and rng.random() < 0.5 else list(xs))
    if ctor == 'fun':
        return lambda: ct.Function(*xs)
    if ctor == 'rec':
        ps = [(xs[2 * i], xs[2 * i + 1]) for i in range(len(xs) // 2)]
        w = rng.randint(0, 4) if rng else 0
        if w == 1:
            ps = [list(p) for p in ps]
        elif w == 2:
            ps = tuple(ps)
        elif w == 3 and len(set(p[0] for p in ps)) == len(ps):
            return lambda: Record(OrderedDict(ps))
        elif w == 4:
            return lambda: Record(p for p in ps)
        return lambda: Record(ps)
    if ctor == 'lit':
        ss = [slice(*xs[3 * i:3 * i + 3]) for i in range(len(xs) // 3)]
        return lambda: R[ss[0] if len(ss) == 1 and (not rng or rng.random() < 0.7) else tuple(ss)]
    if ctor == 'cat':
        kw = rng and rng.random() < 0.5
        return (lambda: ct.Categorical(xs[0], type=xs[1], ordered=xs[2])) if kw else (lambda: ct.Categorical(*xs))
    cls = {'fixed': ct.Fixed, 'tv': ct.TypeVar, 'time': ct.Time, 'datetime': ct.DateTime, 'timedelta': ct.TimeDelta,
           'units': ct.Units, 'decimal': ct.Decimal, 'string': ct.String}[ctor]
    return lambda: cls(*xs)


def built(f):
    how, x = guarded(f)
    if how == 'ok' and type(x) in (ct.Fixed, ct.Var, ct.Ellipsis):
        return outcome(lambda: x, conv=dim, ) if False else ['okdim', outcome(lambda: x, conv=dim)[1]]
    from d_lang import perr
    if how == 'ok':
        return outcome(lambda: x)
    if how == 'hang':
        return ['hang']

    def again():
        raise x
    out = perr(again)
    return ['exc', 'syntax'] if out[0] == 'syn' else out


def wrapped(ctor, args, xs):
    """units takes its type as a DataShape only."""
    if ctor == 'units' and len(args) == 2 and args[1][0] == 'term':
        xs = [xs[0], wrap(xs[1])]
    return xs


def rvalue(g, rng, kind=None):
    k = kind or rng.choice(['int', 'text', 'text', 'term', 'term', 'dim', 'dim', 'none', 'other', 'tv'])
    if k == 'int':
        return ['int', num(rng.choice([-1, -5, 0, 1, 2, 3, 7, 2**40, 10**22, -2**70]))]
    if k == 'text':
        w = rng.random()
        if w < 0.6:
            return ['text', cp(spell(rng, g.term(rng.choice([0, 0, 1, 2])), True))]
        return ['text', cp(rng.choice(['', ' ', 'int33', '3', 'var', '...', 'int32', '?int64', 'A', '... * ... * int32', '3 *', '{a: int32}', 'us', 'utf8', '3 * ?string',
                                       'a', 'B', '(int32', 'float64', 'N * int32', '{a: ... * ... * int8}', "datetime['UTC']"]))]
    if k == 'term':
        return ['term', g.term(rng.choice([0, 0, 1, 2]))]
    if k == 'tv':
        return ['term', ['tv', cp(rng.choice(['A', 'N']))]]
    if k == 'dim':
        d = g.dim()
        return ['term', d] if d[0] == 'tv' else ['dim', d]
    return [k]


def rargs(g, rng):
    ctor = rng.choice(['ds', 'ds', 'list', 'list', 'dshape', 'mul', 'mul', 'opt', 'map', 'tup', 'fun', 'rec', 'rec', 'lit', 'fixed', 'tv', 'time',
                       'datetime', 'timedelta', 'units', 'decimal', 'string', 'cat'])
    R_ = lambda kind=None: rvalue(g, rng, kind)  # noqa: E731
    good = rng.random() < 0.6
    if ctor in ('ds', 'list'):
        n = rng.choice([0, 1, 1, 2, 2, 3, 4]) if rng.random() < 0.92 else rng.choice([5, 6, 7, 9, 10, 12, 17, 24])
        if good:
            a = [R_(rng.choice(['int', 'dim', 'dim', 'tv'])) for _ in range(max(0, n - 1))] + ([R_(rng.choice(['term', 'text', 'tv', 'term']))] if n else [])
        else:
            a = [R_() for _ in range(n)]
        if n > 1 and rng.random() < 0.06:
            a[rng.choice([0, -1])] = ['other']
        elif n and good and rng.random() < 0.08:
            a[-1] = R_(rng.choice(['int', 'dim']))
        return ctor, a
    if ctor == 'dshape':
        return ctor, [R_()]
    if ctor == 'mul':
        a = R_(rng.choice(['int', 'dim', 'dim', 'tv', 'term']))
        b = R_(rng.choice(['term', 'term', 'dim', 'tv'])) if a[0] == 'int' else R_()
        return ctor, [a, b]
    if ctor in ('opt', 'map'):
        return ctor, [R_(rng.choice(['term', 'text']) if good else None) for _ in range(1 if ctor == 'opt' else 2)]
    if ctor in ('tup', 'fun'):
        return ctor, [R_('term' if good else None) for _ in range(g.many([0, 1, 2, 3]))]
    if ctor in ('rec', 'lit'):
        out = []
        names = g.names(g.many([0, 1, 2, 3, 4]))
        if ctor == 'lit' and not names:
            names = ['a']
        for n in names:
            n = ['text', cp(n)]
            if rng.random() < (0.03 if good else 0.2):
                n = out[0] if out and rng.random() < 0.5 else ['int', num(rng.randint(0, 3))]
            if n[0] == 'int' and ctor == 'lit':
                pass
            out.append(n)
            out.append(R_(rng.choice(['term', 'text']) if good else None))
            if ctor == 'lit':
                if not good and rng.random() < 0.2:
                    out[-2] = ['none']
                out.append(['none'] if rng.random() < (0.95 if good else 0.7) else rng.choice([['int', num(1)], ['int', num(0)], ['text', []], R_()]))
        return ctor, out
    if ctor == 'fixed':
        return ctor, [R_('int') if good else R_()]
    if ctor == 'tv':
        if rng.random() < 0.4:
            return ctor, [['text', cp(''.join(rng.choice('aZbA1_ -Q\n.') for _ in range(rng.randint(1, 4))))]]
        return ctor, [['text', cp(rng.choice(['A', 'Ab', 'a', '', '1', '_A', 'A b', 'TRUE', 'True', 'Z9', '\xe9', ' A']))] if rng.random() < 0.8 else R_()]
    if ctor in ('time', 'datetime'):
        return ctor, [] if rng.random() < 0.2 else [['text', cp(g.anytext())] if good else R_()]
    if ctor == 'timedelta':
        return ctor, [] if rng.random() < 0.1 else [['text', cp(rng.choice(['us', 'days', 'month', 'ps', 'fortnight', '', 's', 'ss', 'sss', 'minutes', ' D ', 'Y', 'y', 'nanosecond', 'weekss', 'microsecondS']))]
                                                      if good else R_()]
    if ctor == 'units':
        a = [['text', cp(g.anytext())] if good else R_()]
        return ctor, a + ([R_('term' if good else rng.choice(['term', 'int', 'text', 'other', 'dim', 'none']))] if rng.random() < 0.6 else [])
    if ctor == 'decimal':
        return ctor, [R_('int' if good else rng.choice(['int', 'text', 'other', 'none', 'term'])) for _ in range(rng.choice([1, 2, 2, 3]))]
    if ctor == 'string':
        e = ['text', cp(rng.choice(['A', 'ascii', 'U8', 'utf-8', 'utf8', 'U16', 'U32', 'utf-32', 'latin1', 'u8', 'UTF8']))]
        n = R_('int') if good else R_(rng.choice(['int', 'text', 'other']))
        return ctor, rng.choice([[], [n], [e], [n, e], [n, e], [e, n], [n, e, e]])
    cs = g.cats()
    kind = cs[0][0] if cs else 'empty'
    return 'cat', [['list', kind, [x[1] for x in cs]], ['term', g.term(0)], ['bool', rng.random() < 0.5]]


def callpy(ctor, args):
    out = []
    for a in args:
        try:
            out.append({'int': lambda: str(unnum(a[1])), 'text': lambda: repr(uncp(a[1])), 'term': lambda: repr(mk(a[1])), 'dim': lambda: repr(mkdim(a[1]))}[a[0]]())
        except Exception:
            out.append(repr(a))
    return '%s(%s)' % (ctor, ', '.join(out))


def C06(c):
    rng = c.rng
    g = G(rng, nasty=0.1, big=0.1)
    for i in range(c.scale(2500, 40000)):
        g.wild = rng.random() < 0.12
        ctor, args = rargs(g, rng)
        try:
            xs = wrapped(ctor, args, [value(rng, a, ctor) for a in args])
        except Exception as e:
            c.emit('build', 'values %r: %r' % (args, e), ctor='ds', args=[], out=['hang'])
            continue
        c.emit('build', callpy(ctor, args), ctor=ctor, args=args, out=built(construct(ctor, xs, rng)))


def build_same(d):
    """[ctor, args, result] enumerated by MC_Build."""
    ctor, args, want = d
    xs = wrapped(ctor, args, [value(None, a) for a in args])
    got = built(construct(ctor, xs))
    if want[0] == 'any':
        return
    if want[0] == 'exc':
        if got[0] not in ('exc', 'crash'):
            yield 'build.accepted', '%s -> %s, should be refused' % (callpy(ctor, args), got)
    elif got[0] in ('exc', 'crash', 'hang'):
        yield 'build.refused', '%s -> %s, should be %s' % (callpy(ctor, args), got, want)
    elif got != want:
        yield 'build.value', '%s -> %s, should be %s' % (callpy(ctor, args), got, want)


def copy_same(d):
    """[T, text] enumerated by MC_Types: every way to copy gives T back."""
    t = d[0]
    x = mk(t)
    for obj in (x, wrap(x)):
        for name, f in WAYS:
            if name == 'rebuild' and type(obj) is ct.CType:
                continue
            how, y = guarded(lambda: f(obj))
            out = outcome(lambda: y, conv=term) if how == 'ok' else [how, repr(y)]
            if out[0] != 'ok':
                yield 'copy.failed', '%s of %s: %s' % (name, text(x), out)
            elif out[1] != t:
                yield 'copy.value', '%s of %s gives %s' % (name, text(x), text(y))
            else:
                ok = type(y) is type(obj) and y == obj and obj == y and hash(y) == hash(obj) and str(y) == str(obj) and repr(y) == repr(obj)
                if not ok:
                    yield 'copy.same', '%s of %s is not the same: %s' % (name, text(x), text(y))
