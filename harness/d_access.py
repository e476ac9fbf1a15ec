"""Drivers for reading datashapes (C21): length, items, shape, measure and parts."""
import operator

import datashape.coretypes as ct

from alpha import REFUSAL, Weird, cp, dim, guarded, mk, mkdim, num, outcome, term, uncp, unnum, weird
from d_values import variant
from gen import G

COMMON = ['len', 'iter', 'shape', 'measure', 'parameters']
PARTS = {'rec': ['names', 'types', 'fields', 'dict'], 'opt': ['ty', 'itemsize'], 'map': ['key', 'value'], 'tup': ['dshapes'], 'fun': ['argtypes', 'restype'],
         'cat': ['categories', 'type', 'ordered'], 'time': ['tz'], 'datetime': ['tz'], 'td': ['unit'], 'units': ['unit', 'tp'], 'str': ['fixlen', 'encoding'],
         'dec': ['precision', 'scale'], 'tv': ['symbol'], 'fix': ['val', 'int', 'index'], 'ell': ['typevar'], 'ct': ['name', 'itemsize', 'alignment']}


def val(x):
    """The abstract value of what is read."""
    if isinstance(x, ct.DataShape):
        return ['w', term(x)]
    if isinstance(x, ct.TypeVar):
        return ['b', ['tv', cp(x.symbol)]]
    if isinstance(x, ct.Mono):
        if type(x) in (ct.Fixed, ct.Var, ct.Ellipsis):
            return ['d', dim(x)]
        return ['b', term(x)]
    if x is None:
        return ['none']
    if isinstance(x, bool):
        return ['bool', x]
    if isinstance(x, int):
        return ['int', num(x)]
    if isinstance(x, str):
        return ['text', cp(x)]
    if isinstance(x, (list, tuple)):
        return ['list', [val(y) for y in x]]
    if isinstance(x, dict):
        return ['list', [val(p) for p in x.items()]]
    raise Weird('%s is no value' % type(x).__name__)


def symbol(v):
    return v.symbol if isinstance(v, ct.TypeVar) else v


def read(x, acc):
    """Read an object with an accessor."""
    a = acc[0]
    if a == 'len':
        return len(x)
    if a == 'iter':
        return list(x)
    if a == 'item':
        return x[unnum(acc[1])]
    if a == 'slice':
        return x[slice(*[unnum(v[0]) if v else None for v in acc[1:]])]
    if a == 'field':
        return x[uncp(acc[1])]
    if a == 'int':
        return int(x)
    if a == 'index':
        return operator.index(x)
    if a == 'parameters':
        if type(x) is ct.Ellipsis:
            return [symbol(v) for v in x.parameters]
        kind, ps = x.info()
        if kind is not type(x) or ps != x.parameters:
            raise Weird('info() is %r' % (x.info(),))
        return ps
    if a == 'typevar':
        return symbol(x.typevar)
    if a == 'dict' and not isinstance(x.dict, dict):
        raise Weird('not a dict')
    return getattr(x, a)


def reads(x, acc):
    """['ok', value] or how it was refused, and what was read."""
    how, v = guarded(lambda: read(x, acc))
    if how == 'hang':
        return ['hang'], None
    if how == 'err':
        if isinstance(v, Weird):
            return weird(v), None
        return ['exc' if isinstance(v, REFUSAL + (IndexError, KeyError, AttributeError)) else 'crash', type(v).__name__], None
    try:
        return ['ok', val(v)], v
    except Weird as e:
        return weird(e), None


def same(a, b):
    """Is what was read (b) what the specification gives (a)?"""
    if a[0] == 't':
        return b[0] in ('w', 'b') and a[1] == b[1]
    if a[0] == 'list':
        return b[0] == 'list' and len(a[1]) == len(b[1]) and all(same(x, y) for x, y in zip(a[1], b[1]))
    return a == b


def read_same(d):
    """[T, [[value, [[accessor, result]..]]..]] enumerated by MC_Access."""
    t, forms = d
    for v, accs in forms:
        x = mkdim(v[1]) if v[0] == 'd' else mk(v[1])
        x = ct.DataShape(x) if v[0] == 'w' and not isinstance(x, ct.DataShape) else x
        for acc, want in accs:
            got, _ = reads(x, acc)
            if (got[0] in ('exc', 'crash')) != (want[0] == 'exc') or got[0] in ('hang', 'weird') or (want[0] == 'ok' and not same(want[1], got[1])):
                yield 'read.' + acc[0], '%r read by %s gives %s, should be %s' % (x, acc, got, want)


def access(rng, v):
    """An accessor of an object."""
    w, t = v
    rec = w == 'b' and t[0] == 'rec'
    n = len(t[1]) + 1 if w == 'w' and t[0] == 'ds' else 1
    k = rng.random()
    parts = PARTS.get(t[0], []) if w != 'w' else []
    if rec and k < 0.45:
        names = [f[0] for f in t[1]]
        if names and rng.random() < 0.8:
            return ['field', rng.choice(names)]
        return ['field', cp(rng.choice(['names', 'no such', '', 'A', 'a']))]
    if rec and k < 0.55:
        return ['item', num(rng.choice([0, -1, 1, 5]))] if rng.random() < 0.7 else ['slice', [], [num(1)], []]
    if parts and k < 0.7:
        return [rng.choice(parts)]
    if rec:
        return [rng.choice(['len', 'shape', 'measure', 'parameters'])]
    if k < 0.35:
        return ['item', num(rng.choice([0, -1, rng.randint(-n, n - 1), rng.randint(-n - 2, n + 1), 10 ** 20]))]
    if k < 0.5:
        def b():
            return [] if rng.random() < 0.4 else [num(rng.choice([0, 1, -1, rng.randint(-n - 2, n + 2), 10 ** 20, -10 ** 20]))]
        return ['slice', b(), b(), rng.choice([[], [], [num(1)], [num(-1)], [num(2)], [num(-2)], [num(0)], [num(3)]])]
    return [rng.choice(COMMON)]


def objects(x):
    """The objects inside what was read."""
    if isinstance(x, ct.Mono):
        return [x]
    if isinstance(x, (list, tuple)):
        return [o for y in x for o in objects(y)]
    if isinstance(x, dict):
        return objects(list(x.items()))
    return []


def repeating(g, rng):
    """An object with several parts, some of them the same."""
    pool = [g.term(rng.choice([0, 0, 1])) for _ in range(rng.choice([1, 2, 2, 3]))]

    def ts(n):
        return [rng.choice(pool) for _ in range(n)]
    k, n = rng.choice(['rec', 'tup', 'fun', 'fun', 'map', 'ds', 'opt', 'cat']), rng.choice([1, 2, 3, 4, 5, 7])
    if k == 'rec':
        return [k, [[cp(a), t] for a, t in zip(g.names(n), ts(n))]]
    if k == 'tup':
        return [k, ts(n)]
    if k == 'fun':
        return [k, ts(n), rng.choice(pool)]
    if k == 'map':
        return [k] + ts(2)
    if k == 'opt':
        return [k, rng.choice(pool)]
    if k == 'cat':
        return [k, g.cats(), rng.choice([['ct', 'int64'], ['str', [], 'U8'], ['ct', 'bool']]), rng.random() < 0.5]
    ds = [['fix', num(2)], ['fix', num(3)], ['tv', cp('N')], ['var']][:rng.choice([1, 2, 4])]
    return ['ds', [rng.choice(ds) for _ in range(n)], g.leaf()]


def C21(c):
    rng = c.rng
    g = G(rng, nasty=0.15, big=0.15)
    for i in range(c.scale(100, 1500)):
        t = repeating(g, rng)
        x, how = variant(rng, t)
        if isinstance(x, ct.DataShape) and t[0] != 'ds':
            x = x.measure
        if t[0] == 'fun' and rng.random() < 0.6:      # of bare types
            x = ct.Function(*[p.measure if isinstance(p, ct.DataShape) and len(p) == 1 else p for p in x.parameters])
        v = ['w' if isinstance(x, ct.DataShape) else 'b', t]
        for acc in ([[a] for a in PARTS.get(t[0], [])] if v[0] == 'b' else []) + [access(rng, v) for _ in range(4)]:
            out, _ = reads(x, acc)
            c.emit('read', '%s of %r (%s)' % (acc, x, how), v=v, acc=acc, out=out)
    for i in range(c.scale(600, 8000)):
        t = g.term(rng.choice([1, 2, 2, 3, 4]))
        x, how = variant(rng, t)
        for step in range(rng.choice([2, 4, 7])):
            out = outcome(lambda: None, lambda _: val(x))
            if out[0] != 'ok':
                c.emit('read', 'an object inside %s' % (how,), v=['w', t], acc=['len'], out=out)
                break
            v = out[1]
            acc = access(rng, v)
            out, y = reads(x, acc)
            c.emit('read', '%s of %r (%s)' % (acc, x, how), v=v, acc=acc, out=out)
            inner = objects(y)
            if inner and rng.random() < 0.8:
                x = rng.choice(inner)
            elif step > 2:
                x, how = variant(rng, t)
