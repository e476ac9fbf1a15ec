"""Drivers for indexing (C07) and concatenation (C08)."""
import numpy as np
import datashape
from datashape import cat_dshapes

from alpha import guarded, mk, num, outcome, uncp, unnum, cp, wrap
from gen import G, mzr

OTHER = [2.5, Ellipsis, object(), {'a': 1}, {1}, b'a', np.array([0, 1]), 1j]


def ix(rng, x):
    """The Python index of an abstract one."""
    k = x[0]
    if k == 'int':
        return unnum(x[1])
    if k == 'name':
        return uncp(x[1])
    if k == 'slice':
        return slice(*[unnum(v[0]) if v else None for v in x[1:]])
    if k == 'list':
        return [ix(rng, v) for v in x[1]]
    if k == 'tuple':
        return tuple(ix(rng, v) for v in x[1])
    if k == 'none':
        return None
    return OTHER[x[1]]


def rint(rng, n):
    k = rng.random()
    if k < 0.55:
        return rng.randint(-n - 2, n + 2)
    if k < 0.85:
        return rng.randint(-12, 12)
    return rng.choice([2**31, -2**31, 2**63 - 1, 2**63, -2**63, 2**64, -10**20, 10**20, rng.getrandbits(70)])


def rslice(rng, n):
    def b():
        return [] if rng.random() < 0.3 else [num(rint(rng, n))]
    step = rng.choice([[], [], [num(1)], [num(2)], [num(-1)], [num(-2)], [num(rng.randint(-5, 5))], [num(rint(rng, n))]])
    return ['slice', b(), b(), step]


def ritem(rng, t, deep=False):
    """An index that might suit the first axis of t."""
    dims, m = (t[1], t[2]) if t[0] == 'ds' else ([], t)
    k = rng.random()
    if k < 0.03:
        return ['other', rng.randrange(len(OTHER))]
    if dims or m[0] != 'rec' or k < 0.1:
        n = unnum(dims[0][1]) if dims and dims[0][0] == 'fix' else 5
        n = min(n, 2**70)
        if k < 0.35:
            return ['int', num(rng.choice([0, 1, -1]) if rng.random() < 0.4 else rint(rng, n))]
        if k < 0.8:
            return rslice(rng, n)
        if k < 0.95:
            return ['list', [['int', num(rint(rng, n))] for _ in range(rng.choice([0, 1, 2, 3, 5] * 5 + [9, 12, 17, 33, 70]))]]
        return ['name', cp(rng.choice(['a', 'x', 'name']))]
    names = [f[0] for f in m[1]]

    def field():
        if names and rng.random() < 0.5:
            return ['name', rng.choice(names)]
        if rng.random() < 0.1:
            return ['name', cp('no such field')]
        return ['int', num(rng.randint(-len(names) - 1, len(names)) if rng.random() < 0.2 or not names else rng.randrange(-len(names), len(names)))]
    if k < 0.4:
        return field()
    if k < 0.7:
        return ['list', [field() for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]]
    return rslice(rng, len(names))


def rindex(rng, t):
    if rng.random() < 0.35:
        return ritem(rng, t)
    dims, m = (t[1], t[2]) if t[0] == 'ds' else ([], t)
    out = []
    for i in range(rng.choice([0, 1, 2, 2, 3, 4])):
        if rng.random() < 0.1:
            out.append(['none'])
        ds = dims[min(i, len(dims)):]
        out.append(ritem(rng, ['ds', ds, m] if ds else m))
        if i >= len(dims) and rng.random() < 0.8:
            break
    if rng.random() < 0.08:
        out.append(['none'])
    return ['tuple', out]


def C07(c):
    rng = c.rng
    g = G(rng, nasty=0.05, big=0.1)
    for i in range(c.scale(1500, 25000)):
        t = g.term(1)
        if rng.random() < 0.85:
            dims = g.dims(g.many([0, 1, 1, 2, 2, 3]), ell=rng.random() < 0.1)
            m = mzr(t)
            if rng.random() < 0.5:
                m = ['rec', [[cp(n), g.term(rng.choice([0, 0, 1]))] for n in g.names(g.many([0, 1, 2, 3, 4]))]]
            if rng.random() < 0.05:
                m = ['opt', m]
            t = ['ds', dims, m] if dims else m
        ds = wrap(mk(t))
        if rng.random() < 0.1:
            n = rng.choice([0, 0, 1, 1, 2, 3, 4, 10, -1, 10**20])
            x = ds if rng.random() < 0.8 else mk(t)
            c.emit('subarray', '%s.subarray(%d)' % (ds, n), t=t, n=num(n), out=outcome(lambda: x.subarray(n)))
            continue
        x = rindex(rng, t)
        y = ix(rng, x)
        before = repr(y)
        c.emit('index', '%s.subshape[%r]' % (ds, y), t=t, ix=x, out=outcome(lambda: ds.subshape[y]))
        if repr(y) != before:
            c.emit('index', 'the index %s was changed to %r' % (before, y), t=t, ix=x, out=['hang'])


def orthogonal(a, items):
    """Index the axes of an array one by one, as if they were independent."""
    axis = 0
    plan = []
    for x in items:
        if x is None:
            plan.append((None, None))
        else:
            plan.append((axis, x))
            axis += 1
    if axis > a.ndim:
        raise IndexError('too many')
    out = a
    new = []
    for pos, (ax, x) in reversed(list(enumerate(plan))):
        if x is None:
            continue
        key = (slice(None),) * ax + (np.array(x, dtype=int) if isinstance(x, list) else x,)
        out = out[key]
    at = 0
    for ax, x in plan:
        if x is None:
            out = np.expand_dims(out, at)
            at += 1
        elif not isinstance(x, int):
            at += 1
    return out


def index_same(d):
    """[T, index, result] enumerated by MC_Index."""
    t, x, want = d
    ds = wrap(mk(t))
    y = ix(None, x)
    got = outcome(lambda: ds.subshape[y])
    what = '%s.subshape[%r] -> %s, should be %s' % (ds, y, got, want)
    for r in judge(got, want, 'index', what):
        yield r
    # the specification itself against NumPy
    dims, m = (t[1], t[2]) if t[0] == 'ds' else ([], t)
    if m[0] != 'rec' and all(q[0] == 'fix' for q in dims) and want[0] in ('ok', 'maybe'):
        a = np.empty([unnum(q[1]) for q in dims], dtype='i1')
        try:
            b = orthogonal(a, list(y) if isinstance(y, tuple) else [y])
        except (IndexError, ValueError):
            if want[0] == 'ok':
                yield 'spec.numpy', 'NumPy refuses: ' + what
            return
        w = want[1]
        shape = [unnum(q[1]) for q in w[1]] if w[0] == 'ds' else []
        if list(b.shape) != shape:
            yield 'spec.numpy', 'NumPy gives %s: %s' % (b.shape, what)


def judge(got, want, k, what):
    if want[0] == 'any':
        return
    if got[0] in ('hang', 'weird'):
        yield k + '.value', what
    elif got[0] in ('exc', 'crash'):
        if want[0] == 'ok':
            yield k + '.refused', what
    elif want[0] == 'exc':
        yield k + '.accepted', what
    elif got[1] != want[1]:
        yield k + '.value', what


def cat_same(d):
    ts, want = d
    xs = [wrap(mk(t)) for t in ts]
    got = outcome(lambda: cat_dshapes(xs))
    for r in judge(got, want, 'cat', 'cat_dshapes(%s) -> %s, should be %s' % (list(map(str, xs)), got, want)):
        yield r
    got = outcome(lambda: cat_dshapes(tuple(xs)))
    for r in judge(got, want, 'cat', 'cat_dshapes(tuple %s) -> %s, should be %s' % (list(map(str, xs)), got, want)):
        yield r


def sub_same(d):
    t, n, want = d
    for x in (wrap(mk(t)), mk(t)):
        got = outcome(lambda: x.subarray(unnum(n)))
        for r in judge(got, want, 'subarray', '%r.subarray(%d) -> %s, should be %s' % (x, unnum(n), got, want)):
            yield r


def C08(c):
    from d_values import broad, collide, tweak, flat, variant
    rng = c.rng
    g = G(rng, nasty=0.05, big=0.25)
    for i in range(c.scale(1200, 20000)):
        t = g.term(rng.choice([0, 1, 1, 2]))
        m = mzr(t)
        rest = flat(g.dims(g.many([0, 0, 0, 1, 2])), m)
        lead = g.dim() if rng.random() < 0.1 else ['fix', num(g.size())]
        n = rng.choice([0, 1, 2, 2, 2, 3, 3, 4, 6]) if rng.random() < 0.96 else rng.choice([9, 17, 18, 25, 33, 40])
        ts = [flat([['fix', num(g.size())] if rng.random() < 0.95 else g.dim()], rest) for _ in range(n)]
        if ts and rng.random() < 0.3:
            k = rng.choice([rng.randrange(len(ts)), len(ts) - 1])
            w = rng.random()
            if w < 0.15:
                a, b = (collide if rng.random() < 0.7 else broad)(g)
                ts = [flat([['fix', num(g.size())]], b if i == k else a) for i in range(n)]
            elif w < 0.4:
                ts[k] = flat([['fix', num(g.size())]], tweak(g, rest))
            elif w < 0.6:
                ts[k] = flat([['fix', num(g.size())]], ['opt', rest] if rest[0] != 'ds' else rest[2])
            elif w < 0.8:
                ts[k] = flat([g.dim(), g.dim(False)], rest)
            else:
                ts[k] = rest
        xs = [wrap(variant(rng, x)[0]) for x in ts]
        ys = list(xs) if rng.random() < 0.7 else tuple(xs)
        out = outcome(lambda: cat_dshapes(ys))
        c.emit('cat', 'cat_dshapes([%s])' % ', '.join(map(str, xs)), ts=ts, out=out)
        if list(ys) != xs:
            c.emit('cat', 'the list given to cat_dshapes changed', ts=ts, out=['hang'])
