"""Drivers for the conversions to and from NumPy (C09) and for promotion (C10)."""
import numpy as np
import datashape
from datashape import discover, from_numpy, promote, optionify, to_numpy, to_numpy_dtype

from alpha import Weird, cp, guarded, mk, num, outcome, term, uncp, unnum, wrap
from d_index import judge
from d_values import broad, collide
from gen import CTS, NUMS, ENCS, UNITS, G, mzr

NAMES = ['bool', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float16', 'float32', 'float64',
         'complex64', 'complex128', 'object']
NPUNITS = ['Y', 'M', 'W', 'D', 'h', 'm', 's', 'ms', 'us', 'ns', 'ps', 'fs', 'as', 'generic']


def adt(d):
    """A NumPy dtype as a term of spec/NumPyMap.tla."""
    if not isinstance(d, np.dtype):
        raise Weird('not a dtype: %r' % (d,))
    if d.subdtype is not None:
        raise Weird('subarray dtype %r' % d)
    if d.names is not None:
        return ['rec', [[cp(n), [num(int(k)) for k in d.fields[n][0].shape], adt(d.fields[n][0].base)] for n in d.names]]
    k = d.kind
    if k == 'S':
        return ['S', num(d.itemsize)]
    if k == 'U':
        return ['U', num(d.itemsize // 4)]
    if k in 'Mm':
        u, c = np.datetime_data(d)
        return [k, u, num(int(c))]
    if k == 'V':
        return ['V', num(d.itemsize)]
    return ['n', d.name]


def mkdt(a):
    k = a[0]
    if k == 'n':
        return np.dtype(a[1])
    if k in 'SUV':
        return np.dtype('%s%d' % (k, unnum(a[1])))
    if k in 'Mm':
        c = unnum(a[2])
        return np.dtype('%s8' % k) if a[1] == 'generic' else np.dtype('%s8[%s%s]' % (k, '' if c == 1 else c, a[1]))
    return np.dtype([(uncp(n), mkdt(d), tuple(unnum(x) for x in s)) if s else (uncp(n), mkdt(d)) for n, s, d in a[1]])


def shapes(rng, deep=3):
    return [num(rng.choice([0, 1, 2, 3, 5, 7])) for _ in range(rng.choice([0, 0, 1, 1, 2, deep]))]


def rdt(g, depth=2):
    rng = g.rng
    k = rng.random()
    if depth and k < 0.3:
        m = g.many([1, 1, 2, 3, 4])
        fields = [[cp(n), shapes(rng) if rng.random() < 0.3 else [], rdt(g, depth - 1 if m < 9 else 0)] for n in g.names(m) if n]
        return ['rec', [[n, [] if d[0] in 'SUV' and d[1] == [0] else s, d] for n, s, d in fields]]
    if k < 0.6:
        return ['n', rng.choice(NAMES)]
    if k < 0.7:
        return [rng.choice('SU'), num(rng.choice([0, 1, 2, 5, 30, 255, 256, 1000]))]
    if k < 0.95:
        u = rng.choice(NPUNITS)
        return [rng.choice('Mm'), u, num(1 if u == 'generic' or rng.random() < 0.8 else rng.choice([2, 10, 25]))]
    if k < 0.97:
        return ['n', 'longdouble' if np.dtype('longdouble').itemsize != 16 else np.dtype('longdouble').name]
    return ['V', num(rng.choice([0, 1, 8]))]


def npair(v):
    shape, dt = v
    if type(shape) is not tuple:
        raise Weird('shape %r' % (shape,))
    return [[num(int(x)) for x in shape], adt(dt)]


def dress(rng, d):
    """The same fields laid out in another way: aligned, apart, backwards, with titles or metadata."""
    if d.subdtype is not None:
        return np.dtype((dress(rng, d.base), d.shape))
    if not d.names:
        return np.dtype(d, metadata={'of': 'a test'}) if rng.random() < 0.2 else d
    fs = [dress(rng, d.fields[n][0]) for n in d.names]
    k = rng.random()
    if k < 0.25:
        return np.dtype(list(zip(d.names, fs)), align=True)
    spec = {'names': list(d.names), 'formats': fs}
    if k < 0.6:
        at = rng.choice([0, 3, 8])
        spec['offsets'] = [0] * len(fs)
        for i in rng.choice([range(len(fs)), range(len(fs) - 1, -1, -1)]):
            at = at + 7 & ~7
            spec['offsets'][i] = at
            at += fs[i].itemsize + rng.choice([0, 0, 5])
        spec['itemsize'] = at + 16
    if rng.random() < 0.4:
        spec['titles'] = [rng.choice(['title %d' % i, ('t', i)]) for i in range(len(fs))]
    return np.dtype(spec)


def fromnp(c, shape, a, swap=False):
    d = mkdt(a)
    if adt(d) != a:
        return
    if c.rng.random() < 0.3:
        d = dress(c.rng, d)
        if adt(d) != a:
            raise ValueError('%r is not %r' % (d, a))
    if swap:
        d = d.newbyteorder('>')
    s = tuple(unnum(x) for x in shape)
    box = {}

    def f():
        box['x'] = from_numpy(s, d)
        return box['x']
    out = outcome(f)
    back = outcome(lambda: to_numpy(box['x']), conv=npair) if out[0] == 'ok' else ['exc']
    c.emit('fromnp', 'from_numpy(%s, %r)' % (s, d), shape=shape, dt=a, out=out, back=back)


def pick(g, t):
    """Terms which NumPy mostly has."""
    r = g.rng
    k = r.randint(0, 9)
    if k < 4:
        return ['ct', r.choice([x for x in CTS])]
    if k == 4:
        return r.choice([['date'], ['datetime', []], ['datetime', g.tz()], ['td', r.choice(UNITS)]])
    if k == 5:
        return ['str', [num(g.size())] if r.random() < 0.8 else [], r.choice(ENCS)]
    if k == 6:
        return ['dec', num(r.choice([0, 1, 2, 3, 4, 5, 9, 10, 18, 19, 30])), num(r.choice([0, 0, 0, 1, -1]))]
    if k == 7:
        return ['opt', r.choice([['date'], ['datetime', []], ['td', r.choice(UNITS)], ['ct', 'int8']])]
    return t


def npterm(g, depth):
    r = g.rng
    k = r.random()
    if depth and k < 0.01:
        n, ts = r.choice([17, 33, 65, 101, 130, 257]), [['ct', x] for x in NUMS + ['bool', 'object']] + [['str', [num(3)], 'A'], ['date'], ['td', 's']]
        m = ['rec', [[cp('f%d' % i), r.choice(ts)] for i in range(n)]]
    elif depth and k < 0.35:
        n = g.many([0, 1, 2, 3])
        m = ['rec', [[cp(x), npterm(g, depth - 1 if n < 9 else 0)] for x in g.names(n)]]
    elif depth and k < 0.45:
        n = g.many([0, 1, 2, 3])
        m = ['tup', [npterm(g, depth - 1 if n < 9 else 0) for _ in range(n)]]
    elif depth and k < 0.52:
        m = ['map', npterm(g, depth - 1), g.leaf()]
    elif k < 0.56:
        m = mzr(g.term(1))
    else:
        m = pick(g, g.leaf())
    ds = [['fix', num(g.size() if r.random() < 0.3 else r.choice([0, 1, 2, 3]))] if r.random() < 0.85 else g.dim() for _ in range(r.choice([0, 0, 0, 1, 2]))]
    return ['ds', ds, m] if ds else m


def strings(a):
    return [isinstance(x, str) for x in a.ravel().tolist()]


THINGS = [1, None, 2.5, b'a', ('a',), ['b'], object, {'a': 1}]


def objarr(rng, shape):
    a = np.empty(shape, dtype=object)
    flat = a.reshape(-1)
    n = flat.size
    kind = rng.choice(['str', 'str', 'mixed', 'none', 'late'])
    for i in range(n):
        if kind == 'str' or kind == 'late' and i >= 0 and not (i >= 5 and rng.random() < 0.5) or kind == 'mixed' and rng.random() < 0.7:
            flat[i] = rng.choice(['', 'a', 'hello', '1', '\xe9', '2014-01-01'])
        else:
            flat[i] = rng.choice(THINGS)
    return a


def content(x):
    """The content of an array, not what lies between its fields."""
    if x.dtype.names is not None:
        return [content(x[n]) for n in x.dtype.names]
    return x.tobytes()


def discarr(c, g):
    rng = c.rng
    shape = tuple(unnum(x) for x in shapes(rng))
    if rng.random() < 0.01:
        shape = (rng.choice([257, 1000, 1025, 2000]),)
    if rng.random() < 0.35:
        x = objarr(rng, shape)
    elif rng.random() < 0.5:
        fields, cols = [], []
        for n in g.names(g.many([1, 2, 3, 4])):
            if not n:
                continue
            k = rng.random()
            if k < 0.6:
                fields.append((n, object))
            elif k < 0.7:
                fields.append((n, object, (2,)))
            else:
                d = mkdt(rdt(g, 1))
                fields.append((n, d))
        x = np.empty(shape, dtype=dress(rng, np.dtype(fields)) if rng.random() < 0.3 else fields)
        for f in fields:
            if f[1] is object:
                x[f[0]] = objarr(rng, x[f[0]].shape)
    else:
        d = mkdt(rdt(g))
        x = np.zeros(shape, dtype=d)
        if rng.random() < 0.2 and x.ndim > 1:
            x = x.T
    if rng.random() < 0.15:
        x = x.view(np.recarray)
    dt = adt(x.dtype)
    if x.dtype.kind == 'O':
        strs = [strings(x)]
    elif x.dtype.names is not None:
        strs = [strings(x[n]) if x.dtype.fields[n][0] == np.dtype('O') else [] for n in x.dtype.names]
    else:
        strs = []
    before = x.dtype, x.shape, content(x)
    out = outcome(lambda: discover(x))
    c.emit('discarr', 'discover(np array %s %r, strings %s)' % (shape, x.dtype, strs), shape=[num(k) for k in x.shape], dt=dt,
           strs=strs, out=out)
    if (x.dtype, x.shape, content(x)) != before:
        c.emit('discarr', 'discover changed the array', shape=[num(k) for k in shape], dt=dt, strs=strs, out=['hang'])


def C09(c):
    rng = c.rng
    g = G(rng, nasty=0.05, big=0.1)
    for i in range(c.scale(700, 12000)):
        fromnp(c, shapes(rng, 4), rdt(g, rng.choice([0, 1, 2, 2])), rng.random() < 0.15)
    for i in range(c.scale(800, 14000)):
        t = npterm(g, rng.choice([0, 1, 2, 2]))
        x = mk(t)
        x = x if rng.random() < 0.4 else wrap(x)
        if rng.random() < 0.6:
            c.emit('tonp', 'to_numpy(%s)' % x, t=t, out=outcome(lambda: to_numpy(x), conv=npair))
        else:
            c.emit('todt', 'to_numpy_dtype(%s)' % x, t=t, out=outcome(lambda: to_numpy_dtype(x), conv=adt))
    for i in range(c.scale(400, 6000)):
        discarr(c, g)


def fromnp_same(d):
    """[shape, dtype, datashape, [shape, dtype] back] enumerated by MC_NumPy."""
    shape, a, want, back = d
    dt = mkdt(a)
    if adt(dt) != a:
        return
    s = tuple(unnum(x) for x in shape)
    got = outcome(lambda: from_numpy(s, dt))
    what = 'from_numpy(%s, %r) -> %s, should be %s' % (s, dt, got, want)
    for r in judge(got, want, 'fromnp', what):
        yield r
    if got[0] == 'ok' and want[0] == 'ok':
        got = outcome(lambda: to_numpy(from_numpy(s, dt)), conv=npair)
        for r in judge(got, back, 'roundtrip', 'to_numpy(from_numpy(%s, %r)) -> %s, should be %s' % (s, dt, got, back)):
            yield r


def tonp_same(d):
    """[T, (shape, dtype), dtype] enumerated by MC_ToNp."""
    t, want, wdt = d
    for x in (mk(t), wrap(mk(t))):
        got = outcome(lambda: to_numpy(x), conv=npair)
        for r in judge(got, want, 'tonp', 'to_numpy(%r) -> %s, should be %s' % (x, got, want)):
            yield r
        if want[0] == 'exc' and got[0] in ('exc', 'crash') and got[1] != 'TypeError':
            yield 'tonp.error', 'to_numpy(%r) raises %s' % (x, got)
        got = outcome(lambda: to_numpy_dtype(x), conv=adt)
        for r in judge(got, wdt, 'todt', 'to_numpy_dtype(%r) -> %s, should be %s' % (x, got, wdt)):
            yield r
        if wdt[0] == 'exc' and got[0] in ('exc', 'crash') and got[1] != 'TypeError':
            yield 'todt.error', 'to_numpy_dtype(%r) raises %s' % (x, got)


# ----------------------------------------------------------------- promotion
def scalar(g):
    r = g.rng
    k = r.random()
    if k < 0.55:
        t = ['ct', r.choice(CTS)]
    elif k < 0.65:
        t = r.choice([['date'], ['datetime', []], ['datetime', g.tz()], ['td', r.choice(UNITS)], ['td', r.choice(UNITS)]])
    elif k < 0.85:
        t = r.choice([['str', [], 'U8'], ['str', [], r.choice(ENCS)], ['str', [num(g.size())], r.choice(ENCS)], ['str', [num(r.randint(0, 9))], r.choice(ENCS)]])
    elif k < 0.92:
        t = pick(g, ['null'])
    else:
        t = g.leaf()
    return t


def C10(c):
    rng = c.rng
    g = G(rng, nasty=0.05, big=0.1)
    for i in range(c.scale(1500, 30000)):
        a = scalar(g)
        b = a if rng.random() < 0.15 else scalar(g)
        if rng.random() < 0.3:
            a = ['opt', a] if a[0] != 'opt' else a
        if rng.random() < 0.3:
            b = ['opt', b] if b[0] != 'opt' else b
        if rng.random() < 0.05:
            a = b = mzr(g.term(2))
        elif rng.random() < 0.06:
            a, b = [mzr(x) for x in (collide if rng.random() < 0.8 else broad)(g)]
        x, y = mk(a), mk(b)
        if rng.random() < 0.4:
            x = wrap(x)
        if rng.random() < 0.4:
            y = wrap(y)
        opt = rng.random() < 0.75
        if rng.random() < 0.1:
            t = scalar(g)
            z = mk(t)
            z = wrap(z) if rng.random() < 0.3 else z
            c.emit('optionify', 'optionify(%r, %r, %r)' % (x, y, z), a=a, b=b, t=t, out=outcome(lambda: optionify(x, y, z)))
            continue
        f = (lambda: promote(x, y)) if opt and rng.random() < 0.5 else (lambda: promote(x, y, opt)) if rng.random() < 0.5 else (
            lambda: promote(x, y, promote_option=opt))
        c.emit('promote', 'promote(%r, %r, promote_option=%s)' % (x, y, opt), a=a, b=b, opt=opt, out=outcome(f))


def promo_same(d):
    """[a, b, opt, result] enumerated by MC_Promo."""
    a, b, opt, want = d
    for x, y in ((mk(a), mk(b)), (wrap(mk(a)), mk(b)), (mk(a), wrap(mk(b))), (wrap(mk(a)), wrap(mk(b)))):
        got = outcome(lambda: promote(x, y, promote_option=opt))
        for r in judge(got, want, 'promote', 'promote(%r, %r, promote_option=%s) -> %s, should be %s' % (x, y, opt, got, want)):
            yield r
    # the specification against NumPy
    if a[0] == 'ct' and b[0] == 'ct' and want[0] == 'ok' and a != b:
        n = lambda t: np.dtype({'complex[float32]': 'complex64', 'complex[float64]': 'complex128'}.get(t[1], t[1]))
        try:
            r = np.result_type(n(a), n(b))
        except TypeError:
            r = None
        w = want[1][1] if want[1][0] == 'opt' else want[1]
        if r is None or w != ['ct', {'complex64': 'complex[float32]', 'complex128': 'complex[float64]'}.get(r.name, r.name)]:
            yield 'spec.numpy', 'NumPy promotes %s and %s to %s, not %s' % (a, b, r, want)
