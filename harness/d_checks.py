"""Drivers for validation (C14), predicates (C15), type sets (C16) and assertions (C17)."""
import ast
import copy
import datetime
import pickle
import re

import numpy as np
import datashape
from datashape import dshape, has_ellipsis, has_var_dim, predicates, to_numpy, typesets
from datashape.user import issubschema, validate
from datashape.util import collect
from datashape.util.testing import assert_dshape_equal
import datashape.coretypes as ct

from alpha import Weird, cp, dim, guarded, measure, mk, mkdim, num, outcome, term, uncp, unnum, wrap
from d_discover import KEYS, build, scalar, seq, show, value
from d_numpy import adt, mkdt
from d_values import broad, collide, context, tweak, variant
from gen import CTS, UNITS, G, mzr, spell


def answer(f, raising=False):
    """'yes', 'no' or how the call failed; raising: an AssertionError means 'no'."""
    how, v = guarded(f)
    if how == 'hang':
        return 'hang'
    if how == 'err':
        return 'no' if raising and isinstance(v, AssertionError) else 'fails with ' + type(v).__name__
    if raising:
        return 'yes'
    try:
        return 'yes' if v else 'no'
    except Exception as e:
        return 'fails with ' + type(e).__name__


STEP = re.compile(r'''\.([a-z_]+)|\[(\d+)\]|\[((?:b|u)?'(?:[^'\\\n]|\\.)*'|"(?:[^"\\\n]|\\.)*")\]''')


def asserted(f):
    """The verdict of an assertion and the way to the difference that its message shows."""
    how, v = guarded(f)
    if how != 'err' or not isinstance(v, AssertionError):
        return ('hang' if how == 'hang' else 'yes' if how == 'ok' else 'fails with ' + type(v).__name__), []
    s = str(v)
    i = s.rfind('\npath: _')
    if i < 0:
        return 'no', []
    i += len('\npath: _')
    out = []
    while i < len(s):
        m = STEP.match(s, i)
        if not m:
            return 'no', [['unread']]
        a, n, q = m.groups()
        out.append(['at', a] if a else ['no', int(n)] if n else ['name', cp(ast.literal_eval(q))])
        i = m.end()
    return 'no', out


def text(r, t):
    """A text of the term, or None when it has none."""
    s = spell(r, t)
    how, v = guarded(lambda: dshape(s))
    return s if how == 'ok' and v == wrap(mk(t)) else None


# ---------------------------------------------------------------- validation
CLASSES = {'int': int, 'float': float, 'complex': complex, 'str': str, 'bytes': bytes, 'bool': bool, 'dict': dict,
           'date': datetime.date, 'datetime': datetime.datetime, 'object': object}
NPN = ['bool', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float16', 'float32', 'float64', 'complex64', 'complex128']


def plain(t):
    """Values whose class NumPy does not know by one name are left out."""
    k = t[0]
    if k in ('seq', 'set'):
        return all(map(plain, t[1]))
    if k in ('map', 'omap', 'mproxy'):
        return all(plain(x[1]) for x in t[1])
    return True


def usual(r, depth=None):
    """A value, none of NumPy's second names for the same integers."""
    while True:
        t, v = scalar(r) if depth is None else value(r, depth)
        if not odd(v):
            return t, v


def odd(v):
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(map(odd, v))
    if hasattr(v, 'values'):
        return any(map(odd, v.values()))
    # of classes derived from int nothing is said
    return isinstance(v, int) and type(v) not in (int, bool) or isinstance(v, (np.longlong, np.ulonglong)) and type(v) not in (np.int64, np.uint64)


class TooBig(Exception):
    pass


def size(t):
    """Of an abstract value."""
    return 1 + sum(size(x) for x in t) if isinstance(t, list) else 1


def fits(r, t):
    """(abstract value, value) that should conform to t, now and then with something else in it."""
    try:
        return fitting(r, t, [4000])
    except TooBig:
        return usual(r)


PLAIN = [(['ct', 'int64'], ['int'], 5), (['ct', 'float64'], ['float'], 2.5), (['ct', 'bool'], ['bool'], True), (['str', [], 'U8'], ['str', cp('ab'), 'none'], 'ab'),
         (['date'], ['date'], datetime.date(2014, 1, 1))]


def fitting(r, t, left):
    left[0] -= 1
    if left[0] < 0:
        raise TooBig
    if r.random() < 0.02:
        return usual(r, 1)
    k = t[0]
    if k == 'ds':
        d = t[1][0]
        rest = ['ds', t[1][1:], t[2]] if t[1][1:] else t[2]
        n = r.choice([0, 1, 2, 3])
        if d[0] == 'fix' and unnum(d[1]) < 40 and r.random() < 0.95:
            n = unnum(d[1])
        items = [fitting(r, rest, left) for _ in range(n)]
        if n > 1 and d[0] != 'fix' and r.random() < 0.12:
            k = r.choice([4, 5, 9, 10, 16, 33])
            left[0] -= k * sum(size(x[0]) for x in items[:-1])
            if left[0] < 0:
                raise TooBig
            items = items[:-1] * k + items[-1:]
            if r.random() < 0.3:
                items[-1] = usual(r)
        if r.random() < 0.8:
            return ['seq', [x[0] for x in items]], r.choice([list, tuple])(x[1] for x in items)
        return seq(r, [x[0] for x in items], [x[1] for x in items])
    if k == 'opt':
        return (['none'], None) if r.random() < 0.3 else fitting(r, t[1], left)
    if k == 'rec':
        es = [(f[0],) + ([p[1:] for p in PLAIN if len(t[1]) > 16 and p[0] == f[1]] or [fitting(r, f[1], left)])[0] for f in t[1]]
        if r.random() < 0.4:
            w = r.random()
            if len(es) > 16 and w < 0.5:
                es[-1] = (es[-1][0],) + usual(r)
            elif w < 0.06 and es:
                es.pop()
            elif w < 0.12:
                es.append((cp('z'),) + usual(r))
            elif w < 0.18 and len(es) > 1:
                es[0], es[1] = es[1], es[0]
            return ['seq', [x[1] for x in es]], r.choice([list, tuple])(x[2] for x in es)
        w = r.random()
        if len(es) > 16 and w < 0.5:
            j = r.choice([-1, -1, r.randrange(len(es))])
            es[j] = (es[j][0],) + usual(r)
        elif w < 0.08 and es:
            es.pop(r.randrange(len(es)))
        elif w < 0.25:
            es.append((cp('zz'),) + usual(r))
        r.shuffle(es)
        kind = r.choice(['map', 'map', 'omap'])
        return [kind, [[n, a] for n, a, v in es]], (dict if kind == 'map' else datashape.py2help.OrderedDict)((uncp(n), v) for n, a, v in es)
    if k == 'ct':
        n = {'complex[float32]': 'complex64', 'complex[float64]': 'complex128'}.get(t[1], t[1])
        py = {'int64': (['int'], 5), 'float64': (['float'], 2.5), 'bool': (['bool'], True), 'complex128': (['complex'], 2j)}
        if n in py and r.random() < 0.6:
            return py[n]
        if r.random() < 0.12:
            n = r.choice(NPN)
        if n in NPN:
            return ['np', ['n', n]], np.dtype(n).type(1)
        return usual(r)
    if k == 'str':
        return ['str', cp('ab'), 'none'], 'ab'
    if k == 'date':
        return ['date'], datetime.date(2014, 1, 1)
    if k == 'datetime':
        return ['datetime'], datetime.datetime(2014, 1, 1, 1)
    if k == 'time':
        return ['time'], datetime.time(3, 3)
    if k == 'null':
        return ['none'], None
    return usual(r)


def lengthy(r):
    """A schema and many items, perhaps one of them late that does not conform."""
    t = r.choice([['ct', 'int64'], ['str', [], 'U8'], ['ct', 'float64'], ['rec', [[cp('a'), ['ct', 'int64']]]], ['ds', [['fix', num(2)]], ['ct', 'int64']]])
    a, v = fitting(r, t, [100])
    n = r.choice([101, 110, 130, 257, 300, 1025])
    items = [(a, v)] * n
    if r.random() < 0.7:
        items[r.choice([-1, -1, -2, -7, n // 2])] = usual(r)
    return (['ds', [r.choice([['var'], ['fix', num(n)]])], t], ['seq', [x[0] for x in items]], r.choice([list, tuple])(x[1] for x in items))


def vterm(r, g, depth=2):
    """A schema of the types that values have."""
    k = r.random()
    if depth and k < 0.35:
        ds = [r.choice([['fix', num(r.choice([0, 1, 2, 2, 3, 0, 1, 2, 2, 3, 11]))], ['fix', num(r.choice([1, 2, 3]))], ['var'], ['tv', cp('N')]]) for _ in range(r.choice([1, 1, 2]))]
        m = mzr(vterm(r, g, depth - 1))
        return ['ds', ds, m]
    if depth and k < 0.65:
        if r.random() < 0.02:
            n = r.choice([33, 34, 40, 65, 101])
            return ['rec', [[cp('k%d' % i), vterm(r, g, 0) if r.random() < 0.002 else r.choice(PLAIN)[0]] for i in range(n)]]
        return ['rec', [[cp(n), vterm(r, g, depth - 1)] for n in r.sample(KEYS, r.choice([0, 1, 2, 2, 3]))]]
    k = r.random()
    if k < 0.35:
        return r.choice([['ct', 'int64'], ['ct', 'float64'], ['ct', 'bool'], ['ct', 'complex[float64]'], ['str', [], 'U8']])
    if k < 0.6:
        return ['ct', r.choice(CTS)]
    if k < 0.85:
        return r.choice([['str', [], 'U8'], ['str', [num(3)], 'A'], ['date'], ['datetime', []], ['time', []], ['datetime', [cp('UTC')]]])
    return mzr(g.term(1))


def has_ell(t):
    return t[0] == 'ell' or any(has_ell(x) for x in t if isinstance(x, list) and x)


def schema(r, t, deep=True):
    """(abstract schema, schema) meaning the term t, in some form."""
    k = r.random()
    if k < 0.45:
        return ['t', t], wrap(mk(t))
    if k < 0.65:
        return ['t', t], mk(t)
    s = text(r, t)
    return (['t', t], s) if s is not None else (['t', t], mk(t))


def anyschema(r, g, t):
    k = r.random()
    if k < 0.82:
        return schema(r, t)
    if k < 0.9:
        ss = [schema(r, t if r.random() < 0.4 else vterm(r, g, 1)) if r.random() < 0.8 else pyschema(r) for _ in range(r.choice([0, 1, 2, 3]))]
        if r.random() < 0.2 and ss:
            ss.append((['some', [ss[0][0]]], (ss[0][1],)))
        return ['some', [x[0] for x in ss]], tuple(x[1] for x in ss)
    return pyschema(r)


def pyschema(r):
    if r.random() < 0.6:
        c = r.choice(sorted(CLASSES))
        return ['py', c], CLASSES[c]
    n = r.choice(NPN)
    return ['np', ['n', n]], np.dtype(n)


def C14(c):
    r = c.rng
    g = G(r, nasty=0.02, big=0.02)
    for i in range(c.scale(2200, 36000)):
        t = vterm(r, g, r.choice([0, 1, 1, 2, 2, 3]))
        if has_ell(t):
            continue
        if r.random() < 0.15:
            a = t
            b = tweak(g, t) if r.random() < 0.5 else t
            if r.random() < 0.1:
                a, b = (collide if r.random() < 0.6 else broad)(g)
            x, y = [schema(r, u)[1] for u in (a, b)]
            c.emit('subschema', 'issubschema(%r, %r)' % (x, y), a=a, b=b, out=answer(lambda: issubschema(x, y)))
            continue
        if r.random() < 0.1 and t[0] == 'ds':
            how, p = guarded(lambda: to_numpy(wrap(mk(t))))
            if how == 'ok':
                try:
                    a = np.zeros([min(abs(n), 4) for n in p[0]], dtype=p[1])
                    v = [['arr', [num(n) for n in a.shape], adt(a.dtype), []], a]
                except (Weird, ValueError, TypeError):
                    continue
                if a.dtype.kind != 'O':
                    s, x = anyschema(r, g, tweak(g, t) if r.random() < 0.2 else t)
                    c.emit('validate', 'validate(%r, array of %s %s)' % (x, a.shape, a.dtype), s=s, v=v[0], out=answer(lambda: validate(x, a)))
            continue
        a, v = fits(r, t)
        w = r.random()
        if w < 0.006:
            t, a, v = lengthy(r)
        elif w < 0.1:
            a, v = usual(r, 2)
        s, x = anyschema(r, g, tweak(g, t) if r.random() < 0.15 else t)
        if has_ell(s):
            continue
        c.emit('validate', 'validate(%r, %.300s)' % (x, show(v)), s=s, v=a, out=answer(lambda: validate(x, v)))


def valid_same(d):
    """[schema, value, verdict] enumerated by MC_Valid."""
    t, a, want = d
    if want == 'any':
        return
    for kind in (list, tuple):
        v = vbuild(a, kind)
        for x in (wrap(mk(t)), mk(t), str(mk(t)), (wrap(mk(t)),)):
            got = answer(lambda: validate(x, v))
            if got != want:
                yield 'validate.' + want, 'validate(%r, %r) -> %s, should be %s' % (x, v, got, want)


def vbuild(t, kind):
    k = t[0]
    if k == 'bytes':
        return b'a'
    if k == 'complex':
        return 1j
    if k == 'seq':
        return kind(vbuild(x, kind) for x in t[1])
    if k in ('map', 'omap', 'mproxy'):
        d = build([k, [[n, ['none']] for n, x in t[1]]], kind)
        m = dict((uncp(n), vbuild(x, kind)) for n, x in t[1])
        return type(d)(m) if k != 'omap' else type(d)((x, m[x]) for x in d)
    return build(t, kind)


# ---------------------------------------------------------------- predicates
PREDS = {n: getattr(predicates, n) for n in
         ['isscalar', 'isrecord', 'iscollection', 'istabular', 'isfixed', 'ishomogeneous', 'isnumeric', 'isreal', 'isboolean', 'isdatelike']}
PREDS['has_var_dim'] = has_var_dim
PREDS['has_ellipsis'] = has_ellipsis
KIND = {'fix': ct.Fixed, 'var': ct.Var, 'ell': ct.Ellipsis, 'tv': ct.TypeVar, 'ct': ct.CType, 'str': ct.String, 'rec': ct.Record, 'opt': ct.Option,
        'tup': ct.Tuple, 'fun': ct.Function, 'map': ct.Map, 'units': ct.Units, 'cat': ct.Categorical, 'dec': ct.Decimal, 'td': ct.TimeDelta,
        'datetime': ct.DateTime, 'time': ct.Time, 'date': ct.Date, 'null': ct.Null, 'bytes': ct.Bytes, 'json': ct.JSON}


def part(x):
    return dim(x) if type(x) in (ct.Fixed, ct.Var, ct.Ellipsis, ct.TypeVar) else measure(x)


def collected(kinds, xs):
    cls = tuple(KIND[k] for k in kinds)
    return outcome(lambda: list(collect(lambda x: isinstance(x, cls), xs)), conv=lambda v: [part(x) for x in v])


def forms(r, t):
    x = mk(t)
    out = [('datashape', wrap(x))]
    if not isinstance(x, datashape.DataShape):
        out.append(('bare', x))
    s = text(r, t)
    if s is not None:
        out.append(('text', s))
    return out


def said(x):
    return {n: answer(lambda: f(x)) for n, f in PREDS.items()}


def pterm(r, g):
    """Terms with the structure that predicates look at."""
    k = r.random()
    if k < 0.3:
        return g.term(r.choice([1, 2, 2, 3]))
    m = r.choice([lambda: g.leaf(), lambda: ['ct', r.choice(CTS)], lambda: ['rec', [[cp(n), mzr(g.term(1)) if r.random() < .4 else g.term(1)] for n in g.names(r.choice([0, 1, 2, 3]))]],
                  lambda: ['tup', [g.term(r.choice([0, 1])) for _ in range(r.choice([0, 1, 2]))]]])()
    if m[0] in ('rec', 'tup') and m[1] and r.random() < 0.5:    # alike everywhere
        x = g.term(0)
        m = ['rec', [[f[0], x] for f in m[1]]] if m[0] == 'rec' else ['tup', [x for _ in m[1]]]
    if r.random() < 0.3:
        m = ['opt', m]
    ds = g.dims(r.choice([0, 0, 1, 1, 1, 2, 3]) if r.random() < 0.96 else r.choice([5, 6, 7, 9, 12, 18]), ell=r.random() < 0.5)
    if len(ds) > 4 and r.random() < 0.7:      # only a late one is not fixed
        ds = [d if d[0] == 'fix' or i > len(ds) - 3 else ['fix', num(2)] for i, d in enumerate(ds)]
    return ['ds', ds, m] if ds else m


def C15(c):
    r = c.rng
    g = G(r, nasty=0.04, big=0.05)
    for i in range(c.scale(1300, 20000)):
        t = pterm(r, g)
        if r.random() < 0.25:
            kinds = r.sample(sorted(KIND), r.choice([1, 1, 2, 3, 5]))
            ts = [t] if r.random() < 0.7 else [pterm(r, g) for _ in range(r.choice([0, 1, 2, 3]))]
            xs = [wrap(mk(x)) if r.random() < 0.6 else mk(x) for x in ts]
            e = xs[0] if len(xs) == 1 and r.random() < 0.6 else xs if r.random() < 0.5 else tuple(xs)
            c.emit('collect', 'collect %s from %r' % (kinds, e), ts=ts, kinds=kinds, out=collected(kinds, e))
            continue
        first = None
        for form, x in forms(r, t):
            y = said(x)
            if first is None or y != first or r.random() < 0.1:
                c.emit('pred', 'predicates of %s %r' % (form, x), t=t, said=y)
            first = first or y
    for d in [['fix', num(0)], ['fix', num(5)], ['var'], ['ell', []], ['ell', [cp('N')]], ['tv', cp('N')]]:
        x = mkdim(d)
        c.emit('isdim', 'isdimension(%r)' % x, kind=d[0], out=answer(lambda: predicates.isdimension(x)))
    for x in [0, 7, -1]:
        c.emit('isdim', 'isdimension(%r)' % x, kind='int', out=answer(lambda: predicates.isdimension(x)))
    for i in range(40):
        t = g.term(1)
        for x in (mk(t), wrap(mk(t))):
            c.emit('isdim', 'isdimension(%r)' % x, kind='type', out=answer(lambda: predicates.isdimension(x)))


def preds_same(d):
    """[term, {predicate: answer}, [kinds, parts]...] enumerated by MC_Preds."""
    t, want, cols = d
    x = mk(t)
    fs = [wrap(x)] + ([] if isinstance(x, datashape.DataShape) else [x])
    s = str(x)
    how, y = guarded(lambda: dshape(s))
    if how == 'ok' and y == x:
        fs.append(s)
    for f in fs:
        for n, w in want.items():
            if w != 'any':
                got = answer(lambda: PREDS[n](f))
                if got != w:
                    yield n + '.' + w, '%s(%r) -> %s, should be %s' % (n, f, got, w)
        if f is not s:
            for kinds, parts in cols:
                got = collected(kinds, f)
                if got != ['ok', parts]:
                    yield 'collect', 'collect %s from %r -> %s, should be %s' % (kinds, f, got, parts)


# ------------------------------------------------------------------ type sets
SETS = ['signed', 'unsigned', 'integral', 'floating', 'complexes', 'boolean', 'real', 'numeric', 'scalar']


def setname(v):
    if type(v) is not typesets.TypeSet or typesets.registry[v.name] is not v:
        raise Weird('not a registered set')
    return v.name


def stype(r, g):
    k = r.random()
    t = ['ct', r.choice(CTS)] if k < 0.55 else ['dec', num(r.choice([1, 5, 11, 18, 20])), num(r.choice([0, 2, 5]))] if k < 0.65 else \
        ['td', r.choice(UNITS)] if k < 0.75 else mzr(g.term(1))
    return ['opt', t] if r.random() < 0.3 else t


def members(s):
    return outcome(lambda: list(s), conv=lambda v: [term(x) for x in v])


def typeset(ts, xs):
    """TypeSet of the types, now and then of itself again."""
    return typesets.TypeSet(*xs)


def duplicates(s):
    """[members of a copy, whether it is the same to a user] for every way to copy a type set."""
    out = []
    before = dict(typesets.registry.registry)
    for f in (copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x)), lambda x: pickle.loads(pickle.dumps(x, 2))):
        how, v = guarded(lambda: f(s))
        out.append([members(v), type(v) is typesets.TypeSet and v == s and s == v and hash(v) == hash(s) and len(v) == len(s) and v.name == s.name
                    and repr(v | v) == repr(s | s) and set(v.types) == set(s.types)] if how == 'ok' else [['crash'], False])
    out.append([members(s), typesets.registry.registry == before])
    return out


def sig(r, g, pool):
    """An abstract claim or signature and its object."""
    def one():
        t = r.choice(pool)
        return ['one', t], mk(t)

    def many():
        if r.random() < 0.4:
            n = r.choice(SETS)
            s = typesets.registry[n]
            return ['set', [term(x) for x in s]], s
        ts = [r.choice(pool) for _ in range(r.choice([0, 1, 2, 3, 4]))]
        return ['set', ts], typesets.TypeSet(*map(mk, ts))
    return one, many


def C16(c):
    r = c.rng
    g = G(r, nasty=0.03, big=0.05)
    for n in SETS:
        s = typesets.registry[n]
        c.emit('setof', 'the type set %s' % n, name=n, types=[term(x) for x in s.types], len=len(s))
        c.emit('setof', 'the type set %s' % n, name=n, types=[term(x) for x in s], len=len(s))
        c.emit('setof', 'the type set %s' % n, name=n, types=[term(x) for x in getattr(typesets, n)], len=len(s))
    for i in range(c.scale(1500, 26000)):
        k = r.random()
        if k < 0.2:
            pool = [stype(r, g) for _ in range(r.choice([1, 2, 3, 4]))]
            if r.random() < 0.15:
                pool += collide(g)
            a = [r.choice(pool) for _ in range(r.choice([0, 1, 2, 3, 5]))]
            b = [r.choice(pool + [stype(r, g)]) for _ in range(r.choice([0, 1, 2, 3]))]
            if r.random() < 0.15:
                b = a if r.random() < 0.5 else r.sample(a, len(a))
            s, u = typesets.TypeSet(*map(mk, a)), typesets.TypeSet(*map(mk, b))
            plain = True
            if r.random() < 0.2:
                s = typesets.registry[r.choice(SETS)]
                a, plain = [term(x) for x in s], False
            asked = [t for t in r.sample(pool, len(pool))] + [stype(r, g), ['opt', r.choice(pool)]]
            c.emit('set', 'TypeSet(%r) and TypeSet(%r)' % (s.types, u.types), a=a, b=b, out=members(s), len=len(s), union=members(s | r.choice([lambda: u, lambda: u, lambda: list(u), lambda: u.types, lambda: iter(u)])()), plain=plain,
                   same=[s == u, u == s, not s != u], hashes=hash(s) == hash(u), kept=members(s), copies=duplicates(s), asked=[[t, answer(lambda: (mk(t) if r.random() < .8 else wrap(mk(t))) in s)] for t in asked])
        elif k < 0.4:
            t = stype(r, g)
            x = mk(t)
            c.emit('member', '%r in the type sets' % x, t=t, said={n: answer(lambda: x in typesets.registry[n]) for n in SETS})
        elif k < 0.55:
            t = stype(r, g)
            x = mk(t)
            c.emit('super', 'supertype(%r)' % x, t=t, out=outcome2(lambda: typesets.supertype(x), setname))
        elif k < 0.75:
            t = stype(r, g)
            if r.random() < 0.2:
                t = ['ds', g.dims(r.choice([1, 2])), t]
            x = wrap(mk(t)) if r.random() < 0.4 else mk(t)
            c.emit('max', 'maxtype(%r)' % x, t=t, out=outcome2(lambda: typesets.maxtype(x)))
        else:
            pool = [stype(r, g) for _ in range(r.choice([1, 2, 3]))] + [['ct', 'int32'], ['ct', 'float64']]
            one, many = sig(r, g, pool)
            either = lambda: one() if r.random() < 0.5 else many()
            if r.random() < 0.6:
                b, y = many()
                w = r.random()
                if w < 0.4:
                    a, x = one()
                elif w < 0.65:
                    a, x = many()
                    if w > 0.55:
                        n = r.choice(SETS)
                        x = typesets.registry[n]
                        a = ['set', [term(q) for q in x]]
                else:
                    es = [one() for _ in range(r.choice([0, 1, 2, 3]))]
                    a, x = ['tuple', [q[0] for q in es]], tuple(q[1] for q in es)
            else:
                n = r.choice([0, 1, 1, 2, 2, 3])
                es = [either() for _ in range(n)]
                b, y = ['tuple', [q[0] for q in es]], r.choice([tuple, list])(q[1] for q in es)
                if r.random() < 0.1:
                    a, x = one()
                else:
                    fs = []
                    for q, z in es:
                        w = r.random()
                        if w < 0.6 and q[0] == 'one':
                            fs.append((q, mk(q[1])))
                        elif w < 0.6 and q[1]:
                            t = r.choice(q[1])
                            fs.append((['one', t], mk(t)))
                        else:
                            fs.append(one())
                    a, x = ['tuple', [q[0] for q in fs]], r.choice([tuple, list])(q[1] for q in fs)
            c.emit('match', 'matches_typeset(%r, %r)' % (x, y), a=a, b=b, out=answer(lambda: typesets.matches_typeset(x, y)))


def outcome2(f, conv=term):
    """Like outcome, any error by its name."""
    how, v = guarded(f)
    if how == 'err':
        return ['exc', type(v).__name__]
    return outcome(lambda: v, conv) if how == 'ok' else ['hang']


def sets_same(d):
    """[ts, us, once ts, once both, [type, supertype, widest]...] enumerated by MC_Sets."""
    ts, us, once, both, all_ = d
    s, u = typesets.TypeSet(*map(mk, ts)), typesets.TypeSet(*map(mk, us))
    if members(s) != ['ok', once] or len(s) != len(once):
        yield 'set.types', 'TypeSet%r has %s' % (tuple(map(mk, ts)), members(s))
    if members(s | u) != ['ok', both] or len(s | u) != len(both):
        yield 'set.union', 'TypeSet%r | TypeSet%r has %s' % (tuple(map(mk, ts)), tuple(map(mk, us)), members(s | u))
    for t, sup, big in all_:
        x = mk(t)
        if t[0] != 'ds':
            got = outcome2(lambda: typesets.supertype(x), setname)
            if got != sup and (sup[0] == 'ok' or got != ['exc', 'AssertionError']):
                yield 'supertype', 'supertype(%r) -> %s, should be %s' % (x, got, sup)
        for y in (x, wrap(x)):
            got = outcome2(lambda: typesets.maxtype(y))
            if got != big and (big[0] == 'ok' or got != ['exc', 'TypeError']):
                yield 'maxtype', 'maxtype(%r) -> %s, should be %s' % (y, got, big)


# ------------------------------------------------------------------ assertions
FLAGS = {'dim': 'check_dim', 'tz': 'check_tz', 'unit': 'check_timedelta_unit', 'enc': 'check_str_encoding', 'len': 'check_str_fixlen',
         'order': 'check_record_order'}


def kwargs(r, flags):
    return {FLAGS[f]: v for f, v in flags.items() if not v or r is None or r.random() < 0.5}


def near(g, t):
    """t with what the flags are about changed, here and there."""
    r = g.rng
    k = t[0]
    if k == 'ds':
        dims = t[1] if r.random() < 0.6 else g.dims(r.choice([0, 1, len(t[1])]), ell=not has_ell(t[2]))
        m = near(g, t[2])
        return ['ds', dims, m] if dims else m
    if k in ('time', 'datetime'):
        return r.choice([t, [k, []], [k, [cp('UTC')]], [k, [cp('EST')]]])
    if k == 'td':
        return [k, r.choice([t[1], r.choice(UNITS)])]
    if k == 'str':
        return [k, r.choice([t[1], [], [num(3)]]), r.choice([t[2], t[2], 'A', 'U16'])]
    if k == 'rec':
        fs = [[n, near(g, x)] for n, x in t[1]]
        if r.random() < 0.4:
            r.shuffle(fs)
        return ['rec', fs]
    if k == 'opt':
        return ['opt', near(g, t[1])]
    if k == 'tup':
        return ['tup', [near(g, x) for x in t[1]]]
    if k == 'fun':
        return ['fun', [near(g, x) for x in t[1]], near(g, t[2])]
    if k == 'units':
        return [k, t[1], near(g, t[2])]
    return t


def aterm(r, g):
    def leaf():
        return r.choice([['time', []], ['datetime', [cp('UTC')]], ['td', 's'], ['str', [], 'U8'], ['str', [num(3)], 'A'], ['ct', 'int8'], ['datetime', []]])

    def go(depth):
        k = r.random()
        if not depth or k < 0.15:
            return leaf() if r.random() < 0.8 else mzr(g.term(1))
        if k < 0.4:
            return ['rec', [[cp(n), go(depth - 1)] for n in r.sample(KEYS, r.choice([0, 1, 2, 3]))]]
        if k < 0.55:
            return ['opt', go(depth - 1)]
        if k < 0.65:
            return ['tup', [go(depth - 1) for _ in range(r.choice([0, 1, 2]))]]
        if k < 0.75:
            return ['fun', [go(depth - 1) for _ in range(r.choice([0, 1, 2]))], go(depth - 1)]
        if k < 0.82:
            return ['units', cp('m'), go(depth - 1)]
        if k < 0.86:
            return ['map', go(depth - 1), ['ct', 'int8']]
        m = mzr(go(depth - 1))
        return ['ds', [r.choice([['fix', num(2)], ['fix', num(3)], ['var'], ['tv', cp('N')]]) for _ in range(r.choice([1, 1, 2]))], m]
    return go(r.choice([0, 1, 2, 3, 4]))


def C17(c):
    r = c.rng
    g = G(r, nasty=0.03, big=0.05)
    for i in range(c.scale(1700, 30000)):
        t = aterm(r, g) if r.random() < 0.8 else g.term(r.choice([1, 2]))
        k = r.random()
        if k < 0.15:
            a, b = t, t
        elif k < 0.75:
            a, b = near(g, t), near(g, t)
        elif k < 0.9:
            a, b = near(g, t), tweak(g, t)
        else:
            a, b = t, tweak(g, t)
        if r.random() < 0.08:
            a, b = (collide if r.random() < 0.6 else broad)(g)
        if r.random() < 0.25:
            for _ in range(r.randint(1, 3)):
                f = context(g)
                a, b = f(a), f(b)
        flags = {f: r.random() < r.choice([0.2, 0.7]) for f in FLAGS}
        if r.random() < 0.25:
            flags = {f: True for f in FLAGS}
        elif r.random() < 0.4:
            one = r.choice(sorted(FLAGS))
            flags = {f: f != one for f in FLAGS}
        kw = kwargs(r, flags)
        x, y = [w(mk(u)) for w, u in ((r.choice([wrap, lambda z: z]), a), (r.choice([wrap, lambda z: z]), b))]
        for p, q, pa, qa in ((x, y, a, b), (y, x, b, a)):
            out, path = asserted(lambda: assert_dshape_equal(p, q, **kw))
            c.emit('assert', 'assert_dshape_equal(%r, %r, **%s)' % (p, q, kw), a=pa, b=qa, flags=flags, out=out, path=path)


def assert_same(d):
    """[a, b, [flags, verdict]...] enumerated by MC_Assert."""
    a, b, rows = d
    x, y = mk(a), mk(b)
    pairs = [(wrap(x), wrap(y)), (wrap(y), wrap(x)), (x, y), (wrap(x), y), (x, wrap(y))]
    for i, (flags, want) in enumerate(rows):
        kw = kwargs(None, flags)
        for p, q in pairs[:2] + [pairs[2 + i % 3]]:
            got = answer(lambda: assert_dshape_equal(p, q, **kw), True)
            if got != ('yes' if want else 'no'):
                yield 'assert.' + ('yes' if want else 'no'), 'assert_dshape_equal(%r, %r, **%s) -> %s, should be %s' % (p, q, kw, got, want)
