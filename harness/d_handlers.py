"""Driver for C23: classes of a user, with handlers registered for discover and validate.

What is registered stays for the life of the process, so every history runs in a process of its own."""
import abc
import collections
import datetime
import json
import os
import random
import types

import numpy as np
import datashape  # noqa: F401
from datashape import discover, validate
from datashape.dispatch import dispatch
import datashape.coretypes as ct

from alpha import cp, guarded, mk, outcome, uncp, unnum, wrap
from d_checks import answer, fits, schema, usual, vterm
from d_discover import value
from d_numpy import mkdt
from gen import G

PARENT = {'A': 'object', 'B': 'A', 'C': 'B', 'E': 'A', 'L': 'list', 'K': 'L', 'P': 'tuple', 'M': 'dict', 'O': 'omap', 'I': 'int', 'F': 'float',
          'S': 'str', 'U': 'S', 'D': 'date', 'Q': 'array'}
BASES = {'object': object, 'array': object, 'list': list, 'tuple': tuple, 'dict': dict, 'omap': collections.OrderedDict, 'int': int, 'float': float, 'str': str,
         'date': datetime.date}
KINDS = {'rec': ct.Record, 'str': ct.String, 'ct': ct.CType, 'opt': ct.Option, 'tup': ct.Tuple, 'date': ct.Date, 'td': ct.TimeDelta, 'map': ct.Map}
NATURAL = {'list': ['rec', 'tup', 'opt'], 'tuple': ['rec', 'tup'], 'dict': ['rec', 'map', 'opt'], 'omap': ['rec', 'map'], 'int': ['ct', 'opt', 'td'], 'float': ['ct', 'opt'],
           'str': ['str', 'str', 'opt'], 'date': ['date', 'date', 'opt'], 'array': ['ct', 'rec', 'str'], 'object': ['rec', 'str', 'ct', 'ct', 'date']}
HOLDERS = ['A', 'B', 'C', 'E']


class Refused(Exception):
    pass


class World(object):
    """The classes of one history and what is registered for them."""

    def __init__(self, r):
        self.r = r
        self.cls = {}
        self.used = []
        for c, p in PARENT.items():     # parents come first
            body = {}
            base = self.cls.get(p) or BASES[p]
            if c == 'A':
                base = r.choice([object, object, Exception, KeyError, types.SimpleNamespace, abc.ABC, Warning])
            if p in ('object', 'array'):
                def init(self, inside):
                    self.inside = inside
                body['__init__'] = init
            self.cls[c] = types.new_class(c, (base,), exec_body=lambda ns: ns.update(body))

    def base(self, c):
        while c in PARENT:
            c = PARENT[c]
        return c

    def make(self, c, t, v):
        """The value v, abstractly t, as one of class c."""
        k, f = self.base(c), self.cls[c]
        if k == 'array':
            x = f(v)
            x.shape, x.dtype = v.shape, v.dtype
            return x
        if k == 'date':
            return f(v.year, v.month, v.day)
        return f(v)

    def inside(self, x):
        for k in ('list', 'tuple', 'dict', 'omap', 'int', 'float', 'str'):
            if isinstance(x, BASES[k]) and (k != 'dict' or not isinstance(x, BASES['omap'])):
                return BASES[k](x)
        if isinstance(x, datetime.date):
            return datetime.date(x.year, x.month, x.day)
        return x.inside

    def handler(self, c, h):
        r = self.r
        if h[0] == 'is':
            t = mk(h[1])
            t = wrap(t) if r.random() < 0.5 else t
            f = lambda x, **kw: t
        elif h[0] == 'no':
            e = r.choice([Refused, NotImplementedError, TypeError, ValueError, KeyError, AttributeError])

            def f(x, **kw):
                raise e('refused')
        else:
            f = lambda x, **kw: h[1] * discover(self.inside(x))
        w = r.random()
        if w < 0.4:
            discover.register(self.cls[c])(f)
        elif w < 0.7:
            f.__name__ = 'discover'
            dispatch(self.cls[c])(f)
        else:
            discover.add((self.cls[c],), f)

    def judge(self, kind, c, a):
        r = self.r
        y = r.choice([True, True, 1, [0]]) if a == 'yes' else r.choice([False, False, None, 0])
        f = lambda s, x: y
        if r.random() < 0.6:
            validate.register(KINDS[kind], self.cls[c])(f)
        else:
            f.__name__ = 'validate'
            dispatch(KINDS[kind], self.cls[c])(f)

    def do(self, op):
        if op[0] == 'hd':
            self.handler(op[1], op[2])
        else:
            self.judge(op[1], op[2], op[3])

    # ------------------------------------------------------- abstract -> real
    def build(self, t, kind=list):
        k = t[0]
        if k == 'x':
            return self.make(t[1], t[2], self.build(t[2], kind))
        if k == 'arr':
            return np.zeros([unnum(n) for n in t[1]], dtype=mkdt(t[2]))
        if k == 'seq':
            return kind(self.build(x, kind) for x in t[1])
        if k in ('map', 'omap', 'mproxy'):
            d = [(uncp(n), self.build(x, kind)) for n, x in t[1]]
            return dict(d) if k == 'map' else collections.OrderedDict(d) if k == 'omap' else types.MappingProxyType(dict(d))
        return {'int': 3, 'float': 1.5, 'none': None, 'date': datetime.date(2014, 1, 1), 'str': uncp(t[1]) if k == 'str' else ''}[k]

    def schema(self, s):
        if s[0] == 't':
            x = mk(s[1])
            return self.r.choice([x, wrap(x), str(x)])
        if s[0] == 'some':
            return tuple(self.schema(x) for x in s[1])
        return self.cls[s[1]]


def apart(f):
    """What f gives, in a process of its own; it sends lines of JSON."""
    a, b = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(a)
            with os.fdopen(b, 'w') as out:
                for x in f():
                    out.write(json.dumps(x, separators=(',', ':')) + '\n')
        except BaseException as e:
            os.write(2, ('%s: %s\n' % (type(e).__name__, e)).encode())
            os._exit(1)
        os._exit(0)
    os.close(b)
    with os.fdopen(a) as h:
        got = [json.loads(x) for x in h]
    if os.waitpid(pid, 0)[1] != 0:
        raise RuntimeError('the process of a history failed')
    return got


def handlers_same(d):
    """[registrations, values, schemas, values to validate, [datashapes, [verdicts]]] enumerated by MC_Handlers."""
    return apart(lambda: handlers_diff(*d))


def handlers_diff(log, values, schemas, vseq, want):
    w = World(random.Random(json.dumps(log)))
    made = [[w.build(t, kind) for t in values] for kind in (list, tuple)]
    vmade = [w.build(t, w.r.choice([list, tuple])) for t in vseq]
    ss = [w.schema(s) for s in schemas]
    for i, op in enumerate(log):
        w.do(op)
        if i + 1 < len(log):         # what was asked before may be remembered
            for v in made[i % 2]:
                guarded(lambda: discover(v))
            for v in vmade:
                guarded(lambda: validate(w.r.choice(ss), v))
    said = 'after %s ' % json.dumps(log)[:300]
    for vs in made:
        for v, t, e in zip(vs, values, want[0]):
            if e == ['any']:
                continue
            got = outcome(lambda: discover(v))
            if e[0] == 'exc' and got[0] not in ('exc', 'crash') or e[0] == 'ok' and got != e:
                yield 'handlers.discover', said + 'discover of %s -> %s, should be %s' % (t, got, e)
                return
    for s, x, row in zip(schemas, ss, want[1]):
        for v, t, e in zip(vmade, vseq, row):
            if e != 'any':
                got = answer(lambda: validate(x, v))
                if got != e:
                    yield 'handlers.validate', said + 'validate(%s, %s) -> %s, should be %s' % (s, t, got, e)
                    return


# ------------------------------------------------------------------ sessions
def clothed(r, w, t, v, p):
    """A value with parts of it as values of the user's classes."""
    k = t[0]
    if k == 'seq' and type(v) in (list, tuple):
        xs = [clothed(r, w, a, b, p) for a, b in zip(t[1], v)]
        t, v = ['seq', [x[0] for x in xs]], type(v)(x[1] for x in xs)
    elif k in ('map', 'omap'):
        xs = [(n,) + clothed(r, w, a, v[uncp(n)], p) for n, a in t[1]]
        t, v = [k, [[n, a] for n, a, b in xs]], (collections.OrderedDict if k == 'omap' else dict)((uncp(n), b) for n, a, b in xs)
    if r.random() >= p:
        return t, v
    same = {'int': ['I'], 'float': ['F'], 'str': ['S', 'U'], 'map': ['M'], 'omap': ['O'], 'date': ['D']}.get(k, [])
    if k == 'seq':
        same = ['L', 'K'] if type(v) is list else ['P'] if type(v) is tuple else []
    if k == 'arr' and v.dtype.kind != 'O':
        same = ['Q']
    if k == 'int' and type(v) is not int or k == 'float' and type(v) is not float or k == 'str' and type(v) is not str:
        same = []
    c = r.choice(same) if same and r.random() < 0.6 else r.choice(HOLDERS)
    near = [x for x in same + HOLDERS if x in w.used and (c in HOLDERS) == (x in HOLDERS)]
    if near and r.random() < 0.7:
        c = r.choice(near)
    return ['x', c, t], w.make(c, t, v)


def session(seed, steps):
    r = random.Random(seed)
    g = G(r, nasty=0.02, big=0.02)
    w = World(r)
    used = w.used = r.sample(sorted(PARENT), r.choice([2, 4, 6])) + r.sample(HOLDERS, 2)
    asked = []
    new = True

    def event(op, py, out=''):
        e = {'k': 'handlers', 'fresh': new, 'op': op, 'out': out, 'py': py.encode('ascii', 'backslashreplace').decode()[:500]}
        return e
    for i in range(steps):
        k = r.random()
        if k < 0.16:
            c = r.choice(used)
            h = r.choice([['is', g.term(r.choice([0, 0, 1]))], ['is', r.choice([['ct', 'int64'], ['ct', 'int32'], ['null'], ['opt', ['ct', 'int64']], ['str', [], 'U8']])],
                          ['pre', r.choice([1, 2, 3])], ['no']])
            if ell(h):
                continue
            w.handler(c, h)
            yield event(['hd', c, h], 'handler of discover for %s: %s' % (c, h))
        elif k < 0.3:
            c, kind, a = r.choice(used), r.choice(sorted(KINDS)), r.choice(['yes', 'no'])
            if r.random() < 0.7:
                kind = r.choice(NATURAL[w.base(c)])
            w.judge(kind, c, a)
            yield event(['hv', kind, c, a], 'handler of validate for %s and %s: %s' % (kind, c, a))
        elif k < 0.65:
            if asked and r.random() < 0.4:
                t, v = r.choice(asked)
            else:
                t, v = clothed(r, w, *value(r, r.choice([0, 1, 1, 2, 2])), p=r.choice([0, 0.3, 0.3, 0.6]))
                asked.append((t, v))
            yield event(['discover', t], 'discover(%s)' % json.dumps(t)[:300], outcome(lambda: discover(v)))
        else:
            t = vterm(r, g, r.choice([0, 1, 1, 2]))
            if ell(t):
                continue
            a, v = fits(r, t)
            if r.random() < 0.15:
                a, v = usual(r, 1)
            a, v = clothed(r, w, a, v, r.choice([0.2, 0.4, 0.7]))
            if r.random() < 0.2:
                kind = r.choice(sorted(KINDS))
                t = {'opt': ['opt', ['ct', 'int32']], 'tup': ['tup', [['ct', 'int32']]], 'td': ['td', 's'], 'map': ['map', ['str', [], 'U8'], ['ct', 'int32']],
                     'str': ['str', [], 'U8'], 'date': ['date'], 'rec': ['rec', [[cp('a'), ['ct', 'int64']]]], 'ct': ['ct', 'int64']}[kind]
            s, x = schema(r, t)
            j = r.random()
            if j < 0.12:
                c = r.choice(used)
                s, x = ['pyx', c], w.cls[c]
            elif j < 0.22:
                c = r.choice(used)
                s, x = ['some', [s, ['pyx', c]]], (x, w.cls[c])
            yield event(['validate', s, a], 'validate(%r, %s)' % (x, json.dumps(a)[:300]), answer(lambda: validate(x, v)))
        new = False


def ell(t):
    return isinstance(t, list) and bool(t) and (t[0] == 'ell' or any(map(ell, t)))


def C23(c):
    for i in range(c.scale(14, 200)):
        seed = '%s/%s/%s' % (c.seed, c.shard, i)
        for e in apart(lambda: session(seed, 90)):
            e['new'] = e.pop('fresh')
            c.emit(e.pop('k'), e.pop('py'), **e)
