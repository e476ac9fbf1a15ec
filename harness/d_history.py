"""Driver for C19: datashapes in long histories of operations, against the same call in a process where nothing was done before."""
import copy
import datetime
import decimal
import hashlib
import json
import os
import pickle
import random
from collections import OrderedDict

import numpy as np
import datashape
from datashape import (DataShape, Record, Option, cat_dshapes, discover, dshape, dshapes, from_numpy, has_ellipsis, has_var_dim, issubschema, optionify,
                       pprint, promote, to_numpy, to_numpy_dtype, typesets, validate)
from datashape.discovery import lowest_common_dshape, unite_base, unite_identical, unite_merge_dimensions
from datashape.util import collect
from datashape.util.testing import assert_dshape_equal
from datashape.error import DataShapeSyntaxError
from datashape import parser, type_symbol_table
import datashape.coretypes as ct

from alpha import Hang, cp, guarded, mk, mkdim, num, term, uncp, unnum, wrap
from gen import G, TZS, UNITS, mzr, mutchar, spell


# -------------------------------------------------------------- what is seen
def seen(v, depth=0):
    """All that can be seen of a value, as a text that only depends on the value."""
    if isinstance(v, ct.Mono):
        try:
            return '<%s %s | %r | %s %r>' % (type(v).__name__, v, v, len(v), [seen(p, depth + 1) for p in v.parameters] if depth < 6 else '')
        except Exception as e:
            return '<%s that cannot be seen: %s>' % (type(v).__name__, type(e).__name__)
    if isinstance(v, typesets.TypeSet):
        return 'TypeSet%s' % (seen(v.types, depth + 1),)
    if isinstance(v, (list, tuple)):
        return '%s(%s)' % (type(v).__name__, ', '.join(seen(x, depth + 1) for x in v))
    if isinstance(v, dict):
        return '%s{%s}' % (type(v).__name__, ', '.join('%s: %s' % (seen(k, depth + 1), seen(x, depth + 1)) for k, x in v.items()))
    if isinstance(v, (set, frozenset)):
        return '%s{%s}' % (type(v).__name__, ', '.join(sorted(seen(x, depth + 1) for x in v)))
    if isinstance(v, np.ndarray):
        if v.dtype.hasobject:
            return 'array%s %r %s' % (v.shape, v.dtype, [seen(x, depth + 1) for x in np.atleast_1d(v).ravel().tolist()])
        return 'array%s %r %s %s' % (v.shape, v.dtype, v.tobytes().hex()[:200], v.flags.writeable)
    if isinstance(v, slice):
        return 'slice(%s)' % seen((v.start, v.stop, v.step))
    if callable(v) or type(v).__repr__ is object.__repr__:
        return '%s %s' % (type(v).__name__, getattr(v, '__name__', ''))
    return '%s %r' % (type(v).__name__, v)


def picture(x):
    """All that can be seen of a datashape, hash and attributes too."""
    out = [seen(x)]
    for f in (lambda: hash(x), lambda: pprint(x), lambda: x.shape, lambda: x.measure, lambda: getattr(x, 'itemsize', None), lambda: x.measure.names,
              lambda: x.measure.types, lambda: x.measure.dict, lambda: term(x), lambda: x.info()):
        how, v = guarded(f)
        out.append(seen(v) if how == 'ok' else type(v).__name__)
    return out


def short(s):
    """Long texts by their digest, so that traces stay small."""
    s = s.encode('ascii', 'backslashreplace').decode()
    return s if len(s) < 120 else s[:80] + '..' + hashlib.md5(s.encode()).hexdigest()


def result(f):
    how, v = guarded(f)
    if how == 'hang':
        return 'hang', None
    if how == 'ok':
        return 'ok ' + seen(v), v
    if isinstance(v, DataShapeSyntaxError):
        return 'error %s' % v, None
    return 'error ' + type(v).__name__, None


# ------------------------------------------------------------------ arguments
TWINS = [1, True, 1.0, 1 + 0j, np.int8(1), np.int64(1), np.float32(1), np.bool_(True), decimal.Decimal(1), '1', b'1', [1], [True], [1.0], (1,), (True,),
         0, False, 0.0, -0.0, None, '', b'', [], (), {}, OrderedDict(), [[]], [()], ({},), {'a': 1}, {'a': True}, {'a': 1.0}, OrderedDict([('a', 1)]),
         OrderedDict([('a', 1), ('b', 2)]), OrderedDict([('b', 2), ('a', 1)]), {'a': 1, 'b': 2}, {'b': 2, 'a': 1}, [[1, 2], [3, 4]], [[1, 2], [3, 4.0]],
         [(1, 'a'), (True, 'b')], frozenset([1]), set([1]), frozenset([True]), 'True', 'true', '1.0', '1e0', '2014-01-01', '2014-01-01 00:00:00',
         datetime.date(2014, 1, 1), datetime.datetime(2014, 1, 1), datetime.time(0), datetime.timedelta(0), np.zeros(2), np.zeros(2, dtype='i4'),
         np.zeros((1, 2)), np.array(['a', 'b'], dtype=object), np.array(['a', None], dtype=object), np.timedelta64(1, 's'), np.timedelta64(1000, 'ms'),
         np.timedelta64(1), np.datetime64('2014-01-01'), np.datetime64('2014-01-01T00'), object, len, int, np.str_('1'), 'a', 'A', ' a', [None, 1], [1, None],
         [None], [None, None], [1, 'a'], ['a', 1], [{'a': 1}, {'b': 2}], [{'a': 1}, {'a': None}], 10 ** 30, float('nan'), float('inf')]
#: texts that differ in what might be forgotten
TEXTS = ['int32', 'int', ' int32', 'int32 ', '3 * int32', '3*int32', '3 * int', 'var * int32', 'A * int32', '... * int32', 'A... * int32', '{a: int32}', '{a: int}',
         '{"a": int32}', '{A: int32}', '{a: int32, b: int32}', '{b: int32, a: int32}', '(int32)', '(int32, int32)', '(int32) -> int32', '() -> int32',
         '?int32', 'option[int32]', '3 * ?int32', '?3 * int32', "string['A']", "string[3, 'A']", 'string[3]', 'string', "string['U8']", "string[3, 'U8']",
         'complex', 'complex[float32]', 'complex64', 'complex[float64]', 'timedelta', "timedelta[unit='s']", "timedelta['s']", "timedelta['seconds']",
         "datetime[tz='UTC']", "datetime['UTC']", 'datetime', 'time', "time['UTC']", "units['m']", "units['m', float64]", "units['m', int8]", 'decimal[3]',
         'decimal[3, 0]', 'decimal[3, 1]', "categorical[['a', 'b']]", "categorical[['b', 'a']]", 'categorical[[1, 2]]', 'categorical[[True, False]]',
         "categorical[['a'], type=string, ordered=True]", 'map[int32, string]', 'map[string, int32]', 'real', 'intptr', 'bool', 'void', 'null', 'json', 'date',
         'object', 'bytes', '{}', '()', '', ' ', '3 *', '3 * * int32', 'int32 int32', '{a int32}', '{a: int32', 'unknown', 'Int32', 'string[', "string['x']", '3 * A...',
         '{a: int32, a: int32}', '-1 * int32', '?', '??int32', '# c', 'int32 # c', '\nint32', '3 * {a: int32,\n b: }', '{a: 3 * {b: ?int32}}', '\x00', 'complex[int8]']


class Args(object):
    """Objects by kind and number: shared ones, which have a history, and new ones."""

    def __init__(self, rng=None):
        self.shared = {}
        self.rng = rng

    def get(self, kind, n):
        if self.rng is None or self.rng.random() < 0.25:
            return make(kind, n, self)
        if (kind, n) not in self.shared:
            self.shared[kind, n] = make(kind, n, self)
        return self.shared[kind, n]


def make(kind, n, args):
    r = random.Random('%s/%s' % (kind, n))
    g = G(r, nasty=0.1, big=0.1)
    if kind == 'text':
        return TEXTS[n] if n < len(TEXTS) else spell(r, g.term(2)) if r.random() < 0.7 else mutchar(r, spell(r, g.term(1)))
    if kind == 'term':
        k = n % 5
        if k == 0:
            return g.leaf()
        if k == 1:
            m = ['rec', [[cp(x), g.term(1)] for x in g.names(r.choice([0, 1, 2, 3]))]]
            return ['ds', g.dims(r.choice([1, 1, 2]), ell=False), m] if r.random() < 0.7 else m
        if k == 2:
            return ['ds', [['fix', num(r.choice([2, 3]))]], r.choice([['ct', 'int32'], ['ct', 'int64'], ['str', [], 'U8'], ['rec', [[cp('a'), ['ct', 'int8']]]]])]
        return g.term(r.choice([1, 2]))
    if kind == 'catds':
        return wrap(mk(['ds', [['fix', num(n % 4)] if n % 9 else ['var']], args.get('term', n // 4 * 7 % 40)]) if args.get('term', n // 4 * 7 % 40)[0] != 'ds' else
                    DataShape(n % 4, mk(args.get('term', n // 4 * 7 % 40))))
    if kind == 'num':
        return r.choice([['ct', r.choice(['int8', 'int16', 'int32', 'int64', 'uint8', 'uint32', 'float32', 'float64', 'bool', 'complex[float32]'])],
                         ['opt', ['ct', r.choice(['int32', 'float64'])]], ['date'], ['datetime', []], ['td', r.choice(UNITS)], ['str', [], 'U8'], ['null']])
    if kind in ('ds', 'mono', 'numds'):
        t = args.get('num' if kind == 'numds' else 'term', n)
        x = mk(t)
        return x if kind == 'mono' or kind == 'numds' and r.random() < 0.5 else wrap(x)
    if kind == 'parsed':
        how, x = guarded(lambda: dshape(args.get('text', n)))
        return x if how == 'ok' else ct.null
    if kind == 'value':
        if n < len(TWINS):
            v = TWINS[n]
            return copy.copy(v) if isinstance(v, (list, dict, set)) else v
        from d_discover import value
        return value(r, r.choice([1, 2]))[1]
    if kind == 'dtype':
        from d_numpy import mkdt, rdt
        return mkdt(rdt(g, 1))
    raise ValueError(kind)


NTEXT, NVALUE = len(TEXTS) + 30, len(TWINS) + 20
SIZES = {'catds': 12, 'text': NTEXT, 'term': 40, 'ds': 40, 'mono': 40, 'num': 40, 'numds': 40, 'parsed': NTEXT, 'value': NVALUE, 'dtype': 30}


class Call(object):
    """One call: what it does depends only on its key and the arguments named there."""

    def __init__(self, key, args):
        self.key = key
        self.args = args
        self.r = random.Random(json.dumps(key))
        self.used = []
        self.moved = []          # (what, before, after)

    def a(self, i):
        kind, n = self.key[1][i]
        v = self.args.get(kind, n)
        self.used.append(v)
        return v

    def all(self):
        return [self.a(i) for i in range(len(self.key[1]))]

    def run(self):
        r = self.r
        f = OPS[self.key[0]][1]
        try:
            return result(lambda: f(self))
        except Hang:
            return 'hang', None


def then_change(c, made, change):
    """Make something from a container which is changed afterwards."""
    x = made()
    before = picture(x)
    how, e = guarded(change)
    c.moved.append(('container given to the constructor changed', before, picture(x)))
    return x


def handed_out(c, x):
    """Change what was handed out of a datashape."""
    before = picture(x)
    m = x.measure
    for n in ('names', 'types', 'dict', 'fields', 'dshapes', 'categories', 'argtypes', 'parameters', 'shape'):
        how, v = guarded(lambda: getattr(m if n not in ('parameters', 'shape') else x, n))
        if how == 'ok' and isinstance(v, list):
            v.append(v[0] if v else 'more')
            v.reverse()
        elif how == 'ok' and isinstance(v, dict):
            v['more'] = ct.null
    c.moved.append(('container handed out changed', before, picture(x)))
    return x


def op_parse(c):
    s, = c.all()
    k = c.r.randint(0, 4)
    if k == 0:
        return parser.parse(s, type_symbol_table.sym)
    if k == 1:
        return dshapes(s, 'int32', s)
    return dshape(s)


def op_show(c):
    x, = c.all()
    return [str(x), repr(x), pprint(x), pprint(x, 20), '%s' % x]


def op_mul(c):
    x, = c.all()
    return c.r.choice([lambda: 3 * x, lambda: 'var' * x, lambda: ct.Fixed(3) * x, lambda: ct.var * x, lambda: dshape([ct.Fixed(2), x]), lambda: '2 * 3' * x,
                       lambda: DataShape(2, x), lambda: 3 * (4 * x), lambda: ct.Var() * (3 * x)])()


def op_index(c):
    from d_index import ix, rindex
    t, = c.all()
    x = wrap(mk(t))
    p = picture(x)
    out = []
    for _ in range(5):
        i = ix(None, rindex(c.r, t))
        q = seen(i)
        out.append(result(lambda: x.subshape[i])[0])
        c.moved.append(('index', q, seen(i)))
    c.moved.append(('indexed', p, picture(x)))
    return out


def op_index_shared(c):
    x, = c.all()
    return x.subshape[c.r.choice([0, -1, slice(0, 2), slice(None), [0, 1], 'a', (0, 'a'), (slice(0, 1), 0), None, (None, 0), [0], ['a'], slice(1, None, 2)])]


def op_sub(c):
    x, = c.all()
    return x.subarray(c.r.choice([0, 1, 1, 2, 3]))


def op_build(c):
    x, y = c.all()
    k = c.r.randint(0, 9)
    if k == 0:
        l = [['a', x], ['b', y]]
        return then_change(c, lambda: Record(l), lambda: (l[0].__setitem__(1, ct.null), l.append(['c', x])))
    if k == 1:
        l = [('a', x), ('b', y)]
        return then_change(c, lambda: Record(l), lambda: l.pop())
    if k == 2:
        d = OrderedDict([('a', x), ('b', y)])
        return then_change(c, lambda: Record(d), lambda: (d.__setitem__('a', ct.null), d.pop('b')))
    if k == 3:
        l = [x, y]
        return then_change(c, lambda: ct.Tuple(l), lambda: l.__setitem__(0, wrap(ct.null)))
    if k == 4:
        l = ['a', 'b']
        return then_change(c, lambda: ct.Categorical(l), lambda: l.append('c'))
    if k == 5:
        l = [3, x]
        return then_change(c, lambda: dshape(l), lambda: l.__setitem__(0, 4))
    if k == 6:
        return ct.Function(wrap(x), wrap(y))
    if k == 7:
        return ct.Map(x, y)
    if k == 8:
        l = [1, 2, True]
        return then_change(c, lambda: ct.Categorical(l, ordered=True), lambda: l.clear())
    return Option(x)


def op_container(c):
    """A call with a container of texts, numbers and datashapes, which has to stay as it is."""
    x, y, t = c.all()
    r = c.r
    part = lambda: r.choice([x, y, t, 'int32', '3 * string', '{a: int8}', 'nope', 3, 'var', wrap(x), ct.Fixed(2), ct.Var()])  # noqa: E731
    names = r.sample(['a', 'b', 1, 0, 'c d', ''], r.choice([1, 2, 3]))
    if r.random() < 0.1:
        names.append(names[0])
    parts = [part() for _ in range(r.choice([1, 2, 3]))]
    cats = r.choice([['a', 'b'], [1, 2, 3], [True], ['b', 'a', 'b'], [2, 1], []])
    pairs = [r.choice([list, tuple])((n, part() if r.random() < 0.3 else r.choice([x, y, t, 'int8', 'var * A']))) for n in names]
    l, f = r.choice([
        (pairs, Record), (tuple(pairs), Record), (OrderedDict(map(tuple, pairs)), Record), (OrderedDict(map(tuple, pairs)), lambda v: Record(v.items())),
        (pairs, lambda v: dshape(Record(v))), (parts, dshape), (tuple(parts), dshape), (parts, lambda v: DataShape(*v)), (parts, ct.Tuple), (tuple(parts), ct.Tuple),
        (cats, ct.Categorical), (cats, lambda v: ct.Categorical(v, ordered=True)), (cats, lambda v: ct.Categorical(v, x)), (set(cats), lambda v: seen(sorted(ct.Categorical(v).categories))),
        (parts, lambda v: ct.Function(*v)), ([x, y, x], lambda v: typesets.TypeSet(*v).types), ([x, y], lambda v: typesets.matches_typeset(v, [x, y])),
        ([wrap(x), wrap(y), wrap(x)], lambda v: list(collect(lambda u: isinstance(u, (ct.Unit, ct.Record)), v))),
        ([x, (y, [x])], lambda v: list(collect(lambda u: isinstance(u, ct.Unit), v))), ((x, y), lambda v: validate(v, [1, 2])),
        ([2, 3], lambda v: from_numpy(v, np.dtype('i4'))), ([2, 3], lambda v: from_numpy(tuple(v), np.dtype([('a', 'i4')])))])
    before, pics = seen(l), seen([picture(x), picture(y)])
    try:
        return f(l)
    finally:
        c.moved.append(('what was given to the call', before, seen(l)))
        c.moved.append(('datashapes inside it', pics, seen([picture(x), picture(y)])))


def op_small(c):
    r = c.r
    return r.choice([lambda: ct.TimeDelta(r.choice(UNITS + ['seconds', 'days', 'x'])), lambda: ct.String(r.choice([1, 2, 3]), r.choice(['A', 'U8', 'utf8'])),
                     lambda: ct.DateTime(r.choice(TZS)), lambda: ct.Decimal(r.choice([1, 2, 11]), r.choice([0, 1])), lambda: ct.Units(r.choice(['m', 's'])),
                     lambda: ct.Fixed(r.choice([0, 1, 2, -1])), lambda: ct.TypeVar(r.choice(['A', 'B', 'a'])), lambda: ct.Categorical(r.choice([[1], [True], [1, 2], ['1']])),
                     lambda: ct.String(), lambda: ct.Time(), lambda: ct.normalize_time_unit(r.choice(['ms', 'hours', 'Y'])), lambda: ct.Ellipsis()])()


def op_copy(c):
    x, = c.all()
    p = c.r.randint(0, pickle.HIGHEST_PROTOCOL)
    return c.r.choice([lambda: pickle.loads(pickle.dumps(x, p)), lambda: copy.copy(x), lambda: copy.deepcopy(x)])()


def op_discover(c):
    v, = c.all()
    return discover(v)


def op_validate(c):
    x, v = c.all()
    return validate(x, v)


def op_unite(c):
    l = list(c.all())
    p = seen(l)
    f = c.r.choice([unite_base, unite_base, unite_identical, unite_merge_dimensions, lowest_common_dshape])
    try:
        return f(l)
    finally:
        c.moved.append(('list of datashapes', p, seen(l)))


def op_cat(c):
    l = list(c.all())
    p = seen(l)
    try:
        return cat_dshapes(l)
    finally:
        c.moved.append(('list of datashapes', p, seen(l)))


def op_preds(c):
    from d_checks import PREDS
    x, = c.all()
    out = []
    for n in sorted(PREDS):
        how, v = guarded(lambda: PREDS[n](x))
        out.append(seen(v) if how == 'ok' else type(v).__name__)
    return out


def op_collect(c):
    x, y = c.all()
    k = c.r.choice([(ct.CType,), (ct.Fixed, ct.Var), (ct.Record,), (ct.String, ct.Option), (ct.Unit,)])
    return list(collect(lambda t: isinstance(t, k), c.r.choice([x, [x, y], (y,)])))


def op_sets(c):
    x, y = c.all()
    r = c.r
    return r.choice([lambda: typesets.supertype(x).types, lambda: typesets.maxtype(x), lambda: typesets.matches_typeset(x, typesets.numeric),
                     lambda: typesets.TypeSet(x, y, x).types, lambda: (typesets.TypeSet(x) | typesets.TypeSet(y)).types, lambda: (typesets.signed | typesets.TypeSet(x)).types,
                     lambda: list(typesets.real), lambda: [x in typesets.integral, y in typesets.scalar], lambda: typesets.matches_typeset((x, y), (typesets.real, y))])()


def op_eq(c):
    x, y = c.all()
    return [x == y, y == x, x != y, hash(x) == hash(y), x == str(y), x in [y], {x: 1}.get(y)]


def op_assert(c):
    x, y = c.all()
    flags = {n: c.r.random() < 0.5 for n in ('check_dim', 'check_tz', 'check_timeunit', 'check_str_encoding', 'check_str_fixlen', 'check_record_order')} \
        if c.r.random() < 0.5 else {}
    flags = {k: v for k, v in flags.items() if k in ASSERTFLAGS}
    try:
        assert_dshape_equal(x, y, **flags)
        return 'equal'
    except AssertionError as e:
        return 'differ'


ASSERTFLAGS = ('check_dim', 'check_tz', 'check_timeunit')
OPS = {
    'parse': (['text'], op_parse), 'show': (['ds'], op_show), 'showparsed': (['parsed'], op_show), 'picture': (['ds'], lambda c: picture(*c.all())),
    'picturemono': (['mono'], lambda c: picture(*c.all())), 'pictureparsed': (['parsed'], lambda c: picture(*c.all())),
    'hash': (['ds'], lambda c: hash(*c.all())), 'hashmono': (['mono'], lambda c: hash(*c.all())),
    'mul': (['ds'], op_mul), 'index': (['term'], op_index), 'indexshared': (['ds'], op_index_shared), 'indexparsed': (['parsed'], op_index_shared),
    'subarray': (['ds'], op_sub), 'build': (['ds', 'mono'], op_build), 'container': (['mono', 'mono', 'text'], op_container), 'small': (['value'], op_small), 'handed': (['ds'], lambda c: handed_out(c, *c.all())),
    'handedparsed': (['parsed'], lambda c: handed_out(c, *c.all())), 'copy': (['ds'], op_copy), 'copymono': (['mono'], op_copy), 'discover': (['value'], op_discover),
    'discoverlist': (['value', 'value'], lambda c: discover(list(c.all()))), 'validate': (['ds', 'value'], op_validate),
    'validateparsed': (['parsed', 'value'], op_validate), 'validatetext': (['text', 'value'], op_validate),
    'unite': (['numds', 'numds', 'numds'], op_unite), 'uniteany': (['ds', 'ds'], op_unite), 'unitemono': (['mono', 'mono', 'mono'], op_unite),
    'cat': (['catds', 'catds'], op_cat), 'catmany': (['catds', 'catds', 'catds'], op_cat), 'preds': (['ds'], op_preds), 'predstext': (['text'], op_preds),
    'collect': (['ds', 'ds'], op_collect), 'sets': (['numds', 'numds'], op_sets), 'eq': (['ds', 'ds'], op_eq), 'eqmono': (['mono', 'ds'], op_eq),
    'assert': (['ds', 'ds'], op_assert), 'promote': (['numds', 'numds'], lambda c: promote(*c.all(), promote_option=c.r.random() < 0.7)),
    'optionify': (['numds', 'numds', 'numds'], lambda c: optionify(*c.all())), 'tonp': (['ds'], lambda c: to_numpy(*c.all())),
    'todtype': (['ds'], lambda c: to_numpy_dtype(*c.all())), 'fromnp': (['dtype'], lambda c: from_numpy(c.r.choice([(), (2,), (3, 4)]), *c.all())),
    'subschema': (['ds', 'ds'], lambda c: issubschema(*c.all())), 'has': (['ds'], lambda c: [has_var_dim(*c.all()), has_ellipsis(*c.all())]),
}


# -------------------------------------------------- the same call in a new process
def answer(key):
    c = Call(key, Args())
    out = c.run()[0]
    return short(out)


class Pristine(object):
    """A process in which nothing was done; every call is carried out by a child of its own."""

    def __init__(self, answer):
        ask_r, ask_w = os.pipe()
        say_r, say_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(ask_w)
            os.close(say_r)
            with os.fdopen(ask_r) as f:
                for line in f:
                    pid = os.fork()
                    if pid == 0:
                        try:
                            s = answer(json.loads(line))
                        except BaseException as e:
                            s = 'the new process failed: %r' % (e,)
                        os.write(say_w, (json.dumps(s) + '\n').encode())
                        os._exit(0)
                    _, status = os.waitpid(pid, 0)
                    if status:
                        os.write(say_w, b'"died"\n')
            os._exit(0)
        os.close(ask_r)
        os.close(say_w)
        self.ask, self.say = os.fdopen(ask_w, 'w'), os.fdopen(say_r)
        self.memo = {}

    def __call__(self, key):
        k = json.dumps(key)
        if k not in self.memo:
            self.ask.write(k + '\n')
            self.ask.flush()
            self.memo[k] = json.loads(self.say.readline())
        return self.memo[k]

    def close(self):
        self.ask.close()
        self.say.close()
        os.waitpid(self.pid, 0)


def row(heap, x):
    """How x compares with those before it and itself."""
    return ''.join('%d%d' % (guarded(lambda: x == y) == ('ok', True), guarded(lambda: y == x) == ('ok', True)) for y in heap + [x])


def C19(c):
    r = c.rng
    pristine = Pristine(answer)
    args = Args(r)
    names = sorted(OPS)
    try:
        for s in range(c.scale(30, 300)):
            c.emit('fresh', 'session %d' % s)
            heap = []
            some = {k: [r.randrange(n) for _ in range(r.choice([2, 4, 12]))] for k, n in SIZES.items()}
            some['mono'] = some['ds'] = some['term']
            some['parsed'] = some['text']
            ops = r.sample(names, r.choice([4, 10, len(names)]))
            keys = []
            for i in range(r.choice([30, 60, 120])):
                if keys and r.random() < 0.25:
                    key = r.choice(keys)
                else:
                    op = r.choice(ops)
                    key = [op, [[k, r.choice(some[k])] for k in OPS[op][0]], r.randint(0, 12)]
                    keys.append(key)
                call = Call(key, args)
                before = None
                out, v = call.run()
                ref = pristine(key)
                what = '%s%s -> %.150s' % (key[0], tuple(key[1]), out)
                c.emit('call', what, key=json.dumps(key, separators=(',', ':')), out=short(out), ref=ref)
                for w, before, after in call.moved:
                    if before != after or r.random() < 0.1:
                        c.emit('args', '%s: %s: %.200s became %.200s' % (what, w, before, after), before=short(seen(before)), after=short(seen(after)))
                if isinstance(v, ct.Mono) and len(heap) < 14 and r.random() < 0.4:
                    c.emit('keep', what, pic=[short(p) for p in picture(v)], row=row(heap, v))
                    heap.append(v)
                if r.random() < 0.04 and heap:
                    look(c, heap)
            look(c, heap)
            # all shared arguments again
            for k, n in list(args.shared)[-20:]:
                x = args.shared[k, n]
                if k in SEEN:
                    key = [SEEN[k], [[k, n]], 0]
                    c.emit('call', 'what was made as %s %s' % (k, n), key=json.dumps(key, separators=(',', ':')), out=short('ok ' + seen(seen(x))), ref=pristine(key))
                elif k in ('value', 'dtype', 'term'):
                    c.emit('args', 'argument %s %s' % (k, n), before=short(seen(make(k, n, Args()))), after=short(seen(x)))
    finally:
        pristine.close()


SEEN = {'ds': 'seen', 'mono': 'seenmono', 'parsed': 'seenparsed'}
for _k, _n in SEEN.items():
    OPS[_n] = ([_k], lambda c: seen(*c.all()))


def look(c, heap):
    c.emit('look', 'the %d datashapes kept' % len(heap), pics=[[short(p) for p in picture(x)] for x in heap], rows=[row(heap[:i], x) for i, x in enumerate(heap)])


# ------------------------------------------------------------ generated histories
def do(op, xs):
    """An operation of MC_Session on real objects."""
    from d_index import ix
    k, v = op[0], op[2]
    x = xs[0]
    if k == 'index':
        return wrap(x).subshape[ix(None, v)]
    if k == 'subarray':
        return x.subarray(v)
    if k == 'cat':
        return cat_dshapes([wrap(y) for y in xs])
    if k == 'promote':
        return promote(xs[0], xs[1], promote_option=v)
    if k == 'unite':
        return {'base': unite_base, 'same': unite_identical, 'merge': unite_merge_dimensions}[v](list(xs))
    if k == 'lowest':
        return lowest_common_dshape([y.measure for y in xs])
    if k == 'times':
        return v * x
    if k == 'option':
        return Option(x)
    if k == 'record':
        return Record([('a', xs[0]), ('b', xs[1])])
    if k == 'copy':
        return copy.deepcopy(pickle.loads(pickle.dumps(x)))
    if k == 'parse':
        return dshape(str(x))
    if k == 'hash':
        return hash(x)
    if k == 'show':
        return str(x), repr(x), pprint(x, 30)
    if k == 'predicates':
        from d_checks import PREDS
        return [guarded(lambda: f(x))[0] for f in PREDS.values()]
    return guarded(lambda: to_numpy(wrap(x)))[0]


def told(op, xs):
    how, v = guarded(lambda: do(op, xs))
    if how != 'ok':
        return [how], None
    try:
        return ['ok', term(v)], v
    except Exception:
        return ['seen', short(seen(v))], v


def replayed(key):
    """The same call in a new process: [op, terms, which are wrapped]."""
    op, ts, bare = key
    return told(op, [mk(t) if b else wrap(mk(t)) for t, b in zip(ts, bare)])[0]


NEW = []


def history_same(d):
    """[datashapes in the end, [operation, result]..., length] of MC_Session."""
    terms, log, n = d
    if not NEW:
        NEW.append(Pristine(replayed))
    return replay_history(terms, log)


def replay_history(terms, log):
    out = []
    kept = [r[1] for op, r in log if r[0] == 'ok']
    # the first datashapes are those that no result accounts for
    for k in range(len(terms), -1, -1):
        if terms[k:] == kept[:len(terms) - k] and k <= 3:
            break
    rnd = random.Random(json.dumps(log))
    heap = [wrap(mk(t)) if rnd.random() < 0.5 else mk(t) for t in terms[:k]]
    bare = [not isinstance(x, DataShape) for x in heap]
    pics = [short(seen(picture(x))) if rnd.random() < 0.5 else None for x in heap]
    done = []

    def stop(clause, what):
        return [('session.' + clause, '%s after %s' % (what, done))]
    for op, want in log:
        ixs = [i - 1 for i in op[1]]
        got, v = told(op, [heap[i] for i in ixs])
        if want[0] == 'seen' or got != want:
            ref = NEW[0]([op, [terms[i] for i in ixs], [bare[i] for i in ixs]])
            if got != ref and not (got[0] in ('err', 'hang') and ref[0] == got[0]):
                return stop('history', '%s of %s gives %s, in a new process %s' % (op[0], [str(heap[i]) for i in ixs], str(got)[:150], str(ref)[:150]))
            if want[0] == 'ok' and got != want or want[0] == 'exc' and got[0] == 'ok':
                return out          # wrong, but always the same: not a matter of histories
        done.append('%s%s' % (op[0], ixs))
        if want[0] == 'ok' and len(heap) < len(terms):
            heap.append(v)
            bare.append(not isinstance(v, DataShape))
            pics.append(short(seen(picture(v))) if rnd.random() < 0.5 else None)
    for i, x in enumerate(heap):
        how, t = guarded(lambda: term(x))
        if how != 'ok' or t != terms[i]:
            return stop('changed', 'datashape %d is %s, was %s' % (i, x, terms[i]))
        p = short(seen(picture(x)))
        if pics[i] is not None and p != pics[i]:
            return stop('changed', 'datashape %d looks different: %s' % (i, x))
    return out
