"""Drivers for discovery (C11, C12) and for uniting datashapes (C13)."""
import collections
import datetime
import types
from unittest.mock import Mock

import numpy as np
from dateutil.parser import parse as dateparse

import datashape  # noqa: F401
from datashape import discover
from datashape.discovery import lowest_common_dshape, unite_base, unite_identical, unite_merge_dimensions

from alpha import cp, guarded, mk, num, outcome, uncp, unnum, wrap
from d_index import judge
from d_values import broad, collide
from d_numpy import adt, mkdt, objarr, rdt, shapes, strings
from gen import NASTY, WORDS, G


def parsed(s):
    """What the date parser, which is not part of the code under test, makes of a text."""
    how, d = guarded(lambda: dateparse(s))
    if how == 'hang':
        return 'unknown'
    if how == 'err':
        return 'none'           # however it refuses, it is no date
    t = d.time()
    return 'date' if not (t.hour or t.minute or t.second or t.microsecond) else 'datetime'


# --------------------------------------------------------------------- texts
def digits(r, lo=1, hi=6):
    return ''.join(r.choice('0123456789') for _ in range(r.randint(lo, hi)))


def number(r):
    k = r.random()
    if k < 0.25:
        s = digits(r)
    elif k < 0.35:
        s = digits(r, 15, r.choice([25, 25, 45]))
    elif k < 0.5:
        s = digits(r) + '.' + digits(r, 0, 6)
    elif k < 0.6:
        s = '.' + digits(r)
    elif k < 0.75:
        s = r.choice([digits(r), digits(r) + '.', digits(r) + '.' + digits(r)]) + r.choice('eE') + r.choice(['', '+', '-']) + digits(r, 1, 3)
    elif k < 0.85:
        s = '_'.join(digits(r, 0 if r.random() < .1 else 1, 3) for _ in range(r.randint(2, 3)))
    elif k < 0.9:
        s = r.choice(['inf', 'nan', 'infinity', 'Infinity', 'INF', 'NaN', 'NAN', 'iNf'])
    else:
        s = ''.join(r.choice('0123456789._eE+-') for _ in range(r.randint(1, 8)))
    if r.random() < 0.3:
        s = r.choice('+-') + s
    if r.random() < 0.06:
        s = ''.join(chr(ord(c) + r.choice([1584, 2358, 65248])) if c in '0123456789' else c for c in s)
    return s


BLANK = [' ', '  ', '\t', '\n', '\r\n', '\x0b', '\x1c', '\xa0', '\u2003', '\u3000', ' \t']
SPAN = ['day', 'days', 'D', 'h', 'hour', 'hours', 'm', 'minute', 'minutes', 's', 'second', 'seconds', 'ms', 'us', 'ns', 'W', 'week', 'weeks',
        'M', 'month', 'months', 'Y', 'year', 'years', 'millisecond', 'microseconds', 'nanosecond', 'date', 'dates', 'dayss', 'msss', 'ss',
        'S', 'Days', 'd', 'H', 'y', 'w', 'min', 'sec', 'yr', 'mm', 'us s', 'ps', 'apples', 'DD', 'hs', 'Ms', 'nss', 'mss']


def delta(r):
    n = number(r) if r.random() < 0.6 else r.choice(['1', '2', '-1', '0', '+5', '1e3', '2.0', '1.5', '0.0', '-0', '1e18', '9e18', '1e19', '1e20',
                                                    '1e300', '1e400', '99999999999999999999', '1_000', '1e-1', '10e-1', '5.', '.5'])
    s = n + r.choice([' '] * 5 + BLANK) + r.choice(SPAN)
    if r.random() < 0.15:
        s = r.choice(BLANK) + s
    if r.random() < 0.15:
        s += r.choice(BLANK)
    return s


def clock(r):
    f = lambda hi: r.choice(['%d', '%02d', '%02d', '%02d']) % r.randint(0, hi)
    s = ':'.join([f(25), f(61), f(61)][:r.choice([3, 3, 3, 2])])
    if r.random() < 0.4:
        s += '.' + digits(r, 0, 7)
    if r.random() < 0.08:
        s += r.choice([' ', 'Z', '+01:00', ' pm', ':00'])
    return s


def day(r):
    y, m, d = r.choice([r.randint(1, 9999), r.randint(1990, 2030), 1900, 2000, 2004]), r.randint(1, 13), r.randint(1, 32)
    k = r.random()
    if k < 0.7:
        return '%04d-%02d-%02d' % (y, m, d)
    return r.choice(['%04d/%02d/%02d' % (y, m, d), '%02d/%02d/%04d' % (m, d, y), '%d-%d-%d' % (y, m, d), '%04d%02d%02d' % (y, m, d),
                     '%s %d, %d' % (r.choice(['Jan', 'February', 'Mar', 'june', 'Sept']), d, y), '%d %s %d' % (d, r.choice(['Jan', 'DEC']), y)])


def moment(r):
    s = day(r)
    if r.random() < 0.65:
        c = clock(r)
        if r.random() < 0.15:
            c = r.choice(['00:00:00', '00:00', '00:00:00.000', '00:00:00.0001', '12 am', '24:00:00'])
        s += r.choice([' ', 'T', ' ', 'T', '  ', ',']) + c
        if r.random() < 0.2:
            s += r.choice(['Z', '+02:00', ' UTC', '-0500', ' pm', ' EST'])
    return s


PHRASES = ['Hello', 'hello world', 'Sunday', 'monday', 'May', 'march', 'a', 'am', 'pm', 'T', 'Z', 'UTC', 'now', 'today', '1st', '2nd of may', 'INF',
           'INF INF', 'inf.', 'nan nan', 'True ', ' true', 'TRUE', 'tRue', 'yes', 'None', 'null', 'false.', '1 2', '1,2', '1,000', '$5', '5%', '0x10', '1L',
           '1j', '1+2j', '(1)', '--1', '+-1', '1-', 'e5', '1e', '1e5.5', '._', '_', '-', '+', '.', '..', '-.', ':', '::', '1:2', '1:2:3', '10:', ':10:10',
           '0b1', '0o7', 'na', 'N/A', 'sunday monday', '12 34 56', '1.2.3', '1/2', '1/2/3', '10 10 10 10', '1 day 2 hours', '2days', 'day 1', '1 1 day',
           '3 s', '3 M', '3 m', '\x00', 'a\x00b', '1\x00', '\ud800', '1e5\n', '\n', '٣', '１２', '三', 'Ⅷ', '½', '²', '1 jour', 'ſ', '1 \u212a', '00:00:00',
           '24:00:00', '23:59:60', '23:59:61', '1 :2:3', '01:02:03 ', '٠١:٠٢:٠٣', '2014-01-01', '2014-02-30', '0000-01-01', '10000-01-01', '2014-01-01T',
           '99', '999999999999999999999999999999999999', '1' * 400, '1' * 5000, '9' * 400 + '.5', '1 ' * 50, '9' * 30 + 'h', '1:' + '9' * 29, '0' * 40 + 'h', 'id ' + '1' * 32 + 'm', ':' * 60, '(' * 60, '1e' + '9' * 50, '٣ days', '١.٥']


def text(r):
    k = r.random()
    if k < 0.2:
        s = number(r)
    elif k < 0.4:
        s = delta(r)
    elif k < 0.55:
        s = clock(r)
    elif k < 0.75:
        s = moment(r)
    elif k < 0.87:
        s = r.choice(PHRASES)
    elif k < 0.93:
        s = r.choice(NASTY + WORDS)
    else:
        s = ''.join(r.choice('0123456789 :-./+eTZdaysnif_\t,') for _ in range(r.randint(1, 12)))
    k = r.random()
    if k < 0.08:
        s = r.choice(BLANK) + s
    elif k < 0.16:
        s = s + r.choice(BLANK)
    elif k < 0.26 and s:
        i = r.randrange(len(s))
        s = s[:i] + r.choice(['', '', s[i] * 2, s[i] * 2, s[i] * r.choice([25, 35, 60, 400]), r.choice('0:. -_eE/T')]) + s[i + 1:]
    elif k < 0.3:
        s = s.swapcase()
    return s


class StrKind(str):
    pass


def C11(c):
    r = c.rng
    seen = set()
    for s in c.mine(PHRASES) + [text(r) for _ in range(c.scale(1800, 30000))]:
        if not s or s in seen or any(0xd800 <= ord(x) < 0xe000 for x in s) and False:
            continue
        seen.add(s)
        v = StrKind(s) if r.random() < 0.05 else np.str_(s) if r.random() < 0.05 and '\x00' not in s else s
        c.emit('text', 'discover(%r)' % v, s=cp(s), parsed=parsed(s), out=outcome(lambda: discover(v)))
    for i in range(c.scale(150, 1500)):
        leaf(c, r)


def leaf(c, r):
    t, v = scalar(r)
    c.emit('discover', 'discover(%s) of %s' % (show(v), type(v).__name__), v=t, out=outcome(lambda: discover(v)))


# -------------------------------------------------------------------- values
class Count(int):
    pass


class Nothing(object):
    pass


OBJS = [Nothing(), object(), Nothing, len]
Point = collections.namedtuple('Point', 'x y')
TEXTS = ['a', 'hello', 'x y', 'a', 'b']
KEYS = ['a', 'b', 'c', 'name', 'B', 'amount', 'Z', '\xe9', 'a b', '_', '0', 'aa']


def npval(r):
    k = r.random()
    if k < 0.6:
        d = np.dtype(r.choice(['bool', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float16', 'float32', 'float64',
                               'complex64', 'complex128', 'longlong', 'intc', 'uintc', 'ulonglong', 'intp']))
        v = d.type(1)
        if r.random() < 0.5:
            i = np.iinfo(d) if d.kind in 'iu' else np.finfo(d) if d.kind in 'fc' else None
            v = d.type(r.choice([0, i.min, i.max] + ([float('nan'), float('inf'), -0.0] if d.kind in 'fc' else []))) if i else d.type(0)
        return ['np', adt(v.dtype)], v
    if k < 0.8:
        u = r.choice(['Y', 'M', 'W', 'D', 'h', 'm', 's', 'ms', 'us', 'ns'])
        v = np.datetime64(r.choice(['2014-01-01', 'NaT', '1970-01-01', '1677-10-01']), u)
        return ['np', adt(v.dtype)], v
    u = r.choice(['Y', 'M', 'W', 'D', 'h', 'm', 's', 'ms', 'us', 'ns'])
    v = np.timedelta64(r.choice([r.randint(-5, 5), 'NaT', 10**12]), u)
    return ['np', adt(v.dtype)], v


def scalar(r):
    """(abstract value, Python value)"""
    k = r.randint(0, 24)
    if k < 3:
        return ['int'], r.choice([0, 1, -5, 10**30, 2**63, Count(3), 2**31, 10**400, -2**63])
    if k < 5:
        return ['float'], r.choice([0.0, 1.5, float('nan'), float('inf'), 1e300, -0.0, 5e-324, 2.0])
    if k == 5:
        return ['bool'], r.choice([True, False])
    if k == 6:
        return ['complex'], r.choice([1j, 0j, complex('nan'), complex(2)])
    if k == 7:
        return ['bytes'], r.choice([b'', b'1', b'abc', b'\xff\x00', b'True'])
    if k < 10:
        return ['none'], r.choice([None, None, datashape.null])
    if k == 10:
        return ['date'], r.choice([datetime.date(2014, 1, 2), datetime.date.min, datetime.date.max])
    if k == 11:
        return ['datetime'], r.choice([datetime.datetime(2014, 1, 1), datetime.datetime.min, datetime.datetime.max, datetime.datetime(2014, 1, 1, 3, fold=1), datetime.datetime(2014, 1, 1, 3, tzinfo=datetime.timezone.utc)])
    if k == 12:
        return ['time'], r.choice([datetime.time(0, 0), datetime.time(0, 0), datetime.time.max, datetime.time(3, tzinfo=datetime.timezone.utc)])
    if k == 13:
        return ['timedelta'], r.choice([datetime.timedelta(1), datetime.timedelta(0), datetime.timedelta.min, datetime.timedelta(microseconds=-1)])
    if k < 16:
        return npval(r)
    if k < 23:
        s = r.choice(TEXTS) if r.random() < 0.6 else r.choice(['1', '2.5', '', '', 'True', '2014-01-01', '2014-01-01 12:00:00', '10:10:10', '1 day', '3 s'])
        return ['str', cp(s), parsed(s) if s else 'none'], s
    s = text(r)[:40]
    return ['str', cp(s), parsed(s) if s else 'none'], s


def hashable(v):
    try:
        hash(v)
        return bool(v == v)
    except Exception:
        return False


def mapping(r):
    """What makes a dict, or one that makes values up for what it lacks."""
    if r.random() < 0.8:
        return dict
    make = r.choice([int, list, str, lambda: None])
    return lambda items: collections.defaultdict(make, items)


def alike(r, t, v):
    """Another value of about the same kind."""
    k = t[0]
    x = r.random()
    if x < 0.08:
        return ['none'], None
    if x < 0.14:
        return scalar(r)
    if k in ('seq', 'set', 'arr', 'np', 'mproxy', 'obj') or x < 0.5:
        return t, v
    if k in ('map', 'omap'):
        es = [(n, ) + alike(r, u, v[uncp(n)]) for n, u in t[1]]
        if r.random() < 0.25 and es:
            es.pop(r.randrange(len(es)))
        if r.random() < 0.2:
            n = cp(r.choice(KEYS))
            if all(e[0] != n for e in es):
                es.append((n,) + scalar(r))
        d = (mapping(r) if k == 'map' else collections.OrderedDict)((uncp(n), w) for n, u, w in es)
        return [k, [[n, u] for n, u, w in es]], d
    if k == 'int':
        return scalar_of(r, ['int', 'int', 'float', 'bool'])
    if k == 'float':
        return scalar_of(r, ['float', 'int'])
    if k in ('date', 'datetime'):
        return scalar_of(r, ['date', 'datetime'])
    return t, v


def scalar_of(r, kinds):
    k = r.choice(kinds)
    return [k], {'int': 7, 'float': 2.5, 'bool': True, 'date': datetime.date(2015, 2, 2), 'datetime': datetime.datetime(2015, 2, 2, 2)}[k]


def alike_to(v, x):
    try:
        return bool(v == x)
    except Exception:       # arrays inside of them
        return False


def seq(r, ts, vs):
    k = r.random()
    if k < 0.6:
        return ['seq', ts], vs
    if k < 0.85:
        return ['seq', ts], tuple(vs)
    if k < 0.9 and len(vs) == 2:
        return ['seq', ts], Point(*vs)
    if all(map(hashable, vs)):
        s = (set if r.random() < 0.5 else frozenset)(vs)
        order = []
        for x in s:
            i = [i for i, v in enumerate(vs) if v is x] or [i for i, v in enumerate(vs) if type(v) is type(x) and alike_to(v, x)]
            order.append(ts[i[0]] if i else None)
        if None not in order:
            return ['set', order], s
    return ['seq', ts], vs


def long(r, t, v):
    """Many equal items and something else here and there."""
    n = r.choice([8, 9, 10, 11, 12, 16, 17, 20, 21, 25, 33, 40, 50, 64, 65, 100, 101, 130])
    n = n if len(show(v)) < 40 else min(n, 21)
    items = [(t, v)] * n
    for _ in range(r.choice([0, 1, 1, 1, 2])):
        items[-r.choice([1, 1, 2, r.randint(1, n)])] = alike(r, t, v)
    return items


def lengthy(r):
    """Hundreds of items, one of them, perhaps a late one, not like the rest."""
    n = r.choice([257, 300, 513, 1001, 1025])
    k = r.random()
    if k < 0.3:
        t, v = scalar_of(r, [r.choice(['int', 'float', 'bool', 'date'])])
    elif k < 0.6:
        t, v = ['map', [[cp('a'), ['int']]]], {'a': 1}
    else:
        t, v = ['seq', [['int'], ['str', cp('a'), 'none']]], [1, 'a']
    items = [(t, v)] * n
    if r.random() < 0.85:
        i = r.choice([-1, -1, -2, -20, n // 2])
        items[i] = alike(r, t, v)
        if t[0] == 'map' and r.random() < 0.6:
            items[i] = ['map', [[cp('b'), ['float']]]], {'b': 2.5}
        elif t[0] == 'seq' and r.random() < 0.6:
            items[i] = r.choice([(['seq', [['int']]], [1]), (['seq', [['int'], ['none']]], [1, None]), (['seq', [['none'], ['str', cp('a'), 'none']]], (None, 'a'))])
    return ['seq', [x[0] for x in items]], [x[1] for x in items]


def columns(r):
    """A few rows with many columns, one of which may be of another kind or left out, late in a late row."""
    n = r.choice([20, 33, 40, 65, 70, 101, 130])
    names = ['%s%d' % (r.choice('ab') if i % 9 == 0 else 'k', i) for i in range(n)]
    t, v = scalar_of(r, [r.choice(['int', 'float', 'bool', 'date'])])
    out = []
    flat = r.random() < 0.25
    for i in range(r.choice([1, 2, 2, 3])):
        es = [(cp(x), t, v) for x in names]
        if r.random() < 0.6:
            j = r.choice([-1, -1, -2, n // 2, 0])
            if r.random() < 0.5 and not flat:
                es.pop(j)
            else:
                es[j] = (es[j][0],) + alike(r, t, v)
        if r.random() < 0.3 and not flat:
            r.shuffle(es)
        out.append((['seq', [x[1] for x in es]], [x[2] for x in es]) if flat else
                   (['map', [[x[0], x[1]] for x in es]], dict((uncp(x[0]), x[2]) for x in es)))
    if len(out) == 1:
        return out[0]
    return ['seq', [x[0] for x in out]], [x[1] for x in out]


def value(r, depth):
    k = r.random()
    if depth == 0 or k < 0.2:
        return scalar(r)
    if k < 0.55:      # a list of similar items
        t, v = value(r, depth - 1)
        if r.random() < 0.06:
            items = long(r, t, v)
            return seq(r, [x[0] for x in items], [x[1] for x in items])
        n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 6])
        items = [(t, v)] * (n > 0) + [alike(r, t, v) for _ in range(n - 1)]
        r.shuffle(items)
        return seq(r, [x[0] for x in items], [x[1] for x in items])
    if k < 0.7:       # rows
        cols = [value(r, r.choice([0, 0, 0, depth - 1])) for _ in range(r.choice([0, 1, 2, 2, 3]))]
        n = r.choice([1, 2, 2, 3, 5] * 4 + [11, 21, 33])
        rows = []
        for i in range(n):
            if i > 1 and n > 6 and r.random() < 0.9:
                rows.append(rows[0])
                continue
            row = [alike(r, *x) for x in cols]
            if r.random() < 0.06 and row:
                row.pop()
            rows.append((['seq', [x[0] for x in row]], r.choice([list, tuple])(x[1] for x in row)))
        return seq(r, [x[0] for x in rows], [x[1] for x in rows])
    if k < 0.82:      # mixed items
        items = [value(r, depth - 1) for _ in range(r.choice([1, 2, 3]))]
        return seq(r, [x[0] for x in items], [x[1] for x in items])
    if k < 0.95:
        keys = r.sample(KEYS, r.choice([0, 1, 2, 2, 3]))
        if r.random() < 0.08:
            keys = r.sample(KEYS + ['%s%d' % (x, i) for x in 'kza' for i in range(12)], r.choice([5, 9, 10, 12, 20]))
            depth = 1
        es = [(cp(n),) + value(r, depth - 1) for n in keys]
        k = r.choice(['map', 'map', 'map', 'omap', 'mproxy'])
        f = {'map': mapping(r), 'omap': collections.OrderedDict, 'mproxy': lambda x: types.MappingProxyType(dict(x))}[k]
        return [k, [[n, t] for n, t, v in es]], f((uncp(n), v) for n, t, v in es)
    if k < 0.99:
        sh = tuple(unnum(x) for x in shapes(r))
        if r.random() < 0.3:
            x = objarr(r, sh)
            return ['arr', [num(i) for i in sh], adt(x.dtype), [strings(x)]], x
        d = mkdt(rdt(G(r, nasty=0), 1))
        if d.names is not None or d.kind == 'O':
            d = np.dtype('int16')
        x = np.zeros(sh, dtype=d)
        return ['arr', [num(i) for i in sh], adt(x.dtype), []], x
    if r.random() < 0.7:
        return scalar(r)
    return ['obj'], r.choice(OBJS)


def block(r, shape, leaf):
    """A regular array of one scalar as nested lists."""
    if not shape:
        return leaf
    x = block(r, shape[1:], leaf)
    f = r.choice([list, list, tuple])
    return ['seq', [x[0]] * shape[0]], f([x[1]] * shape[0])


def grid(r):
    """Rows of blocks: lengths agree or not along the columns, along the rows, and further in."""
    leaves = [scalar_of(r, [k]) for k in (['int'] if r.random() < 0.6 else ['int', 'float', 'bool'])]
    ncol, nrow, extra = r.choice([1, 2, 2, 3]), r.choice([1, 1, 2, 3]), r.choice([[], [], [2], [1], [0]])
    lens = [r.choice([0, 1, 2, 2, 3]) for _ in range(ncol)]
    leaf = [r.choice(leaves) for _ in range(ncol)]
    rows = []
    for i in range(nrow):
        row = []
        for j in range(ncol):
            sh = [lens[j] if r.random() < 0.85 else r.choice([0, 1, 2, 3])] + extra
            row.append(block(r, sh if r.random() < 0.9 else sh[:-1], leaf[j]))
        rows.append((['seq', [x[0] for x in row]], r.choice([list, tuple])(x[1] for x in row)))
    t, v = ['seq', [x[0] for x in rows]], [x[1] for x in rows]
    k = r.random()
    if k < 0.15:
        return ['map', [[cp('a'), t]]], {'a': v}
    if k < 0.3:
        return ['seq', [['map', [[cp('a'), x[0]]]] for x in rows]], [{'a': x[1]} for x in rows]
    return t, v


def show(v):
    try:
        return repr(v)
    except Exception:       # NumPy cannot print every array of times
        return '<%s>' % type(v).__name__


def look(v, depth=0):
    """A picture of a value to see whether it was changed."""
    if isinstance(v, (list, tuple)):
        return [type(v)] + [look(x) for x in v]
    if isinstance(v, (dict, types.MappingProxyType)):
        return [type(v)] + [(k, look(x)) for k, x in v.items()]
    return (id(v), show(v) if not isinstance(v, np.ndarray) else v.tobytes())


def C12(c):
    r = c.rng
    OBJS.append(Mock())
    for i in range(c.scale(1500, 26000)):
        t, v = value(r, r.choice([1, 2, 2, 2, 3, 3])) if r.random() < 0.9 else grid(r)
        if r.random() < 0.005:
            t, v = lengthy(r)
        elif r.random() < 0.01:
            t, v = columns(r)
        before = look(v)
        out = outcome(lambda: discover(v))
        if out[0] == 'ok' and look(v) != before:
            out = ['weird', 'the value was changed']
        c.emit('discover', 'discover(%.400s)' % show(v), v=t, out=out)


# --------------------------------------------------------------------- unite
CHAIN = [['ct', 'int32'], ['ct', 'int64'], ['ct', 'float64'], ['str', [], 'U8'], ['date'], ['datetime', []], ['td', 'us'], ['ct', 'bool'], ['null']]


def utype(r, g, kind, depth=2):
    if kind == 'chain':
        k = r.random()
        return r.choice([['ct', 'int32'], ['ct', 'int64'], ['ct', 'float64'], ['null'], ['str', [], 'U8']]) if k < 0.5 else r.choice(CHAIN) if k < 0.93 else g.leaf()
    if kind == 'rec':
        if r.random() < 0.12:
            return ['null']
        ns = r.sample(KEYS[:5], r.choice([0, 1, 1, 2, 2, 3]))
        return ['rec', [[cp(n), utype(r, g, 'rec' if depth and r.random() < 0.3 else 'chain', depth - 1)] for n in ns]]
    if kind == 'dims':
        ds = [r.choice([['fix', num(r.choice([2, 2, 3, 0]))], ['var'], g.dim()]) for _ in range(r.choice([1, 1, 2, 2, 3]))]
        return ['ds', ds, r.choice([['ct', 'int64'], ['ct', 'int64'], ['ct', 'float64'], ['rec', [[cp('a'), ['ct', 'int64']]]]])]
    return g.term(1)


def many(r, g):
    kind = r.choice(['chain', 'chain', 'rec', 'rec', 'dims', 'any'])
    n = r.choice([1, 1, 2, 2, 3, 3, 4, 6])
    ts = [utype(r, g, kind) for _ in range(n)]
    while len(ts) < n + 2 and r.random() < 0.4:
        ts.append(r.choice(ts))
    if kind == 'rec' and r.random() < 0.4:     # same names in the same order
        ts = [ts[0]] + [t if t[0] != 'rec' or ts[0][0] != 'rec' else ['rec', [[f[0], utype(r, g, 'chain')] for f in ts[0][1]]] for t in ts[1:]]
    if kind == 'rec' and r.random() < 0.3:     # same names in another order
        ts = [[t[0], r.sample(t[1], len(t[1]))] if t[0] == 'rec' else t for t in ts]
    if kind == 'dims' and r.random() < 0.5:
        ts = [ts[0]] + [r.choice([ts[0], ['ds', [r.choice([['fix', num(2)], ['var']])] + ts[0][1][1:], ts[0][2]]]) for t in ts[1:]]
    k = r.random()
    if k < 0.03:
        ts = list(broad(g)) + ts[:r.choice([0, 0, 1])]
    elif k < 0.08:
        ts = list(collide(g))
        ts += [r.choice(ts) for _ in range(r.choice([0, 0, 1, 3]))]
    elif k < 0.12:      # many, nearly all the same
        ts = ts[:1] * r.choice([16, 20, 21, 33, 40, 65]) + ts[1:]
        return ts
    r.shuffle(ts)
    return ts


UNITE = {'base': unite_base, 'same': unite_identical, 'merge': unite_merge_dimensions,
         'mergebase': lambda x: unite_merge_dimensions(x, unite=unite_base)}


def unite(f, xs):
    out = outcome(lambda: f(xs), conv=lambda v: ['none'] if v is None else alpha_term(v))
    return ['none'] if out == ['ok', ['none']] else out


def alpha_term(v):
    from alpha import term
    return term(v)


def C13(c):
    r = c.rng
    g = G(r, nasty=0.03, big=0.02)
    for i in range(c.scale(1200, 20000)):
        ts = many(r, g)
        w = r.random()
        xs = [mk(t) if w < 0.5 else wrap(mk(t)) for t in ts]
        if w > 0.9:
            xs = tuple(xs)
        if r.random() < 0.35:
            ts = [t for t in ts if t[0] not in ('ds', 'rec')] or [['ct', 'int32']]
            xs = [mk(t) for t in ts]
            c.emit('lowest', 'lowest_common_dshape(%r)' % (xs,), ts=ts, out=outcome(lambda: lowest_common_dshape(xs)))
            continue
        how = r.choice(['base', 'base', 'base', 'same', 'merge', 'mergebase'])
        c.emit('unite', '%s(%r)' % (how, xs), how=how, ts=ts, out=unite(UNITE[how], xs))


# ----------------------------------------------------------- generated cases
def text_same(d):
    """[text, kind if no date, kind if a date, kind if date and time] enumerated by MC_Text."""
    s = uncp(d[0])
    if not s:
        return
    got = outcome(lambda: discover(s))
    if got[0] != 'ok':
        yield 'text.fails', 'discover(%r) -> %s' % (s, got)
        return
    p = parsed(s)
    want = {'none': d[1], 'date': d[2], 'datetime': d[3]}.get(p, ['any'])
    if want != ['any'] and got[1] != want:
        yield 'text.kind', 'discover(%r) is %s, should be %s' % (s, got[1], want)


LEAVES = {'int': 3, 'float': 1.5, 'none': None, 'bool': True, 'date': datetime.date(2014, 1, 1), 'datetime': datetime.datetime(2014, 1, 1, 1),
          'time': datetime.time(1, 1)}


def build(t, kind):
    k = t[0]
    if k in LEAVES:
        return LEAVES[k]
    if k == 'str':
        return uncp(t[1])
    if k == 'np':
        return mkdt(t[1]).type(1)
    if k == 'seq':
        return kind(build(x, kind) for x in t[1])
    d = [(uncp(n), build(x, kind)) for n, x in t[1]]
    return dict(d) if k == 'map' else collections.OrderedDict(d) if k == 'omap' else types.MappingProxyType(dict(d))


def value_same(d):
    """[value, datashape] enumerated by MC_Discover."""
    t, want = d
    for kind in (list, tuple):
        v = build(t, kind)
        got = outcome(lambda: discover(v))
        if got != ['ok', want]:
            yield 'discover.value', 'discover(%r) -> %s, should be %s' % (v, got, want)
            return


def unite_same(d):
    """[ts, lowest, base, same, merge, merge with base] enumerated by MC_Unify."""
    ts, low, base, same, merge, mbase = d
    if not ts:
        return
    for f in (mk, lambda t: wrap(mk(t))):
        xs = [f(t) for t in ts]
        if f is mk:
            got = outcome(lambda: lowest_common_dshape(xs))
            for x in judge(got, low, 'lowest', 'lowest_common_dshape(%r) -> %s, should be %s' % (xs, got, low)):
                yield x
            if low[0] == 'exc' and got[0] in ('exc', 'crash') and got[1] != 'ValueError':
                yield 'lowest.error', 'lowest_common_dshape(%r) raises %s' % (xs, got)
        for how, want in (('base', base), ('same', same), ('merge', merge), ('mergebase', mbase)):
            if want[0] == 'ok':
                w = want[1]
                ds, m = (w[1], w[2]) if w[0] == 'ds' else ([], w)
                want = ['ok', ['ds', [['fix', num(len(xs))]] + ds, m]]
            got = unite(UNITE[how], xs)
            if want == ['none'] or got == ['none']:
                if want != got:
                    yield 'unite.none', '%s(%r) -> %s, should be %s' % (how, xs, got, want)
            else:
                for x in judge(got, want, 'unite', '%s(%r) -> %s, should be %s' % (how, xs, got, want)):
                    yield x
