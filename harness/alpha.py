"""The abstraction function: objects of blaze/datashape -> terms of the specification.

Terms are described in spec/Types.tla.  Texts become lists of code points and
integers become [sign, limbs in base 10^4], see spec/Nums.tla.
"""
import os
import signal
import sys
import threading
import warnings

warnings.simplefilter('ignore')
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))


class Weird(Exception):
    """The object is not one that the specification can describe."""


class Hang(BaseException):
    pass


def cp(s):
    if type(s) is not str:
        raise Weird('not a text: %r' % (s,))
    return [ord(c) for c in s]


def uncp(t):
    return ''.join(map(chr, t))


def num(n):
    if isinstance(n, bool) or not isinstance(n, int):
        raise Weird('not an integer: %r' % (n,))
    if n == 0:
        return [0]
    out = [1 if n > 0 else -1]
    n = abs(int(n))
    while n:
        out.append(n % 10000)
        n //= 10000
    return out


def unnum(l):
    v = 0
    for d in reversed(l[1:]):
        v = v * 10000 + d
    return l[0] * v


import datashape  # noqa: E402
import datashape.coretypes as ct  # noqa: E402
import numpy as np  # noqa: E402
import datetime  # noqa: E402


def opt(f, x):
    return [] if x is None else [f(x)]


def dim(x):
    t = type(x)
    if t is ct.Fixed:
        return ['fix', num(x.val)]
    if t is ct.Var:
        return ['var']
    if t is ct.TypeVar:
        return ['tv', cp(x.symbol)]
    if t is ct.Ellipsis:
        tv = x.typevar
        if isinstance(tv, str):
            tv = ct.TypeVar(tv)
        if tv is not None and type(tv) is not ct.TypeVar:
            raise Weird('ellipsis of %r' % (tv,))
        return ['ell', [] if tv is None else [cp(tv.symbol)]]
    raise Weird('not a dimension: %s' % t.__name__)


def cat(c):
    if isinstance(c, bool):
        return ['bool', c]
    if isinstance(c, int):
        return ['int', num(c)]
    if isinstance(c, str):
        return ['str', cp(c)]
    raise Weird('category %r' % (c,))


def measure(x):
    t = type(x)
    if t is ct.CType:
        return ['ct', x.name]
    if t in (ct.Null, ct.Date, ct.Bytes, ct.JSON):
        return [t.__name__.lower()]
    if t in (ct.Time, ct.DateTime):
        return [t.__name__.lower(), opt(cp, x.tz)]
    if t is ct.TimeDelta:
        if type(x.unit) is not str:
            raise Weird('unit')
        return ['td', x.unit]
    if t is ct.Units:
        return ['units', cp(x.unit), term(x.tp)]
    if t is ct.String:
        if type(x.encoding) is not str:
            raise Weird('encoding')
        return ['str', opt(num, x.fixlen), x.encoding]
    if t is ct.Decimal:
        return ['dec', num(x.precision), num(x.scale)]
    if t is ct.TypeVar:
        return ['tv', cp(x.symbol)]
    if t is ct.Option:
        return ['opt', term(x.ty)]
    if t is ct.Map:
        return ['map', term(x.key), term(x.value)]
    if t is ct.Record:
        return ['rec', [[cp(n), term(ty)] for n, ty in x.fields]]
    if t is ct.Tuple:
        return ['tup', [term(d) for d in x.dshapes]]
    if t is ct.Function:
        return ['fun', [term(d) for d in x.argtypes], term(x.restype)]
    if t is ct.Categorical:
        if type(x.ordered) is not bool:
            raise Weird('ordered')
        return ['cat', [cat(c) for c in x.categories], term(x.type), x.ordered]
    raise Weird('not a measure: %s' % t.__name__)


def term(x):
    """A whole datashape, whether wrapped in DataShape or not."""
    if type(x) is ct.DataShape:
        ps = x.parameters
        if not isinstance(ps, tuple) or not ps:
            raise Weird('parameters')
        dims = [dim(p) for p in ps[:-1]]
        m = measure(ps[-1])
        return ['ds', dims, m] if dims else m
    return measure(x)


def attrs(x):
    """What a datashape shows besides its term, compared before and after copying."""
    out = [type(x).__name__, str(x), len(x)]
    for a in ('names', 'types', 'fields', 'dict', 'shape', 'measure', 'itemsize', 'alignment',
              'argtypes', 'restype', 'composite', 'cls', 'name', 'parameters', 'encoding', 'fixlen',
              'unit', 'tz', 'typevar', 'symbol', 'key', 'value', 'ty', 'categories', 'ordered'):
        try:
            v = getattr(x, a)
        except AttributeError:
            continue
        except Exception as e:
            v = type(e).__name__
        out.append((a, repr(v)))
    return out


#: errors by which the library refuses an argument; anything else is a crash
REFUSAL = (TypeError, ValueError, NotImplementedError, SyntaxError, OverflowError)


def _alarm(*_):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)


def unguarded(f):
    """In another thread there are no alarms."""
    try:
        return 'ok', f()
    except Exception as e:
        return 'err', e


HANGS = []


def guarded(f, seconds=10):
    """('ok', value) | ('err', exception) | ('hang', None)"""
    if threading.current_thread() is not threading.main_thread():
        return unguarded(f)
    if len(HANGS) > 2:      # the verdict is known; do not wait as long for the others
        seconds = 1 if len(HANGS) < 10 else 0.1
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        v = f()
        return 'ok', v
    except Hang:
        HANGS.append(1)
        return 'hang', None
    except RecursionError as e:
        return 'err', e
    except Exception as e:
        return 'err', e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def weird(e):
    return ['weird', str(e)[:200].encode('ascii', 'replace').decode()]


def excout(e):
    if isinstance(e, REFUSAL):
        return ['exc', type(e).__name__]
    return ['crash', type(e).__name__]


def outcome(f, conv=term):
    """The logged outcome of a call: its abstract value, or how it failed."""
    how, v = guarded(f)
    if how == 'hang':
        return ['hang']
    if how == 'err':
        return excout(v)
    try:
        return ['ok', conv(v)]
    except Weird as e:
        return weird(e)
    except Exception as e:
        return weird('%s: %s' % (type(e).__name__, e))


# ------------------------------------------------------------- term -> object
def mkdim(d):
    k = d[0]
    if k == 'fix':
        return ct.Fixed(unnum(d[1]))
    if k == 'var':
        return ct.Var()
    if k == 'tv':
        return ct.TypeVar(uncp(d[1]))
    if k == 'ell':
        return ct.Ellipsis(ct.TypeVar(uncp(d[1][0]))) if d[1] else ct.Ellipsis()
    raise ValueError(d)


def mkcat(c):
    return c[1] if c[0] == 'bool' else unnum(c[1]) if c[0] == 'int' else uncp(c[1])


def mk(t):
    """Build the object of a term with the constructors."""
    k = t[0]
    if k == 'ct':
        return ct.Type.lookup_type(t[1])
    if k == 'null':
        return ct.Null()
    if k == 'date':
        return ct.Date()
    if k == 'bytes':
        return ct.Bytes()
    if k == 'json':
        return ct.JSON()
    if k in ('time', 'datetime'):
        c = ct.Time if k == 'time' else ct.DateTime
        return c(uncp(t[1][0])) if t[1] else c()
    if k == 'td':
        return ct.TimeDelta(t[1])
    if k == 'units':
        return ct.Units(uncp(t[1]), wrap(mk(t[2])))
    if k == 'str':
        return ct.String(unnum(t[1][0]) if t[1] else None, t[2])
    if k == 'dec':
        return ct.Decimal(unnum(t[1]), unnum(t[2]))
    if k == 'tv':
        return ct.TypeVar(uncp(t[1]))
    if k == 'opt':
        return ct.Option(mk(t[1]))
    if k == 'map':
        return ct.Map(mk(t[1]), mk(t[2]))
    if k == 'rec':
        return ct.Record([(uncp(n), mk(x)) for n, x in t[1]])
    if k == 'tup':
        return ct.Tuple([mk(x) for x in t[1]])
    if k == 'fun':
        return ct.Function(*[wrap(mk(x)) for x in t[1] + [t[2]]])
    if k == 'cat':
        return ct.Categorical([mkcat(c) for c in t[1]], mk(t[2]), t[3])
    if k == 'ds':
        return ct.DataShape(*([mkdim(d) for d in t[1]] + [mk(t[2])]))
    raise ValueError(t)


def wrap(x):
    return x if isinstance(x, ct.DataShape) else ct.DataShape(x)
