"""Drivers for histories: registries and symbol tables (C18), values that never change (C19)."""
import copy
import pickle

import datashape
from datashape import dshape
from datashape import parser, type_symbol_table as tst, typesets
import datashape.coretypes as ct

from alpha import REFUSAL, Weird, cp, dim, guarded, mk, mkdim, num, outcome, term, uncp, weird, wrap
from gen import G, spell, mzr

PARTS = {'dtype': 'dtype', 'dtypec': 'dtype_constr', 'dim': 'dim', 'dimc': 'dim_constr'}
PRISTINE = tst.TypeSymbolTable()
KEEP = []                    # objects whose identity counts


def strip(x, pre):
    """Take the prefix off the names inside an abstract value."""
    if not pre:
        return x
    if isinstance(x, str):
        return x[len(pre):] if x.startswith(pre) else x
    if isinstance(x, (list, tuple)):
        return [strip(y, pre) for y in x]
    return x


class Machine(object):
    """Carries out the operations of the specification Registry on the code."""

    def __init__(self, fresh=None):
        self.fresh = fresh or (lambda n: n)    # names of the specification -> names used here
        self.tables = [tst.sym]
        self.saved = [(getattr(tst.sym, a), dict(getattr(tst.sym, a))) for a in PARTS.values()]
        self.saved_attrs = [getattr(tst.sym, a) for a in PARTS.values()]
        self.ids = {}
        self.step = 0

    def close(self):
        for a, old in zip(PARTS.values(), self.saved_attrs):
            setattr(tst.sym, a, old)
        for d, old in self.saved:
            d.clear()
            d.update(old)

    def own(self, obj):
        KEEP.append(obj)
        self.ids[id(obj)] = self.step
        return obj

    def whose(self, obj):
        i = self.ids.get(id(obj))
        return 0 if i is None and id(obj) in BUILTIN else -1 if i is None else i

    def obj(self, t):
        """A new object; scalar types exist once, so they are wrapped."""
        o = mk(t)
        return wrap(o) if id(o) in BUILTIN or t[0] == 'ct' else o

    def do(self, op):
        k, x = op[0], op[1]
        name = self.fresh(x) if isinstance(x, str) else x

        def ok(f):
            return outcome(f, lambda v: None)[:1] if True else None

        def made(f):
            out = outcome(f, lambda v: v)
            if out[0] == 'ok':
                self.own(out[1])
                return ['ok']
            return out
        if k == 'regtype':
            o = self.obj(op[2])
            out = outcome(lambda: ct.Type.register(name, o), lambda v: None)
            if out[0] == 'ok':
                self.own(o)
            return out[:1] if out[0] == 'ok' else out
        if k == 'ctype':
            return made(lambda: ct.CType(name, 1, 1))
        if k == 'named':
            o = wrap(mk(op[2]))
            before = self.look(name)
            out = outcome(lambda: ct.DataShape(*o.parameters, name=name), lambda v: v)
            if out[0] == 'ok':
                if before[0] == 'exc':
                    self.own(out[1])
                return ['ok']
            return out
        if k == 'lookup':
            return self.look(name)
        if k == 'typeset':
            ts = [mk(t) for t in op[2]]
            return made(lambda: typesets.TypeSet(*ts, name=name))
        if k == 'regset':
            s = typesets.TypeSet(*[mk(t) for t in op[2]])
            out = outcome(lambda: typesets.register_typeset(name, s), lambda v: v is s)
            if out == ['ok', True]:
                self.own(s)
                return ['ok']
            return out
        if k == 'setlookup':
            v = typesets.lookup(name)
            how, w = guarded(lambda: typesets.registry[name])
            if (v is None) != (how == 'err' and isinstance(w, KeyError)) or (v is not None and w is not v):
                return ['weird', 'two answers']
            if v is None:
                return ['exc']
            try:
                return ['set', [term(t) for t in v.types], self.whose(v)]
            except Weird as e:
                return weird(e)
        if k == 'table':
            t = outcome(lambda: tst.TypeSymbolTable(bare=True) if x else tst.TypeSymbolTable(), lambda v: v)
            if t[0] == 'ok':
                self.tables.append(t[1])
                return ['ok']
            return t
        if k == 'dshape':
            return outcome(lambda: dshape(uncp(x)))
        if k == 'newnames':
            return ['names', sorted(strip(n, self.prefix) for n in set(ct.Type._registry) - NAMES),
                    sorted(strip(n, self.prefix) for n in set(typesets.registry.registry) - SETNAMES)]
        tab = self.tables[x - 1]
        if k == 'put':
            p, n, v = op[2], uncp(op[3]), op[4]
            v = {'dtype': lambda: mk(v), 'dim': lambda: mkdim(v), 'dtypec': lambda: PRISTINE.dtype_constr[v],
                 'dimc': lambda: PRISTINE.dim_constr[v]}[p]()
            getattr(tab, PARTS[p])[n] = v
            return ['ok']
        if k == 'del':
            getattr(tab, PARTS[op[2]]).pop(uncp(op[3]), None)
            return ['ok']
        if k == 'clear':
            getattr(tab, PARTS[op[2]]).clear()
            return ['ok']
        if k == 'defaults':
            out = outcome(tab.add_default_types, lambda v: None)
            return out[:1] if out[0] == 'ok' else out
        if k == 'parse':
            return outcome(lambda: parser.parse(uncp(op[2]), tab))
        if k == 'symbols':
            try:
                return ['ok', [[cp(n), term(v)] for n, v in tab.dtype.items()], [cp(n) for n in tab.dtype_constr],
                        [[cp(n), dim(v)] for n, v in tab.dim.items()], [cp(n) for n in tab.dim_constr]]
            except Weird as e:
                return weird(e)
        raise ValueError(k)

    prefix = ''

    def look(self, name):
        how, v = guarded(lambda: ct.Type.lookup_type(name))
        if how != 'ok':
            return ['exc'] if isinstance(v, KeyError) else ['crash', type(v).__name__]
        if isinstance(v, type):
            return ['class']
        try:
            return ['type', term(v), self.whose(v)]
        except Weird as e:
            return weird(e)


#: what is there from the start
NAMES = set(getattr(ct.Type, '_registry', ()))
SETNAMES = set(getattr(typesets.registry, 'registry', ()))
LISTED = bool(NAMES and SETNAMES)


def builtins():
    out = {}
    for n in list(NAMES) + ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float16', 'float32', 'float64', 'bool',
                            'complex[float32]', 'complex[float64]', 'void', 'object', 'char']:
        how, v = guarded(lambda: ct.Type.lookup_type(n))
        if how == 'ok':
            out[id(v)] = v
    for n in list(SETNAMES) + ['signed', 'unsigned', 'integral', 'floating', 'complexes', 'boolean', 'real', 'numeric', 'scalar']:
        v = typesets.lookup(n)
        out[id(v)] = v
    return out


BUILTIN = builtins()
TAKEN = ['int8', 'int32', 'int', 'real', 'string', 'null', 'void', 'complex[float64]', 'double', 'date', 'timedelta', 'bytes', 'intptr', 'Option', 'Record',
         'DataShape', 'Var', 'JSON', 'String', 'float16', 'complex64', 'datetime', 'TypeVar']
TAKENSETS = ['signed', 'unsigned', 'integral', 'floating', 'complexes', 'boolean', 'real', 'numeric', 'scalar']
SYMS = ['mine', 'yours', 'other', 'int', 'int32', 'string', 'real', 'var', 'ellipsis', 'option', 'fixed', 'tuple', 'struct', 'funcproto', 'typevar', 'map',
        'time', 'datetime', 'decimal', 'units', 'categorical', 'complex', 'json', 'date', 'a', 'signed', 'object', 'timedelta']
SUGAR = ('struct', 'tuple', 'funcproto', 'typevar', 'fixed', 'ellipsis')


def probe(r, g, names, depth=2):
    """A text over the symbols."""
    k = r.random()
    n = r.choice(names)
    if depth == 0 or k < 0.3:
        return r.choice([n, n, n, 'int8', 'A', 'string'])

    def sub():
        return probe(r, g, names, depth - 1)
    if k < 0.42:
        return '%s * %s' % (r.choice(['3', 'var', 'N', '...', 'M...', n]), sub())
    if k < 0.5:
        return '?' + sub()
    if k < 0.6:
        return '{x: %s, %s: %s}' % (sub(), r.choice(['y', 'int32', 'var']), sub())
    if k < 0.68:
        return '(%s, %s)' % (sub(), sub())
    if k < 0.74:
        return '(%s) -> %s' % (sub(), sub())
    if k < 0.92:
        return '%s[%s]' % (n, r.choice([sub(), "3", "'UTC'", "'A'", "3, 'A'", "[1, 2]", '%s, %s' % (sub(), sub()), "'m', %s" % sub(), "tz='UTC'", "unit='s'",
                                        "'ms'", '3, 2', 'value=%s, key=%s' % (sub(), sub()), "['a'], [%s]" % sub(), 'float32', '[%s], %s' % (sub(), sub())]))
    return spell(r, mzr(g.term(1)))


def noise(r, names):
    """Operations that should leave registries and tables alone."""
    objs = []
    for n in names[:3]:
        how, v = guarded(lambda: ct.Type.lookup_type(n))
        if how == 'ok' and not isinstance(v, type):
            objs.append(v)
    for o in objs:
        for f in (lambda: str(o), lambda: repr(o), lambda: hash(o), lambda: copy.copy(o), lambda: copy.deepcopy(o), lambda: pickle.loads(pickle.dumps(o)),
                  lambda: ct.DataShape(ct.Fixed(3), o), lambda: ct.Option(o), lambda: dshape(str(o))):
            if r.random() < 0.3:
                guarded(f)
    for f in (lambda: datashape.discover([1, 'a', None]), lambda: datashape.from_numpy((3,), 'M8[us]'), lambda: dshape('3 * {a: int32, b: ?string}'),
              lambda: typesets.TypeSet(ct.int8, ct.bool_), lambda: typesets.signed | typesets.floating, lambda: dshape('signed'),
              lambda: datashape.promote(ct.int8, ct.float32)):
        if r.random() < 0.2:
            guarded(f)


def tterm(r, g):
    k = r.random()
    if k < 0.35:
        return ['ct', r.choice(['int8', 'int32', 'bool', 'float64', 'complex[float32]'])]
    if k < 0.5:
        return r.choice([['str', [], 'U8'], ['date'], ['json'], ['opt', ['ct', 'int8']], ['tv', cp('A')]])
    if k < 0.75:
        return ['ds', [r.choice([['fix', num(3)], ['var'], ['tv', cp('N')], ['ell', []]])], ['ct', r.choice(['int8', 'int32'])]]
    return g.term(1)


def C18(c):
    r = c.rng
    g = G(r, nasty=0.05)
    known, sets = [], []
    keep = dict()
    for s in range(c.scale(25, 250)):
        m = Machine()
        m.ids = keep
        texts = []
        pool = ['%s%d_%d' % (r.choice(['t', 'T', 'mine']), s, i) for i in range(6)]
        pool[2:] = [x if r.random() < 0.8 else x + r.choice([' ', '\n', "'", '[a]', '\xe9', ' * b', '?', '  ', '.A']) for x in pool[2:]]
        pool[5:] = [x if r.random() < 0.8 else r.choice([' ', '\n', '\xe9', '?', '3 * ', '_']) + x for x in pool[5:]]
        fresh = True

        def emit(op):
            m.step = c.n + 1
            out = m.do(op)
            c.emit('step', '%s at step %d -> %s' % (show(op), c.n + 1, str(out)[:200]), fresh=emit.fresh, op=op, out=out)
            emit.fresh = False
        emit.fresh = True
        try:
            for _ in range(r.choice([10, 20, 40])):
                k = r.random()
                nt = len(m.tables)
                name = r.choice(pool) if r.random() < 0.75 else r.choice(TAKEN + known[-5:])
                sname = r.choice(pool) if r.random() < 0.75 else r.choice(TAKENSETS + sets[-3:])
                i = r.randint(1, nt)
                syms = r.sample(SYMS, 5) + [x for x in pool[:2]]
                if k < 0.06:
                    emit(['regtype', name, tterm(r, g)])
                    known.append(name)
                elif k < 0.10:
                    emit(['ctype', name])
                    known.append(name)
                elif k < 0.20:
                    emit(['named', name, tterm(r, g)])
                    known.append(name)
                elif k < 0.28:
                    emit(['lookup', r.choice(known[-12:] + [name])])
                elif k < 0.34:
                    emit([r.choice(['typeset', 'regset']), sname, [mzr(tterm(r, g)) if r.random() < 0.2 else ['ct', r.choice(['int8', 'bool', 'float32', 'int64'])]
                                                                  for _ in range(r.choice([0, 1, 2, 3, 4]))]])
                    sets.append(sname)
                elif k < 0.39:
                    emit(['setlookup', r.choice(sets[-6:] + [sname])])
                elif k < 0.44 and nt < 5:
                    emit(['table', r.random() < 0.5])
                elif k < 0.60:
                    p = r.choice(['dtype', 'dtype', 'dtype', 'dtypec', 'dtypec', 'dim', 'dimc'])
                    n = r.choice(syms)
                    if p == 'dtype':
                        v = tterm(r, g)
                    elif p == 'dim':
                        v = r.choice([['var'], ['fix', num(7)], ['tv', cp('Z')], ['ell', []], ['ell', [cp('Q')]]])
                    elif n in SUGAR:
                        continue
                    elif p == 'dtypec':
                        v = r.choice(['option', 'map', 'string', 'tuple', 'decimal', 'units', 'time', 'complex'])
                    else:
                        v = r.choice(['fixed', 'typevar', 'ellipsis'])
                    emit(['put', i, p, cp(n), v])
                elif k < 0.65:
                    p = r.choice(list(PARTS))
                    emit(['del', i, p, cp(r.choice(SYMS))])
                elif k < 0.66:
                    emit(['clear', i, r.choice(list(PARTS))])
                elif k < 0.68:
                    emit(['defaults', i])
                elif k < 0.94:
                    # the same text again after other things were done
                    if texts and r.random() < 0.5:
                        t = r.choice(texts[-4:])
                    else:
                        t = cp(probe(r, g, syms))
                        texts.append(t)
                    emit(['parse', i, t] if k < 0.81 else ['dshape', t])
                elif k < 0.96:
                    if LISTED:
                        emit(['newnames', ''])
                else:
                    emit(['symbols', i])
                if r.random() < 0.15:
                    noise(r, r.sample(known, min(3, len(known))) + r.sample(TAKEN, 1))
            # everything again in the end
            for n in known[-8:] + r.sample(TAKEN, 3):
                emit(['lookup', n])
            for n in sets[-4:] + r.sample(TAKENSETS, 2):
                emit(['setlookup', n])
            for i in range(1, len(m.tables) + 1):
                emit(['symbols', i])
        finally:
            m.close()


def show(op):
    k = op[0]
    if k in ('parse', 'dshape'):
        return '%s(%s%r)' % (k, 'table %d, ' % op[1] if k == 'parse' else '', uncp(op[-1]))
    if k in ('put', 'del'):
        return '%s(table %d.%s[%r]%s)' % (k, op[1], op[2], uncp(op[3]), ' = %s' % (op[4],) if k == 'put' else '')
    return '%s%r' % (k, tuple(op[1:]))


HISTORY = [0]
UNSOUND = [cp('... * A')]     # may be refused when it is validated


def look(m, probes):
    for p in probes:
        guarded(lambda: dshape(uncp(p)))
        for i in range(len(m.tables)):
            m.do(['parse', i + 1, p])


def refusal(x):
    return x[0] in ('exc', 'syn')


def history_same(x):
    """A history of the model with what is seen after it."""
    log, looked, setsseen, probes, seen = x
    HISTORY[0] += 1
    pre = 'h%d_' % HISTORY[0]
    m = Machine(lambda n: pre + n if n in ('a', 'b') else n)
    out = []
    say = ' ; '.join(show(op) for op, _ in log)

    def check(got, want, what):
        if want[0] == 'any':
            return
        if refusal(want) and refusal(got):
            return
        g = strip(got, pre)
        if g[0] == 'ok' and want == ['ok']:
            g = ['ok']
        if g != want:
            out.append(('history.' + what[0], '%s after %s: %s instead of %s' % (what, say, str(g)[:200], str(want)[:200])))
    try:
        for i, (op, want) in enumerate(log):
            # looking does not change what is seen later
            m.step = i + 1
            if HISTORY[0] % 2:
                look(m, probes[(HISTORY[0] + i) % 3::3])
            check(m.do(op), want, show(op))
        for n, want in looked.items():
            check(m.do(['lookup', n]), want, 'lookup ' + n)
        for n, want in setsseen.items():
            check(m.do(['setlookup', n]), want, 'setlookup ' + n)
        for i, row in enumerate(seen):
            for p, want in zip(probes, row):
                check(m.do(['parse', i + 1, p]), want, 'parse %r with table %d' % (uncp(p), i + 1))
                if i == 0:
                    # DShapeSym: a text that parses is also validated
                    got = m.do(['dshape', p])
                    if not refusal(got):
                        check(got, want, 'dshape %r' % uncp(p))
                    elif not refusal(want) and p not in UNSOUND:
                        check(got, want, 'dshape %r' % uncp(p))
    finally:
        m.close()
    return out
