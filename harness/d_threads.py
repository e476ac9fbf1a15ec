"""Driver for calls at the same time and inside each other (C22)."""
import json
import os
import random
import sys
import threading

import datashape
from datashape import cat_dshapes, discover, dshape, promote
from datashape.discovery import lowest_common_dshape, unite_base
from datashape import parser, type_symbol_table
from datashape.dispatch import dispatch
import datashape.coretypes as ct

from alpha import mk, outcome, term, uncp, wrap
from d_history import OPS, SIZES, Args, Call, Pristine, answer, make, picture, seen, short

HOME = os.path.dirname(datashape.__file__) + os.sep
TESTS = HOME + 'tests' + os.sep


class Stuck(Exception):
    pass


def codes():
    """The code objects of the code under test."""
    import gc
    import types
    todo = [x.__code__ for x in gc.get_objects() if isinstance(x, types.FunctionType)]
    out = set()
    while todo:
        k = todo.pop()
        if k not in out and k.co_filename.startswith(HOME) and not k.co_filename.startswith(TESTS):
            out.add(k)
            todo += [x for x in k.co_consts if isinstance(x, types.CodeType)]
    return list(out)


class Instructions(object):
    """Every instruction of the code under test is a point; prepared before any thread starts."""
    CODES = []
    where = {}

    @classmethod
    def on(cls):
        m = sys.monitoring
        if not cls.CODES:
            cls.CODES = codes()
            m.use_tool_id(4, 'schedule')
            m.register_callback(4, m.events.INSTRUCTION, cls.point)
        for k in cls.CODES:
            m.set_local_events(4, k, m.events.INSTRUCTION)

    @classmethod
    def off(cls):
        for k in cls.CODES:
            sys.monitoring.set_local_events(4, k, 0)

    @classmethod
    def point(cls, code, offset):
        st = cls.where.get(threading.get_ident())
        if st is not None and not st[2]:
            st[2] = True
            try:
                st[0].point(st[1])
            finally:
                st[2] = False


class Schedule(object):
    """Run functions in threads of their own, one at a time, with the changes from one to another at chosen points.

    plan: [thread, points] in turn; a point is the start of a line of the code under test (or, with fine=True, of an instruction).
    inside: {thread: [(point, function)]}, called in the middle of what the thread does."""

    def __init__(self, fs, plan=(), inside=None, fine=False):
        self.fs = fs
        self.plan = list(plan)
        self.inside = {t: sorted(v, key=lambda p: p[0]) for t, v in (inside or {}).items()}
        self.fine = fine
        self.sems = [threading.Semaphore(0) for _ in fs]
        self.alive = [True] * len(fs)
        self.points = [0] * len(fs)
        self.left = None
        self.out = [None] * len(fs)
        self.stuck = False
        self.done = threading.Semaphore(0)

    def next(self, t):
        """Who goes on; None when all are done."""
        while self.plan:
            u, n = self.plan.pop(0)
            if self.alive[u] and n > 0:
                self.left = n
                return u
        self.left = None
        if self.alive[t]:
            return t
        for u, a in enumerate(self.alive):
            if a:
                return u
        return None

    def point(self, t):
        self.points[t] += 1
        todo = self.inside.get(t)
        while todo and todo[0][0] <= self.points[t]:
            todo.pop(0)[1]()
        if self.left is None:
            return
        self.left -= 1
        if self.left == 0:
            u = self.next(t)
            if u != t:
                self.sems[u].release()
                if not self.sems[t].acquire(timeout=30):
                    self.stuck = True
                    raise Stuck()

    def body(self, t):
        def local(frame, event, arg):
            if event == 'line':
                self.point(t)
            return local

        def trace(frame, event, arg):
            f = frame.f_code.co_filename
            if f.startswith(HOME) and not f.startswith(TESTS):
                return local
            return None
        self.sems[t].acquire()
        if self.fine:
            Instructions.where[threading.get_ident()] = [self, t, False]
        else:
            sys.settrace(trace)
        try:
            self.out[t] = self.fs[t]()
        finally:
            sys.settrace(None)
            Instructions.where.pop(threading.get_ident(), None)
            self.alive[t] = False
            u = self.next(t)
            if u is None:
                self.done.release()
            else:
                self.sems[u].release()

    def run(self):
        if not self.fine:
            return self.go()
        Instructions.on()
        try:
            return self.go()
        finally:
            Instructions.off()

    def go(self):
        ts = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in range(len(self.fs))]
        for t in ts:
            t.start()
        self.sems[self.next(0)].release()
        if not self.done.acquire(timeout=60) or self.stuck:
            return ['stuck'] * len(self.fs)
        for t in ts:
            t.join()
        return self.out


def points(f, fine=False):
    """How many points there are in a call on its own."""
    s = Schedule([f], fine=fine)
    s.run()
    return s.points[0]


# ----------------------------------------------------- generated interleavings
def value(v):
    from d_discover import build
    return build(v, list)


def perform(call):
    """A call of MC_Threads as a function without arguments; its arguments are made beforehand."""
    from d_index import ix
    k, x = call[0], call[1]
    if k == 'parse':
        s = uncp(x)
        f = lambda: dshape(s)
    elif k == 'print':
        d = wrap(mk(x))
        return lambda: outcome(lambda: str(d), lambda s: ['text', [ord(c) for c in s]])
    elif k == 'index':
        d, i = wrap(mk(x)), ix(None, call[2])
        f = lambda: d.subshape[i]
    elif k == 'discover':
        v = value(x)
        f = lambda: discover(v)
    else:
        ds = [mk(t) for t in x]
        f = {'cat': lambda: cat_dshapes([wrap(d) for d in ds]), 'lowest': lambda: lowest_common_dshape(ds), 'unite': lambda: unite_base(ds),
             'promote': lambda: promote(*ds)}[k]
    return lambda: outcome(f)


COUNTS = {}


def agrees(got, want):
    if want[0] in ('any', 'none') or got == 'stuck':
        return got != 'stuck' and got[0] not in ('hang',)
    if want[0] == 'ok':
        return got == want
    return got[0] in ('exc', 'syn', 'crash')


def threads_same(d):
    """[calls, [[thread, depth] or [thread, 0, call]..], [[thread, depth, call, result]..]] enumerated by MC_Threads."""
    calls, plan, outs = d
    rnd = random.Random(json.dumps(d))
    fine = rnd.random() < 0.15
    alone = {}

    def check(call, want, got, how):
        if not agrees(got, want):
            if agrees(alone_of(call), want):
                yield 'threads.result', '%s gives %s, on its own %s, should be %s, %s' % (call, str(got)[:200], str(alone_of(call))[:200], str(want)[:200], how)

    def alone_of(call):
        k = json.dumps(call)
        if k not in alone:
            alone[k] = perform(call)()
        return alone[k]
    total = []
    for call in calls:
        k = json.dumps([call, fine])
        if k not in COUNTS:
            COUNTS[k] = points(perform(call), fine)
        total.append(COUNTS[k])
    steps = [sum(1 for p in plan if p[0] == t + 1 and p[1] == 1) for t in range(len(calls))]
    cuts = [sorted(rnd.randint(1, max(1, total[t])) for _ in range(steps[t] - 1)) for t in range(len(calls))]
    if rnd.random() < 0.5:
        cuts = [[max(1, total[t] * (i + 1) // steps[t] + rnd.randint(-3, 3)) for i in range(steps[t] - 1)] for t in range(len(calls))]
        cuts = [sorted(c) for c in cuts]
    at = [0] * len(calls)
    inside = {}
    nested = []
    turns = []
    for p in plan:
        t = p[0] - 1
        if p[1] == 1:
            a = cuts[t][at[t] - 1] if at[t] else 0
            b = cuts[t][at[t]] if at[t] < len(cuts[t]) else 10 ** 9
            turns.append([t, b - a])
            at[t] += 1
        elif p[1] == 0:
            where = cuts[t][at[t] - 1] if at[t] else 1
            f = perform(p[2])
            nested.append([p[2], f, None])
            inside.setdefault(t, []).append((where, lambda n=nested[-1]: n.__setitem__(2, n[1]())))
    s = Schedule([perform(c) for c in calls], turns, inside, fine)
    got = s.run()
    how = 'turns %s%s' % (turns, ' with %s inside' % [(n[0], [w[0] for w in inside.values()]) for n in nested] if nested else '')
    want = {(t, dep): r for t, dep, c, r in outs if dep == 1}
    for t, call in enumerate(calls):
        for v in check(call, want[t + 1, 1], got[t], how):
            yield v
    rest = [r for t, dep, c, r in outs if dep > 1]
    for (call, f, g), r in zip(nested, rest):
        if g is not None:
            for v in check(call, r, g, how + ' (inside)'):
                yield v


# -------------------------------------------------------- recorded interleavings
class Held(object):
    """Arguments made beforehand."""

    def __init__(self, args, keys):
        self.have = {(k, n): args.get(k, n) for key in keys for k, n in key[1]}

    def get(self, kind, n):
        return self.have[kind, n]


OFTEN = ['parse', 'parse', 'show', 'showparsed', 'discover', 'discoverlist', 'unite', 'uniteany', 'unitemono', 'cat', 'index', 'validate', 'validatetext', 'promote',
         'tonp', 'fromnp', 'assert', 'collect', 'preds', 'build', 'mul', 'copy', 'eq', 'hash', 'sets', 'small']


def random_key(r, op):
    return [op, [[k, r.randrange(SIZES[k])] for k in OPS[op][0]], r.randint(0, 12)]


def random_turns(r, totals):
    out = []
    for _ in range(r.choice([2, 3, 4, 6, 12, 30])):
        t = r.randrange(len(totals))
        out.append([t, r.randint(1, max(1, totals[t] // r.choice([1, 2, 5, 10])))])
    return out


class Probe(object):
    """A value of a class discover was taught about, which makes a call of its own when it is asked."""

    def __init__(self, ds, todo):
        self.ds, self.todo = ds, todo


class Named(object):
    def __init__(self, name, todo):
        self.name, self.todo = name, todo

    def __str__(self):
        self.todo()
        return self.name


@dispatch(Probe)
def discover(p):  # noqa: F811
    p.todo()
    return p.ds


discover = datashape.discover


def callback(r, todo):
    """A call that calls back: name, function."""
    g = r.randint(0, 4)
    if g == 0:
        sym = type_symbol_table.TypeSymbolTable()

        def probe(*args):
            todo()
            return ct.Option(args[0] if args and isinstance(args[0], ct.Mono) else ct.int8)
        sym.dtype_constr['probe'] = probe
        text = r.choice(['{a: probe[int8], b: 3 * probe[2, string], c: probe[{d: A}]}', 'map[probe[int32], var * probe[probe[date]]]', '(probe[1], probe[bool]) -> probe["x"]',
                         '3 * probe[int8', '{a: probe[int8], a: int8}', 'A... * 2 * probe[real]'])
        return 'parsing %s' % text, lambda: parser.parse(text, sym)
    if g == 1:
        ds = [r.choice([ct.int64, ct.float64, dshape('{a: int64}'), dshape('2 * int64'), ct.null]) for _ in range(3)]
        v = r.choice([lambda p: [p[0], 1, p[1], None], lambda p: {'x': p[0], 'y': [p[1], p[2]]}, lambda p: [(1, p[0]), (2.5, p[1])], lambda p: [p, p]])([Probe(d, todo) for d in ds])
        return 'discovering values like %s' % [str(d) for d in ds], lambda: datashape.discover(v)
    if g == 2:
        x = dshape('{a: 3 * int32, b: (int8, ?string), c: map[int8, 2 * bool]}')

        def pred(t):
            todo()
            return isinstance(t, (ct.CType, ct.Fixed))
        return 'collecting from %s' % x, lambda: list(datashape.util.collect(pred, x))
    if g == 3:
        names = [Named(n, todo) for n in 'abc']
        return 'a record of names made up', lambda: ct.Record([(n, t) for n, t in zip(names, ['int8', dshape('3 * string'), ct.date_])])
    x = dshape(r.choice(['3 * {a: int8, b: string}', '(int8) -> string', '?{a: 2 * int8}']))

    class Text(str):
        def __hash__(self):
            todo()
            return str.__hash__(self)
    rec = ct.Record([(Text('a'), x), (Text('b'), 'int8')])
    return 'hashing and reading names of %s' % x, lambda: [hash(rec), rec.dict == {'a': x, 'b': ct.int8}, rec[Text('b')]]


def C22(c):
    r = c.rng
    pristine = Pristine(answer)
    names = sorted(OPS)
    try:
        for i in range(c.scale(110, 1500)):
            n = 2 if r.random() < 0.8 else 3
            op = r.choice(OFTEN if r.random() < 0.7 else names)
            keys = [random_key(r, op if r.random() < 0.75 else r.choice(OFTEN)) for _ in range(n)]
            if r.random() < 0.2:
                keys[1] = keys[0]
            elif r.random() < 0.25:        # the same arguments in another call
                have = {a[0]: a for a in keys[0][1]}
                keys[1][1] = [have.get(a[0], a) for a in keys[1][1]]
            refs = [pristine(k) for k in keys]
            args = Args(r)
            fine = r.random() < 0.15
            calls = [Call(k, Held(args, keys)) for k in keys]
            totals = [points(lambda: short(call.run()[0]), fine) for call in calls]
            own = r.random() < 0.5
            whole = None if own else Held(args, keys)

            def fresh():
                return [Call(k, Held(Args(), keys) if own else whole) for k in keys]
            for j in range(c.scale(8, 12)):
                calls = fresh()
                fs = [lambda call=call: short(call.run()[0]) for call in calls]
                w = r.random()
                inside, extra = {}, []
                if w < 0.4:
                    turns = [[0, r.randint(1, max(1, totals[0]))], [1, 10 ** 9]]
                elif w < 0.75:
                    turns = random_turns(r, totals)
                else:
                    turns = [[0, 10 ** 9]]
                    at = sorted(r.randint(1, max(1, totals[0])) for _ in range(r.choice([1, 1, 2])))
                    inside = {0: [(p, lambda k=calls[-1]: extra.append(short(Call(k.key, k.args).run()[0]))) for p in at]}
                    fs = fs[:-1]
                what = '%s, turns %s%s%s' % ([k[0] for k in keys], turns[:8], ' inside at %s' % [p for p, _ in inside[0]] if inside else '', ', fine' if fine else '')
                outs = Schedule(fs, turns, inside, fine).run() + extra
                for k, out, ref in zip(keys[:len(fs)] + [keys[-1]] * len(extra), outs, refs[:len(fs)] + [refs[-1]] * len(extra)):
                    c.emit('call', '%s -> %.150s; %s' % (k, out, what), key=json.dumps(k, separators=(',', ':')), out=out, ref=ref)
            for k, v in (whole.have if whole else {}).items():
                if k[0] in ('ds', 'mono', 'value', 'term'):
                    c.emit('args', 'argument %s %s of %s at the same time' % (k + ([x[0] for x in keys],)), before=short(seen(make(k[0], k[1], Args()))), after=short(seen(v)))
        # calls that call back
        for i in range(c.scale(100, 1500)):
            key = random_key(r, r.choice(OFTEN))
            ref = pristine(key)
            state = r.getstate()
            what, f = callback(r, lambda: None)
            plain = short(seen(outcome(f, seen)))
            r.setstate(state)
            got = []
            held = Held(Args(), [key])
            what, f = callback(r, lambda: got.append(short(Call(key, held).run()[0])) if len(got) < 3 else None)
            out = short(seen(outcome(f, seen)))
            c.emit('call', '%s with %s inside -> %.200s' % (what, key, out), key='%s/%d/%d' % (what, c.shard, i), out=out, ref=plain)
            if r.random() < 0.5:            # the very same call in the middle of itself
                r.setstate(state)
                again = []

                def once():
                    if len(again) < 1:
                        again.append(None)
                        again[0] = short(seen(outcome(f, seen)))
                what, f = callback(r, once)
                out = short(seen(outcome(f, seen)))
                for o in [out] + again:
                    c.emit('call', '%s with itself inside -> %.200s' % (what, o), key='%s/%d/%d' % (what, c.shard, i), out=o, ref=plain)
            for o in got:
                c.emit('call', '%s inside %s -> %.150s' % (key, what, o), key=json.dumps(key, separators=(',', ':')), out=o, ref=ref)
        # as they come
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            for i in range(c.scale(10, 150)):
                op = r.choice(OFTEN)
                keys = [random_key(r, op if r.random() < 0.7 else r.choice(OFTEN)) for _ in range(4)]
                refs = [pristine(k) for k in keys]
                args = Args(r)
                helds = [Held(args, keys) for _ in keys]
                outs = [[] for _ in keys]

                def work(t):
                    for _ in range(12):
                        out = short(Call(keys[t], helds[t]).run()[0])
                        if out not in outs[t]:
                            outs[t].append(out)
                ts = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(len(keys))]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join(60)
                for k, os_, ref in zip(keys, outs, refs):
                    for out in os_ or ['stuck']:
                        c.emit('call', '%s -> %.150s; in threads with %s' % (k, out, [x[0] for x in keys]), key=json.dumps(k, separators=(',', ':')), out=out, ref=ref)
        finally:
            sys.setswitchinterval(old)
    finally:
        pristine.close()
