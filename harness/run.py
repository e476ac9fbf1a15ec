"""Run the check of one property: model checking, replay of generated behaviours, trace validation.

    run.py PROPERTY quick|thorough
"""
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
PY = '/opt/venv/bin/python'
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
sys.path.insert(0, HERE)
from plan import PLAN  # noqa: E402


class Machinery(Exception):
    """The check itself failed."""


def tlc(workdir, name, module, cfg, workers=1, env=None, timeout=800, extra=(), heap='2g'):
    """Run TLC; the cfg text is written to workdir.  Returns (exit status, output)."""
    path = os.path.join(workdir, name + '.cfg')
    with open(path, 'w') as f:
        f.write(cfg)
    meta = os.path.join(workdir, name + '.meta')
    cmd = ['java', '-Xmx' + heap, '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
           '-XX:TieredStopAtLevel=4', '-Xss256m', '-cp', CP, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', meta, '-config', path, '-noGenerateSpecTE'] + list(extra) + [module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    out = os.path.join(workdir, name + '.log')
    with open(out, 'w') as f:
        p = subprocess.Popen(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, env=e)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise Machinery('TLC ran out of time on %s' % name)
    shutil.rmtree(meta, ignore_errors=True)
    with open(out, errors='replace') as f:
        return rc, f.read()


def counts(text):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', text)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def run(cmd, timeout, hashseed=0):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return -1, '', 'out of time'
    return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')


class Check(object):
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.work = os.path.join(ROOT, 'out', prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.lock = threading.Lock()
        self.states = self.transitions = 0
        self.replayed = self.events = self.traces = 0
        self.kinds = {}
        self.samples = []
        self.models = {}
        self.bad = []          # dicts: clause, text, event

    def violation(self, clause, text, event=None):
        with self.lock:
            self.bad.append({'property': self.prop, 'clause': clause, 'what': text, 'event': event})

    # ------------------------------------------------------------ the model
    def model(self, m):
        """Check a design model; replay what it emits into the code."""
        name = m['name']
        consts = dict(m.get('constants', {}))
        consts.update(m.get(self.tier, {}))
        cfg = ['SPECIFICATION ' + m.get('spec', 'Spec'), 'CHECK_DEADLOCK FALSE']
        cfg += ['CONSTANT %s = %s' % kv for kv in consts.items()]
        cfg += ['INVARIANT ' + i for i in m.get('invariants', [])]
        cfg += ['PROPERTY ' + i for i in m.get('properties', [])]
        cfg += ['CONSTRAINT ' + i for i in m.get('constraints', [])]
        replay = m.get('replay')
        extra = list(m.get('extra', ())) + ['-seed', str(self.seed)]
        if 'simulate' in m:
            num, depth = m['simulate'][self.tier]
            extra += ['-simulate', 'num=%d' % num, '-depth', str(depth)]
        rc, text = tlc(self.work, name, m['module'], '\n'.join(cfg) + '\n', workers=m.get('workers', 4),
                       timeout=800 if self.tier == 'quick' else 3000, extra=extra, heap='6g', env=m.get('env'))
        if rc != 0:
            raise Machinery('model %s: TLC exit %d\n%s' % (name, rc, '\n'.join(
                l for l in text.splitlines() if not l.startswith('"'))[-3000:]))
        gen, dist = counts(text)
        if 'simulate' in m:
            g = re.findall(r'The number of states generated: (\d+)', text)
            gen = dist = int(g[-1]) if g else 0
        lines = []
        for line in text.splitlines():
            if line.startswith('"'):
                lines.append(json.loads(line))
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.models[name] = {'states': dist, 'transitions': gen, 'emitted': len(lines), 'constants': consts}
        if not replay:
            return
        if not lines:
            raise Machinery('model %s emitted nothing' % name)
        n = min(8, max(1, len(lines) // 200))
        jobs = []
        for i in range(n):
            f = os.path.join(self.work, '%s.gen%d' % (name, i))
            with open(f, 'w') as h:
                h.write('\n'.join(lines[i::n]) + '\n')
            jobs.append(f)
        if not self.samples:
            self.samples.append('%s: %s' % (name, lines[len(lines) // 2][:300]))
        with ThreadPoolExecutor(n) as ex:
            list(ex.map(lambda x: self.replay(replay, x[1], x[0]), [(i + n * k, f) for k in range(m.get('hashseeds', 1))
                                                                    for i, f in enumerate(jobs)]))

    def driver_failed(self, what, rc, err):
        """A driver that dies was killed by the code under test, or could not even import it."""
        tail = err.strip().splitlines()[-8:]
        if rc == 70:
            raise Machinery('%s: %s' % (what, '\n'.join(tail)))
        self.violation('code.died', '%s ended with status %s: %s' % (what, rc, ' | '.join(tail)[-600:]))

    def replay(self, kind, f, hashseed):
        rc, out, err = run([PY, '-W', 'ignore', os.path.join(HERE, 'drv.py'), 'replay', kind, f, self.tier, str(self.seed)], 700,
                           hashseed + 1000 * self.seed)
        if rc != 0:
            return self.driver_failed('replay of %s' % kind, rc, err)
        for line in out.splitlines():
            d = json.loads(line)
            if 'replayed' in d:
                with self.lock:
                    self.replayed += d['replayed']
            else:
                self.violation(d['clause'], d['what'], d)

    # ------------------------------------------------------------ the traces
    def trace(self, shard, n):
        f = os.path.join(self.work, 'trace%d.ndjson' % shard)
        rc, out, err = run([PY, '-W', 'ignore', os.path.join(HERE, 'drv.py'), 'trace', self.prop, self.tier,
                            str(self.seed), str(shard), str(n), f], 700 if self.tier == 'quick' else 2500,
                           100 * self.seed + shard)
        if rc != 0:
            self.driver_failed('driver', rc, err)
            return
        with open(f) as h:
            lines = [x for x in h.read().split('\n') if x]
        if not lines:
            raise Machinery('driver recorded nothing')
        self.validate(f, lines)

    def validate(self, f, lines):
        """Validate a recorded trace with the Trace specification."""
        module = PLAN[self.prop].get('trace', 'Trace')
        name = os.path.basename(f)
        cfg = 'SPECIFICATION Spec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n'
        outside = 0
        while True:
            rc, text = tlc(self.work, name, module, cfg, env={'TRACE': f}, timeout=800 if self.tier == 'quick' else 3000)
            if rc == 0:
                break
            at = re.findall(r'^(?:/\\ )?l = (\d+)$', text, re.M)
            if not at or 'Parsing or semantic analysis failed' in text or 'OutOfMemory' in text or outside > 8:
                raise Machinery('trace %s: TLC exit %d\n%s' % (name, rc, text[-3000:]))
            # the specification has no meaning for this event
            i = int(at[-1]) - 1
            outside += 1
            e = json.loads(lines[i])
            why = [x for x in text.splitlines() if x.startswith(('Error:', 'Attempted', 'The exception'))][:3]
            self.violation('outside.specification', '%s [%s]' % (e.get('py', lines[i][:300]), ' '.join(why)[:300]), e)
            if outside > 8 or PLAN[self.prop].get('stateful'):
                return
            lines = lines[:i] + lines[i + 1:]
            with open(f, 'w') as h:
                h.write('\n'.join(lines) + '\n')
        for m in re.finditer(r'<<"REJECT",\s*(\d+),\s*\{([^}]*)\}', text):
            e = json.loads(lines[int(m.group(1)) - 1])
            cl = '+'.join(sorted(re.findall(r'"([^"]*)"', m.group(2))))
            self.violation(cl, e.get('py', ''), e)
        gen, dist = counts(text)
        with self.lock:
            self.events += len(lines)
            self.traces += 1
            self.states += dist
            self.transitions += gen
            for x in lines:
                k = x[6:x.index('"', 6 + 1)] if x.startswith('{"k":"') else '?'
                self.kinds[k] = self.kinds.get(k, 0) + 1
            if len(self.samples) < 4:
                for i in (len(lines) // 3, 2 * len(lines) // 3):
                    e = json.loads(lines[i])
                    self.samples.append('%s -> %s' % (e.get('py', '')[:200], json.dumps(e.get('out', ''))[:160]))

    # ------------------------------------------------------------ the verdict
    def known(self):
        out = []
        p = os.path.join(ROOT, 'known_findings.txt')
        for line in open(p):
            m = re.match(r'finding: property=(\S+) clause=(\S+) match=(\S+) (.*)', line)
            if m and m.group(1) == self.prop:
                out.append((m.group(2), m.group(3), m.group(4).strip()))
        return out

    def finish(self, t0):
        found, fresh = {}, []
        known = self.known()
        for b in self.bad:
            for cl, match, what in known:
                if b['clause'] == cl and re.search(match, b['what']):
                    found[what] = True
                    break
            else:
                fresh.append(b)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
            'coverage': {
                'states': self.states, 'transitions': self.transitions,
                'traces_validated_against_impl': self.traces + self.replayed,
                'recorded_traces': self.traces, 'recorded_events': self.events,
                'events_by_kind': self.kinds, 'replayed_behaviours': self.replayed,
                'models': self.models, 'samples': self.samples[:5],
            },
            'assumptions': PLAN[self.prop].get('assumptions', []),
            'wall_s': round(time.time() - t0, 1), 'violations': len(fresh),
        }
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for what in found:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        print('%s %s: %d states, %d transitions, %d behaviours replayed, %d traces with %d events, %.1f s' % (
            self.prop, self.tier, self.states, self.transitions, self.replayed, self.traces, self.events, time.time() - t0))
        if not fresh:
            return 0
        groups = {}
        for b in fresh:
            groups.setdefault(b['clause'], []).append(b)
        path = os.path.join(self.work, 'violation.json')
        with open(path, 'w') as f:
            json.dump([b for g in groups.values() for b in g[:10]], f, indent=1)
        for c, g in sorted(groups.items()):
            g.sort(key=lambda b: len(b['what']))
            print('  %s: %d, e.g. %s' % (c, len(g), g[0]['what'][:400]))
        print('VIOLATION property=%s replay=%s' % (self.prop, path))
        return 1

    def main(self):
        t0 = time.time()
        plan = PLAN[self.prop]
        n = plan.get('shards', 8)
        errors = []

        def guard(f, *a):
            try:
                f(*a)
            except Machinery as e:
                errors.append(str(e))
            except Exception as e:
                import traceback
                errors.append(traceback.format_exc())
        models = [m for m in plan.get('models', []) if m.get('tier', self.tier) == self.tier]
        with ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(guard, self.model, m) for m in models]
            fs += [ex.submit(guard, self.trace, i, n) for i in range(n)]
            for x in fs:
                x.result()
        if errors and not self.bad:
            print('%d parts of the check failed, the first:' % len(errors), file=sys.stderr)
            print('\n'.join(x for x in errors[0].splitlines() if not x.startswith('Parsing file'))[-2500:], file=sys.stderr)
            return 2
        for f in os.listdir(self.work):
            if not f.startswith('violation') and not os.environ.get('VERIF_KEEP'):
                os.unlink(os.path.join(self.work, f))
        return self.finish(t0)


if __name__ == '__main__':
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(Check(sys.argv[1], tier).main())
