"""Try a planted bug in scratch copies: bug.py DIR [PROP ...]

DIR holds patch.diff, demo.sh and meta.json.  Says whether the patched code passes the tests, whether the demonstration
tells the two apart, and what the checks of the properties say (that of meta.json when none is given).
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, **env):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, **env), timeout=1500)
    return p.returncode, p.stdout.decode(errors='replace')


def passing(repo):
    out = os.path.join(repo, 'results.xml')
    sh('%s -m pytest -q -p no:cacheprovider --doctest-modules datashape --junitxml=%s' % (PY, out), repo)
    import xml.etree.ElementTree as ET
    good = set()
    try:
        for tc in ET.parse(out).iter('testcase'):
            if not list(tc):
                good.add(tc.get('classname', '') + '::' + tc.get('name', ''))
    except Exception:
        pass
    return good


def main(d, props, check=True):
    d = os.path.abspath(d)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    props = props or [meta['property']]
    tmp = tempfile.mkdtemp(prefix='bug')
    res = {'id': os.path.basename(d)}
    try:
        repo, verif, demo = tmp + '/repo', tmp + '/verif', tmp + '/demo'
        subprocess.check_call(['cp', '-a', '/repo', repo])
        shutil.copytree(d, demo)
        res['demo_clean'] = sh('bash %s/demo.sh' % demo, repo)[0]
        base = passing(repo)
        rc, out = sh('git apply %s/patch.diff' % d, repo)
        if rc:
            res['apply'] = out
            print(json.dumps(res))
            return
        lost = base - passing(repo)
        res['tests_lost'] = sorted(lost)[:3]
        res['tests'] = len(base)
        res['demo_bug'] = sh('bash %s/demo.sh' % demo, repo)[0]
        if check and not lost:
            subprocess.check_call(['rsync', '-a', '--exclude', '.git', '--exclude', 'out', '--exclude', 'seeded', VERIF + '/', verif])
            for p in props:
                rc, out = sh('./check %s quick' % p, verif, VERIF_REPO=repo)
                res[p] = rc
                res[p + '_says'] = out.strip().splitlines()[-4:] if rc != 1 else [x[:220] for x in out.strip().splitlines() if x.startswith('  ')][:3]
        print(json.dumps(res, indent=1))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    main(args[0], args[1:], '--no-check' not in sys.argv)
