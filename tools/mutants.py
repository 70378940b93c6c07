#!/usr/bin/env python3
"""Plants bugs (tools/mutant_specs/*.py) in a scratch copy of /repo and confirms each one:
   mutants.py [-j N] [--no-check] [ID ...]
patch applies, touches original lines only, the package builds, the stable tests pass, demo.sh passes
on the unchanged tree and fails with the patch; then runs the property's check against the copy.
Confirmed bugs are written to /verif/seeded/<id>/ (whether or not the check catches them)."""
import concurrent.futures as cf, glob, importlib.util, json, os, shutil, subprocess, sys, tempfile, textwrap
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '27f1ea1'
PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or []) if os.path.exists('/opt/vp/BASELINE.json') else set()
ENV = dict(os.environ, HOME='/root', LANG='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
HEAD = '''import os, sys, warnings
sys.path.insert(0, os.getcwd())
warnings.simplefilter("ignore")
import numpy as np, xarray as xr, pandas as pd
import geocat.comp as gc
def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    assert a.shape == b.shape, (a.shape, b.shape)
    assert np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True), (a, b)
'''
SH = '''#!/bin/bash
# run with cwd /repo: exit 0 when the behaviour is right, nonzero when it is broken
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg HOME=${HOME:-/root}
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "${d:?}"' EXIT
export NUMBA_CACHE_DIR="$d"
timeout 280 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def specs():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, 'tools/mutant_specs/*.py'))):
        sp = importlib.util.spec_from_file_location('m', f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        out += m.SPECS
    ids = [s['id'] for s in out]
    assert len(ids) == len(set(ids)), [i for i in ids if ids.count(i) > 1]
    return out


def sh(cmd, cwd, env=None, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, shell=isinstance(cmd, str), timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def original_lines(work, path):
    _, out = sh(['git', 'blame', '-s', '-l', 'HEAD', '--', path], work)
    _, base = sh(['git', 'rev-parse', BASE], work)
    _, anc = sh(['git', 'rev-list', BASE], work)
    anc = set(anc.split())
    return {i for i, l in enumerate(out.splitlines(), 1) if l.lstrip('^')[:40].strip() in anc or l.startswith('^')}


def confirm(s, check=True):
    tmp = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        work = os.path.join(tmp, 'repo')
        sh(['cp', '-a', '/repo', work], '/')
        sh('git checkout -q -- .', work)
        ddir = os.path.join(tmp, 'demo')
        os.makedirs(ddir)
        open(ddir + '/demo.sh', 'w').write(SH)
        open(ddir + '/demo.py', 'w').write(HEAD + textwrap.dedent(s['demo']).strip() + '\n')
        rc, out = sh(['bash', ddir + '/demo.sh'], work)
        if rc:
            return s, 'BAD: demo fails on the unchanged tree: ' + out[-400:]
        for path, old, new in s['edits']:
            p = os.path.join(work, 'geocat/comp', path)
            src = open(p).read()
            if src.count(old) != 1:
                return s, f'BAD: {src.count(old)} matches for {old[:60]!r}'
            open(p, 'w').write(src.replace(old, new))
        _, patch = sh(['git', 'diff', '--no-color'], work)
        _, u0 = sh(['git', 'diff', '-U0', '--no-color'], work)
        cur, orig, bad, touched = None, None, [], 0
        for l in u0.splitlines():
            if l.startswith('--- a/'):
                cur = l[6:]
                orig = original_lines(work, cur)
            elif l.startswith('@@'):
                a = l.split()[1][1:].split(',')
                st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                touched += n
                bad += [i for i in range(st, st + n) if i not in orig]
        if bad or not touched:
            return s, f'BAD: changes lines that are not original {bad} or none'
        rc, out = sh([PY, '-c', 'import geocat.comp, os; print(geocat.comp.__file__)'], work)
        if rc or not out.strip().splitlines()[-1].startswith(work):
            return s, 'BAD: import ' + out[-300:]
        rc, out = sh([PY, '-m', 'pytest', 'test', '-q', '-p', 'no:cacheprovider', '--noconftest', '-n', '2', '--timeout=300',
                      '--continue-on-collection-errors', '--ignore=test/test_climatologies.py', '--ignore=test/test_dask.py',
                      '--ignore=test/test_interpolation.py', '--ignore=test/test_stats.py', '-o', 'junit_family=xunit2',
                      '--junitxml=' + os.path.join(tmp, 'junit.xml')], work)
        good = set()
        for c in ET.parse(os.path.join(tmp, 'junit.xml')).getroot().iter('testcase'):
            if c.find('failure') is None and c.find('error') is None and c.find('skipped') is None:
                good.add(c.get('classname') + '::' + c.get('name'))
        if STABLE - good:
            return s, 'BAD: tests: ' + '; '.join(sorted(STABLE - good))[:300]
        rc, out = sh(['bash', ddir + '/demo.sh'], work)
        if rc == 0:
            return s, 'BAD: demo passes with the patch'
        dst = os.path.join(HERE, 'seeded', s['id'])
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        open(dst + '/patch.diff', 'w').write(patch)
        for f in ('demo.sh', 'demo.py'):
            shutil.copy(os.path.join(ddir, f), dst)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(dst + '/meta.json', 'w'), indent=1)
        res = 'confirmed'
        if check:
            ver = os.path.join(tmp, 'verif')
            os.makedirs(ver)
            for x in ('gcv', 'run.sh', 'known_findings.jsonl', 'properties.jsonl', 'MANIFEST.json'):
                sh(['cp', '-a', os.path.join(HERE, x), ver], '/')
            env = dict(ENV, GCV_REPO=work, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick',
                       GCV_PROCS=os.environ.get('GCV_PROCS', '2'))
            for p in [s['property']] + s.get('also', []):
                rc, out = sh(['bash', ver + '/run.sh', p], ver, env=env, timeout=1500)
                v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
                res += f' | {p}: ' + ('CAUGHT' if rc == 1 and v else f'MISSED rc={rc}')
        return s, res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    j, check = 3, True
    if '-j' in a:
        i = a.index('-j'); j = int(a[i + 1]); del a[i:i + 2]
    if '--no-check' in a:
        a.remove('--no-check'); check = False
    todo = [s for s in specs() if not a or s['id'] in a or any(s['id'].startswith(x) for x in a)]
    with cf.ThreadPoolExecutor(j) as ex:
        for f in cf.as_completed([ex.submit(confirm, s, check) for s in todo]):
            try:
                s, res = f.result()
                print(s['id'], '::', res, flush=True)
            except Exception as e:
                print('ERROR', repr(e)[:300], flush=True)


if __name__ == '__main__':
    main()
