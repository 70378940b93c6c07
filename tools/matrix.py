#!/usr/bin/env python3
"""Runs the check of its property against every planted bug in seeded/: matrix.py [-j N] [ID ...].
Writes tools/matrix.json: bug -> caught or not, and the workload that caught it first."""
import concurrent.futures as cf, json, os, re, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutants import HERE, ENV, sh


def one(b):
    tmp = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        d = os.path.join(HERE, 'seeded', b)
        prop = json.load(open(d + '/meta.json'))['property']
        work, ver = os.path.join(tmp, 'repo'), os.path.join(tmp, 'verif')
        sh(['cp', '-a', '/repo', work], '/')
        sh('git checkout -q -- .', work)
        rc, out = sh(['git', 'apply', d + '/patch.diff'], work)
        if rc:
            return b, prop, 'does not apply', []
        os.makedirs(ver)
        for x in ('gcv', 'run.sh', 'known_findings.jsonl', 'properties.jsonl', 'MANIFEST.json'):
            sh(['cp', '-a', os.path.join(HERE, x), ver], '/')
        rc, out = sh(['bash', ver + '/run.sh', prop], ver, env=dict(ENV, GCV_REPO=work, VERIF_SEED='1', VERIF_TIER='quick', GCV_PROCS=os.environ.get('GCV_PROCS', '2')), timeout=1800)
        w = sorted(set(re.findall(r'^' + prop + r' ([\w.]+?)\[\d+\]', out, re.M)))
        return b, prop, 'caught' if rc == 1 and 'VIOLATION' in out else f'MISSED rc={rc}', w
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    j = 2
    if a[:1] == ['-j']:
        j, a = int(a[1]), a[2:]
    ids = a or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    path = os.path.join(HERE, 'tools/matrix.json')
    res = json.load(open(path)) if os.path.exists(path) else {}
    with cf.ThreadPoolExecutor(j) as ex:
        for b, prop, r, w in ex.map(one, ids):
            print(b, prop, r, ' '.join(w)[:100], flush=True)
            res[b] = {'property': prop, 'result': r, 'workloads': w}
    json.dump(dict(sorted(res.items())), open(path, 'w'), indent=0)
