#!/usr/bin/env python3
"""Mutation analysis of the checks: small syntactic changes of /repo/geocat/comp, each run against the checks
of the function it lies in (at a reduced scale), then against all behavioural checks.
   automut.py LIST                         number of mutants per function
   automut.py RUN OUT.jsonl [-n N] [-s SEED] [-j JOBS] [--fn NAME]   results, one mutant per line
Works on scratch copies only."""
import argparse, ast, concurrent.futures as cf, json, os, random, shutil, subprocess, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/geocat/comp'
PY = '/opt/venv/bin/python'
FIRST = {
    'calendar_average': ['C01', 'C06', 'C02'], 'climatology_average': ['C03', 'C02', 'C06'], 'climate_anomaly': ['C04', 'C06'],
    'month_to_season': ['C05', 'C06'], '_calculate_center_of_time_bounds': ['C02', 'C06'], '_get_time_coordinate_info': ['C06', 'C35'],
    'fourier_filters': ['C07', 'C08', 'C35'], 'gradient': ['C09', 'C10'], 'spherical': ['C24', 'C25'],
    'nmse': ['C27', 'C35'], 'pearson_r': ['C28', 'C35'], 'stats': ['C26', 'C34', 'C35'],
    '_temp_extrapolate': ['C12'], '_geo_height_extrapolate': ['C12'], '_vertical_remap_extrap': ['C12'],
    'pressure_at_hybrid_levels': ['C14', 'C35', 'C11'], 'delta_pressure_hybrid': ['C14', 'C35'],
    'interp_hybrid_to_pressure': ['C11', 'C12', 'C30', 'C35'], 'interp_sigma_to_hybrid': ['C13', 'C30', 'C35'],
    'interp_multidim': ['C15', 'C30', 'C35'], '_pre_interp_multidim': ['C15'], '_post_interp_multidim': ['C15'],
    'interpolation': ['C11', 'C13', 'C15', 'C35'],
    'dewtemp': ['C17', 'C35'], '_dewtemp': ['C17'], 'heat_index': ['C18', 'C35'], '_heat_index': ['C18'], '_nws_eqn': ['C18'], '_xheat_index': ['C18'],
    'zonal_meridional_psi': ['C22', 'C23'], 'delta_pressure': ['C16', 'C35'], '_delta_pressure1D': ['C16', 'C35'],
    'max_daylight': ['C21', 'C35'], 'relhum': ['C19', 'C35'], '_relhum': ['C19'], 'relhum_ice': ['C19', 'C35'], 'relhum_water': ['C19', 'C35'],
    '_relhum_ice': ['C19'], '_relhum_water': ['C19'], 'meteorology': ['C20', 'C35', 'C19', 'C17', 'C18'],
    'gc_util': ['C23', 'C34'], 'deprecated': ['C34'],
}
REST = ['C35', 'C31', 'C33', 'C34', 'C30', 'C29', 'C32']
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.Mod: '//', ast.FloorDiv: '/', ast.BitAnd: '|', ast.BitOr: '&'}


def mutants():
    out = []
    for mod in ('climatologies', 'fourier_filters', 'gradient', 'interpolation', 'meteorology', 'gc_util', 'spherical', 'stats', 'deprecated'):
        src = open(f'{SRC}/{mod}.py').read()
        lines = src.split('\n')
        off = [0]
        for l in lines:
            off.append(off[-1] + len(l.encode()) + 1)
        raw = src.encode()

        def span(n):
            return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

        def text(n):
            a, b = span(n)
            return raw[a:b].decode()

        def add(fn, n, new, op):
            a, b = span(n)
            out.append(dict(mod=mod, fn=fn, line=n.lineno, a=a, b=b, old=raw[a:b].decode(), new=new, op=op))

        def walk(n, fn):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                fn = n.name
                body = n.body[1:] if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else n.body
                for d in n.args.defaults if isinstance(n, ast.FunctionDef) else []:
                    if isinstance(d, ast.Constant):
                        walk(d, fn)
                for c in body:
                    walk(c, fn)
                return
            if isinstance(n, ast.Raise) or isinstance(n, (ast.Import, ast.ImportFrom)):
                return
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                return
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                add(fn, n, f'({text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])})', 'compare')
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.JoinedStr) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                add(fn, n, f'({text(n.left)} {BIN[type(n.op)]} {text(n.right)})', 'arithmetic')
            elif isinstance(n, ast.BoolOp):
                j = ' or ' if isinstance(n.op, ast.And) else ' and '
                add(fn, n, '(' + j.join(f'({text(v)})' for v in n.values) + ')', 'boolean')
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
                add(fn, n, f'({text(n.operand)})', 'unary')
            elif isinstance(n, ast.Constant):
                v = n.value
                if isinstance(v, bool):
                    add(fn, n, repr(not v), 'constant')
                elif isinstance(v, int):
                    add(fn, n, repr(v + 1), 'constant')
                elif isinstance(v, float) and v:
                    add(fn, n, repr(v * 1.001), 'constant')
            elif isinstance(n, (ast.If, ast.IfExp)):
                add(fn, n.test, 'True', 'condition')
                add(fn, n.test, 'False', 'condition')
            elif isinstance(n, ast.Call):
                if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                    add(fn, n, f'{text(n.func)}({text(n.args[1])}, {text(n.args[0])})', 'swap')
                for k in n.keywords:
                    if k.arg:
                        rest = [text(a) for a in n.args] + [(f'{q.arg}={text(q.value)}' if q.arg else f'**{text(q.value)}') for q in n.keywords if q is not k]
                        add(fn, n, f'{text(n.func)}({", ".join(rest)})', 'keyword ' + k.arg)
                if isinstance(n.func, ast.Attribute) and not n.keywords and isinstance(n.func.value, ast.Call) is False and n.func.attr in ('copy', 'transpose', 'flip'):
                    add(fn, n, text(n.func.value), 'drop call')
            elif isinstance(n, ast.Slice):
                pass
            if isinstance(n, (ast.Assign, ast.AugAssign)) and fn and any(isinstance(t, ast.Name) for t in (n.targets if isinstance(n, ast.Assign) else [n.target])):
                t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                if isinstance(n, ast.AugAssign) or any(isinstance(x, ast.Name) and x.id == t.id for x in ast.walk(n.value)):
                    add(fn, n, 'pass', 'drop statement')
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and fn:
                add(fn, n, 'pass', 'drop statement')
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)) and fn:
                add(fn, n, 'pass', 'drop statement')
            for c in ast.iter_child_nodes(n):
                if not isinstance(c, ast.arguments):
                    walk(c, fn)
        for c in ast.parse(src).body:
            walk(c, '')
    good = []
    for m in out:
        raw = open(f'{SRC}/{m["mod"]}.py').read().encode()
        new = (raw[:m['a']] + m['new'].encode() + raw[m['b']:]).decode()
        try:
            if ast.dump(ast.parse(new)) == ast.dump(ast.parse(raw.decode())):
                continue
        except SyntaxError:
            continue
        good.append(m)
    return good


def checks(m):
    first = FIRST.get(m['fn']) or FIRST.get(m['mod'])
    return first, [c for c in REST if c not in first]


def judge(m, scale):
    w = tempfile.mkdtemp(prefix='am.', dir='/tmp')
    try:
        shutil.copytree('/repo/geocat', w + '/geocat', ignore=shutil.ignore_patterns('__pycache__'))
        p = f'{w}/geocat/comp/{m["mod"]}.py'
        raw = open(p).read().encode()
        open(p, 'wb').write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])
        shutil.copytree(HERE, w + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '__pycache__', 'tools'))
        os.makedirs(w + '/verif/evidence')
        first, rest = checks(m)
        log = []
        for c in first + rest:
            env = dict(os.environ, GCV_REPO=w, GCV_PROCS='2', GCV_SCALE=str(scale if c in first else scale / 2), VERIF_TIER='quick', VERIF_SEED='3')
            try:
                r = subprocess.run(['./run.sh', c], cwd=w + '/verif', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                rc, o = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, o = 99, 'timeout'
            log.append((c, rc))
            if rc:
                return dict(m, killed=c, rc=rc, why=[l for l in o.splitlines() if l][0][:200] if o else '')
        return dict(m, killed=None)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('mode')
    ap.add_argument('out', nargs='?')
    ap.add_argument('-n', type=int, default=10**6)
    ap.add_argument('-s', type=int, default=0)
    ap.add_argument('-j', type=int, default=4)
    ap.add_argument('--fn')
    ap.add_argument('--cap', type=int, default=10**6)
    ap.add_argument('--scale', type=float, default=0.3)
    a = ap.parse_args()
    ms = [m for m in mutants() if not a.fn or m['fn'] in a.fn.split(',')]
    if a.mode == 'LIST':
        c = {}
        for m in ms:
            c[m['mod'], m['fn']] = c.get((m['mod'], m['fn']), 0) + 1
        for k, v in c.items():
            print(v, *k)
        print(len(ms))
        return
    random.Random(a.s).shuffle(ms)
    n, keep = {}, []
    for m in ms:
        n[m['mod'], m['fn']] = n.get((m['mod'], m['fn']), 0) + 1
        if n[m['mod'], m['fn']] <= a.cap:
            keep.append(m)
    ms = keep
    done = set()
    if os.path.exists(a.out):
        done = {(d['mod'], d['a'], d['b'], d['new']) for d in map(json.loads, open(a.out))}
    ms = [m for m in ms[:a.n] if (m['mod'], m['a'], m['b'], m['new']) not in done]
    with cf.ThreadPoolExecutor(a.j) as ex, open(a.out, 'a') as f:
        for r in map(cf.Future.result, cf.as_completed([ex.submit(judge, m, a.scale) for m in ms])):
            f.write(json.dumps(r) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
