"""C32 results depend on the arguments only: no global state, no order dependence, safe from several threads."""
import contextlib, hashlib, io, json, os, random, subprocess, sys, threading, time, warnings
import numpy as np, xarray as xr
from ..gen import pick, chance
from ..catalog import CATALOG
from ..compare import same, parts, npv, freeze

RELAYOUT = False
QUICK = 1
ID = 'C32'
RULE = ('Every public function in every container: repeated calls separated by other calls, global state (floating point error mode, random '
        'generators, warning filters, xarray options, environment, working directory, print options) set to unusual values and '
        'compared around the call, the same calls in other orders in fresh interpreters, calls preceded by similar calls (same shapes and names, other numbers) against fresh interpreters, and 2-6 threads running mixed calls with '
        'a yield injected at random source lines; oracle: bit-identical results of a serial run.')
ASSUMPTIONS = ['numerical libraries run with one thread each; warning filters are not compared while several threads run']


def digest(r):
    h = hashlib.sha256()
    for l, o in parts(r):
        v = npv(o)
        h.update(f'{l}{v.dtype}{v.shape}{getattr(o, "dims", "")}'.encode())
        h.update(repr(v.ravel().tolist()).encode() if v.dtype == object else np.where(np.isnan(v), np.nan, v).tobytes() if v.dtype.kind == 'f' else v.tobytes())
        if isinstance(o, xr.DataArray):
            h.update(repr(sorted(map(str, o.coords))).encode())
            h.update(repr(sorted(map(str, o.attrs))).encode())
    return h.hexdigest()


def repeat(ctx, name):
    rng = ctx.rng
    c = CATALOG[name](rng)
    ctx.note(entry=name)
    a = ctx.call(c.fn, *c.args, **c.kw)
    fa = [freeze(npv(o)) for _, o in parts(a)]
    for _ in range(int(rng.integers(1, 4))):
        o = CATALOG[name if chance(rng, 0.5) else pick(rng, list(CATALOG))](rng)
        ctx.call(o.fn, *o.args, **o.kw)
    ctx.ok(fa == [freeze(npv(o)) for _, o in parts(a)], f'{c.fn.__name__}: an earlier result changed during a later call')
    # scribble over the first result: nothing may be remembered through it
    for _, o in parts(a):
        v = npv(o)
        if isinstance(v, np.ndarray) and v.dtype == float and v.flags.writeable:
            keep = v.copy()
            v[...] = 12345.0
            b = ctx.call(c.fn, *c.args, **c.kw)
            v[...] = keep
            same(ctx, b, a, f'{c.fn.__name__} called again after its first result was overwritten', exact=True)
            break
    b = ctx.call(c.fn, *c.args, **c.kw)
    same(ctx, b, a, f'{c.fn.__name__} called again', exact=True)


def snapshot():
    return {
        'floating point error mode': np.geterr(),
        'floating point error handler': np.geterrcall(),
        'print options': repr(np.get_printoptions()),
        'numpy random state': hashlib.sha256(repr(np.random.get_state()[1].tolist()).encode() + str(np.random.get_state()[2]).encode()).hexdigest(),
        'random state': hashlib.sha256(repr(random.getstate()).encode()).hexdigest(),
        'warning filters': [repr(f) for f in warnings.filters],
        'xarray options': repr(sorted((k, str(v)) for k, v in xr.get_options().items())),
        'working directory': os.getcwd(),
        'environment': dict(os.environ),
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'standard streams': (id(sys.stdout), id(sys.stderr)),
    }


def state(ctx, name):
    rng = ctx.rng
    c = CATALOG[name](rng)
    ctx.note(entry=name)
    if name not in WARM:      # imports done on a first call may add warning filters
        with contextlib.suppress(Exception), np.errstate(), warnings.catch_warnings():
            keep = dict(xr.get_options())
            c()
            xr.set_options(keep_attrs=keep['keep_attrs'])
        WARM.add(name)
    cwd = os.getcwd()
    opts = xr.set_options(keep_attrs=pick(rng, ['default', True]), arithmetic_join='inner', display_width=int(rng.integers(80, 100)))
    err = {k: pick(rng, ['ignore', 'warn']) for k in ('divide', 'over', 'under', 'invalid')}
    old = np.seterr(**err)
    po = np.get_printoptions()
    with warnings.catch_warnings():
        try:
            warnings.simplefilter(pick(rng, ['ignore', 'always', 'default']))
            warnings.filterwarnings('error', message='sentinel-' + str(ctx.index))
            np.random.seed(int(rng.integers(2 ** 31)))
            random.seed(int(rng.integers(2 ** 31)))
            np.set_printoptions(precision=int(rng.integers(3, 12)))
            os.environ['GCV_SENTINEL'] = str(ctx.index)
            with contextlib.redirect_stderr(io.StringIO()):
                before = snapshot()
                ctx.call(c.fn, *c.args, **c.kw)
                after = snapshot()
        finally:
            np.seterr(**old)
            np.set_printoptions(**{k: v for k, v in po.items() if k not in ('legacy', 'override_repr')})
            os.environ.pop('GCV_SENTINEL', None)
            opts.__exit__(None, None, None)
            os.chdir(cwd)
    for k in before:
        ctx.ok(before[k] == after[k], f'{c.fn.__name__} changed the {k}: {str(before[k])[:150]} became {str(after[k])[:150]}')


WARM = set()


def batch(seed, n):
    r = np.random.default_rng(seed)
    names = sorted(CATALOG)
    return [CATALOG[names[int(r.integers(len(names)))]](np.random.default_rng(int(r.integers(2 ** 31)))) for _ in range(n)]


def fresh(ctx):
    """The same calls in another order in an interpreter of their own."""
    from ..run import REPO
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    seed, n = ctx.seed * 10000 + ctx.index, 60
    order = ctx.rng.permutation(n).tolist()
    calls = batch(seed, n)
    want = [digest(ctx.call(c.fn, *c.args, **c.kw)) for c in calls]
    code = ('import sys, json; sys.path.insert(0, %r); sys.path.insert(0, %r)\n'
            'from gcv.props import c32\n'
            'calls = c32.batch(%d, %d)\n'
            'out = {}\n'
            'for i in %r:\n'
            '    out[i] = c32.digest(calls[i]())\n'
            'print(json.dumps(out))\n') % (here, REPO, seed, n, order)
    hs = str(int(ctx.rng.integers(1, 2 ** 31)))
    env = {**os.environ, 'PYTHONHASHSEED': hs, 'PYTHONDONTWRITEBYTECODE': '1'}
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], capture_output=True, text=True, timeout=140, env=env)
    if p.returncode:
        raise RuntimeError(p.stderr[-800:])
    got = json.loads(p.stdout.strip().splitlines()[-1])
    ctx.note(hash_seed=hs)
    ctx.digest.update(str(order).encode())
    for i, (c, w) in enumerate(zip(calls, want)):
        ctx.equal(got[str(i)], w, f'{c.fn.__name__} (call {i}) in another process and order')


def vary(a):
    """The same shapes, names and integers with other real numbers (also in the coordinates)."""
    if isinstance(a, np.ndarray):
        return np.asarray(a * 0.97) if a.dtype.kind in 'fc' else a
    if isinstance(a, (xr.DataArray, xr.Dataset)):
        b = a.map(vary, keep_attrs=True) if isinstance(a, xr.Dataset) else a.copy(data=vary(a.values))
        co = {k: (v.dims, vary(v.values), v.attrs) for k, v in a.coords.items() if v.dtype.kind == 'f'}
        return b.assign_coords(co)
    return a


def relatives(seed, n):
    """calls of different functions, each with a sibling that looks the same but for its numbers"""
    r = np.random.default_rng(seed)
    out, seen = [], set()
    for name in r.permutation(sorted(CATALOG)):
        name = str(name)
        if name.split('.')[0] not in seen and len(out) < n:
            seen.add(name.split('.')[0])
            c = CATALOG[name](np.random.default_rng(int(r.integers(2 ** 31))))
            out.append((c, c.map(vary)))
    return out


def siblings(ctx):
    """A call gives the same whether or not a similar call came before it in the process."""
    from ..run import REPO
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    seed, n = ctx.seed * 10000 + 5000 + ctx.index, 40
    pairs, want = relatives(seed, n), []
    for c, d in pairs:
        first = digest(ctx.call(c.fn, *c.args, **c.kw))
        want.append(digest(ctx.call(d.fn, *d.args, **d.kw)))
        ctx.equal(digest(ctx.call(c.fn, *c.args, **c.kw)), first, f'{c.fn.__name__} before and after a similar call')
    code = ('import sys, json; sys.path.insert(0, %r); sys.path.insert(0, %r)\n'
            'from gcv.props import c32\n'
            'print(json.dumps([c32.digest(d()) for c, d in c32.relatives(%d, %d)]))\n') % (here, REPO, seed, n)
    env = {**os.environ, 'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1'}
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], capture_output=True, text=True, timeout=140, env=env)
    if p.returncode:
        raise RuntimeError(p.stderr[-800:])
    got = json.loads(p.stdout.strip().splitlines()[-1])
    ctx.note(kind='siblings')
    ctx.digest.update(repr([c.fn.__name__ for c, _ in pairs]).encode())
    ctx.sample = f'{len(pairs)} functions, each after a call with the same shapes and other numbers'
    for (c, d), w, g in zip(pairs, want, got):
        ctx.equal(g, w, f'{c.fn.__name__} after a similar call, against the same call in a fresh process')


class Yielder:
    """Gives up the interpreter lock at random source lines of the library, and logs which thread ran which line."""

    def __init__(self, seed, p):
        self.log, self.p, self.rnd = [], p, random.Random(seed)
        from ..run import REPO
        self.root = os.path.join(REPO, 'geocat') + os.sep

    def __enter__(self):
        m = sys.monitoring
        self.tool = None
        for t in (4, 2, 1):
            try:
                m.use_tool_id(t, 'gcv-yield')
                self.tool = t
                break
            except ValueError:
                pass
        if self.tool is not None:
            m.register_callback(self.tool, m.events.LINE, self.line)
            m.set_events(self.tool, m.events.LINE)
        self.si = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        return self

    def line(self, code, line):
        if not code.co_filename.startswith(self.root):
            return sys.monitoring.DISABLE
        self.log.append((threading.get_ident(), line))
        if self.rnd.random() < self.p:
            time.sleep(1e-4 if self.rnd.random() < 0.3 else 0)

    def __exit__(self, *a):
        sys.setswitchinterval(self.si)
        if self.tool is not None:
            m = sys.monitoring
            m.set_events(self.tool, 0)
            m.register_callback(self.tool, m.events.LINE, None)
            m.free_tool_id(self.tool)


def threads(ctx):
    rng = ctx.rng
    nt = int(rng.integers(2, 7))
    one = chance(rng, 0.5)
    names = [pick(rng, list(CATALOG))] * 4 if one else [pick(rng, list(CATALOG)) for _ in range(6)]
    calls = [CATALOG[n](rng) for n in names for _ in range(2)]
    want = [ctx.call(c.fn, *c.args, **c.kw) for c in calls]
    plan = [rng.integers(0, len(calls), 8).tolist() for _ in range(nt)]
    out, errs = {}, []
    barrier = threading.Barrier(nt)

    def work(t):
        barrier.wait()
        for k, i in enumerate(plan[t]):
            try:
                out[t, k] = calls[i]()
            except Exception as e:
                errs.append((calls[i].fn.__name__, e))
    with Yielder(int(rng.integers(2 ** 31)), 0.3) as y:
        ts = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(nt)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    switches = sum(a[0] != b[0] for a, b in zip(y.log, y.log[1:]))
    ctx.note(threads=nt, same_function=one, switches=min(switches // 100 * 100, 1000))
    ids = {t: i for i, t in enumerate(dict.fromkeys(t for t, _ in y.log))}
    ctx.digest.update(repr([(ids[t], l) for t, l in y.log[:5000]]).encode())     # the interleaving that was seen
    ctx.events['lines interleaved'] = len(y.log)
    ctx.events['thread switches inside the library'] = switches
    if errs:
        from ..core import Violation
        raise Violation(f'{errs[0][0]} raised {errs[0][1]!r} when called from {nt} threads')
    for (t, k), r in out.items():
        same(ctx, r, want[plan[t][k]], f'{calls[plan[t][k]].fn.__name__} in thread {t}', exact=True)


def psi(ctx):
    """The mesh function: repeated around another call, with the global state compared."""
    from . import c22
    c, d = c22.case(ctx.rng), c22.case(ctx.rng)
    ctx.note(entry='psi', hybrid=c.hybrid)
    c.fn(c.ds, lat=c.lat, **c.kw)        # imports and compilation of a first call
    before = snapshot()
    a = ctx.call(c.fn, c.ds, lat=c.lat, **c.kw)
    after = snapshot()
    keep = digest(a)
    ctx.call(d.fn, d.ds, lat=d.lat, **d.kw)
    ctx.equal(digest(a), keep, f'{c.fn.__name__}: an earlier result after a later call')
    if a.values.flags.writeable:
        a.values[...] = 12345.0
    ctx.equal(digest(ctx.call(c.fn, c.ds, lat=c.lat, **c.kw)), keep, f'{c.fn.__name__} called again')
    for k in before:
        ctx.ok(before[k] == after[k], f'{c.fn.__name__} changed the {k}: {str(before[k])[:150]} became {str(after[k])[:150]}')


def prepare():
    from . import c22
    c22.prepare()


WORKLOADS = {f'repeat.{n}': ((lambda ctx, n=n: repeat(ctx, n)), 3, 40) for n in CATALOG}
WORKLOADS.update({f'state.{n}': ((lambda ctx, n=n: state(ctx, n)), 3, 30) for n in CATALOG})
WORKLOADS['fresh_process'] = (fresh, 12, 100)
WORKLOADS['siblings'] = (siblings, 12, 100)
WORKLOADS['threads'] = (threads, 120, 3000)
WORKLOADS['psi'] = (psi, 12, 200)
