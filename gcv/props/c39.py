"""C39 the settings of the process around a call do not change its result."""
import contextlib, gc, io, json, locale, os, random, subprocess, sys, tempfile, time, warnings
import numpy as np, xarray as xr, pandas as pd, dask
from ..gen import pick
from ..catalog import CATALOG
from ..compare import same, parts, npv
from . import c30, c35
from .c32 import digest

RELAYOUT = False
QUICK = 1
ID = 'C39'
RULE = ('Every public function in every container is called under the default settings and again under each ambient setting (floating-point error modes, warnings as errors, arithmetic join, '
        'attribute keeping, optional accelerators, display options of numpy, xarray and pandas, dask scheduler, time zone, locale, working directory, state of the random generators, disabled collector, '
        'an exception being handled, a deep stack, a deferred trace function); a fresh interpreter repeats batches of calls under -O, -OO, -X dev and other time zones. '
        'The results must be the same bit for bit (to 1e-12 where an accelerator is switched).')
ASSUMPTIONS = ['attributes are not compared where the setting is about attributes', 'warnings as errors: user and pending deprecation warnings excepted; calls with missing values only where they do not warn by default', 'floating-point errors raise: only for calls with finite arguments and results', 'xarray arithmetic_broadcast=False is not claimed']


@contextlib.contextmanager
def timezone(name):
    old = os.environ.get('TZ')
    os.environ['TZ'] = name
    time.tzset()
    try:
        yield
    finally:
        if old is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = old
        time.tzset()


@contextlib.contextmanager
def cwd():
    old = os.getcwd()
    with tempfile.TemporaryDirectory(prefix='gcv39.') as d:
        os.chdir(d)
        try:
            yield
        finally:
            os.chdir(old)


@contextlib.contextmanager
def no_gc():
    gc.disable()
    try:
        yield
    finally:
        gc.enable()


@contextlib.contextmanager
def loc(name):
    old = locale.setlocale(locale.LC_ALL)
    try:
        locale.setlocale(locale.LC_ALL, name)
        yield
    finally:
        locale.setlocale(locale.LC_ALL, old)


@contextlib.contextmanager
def seeded(k):
    s, t = random.getstate(), np.random.get_state()
    random.seed(k)
    np.random.seed(k)
    try:
        yield
    finally:
        random.setstate(s)
        np.random.set_state(t)


@contextlib.contextmanager
def strict():
    with warnings.catch_warnings():
        warnings.simplefilter('error')
        for category in (UserWarning, PendingDeprecationWarning):      # these are documented for the legacy names and questionable values
            warnings.simplefilter('ignore', category)
        yield


@contextlib.contextmanager
def handling():
    try:
        raise KeyError('outer')
    except KeyError:
        yield


@contextlib.contextmanager
def tracing():
    old = sys.gettrace()
    sys.settrace(lambda *a: None)
    try:
        yield
    finally:
        sys.settrace(old)


@contextlib.contextmanager
def buffers():
    old = np.getbufsize()
    np.setbufsize(16)
    try:
        yield
    finally:
        np.setbufsize(old)


X = xr.set_options
SETTINGS = {
    'floating-point errors raise': lambda: np.errstate(divide='raise', invalid='raise', over='raise'),
    'floating-point errors warn': lambda: np.errstate(all='warn'),
    'floating-point errors ignored': lambda: np.errstate(all='ignore'),
    'warnings as errors': strict,
    'arithmetic_join exact': lambda: X(arithmetic_join='exact'),
    'arithmetic_join outer': lambda: X(arithmetic_join='outer'),
    'arithmetic_join left': lambda: X(arithmetic_join='left'),
    'arithmetic_join right': lambda: X(arithmetic_join='right'),
    'keep_attrs True': lambda: X(keep_attrs=True),
    'keep_attrs False': lambda: X(keep_attrs=False),
    'no accelerators': lambda: X(use_bottleneck=False, use_flox=False, use_numbagg=False, use_opt_einsum=False),
    'accelerators': lambda: X(use_bottleneck=True, use_flox=True, use_numbagg=True, use_opt_einsum=True),
    'xarray display': lambda: X(display_width=20, display_max_rows=1, display_style='text', display_expand_attrs=False, warn_for_unclosed_files=True),
    'numpy display': lambda: np.printoptions(precision=1, suppress=True, threshold=2, edgeitems=1, nanstr='?', legacy='1.13'),
    'pandas display': lambda: pd.option_context('display.precision', 1, 'display.max_rows', 1, 'display.date_dayfirst', True, 'display.date_yearfirst', True),
    'dask synchronous': lambda: dask.config.set(scheduler='synchronous'),
    'dask threads': lambda: dask.config.set(scheduler='threads', num_workers=3),
    'small dask chunks': lambda: dask.config.set({'array.chunk-size': '64B', 'array.slicing.split-large-chunks': True, 'optimization.fuse.active': False}),
    'time zone west': lambda: timezone('XXX+11:30'),
    'time zone east': lambda: timezone('America/St_Johns'),
    'locale C': lambda: loc('C'),
    'locale C.UTF-8': lambda: loc('C.UTF-8'),
    'working directory': cwd,
    'random seed 0': lambda: seeded(0),
    'random seed 7': lambda: seeded(7),
    'collector off': no_gc,
    'exception being handled': handling,
    'trace function': tracing,
    'small buffers': buffers,
}
LOOSE = {'no accelerators', 'accelerators', 'small buffers', 'small dask chunks'}


def deeper(f, n):
    return f() if n == 0 else deeper(f, n - 1)


def finite(a):
    for _, o in parts(a):
        v = npv(o)
        if v.dtype.kind in 'fc' and not np.isfinite(v).all():
            return False
    return True


def ambient(ctx, name):
    c = CATALOG[name](ctx.rng)
    fn = c.fn.__name__
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        first = ctx.call(c.fn, *c.args, **c.kw)
        if hasattr(first, 'compute'):
            first = first.compute()
    quiet = not w
    sound = finite(first) and all(finite(v) for _, v in c.everything())
    for what, setting in SETTINGS.items():
        if what == 'warnings as errors' and not (quiet or sound) or what == 'floating-point errors raise' and not sound:
            continue
        with contextlib.suppress(locale.Error) if what.startswith('locale') else contextlib.nullcontext():
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with setting():
                    r = ctx.call(c.fn, *c.args, **c.kw)
                    if hasattr(r, 'compute'):
                        r = r.compute()
            ctx.note(setting=what, function=fn)
            same(ctx, r, first, f'{fn} with {what}', meta=not what.startswith('keep_attrs'), **(dict(rtol=1e-11) if what in LOOSE else dict(exact=True)))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = deeper(lambda: ctx.call(c.fn, *c.args, **c.kw), 300)
    same(ctx, r.compute() if hasattr(r, 'compute') else r, first, f'{fn} deep in the stack', exact=True)


def computed(r):
    return [computed(o) for o in r] if isinstance(r, (list, tuple)) else r.compute() if hasattr(r, 'compute') else r


def chunked(ctx):
    """Arguments in blocks: the settings at the call and at the computation."""
    name = pick(ctx.rng, c30.NAMES)
    c = CATALOG[name](ctx.rng)
    k = c.map(lambda a: c30.chunk(ctx.rng, a, name, 1.0, c.points))
    fn = c.fn.__name__
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        first = computed(ctx.call(k.fn, *k.args, **k.kw))
        for what in ctx.rng.permutation([s for s in SETTINGS if s not in ('floating-point errors raise', 'warnings as errors', 'trace function')]).tolist()[:8] + ['small dask chunks']:
            with contextlib.suppress(locale.Error) if what.startswith('locale') else contextlib.nullcontext():
                with SETTINGS[what]():
                    r = ctx.call(k.fn, *k.args, **k.kw)
                    r = computed(r)
                ctx.note(setting=what, function=fn)
                same(ctx, r, first, f'{fn} of chunked input with {what}', meta=not what.startswith('keep_attrs'), rtol=1e-9)


MODES = {
    'optimised': (['-O'], {}), 'without docstrings': (['-OO'], {}), 'development mode': (['-X', 'dev'], {}), 'isolated': (['-I'], {}),
    'another time zone': ([], {'TZ': 'Pacific/Apia', 'LC_ALL': 'C'}), 'no environment': ([], None), 'dask settings': ([], {'DASK_SCHEDULER': 'synchronous', 'DASK_ARRAY__CHUNK_SIZE': '128B'}),
    'utf8 mode off': (['-X', 'utf8=0'], {'LC_ALL': 'C', 'LANG': 'C'}),
}


def refusals(seed, n):
    """How n invalid calls end."""
    r = np.random.default_rng(seed)
    names, out = sorted(c35.CASES), []
    while len(out) < n:
        name = names[int(r.integers(len(names)))]
        f, sources = c35.CASES[name]
        rng = np.random.default_rng(int(r.integers(2 ** 31)))
        c = CATALOG[pick(rng, list(sources))](rng)
        exc, what = f(rng, c)
        if exc is None:
            out.append((name, c.fn.__name__, None))
            continue
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                c.fn(*c.args, **c.kw)
            out.append((name, c.fn.__name__, 'no error'))
        except Exception as e:
            out.append((name, c.fn.__name__, type(e).__name__))
    return out


def interpreter(ctx):
    """A batch of calls in an interpreter started in another way."""
    from ..run import REPO
    from . import c32
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    seed, n = ctx.seed * 10000 + 5000 + ctx.index, 60
    calls = c32.batch(seed, n)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        want = [digest(ctx.call(c.fn, *c.args, **c.kw)) for c in calls]
        refused = refusals(seed, n)
    what = list(MODES)[ctx.index % len(MODES)]
    flags, env = MODES[what]
    keep = ('PATH', 'HOME', 'PYTHONHASHSEED', 'PYTHONDONTWRITEBYTECODE', 'NUMBA_CACHE_DIR', 'OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMBA_NUM_THREADS', 'TMPDIR')
    env = {k: os.environ[k] for k in keep if k in os.environ} if env is None else {**os.environ, **env}
    code = ('import sys, json; sys.dont_write_bytecode = True; sys.path.insert(0, %r); sys.path.insert(0, %r)\n'
            'from gcv.props import c32, c39\n'
            'print(json.dumps([[c32.digest(c()) for c in c32.batch(%d, %d)], c39.refusals(%d, %d)]))\n') % (here, REPO, seed, n, seed, n)
    with tempfile.TemporaryDirectory(prefix='gcv39.') as d:
        p = subprocess.run([sys.executable, *flags, '-W', 'ignore', '-c', code], capture_output=True, text=True, timeout=200, env=env, cwd=d)
    if p.returncode:
        err = p.stderr.strip().splitlines()
        if any('geocat' in l and 'File' in l for l in err):
            ctx.ok(False, f'in an interpreter started {what}: {err[-1][:200] if err else p.returncode}')
            return
        raise RuntimeError(p.stderr[-800:])
    got, others = json.loads(p.stdout.strip().splitlines()[-1])
    ctx.note(setting=what)
    ctx.digest.update(what.encode())
    ctx.compared += n
    ctx.finite += n
    for c, w, g in zip(calls, want, got):
        ctx.ok(g == w, f'{c.fn.__name__} gives another result in an interpreter started {what}')
    for (name, fn, w), (_, _, g) in zip(refused, others):
        ctx.compared += 1
        ctx.ok(g == w, f'{fn} with an invalid argument ({name}): {g} in an interpreter started {what}, expected {w}')


WORKLOADS = {f'ambient.{n}': ((lambda ctx, n=n: ambient(ctx, n)), 8 if n.endswith('ly') else 2, 40) for n in CATALOG}
WORKLOADS['interpreter'] = (interpreter, 8, 64)
WORKLOADS['chunked'] = (chunked, 60, 1200)
