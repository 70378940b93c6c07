"""C38 a call leaves nothing behind."""
import contextlib, gc, io, os, re, sys, tempfile, threading, tracemalloc, warnings, weakref
import numpy as np, xarray as xr
from ..gen import pick
from ..catalog import CATALOG
from ..compare import parts, freeze, diff, same
from . import c35
from .c32 import snapshot

RELAYOUT = False
QUICK = 1
ID = 'C38'
RULE = ('Every public function in every container. Retention: weak references to every array handed in or returned must die once the caller drops them. '
        'Growth: memory allocated at lines of geocat.comp and still alive after rounds of calls (tracemalloc) must not keep growing. '
        'Side effects: audit hook on opening for writing, removing, renaming, processes, sockets, threads and environment; captured console; open descriptors, threads and the '
        'scratch working directory before and after. Refusal: the arguments of a refused call and the global state are as before and the valid call that follows gives what it gave before.')
ASSUMPTIONS = ['imports made by the first call of a function are not side effects', 'warnings are no console output', 'arguments in memory (not chunked)']

BAD = re.compile(r'^(os\.(remove|rename|mkdir|rmdir|chdir|fchdir|chmod|chown|link|symlink|truncate|utime|putenv|unsetenv|system|exec|posix_spawn|spawn|fork|forkpty|kill|killpg)'
                 r'|subprocess\.Popen|shutil\..*|tempfile\..*|socket\.(connect|bind|sendto|getaddrinfo)|urllib\.Request|ftplib\..*|smtplib\..*|http\.client\..*'
                 r'|_thread\.start_new_thread|signal\.pthread_kill|builtins\.input|webbrowser\.open|sys\.(setprofile|settrace))$')
HOOK = {'on': False, 'seen': [], 'set': False}


def audit(event, args):
    if not HOOK['on']:
        return
    if event == 'open':
        path, mode, flags = args
        if (isinstance(mode, str) and set(mode) & set('wax+')) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
            if not (isinstance(path, (str, bytes)) and str(path).endswith(('/dev/null', '/dev/null\''))):
                HOOK['seen'].append(f'opened {path!r} for writing')
    elif BAD.match(event):
        HOOK['seen'].append(f'{event}{args!r}'[:150])


def raw(a):
    if isinstance(a, np.ndarray):
        return [a]
    if isinstance(a, xr.DataArray):
        return [a.data] + [c.data for c in a.coords.values() if c.name not in a.indexes and isinstance(c.data, np.ndarray)]
    if isinstance(a, xr.Dataset):
        return [a[k].data for k in a.data_vars]
    if isinstance(a, (list, tuple)):
        return [x for b in a for x in raw(b)]
    return []


def own(a):
    """The same argument with memory nothing else refers to."""
    if isinstance(a, (np.ndarray, xr.DataArray, xr.Dataset)):
        return a.copy()
    return a


WARM = set()


def warm(name):
    if name not in WARM:
        for s in range(3):
            with contextlib.suppress(Exception):
                CATALOG[name](np.random.default_rng(s))()
        WARM.add(name)


def retention(ctx, name):
    warm(name)
    c = CATALOG[name](ctx.rng)
    c = c.map(own)
    ctx.note(entry=name, function=c.fn.__name__)
    fn = c.fn.__name__
    refs = [(f'argument {k}', weakref.ref(x)) for k, v in c.everything() for x in raw(v)]
    args, kw = c.args, c.kw
    r = ctx.call(c.fn, *args, **kw)
    refs += [('the result', weakref.ref(x)) for _, o in parts(r) for x in raw(o)]
    o = None    # noqa: F841
    r = args = kw = c = None
    gc.collect()
    for what, w in refs:
        ctx.compared += 1
        ctx.finite += 1
        ctx.ok(w() is None, f'{fn}: {what} is still referred to after the caller dropped it')


def growth(ctx, name):
    warm(name)
    seed = int(ctx.rng.integers(2 ** 31))
    fn = CATALOG[name](np.random.default_rng(0)).fn
    flt = [tracemalloc.Filter(True, os.path.join(os.path.dirname(sys.modules['geocat.comp'].__file__), '*'))]
    n, sizes = 8, []
    tracemalloc.start(1)
    try:
        for rnd in range(4):
            for i in range(n):
                c = CATALOG[name](np.random.default_rng([seed, rnd, i]))
                if rnd == 0:
                    ctx.call(c.fn, *c.args, **c.kw)
                else:
                    c()
            del c
            gc.collect()
            s = tracemalloc.take_snapshot().filter_traces(flt)
            sizes.append((sum(t.size for t in s.traces), len(s.traces)))
    finally:
        tracemalloc.stop()
    ctx.note(entry=name, function=fn.__name__, alive=str(sizes[-1][1]))
    ctx.compared += len(sizes)
    ctx.finite += len(sizes)
    ctx.ok(not all(sizes[i + 1][0] > sizes[i][0] + n * 16 for i in (1, 2)),
           f'{fn.__name__}: memory allocated by the library and kept after {n}, {2 * n}, ... calls: {[s[0] for s in sizes]} bytes in {[s[1] for s in sizes]} blocks')


def effects(ctx, name):
    warm(name)
    c = CATALOG[name](ctx.rng)
    ctx.note(entry=name, function=c.fn.__name__)
    if not HOOK['set']:
        sys.addaudithook(audit)
        HOOK['set'] = True
    cwd = os.getcwd()
    out, err = io.StringIO(), io.StringIO()
    with tempfile.TemporaryDirectory(prefix='gcv38.') as d, tempfile.TemporaryFile() as t1:
        os.chdir(d)
        keep = os.dup(1)
        sys.stdout.flush()
        os.dup2(t1.fileno(), 1)
        HOOK['seen'] = []
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                warnings.simplefilter('ignore')
                env, th, fds = dict(os.environ), set(threading.enumerate()), set(os.listdir('/proc/self/fd'))
                HOOK['on'] = True
                try:
                    ctx.call(c.fn, *c.args, **c.kw)
                finally:
                    HOOK['on'] = False
                after = dict(os.environ), set(threading.enumerate()), set(os.listdir('/proc/self/fd')), os.getcwd()
        finally:
            os.dup2(keep, 1)
            os.close(keep)
            os.chdir(cwd)
        left = os.listdir(d)
        t1.seek(0)
        low = t1.read()
    fn = c.fn.__name__
    ctx.compared += 6
    ctx.finite += 6
    ctx.ok(not HOOK['seen'], f'{fn}: {HOOK["seen"][:3]}')
    ctx.ok(not out.getvalue() and not err.getvalue() and not low, f'{fn} wrote to the console: {(out.getvalue() + err.getvalue() + str(low))[:150]!r}')
    ctx.ok(not left, f'{fn} left files: {left}')
    ctx.ok(after[0] == env and after[3] == d, f'{fn} changed the environment or the working directory')
    ctx.ok(after[1] == th, f'{fn} left threads running: {after[1] - th}')
    ctx.ok(len(after[2]) == len(fds), f'{fn} left descriptors open')


def refusal(ctx, name):
    """A refused call has no effect either."""
    rng = ctx.rng
    f, sources = c35.CASES[name]
    c = CATALOG[pick(rng, list(sources))](rng)
    ctx.note(refused=name, function=c.fn.__name__)
    first = ctx.call(c.fn, *c.args, **c.kw)
    bad = c.map(lambda a: a)
    exc, what = f(rng, bad)
    if exc is None:
        return
    before = [(k, freeze(v)) for k, v in bad.everything()]
    valid = [(k, freeze(v)) for k, v in c.everything()]
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        s = snapshot()
        try:
            bad.fn(*bad.args, **bad.kw)
        except Exception:
            pass
        t = snapshot()
    fn = c.fn.__name__
    for k in s:
        ctx.ok(s[k] == t[k], f'{fn} refused {name} and changed the {k}: {str(s[k])[:100]} became {str(t[k])[:100]}')
    for (k, g), (_, v) in zip(before + valid, bad.everything() + c.everything()):
        d = diff(g, freeze(v))
        ctx.compared += 1
        ctx.finite += 1
        ctx.ok(d is None, f'{fn} refused {name} and changed argument {k}: {d}')
    same(ctx, ctx.call(c.fn, *c.args, **c.kw), first, f'{fn} after a refused call ({name})', exact=True)


WORKLOADS = {}
for _n in CATALOG:
    if not _n.endswith('.l'):
        WORKLOADS[f'retention.{_n}'] = ((lambda ctx, n=_n: retention(ctx, n)), 4, 60)
    WORKLOADS[f'growth.{_n}'] = ((lambda ctx, n=_n: growth(ctx, n)), 1, 10)
    WORKLOADS[f'effects.{_n}'] = ((lambda ctx, n=_n: effects(ctx, n)), 4, 60)
for _n in c35.CASES:
    WORKLOADS[f'refusal.{_n}'] = ((lambda ctx, n=_n: refusal(ctx, n)), 10, 100)
