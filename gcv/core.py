"""Core of the runtime monitors: cases, events, oracles, verdicts.

A *workload* drives real geocat.comp functions with generated inputs; a *monitor* (the body of the
workload after the call) compares what was observed with an independent oracle.  Every call into the
library goes through ``Ctx.call`` so that what was executed is recorded at the library's boundary.
"""
import hashlib
import numpy as np


class Violation(Exception):
    """The observed behaviour breaks the property."""


class Reject(Exception):
    """The generated input is outside the property's domain; the case is not counted."""


class Ctx:
    def __init__(self, prop, workload, index, seed, tier):
        self.prop, self.workload, self.index, self.seed, self.tier = (
            prop, workload, index, seed, tier)
        h = hashlib.sha256(f'{seed}/{prop}/{workload}/{index}'.encode()).digest()
        self.rng = np.random.default_rng(int.from_bytes(h[:8], 'little'))
        self.events = {}        # function name -> number of calls observed
        self.compared = 0       # values compared with the oracle
        self.finite = 0         # of those, finite ones
        self.features = {}      # input classes of this case
        self.digest = hashlib.sha256()
        self.sample = None
        self.called = False
        self.known = []
        self.hooks_before = []
        self.hooks_after = []
        # memory layouts of the arguments are drawn from a stream of their own
        self.layouts = np.random.default_rng(int.from_bytes(h[8:16], 'little'))
        self.relayout = True
        self.classes = {}       # what each parameter of each function received

    # ------------------------------------------------------------------ input bookkeeping
    def note(self, **kw):
        self.features.update(kw)

    def _feed(self, x, depth=0):
        d = self.digest
        if isinstance(x, np.ndarray):
            d.update(str((x.dtype, x.shape)).encode())
            d.update(x.tobytes() if x.dtype != object else repr(x.tolist()).encode())
        elif hasattr(x, 'data_vars') and hasattr(x, 'variables'):
            d.update(b'ds')
            for k in x.variables:
                d.update(str(k).encode())
                self._feed(x[k].variable if hasattr(x[k], 'variable') else x[k], depth + 1)
        elif hasattr(x, 'dims') and hasattr(x, 'data'):
            d.update(str(x.dims).encode())
            data = x.data
            if isinstance(data, np.ndarray):
                self._feed(data)
            else:
                d.update(str((type(data), getattr(data, 'shape', None))).encode())
        elif isinstance(x, (list, tuple)) and depth < 3:
            for y in x:
                self._feed(y, depth + 1)
        elif isinstance(x, dict):
            for k, y in x.items():
                d.update(str(k).encode())
                self._feed(y, depth + 1)
        else:
            d.update(repr(x)[:200].encode())

    # ------------------------------------------------------------------ boundary
    def call(self, fn, *args, **kw):
        """Call the library on in-domain input: an exception is a violation."""
        name = getattr(fn, '__name__', str(fn))
        for a in args:
            self._feed(a)
        self._feed(kw)
        self.called = True
        self.events[name] = self.events.get(name, 0) + 1
        if self.sample is None:
            self.sample = f'{name}({", ".join(describe(a) for a in args)}' + (
                ', ' + ', '.join(f'{k}={describe(v)}' for k, v in kw.items()) if kw else '') + ')'
        self.last_call = name
        if self.relayout:
            args = tuple(relaid(self, a) for a in args)
            kw = {k: relaid(self, v) for k, v in kw.items()}
        for k, a in (*zip(params(fn), args), *kw.items()):
            c = (name, k, kind(a))
            self.classes[c] = self.classes.get(c, 0) + 1
        for h in self.hooks_before:
            h(fn, args, kw)
        try:
            r = fn(*args, **kw)
        except (MemoryError, KeyboardInterrupt, CaseTimeout):
            raise
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f'{f.filename}:{f.lineno}' for f in reversed(tb) if '/geocat/' in f.filename), '?')
            raise Violation(f'{name} raised {type(e).__name__}: {str(e)[:300]} (at {where}) on valid input '
                            f'{", ".join(describe(a) for a in args)} {({k: describe(v) for k, v in kw.items()})}')
        for h in self.hooks_after:
            h(fn, args, kw, r)
        return r

    def raises(self, exc, fn, *args, what='', **kw):
        """Call the library on invalid input: not raising is a violation."""
        name = getattr(fn, '__name__', str(fn))
        for a in args:
            self._feed(a)
        self._feed(kw)
        self.called = True
        self.events[name] = self.events.get(name, 0) + 1
        if self.sample is None:
            self.sample = f'{name}({", ".join(describe(a) for a in args)}) must raise'
        self.compared += 1
        self.finite += 1
        try:
            r = fn(*args, **kw)
        except (MemoryError, KeyboardInterrupt, CaseTimeout):
            raise
        except exc:
            return
        except Exception as e:
            raise Violation(f'{name}: {what}: raised {type(e).__name__}: {str(e)[:200]}, expected {exc}')
        raise Violation(f'{name}: {what}: invalid input accepted, returned {describe(r)}')

    # ------------------------------------------------------------------ oracles
    def ok(self, cond, msg):
        self.compared += 1
        self.finite += 1
        if not bool(cond):
            raise Violation(msg)

    def close(self, actual, expected, what, rtol=1e-9, atol=0.0, scale=None):
        """Elementwise |a-e| <= atol + rtol*max(|e|, scale); same shape; same missing positions."""
        a = tonp(actual)
        e = tonp(expected)
        if a.shape != e.shape:
            raise Violation(f'{what}: shape {a.shape}, expected {e.shape}')
        if a.dtype == object:
            raise Violation(f'{what}: object dtype')
        a = a.astype(complex if np.iscomplexobj(a) or np.iscomplexobj(e) else float)
        e = e.astype(a.dtype)
        self.compared += int(a.size)
        na, ne = np.isnan(a), np.isnan(e)
        if (na != ne).any():
            i = tuple(int(x) for x in np.argwhere(na != ne)[0])
            raise Violation(f'{what}: missing values differ at {i}: got {a[i]!r}, expected {e[i]!r} '
                            f'({int((na != ne).sum())} of {a.size})')
        f = ~ne
        self.finite += int(f.sum())
        if not f.any():
            return
        ref = np.abs(e)
        if scale is not None:
            ref = np.maximum(ref, scale)
        with np.errstate(invalid='ignore', over='ignore'):
            diff = np.abs(a - e)
            inf = np.isinf(e)
            bad = f & ~((diff <= atol + rtol * ref) | (inf & (a == e)))
            bad |= f & inf & (a != e)
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            raise Violation(f'{what}: at {i} got {a[i]!r}, expected {e[i]!r} '
                            f'(difference {diff[i]:.3g}; {int(bad.sum())} of {a.size} values differ)')

    def equal(self, actual, expected, what):
        self.compared += 1
        self.finite += 1
        if actual != expected:
            raise Violation(f'{what}: got {actual!r}, expected {expected!r}')

    def finding(self, key, msg):
        """A violation of a mechanism that may be listed in the known-findings file."""
        self.known.append((key, msg))


class CaseTimeout(BaseException):
    pass


PARAMS = {}


def params(fn):
    if fn not in PARAMS:
        import inspect
        try:
            PARAMS[fn] = list(inspect.signature(fn).parameters)
        except (TypeError, ValueError):
            PARAMS[fn] = [str(i) for i in range(9)]
    return PARAMS[fn]


def kind(x):
    """container, element type, rank and order of magnitude of the size of an argument"""
    if isinstance(x, (bool, str, type(None))):
        return repr(x)[:20]
    if hasattr(x, 'data_vars'):
        return f'Dataset of {len(x.data_vars)}'
    if hasattr(x, 'dtype') and hasattr(x, 'ndim'):
        n = int(getattr(x, 'size', 0))
        lazy = ' chunked' if getattr(x, 'chunks', None) else ''
        return f'{type(x).__name__}{lazy} {x.dtype.kind}{x.dtype.itemsize} rank {x.ndim} size {"0" if not n else "1e%d" % int(np.log10(n))}'
    if isinstance(x, (list, tuple)):
        return f'{type(x).__name__} of {len(x) if len(x) < 5 else "5+"}'
    return type(x).__name__


def relaid(ctx, x):
    """The same array in another memory layout (column-major, strided, reversed, read-only), half of the time."""
    import xarray as xr
    if type(x) is xr.DataArray:
        d = x.variable._data
        if type(d) is np.ndarray and x.ndim:
            n = relaid(ctx, d)
            return x if n is d else x.copy(deep=False, data=n)
        return x
    if type(x) is not np.ndarray or x.ndim == 0 or x.dtype == object or x.size == 0 or ctx.layouts.random() < 0.5:
        return x
    k = int(ctx.layouts.integers(4))
    if k == 0:
        y = np.asfortranarray(x) if x.ndim > 1 else np.repeat(x, 3)[1::3]
    elif k == 1:
        y = np.empty(x.shape[:-1] + (2 * x.shape[-1],), x.dtype)
        y[..., 1::2] = x
        y[..., ::2] = x.flat[0]
        y = y[..., 1::2]
    elif k == 2:
        r = (slice(None, None, -1),) * x.ndim
        y = x[r].copy()[r]
    else:
        y = x.copy()
        y.flags.writeable = False
    name = ('column-major' if x.ndim > 1 else 'strided', 'strided', 'reversed', 'read-only')[k]
    ctx.features['layout'] = name
    return y


def tonp(x):
    if isinstance(x, np.ndarray):
        return x
    if hasattr(x, 'compute') and hasattr(x, 'dims'):
        x = x.compute()
    if hasattr(x, 'values') and not callable(x.values):
        return np.asarray(x.values)
    return np.asarray(x)


def describe(x):
    try:
        if isinstance(x, np.ndarray):
            s = np.array2string(x.ravel()[:4], precision=5, separator=',') if x.dtype.kind in 'fiub' else ''
            return f'ndarray{x.shape}{x.dtype}{s}'
        if hasattr(x, 'data_vars') and hasattr(x, 'sizes'):
            return f'Dataset{dict(x.sizes)}{list(x.data_vars)}'
        if hasattr(x, 'dims') and hasattr(x, 'sizes'):
            return f'DataArray{dict(x.sizes)}{x.dtype}' + ('chunked' if getattr(x, 'chunks', None) else '')
        s = repr(x)
        return s if len(s) < 120 else s[:117] + '...'
    except Exception:
        return f'<{type(x).__name__}>'
