"""Snapshots and comparisons of arbitrary inputs and results."""
import numpy as np, xarray as xr


def parts(r):
    """A result as a list of (label, object with values)."""
    if isinstance(r, (list, tuple)) and not (r and isinstance(r[0], (int, float, list))):
        return [(f'[{i}]{l}', o) for i, x in enumerate(r) for l, o in parts(x)]
    if isinstance(r, xr.Dataset):
        return [(f'.{k}', r[k]) for k in r.data_vars]
    return [('', r)]


def npv(x):
    if isinstance(x, (xr.DataArray, xr.Variable)):
        return np.asarray(x.values)
    return np.asarray(x)


def freeze(x):
    """Everything observable of an object, as plain comparable data."""
    if isinstance(x, xr.Dataset):
        return ('ds', tuple(x.data_vars), {k: freeze(x[k].variable) for k in x.variables}, attrs(x.attrs), attrs(x.encoding))
    if isinstance(x, xr.DataArray):
        return ('da', x.name, x.dims, freeze(x.variable), {k: freeze(x.coords[k].variable) for k in x.coords}, tuple(sorted(map(str, x.indexes))))
    if isinstance(x, (xr.Variable, xr.IndexVariable)):
        return ('var', x.dims, freeze(np.asarray(x.values)), attrs(x.attrs), attrs(x.encoding))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('obj', x.shape, tuple(map(repr, x.ravel())))
        return ('nd', x.shape, str(x.dtype), x.tobytes(), x.flags.writeable)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(y) for y in x))
    if isinstance(x, dict):
        return ('dict', {k: freeze(v) for k, v in x.items()})
    return (type(x).__name__, repr(x))


def attrs(d):
    return {str(k): freeze(v) if isinstance(v, (np.ndarray, list, tuple, dict)) else repr(v) for k, v in d.items()}


def diff(a, b, path=''):
    """First difference of two frozen objects."""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f'{path}/{i}')
            if d:
                return d
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if a.get(k) != b.get(k):
                return diff(a.get(k), b.get(k), f'{path}/{k}') or f'{path}/{k}'
    return f'{path}: {str(a)[:120]} became {str(b)[:120]}'


def same(ctx, got, want, what, rtol=1e-12, scale=None, meta=True, exact=False, skip=()):
    """Two results of the same call have the same structure and values."""
    A, B = parts(got), parts(want)
    ctx.ok(len(A) == len(B) and [l for l, _ in A] == [l for l, _ in B], f'{what}: structure {[l for l, _ in A]}, expected {[l for l, _ in B]}')
    for (l, x), (_, y) in zip(A, B):
        ctx.ok((isinstance(x, xr.DataArray)) == (isinstance(y, xr.DataArray)), f'{what}{l}: {type(x).__name__}, expected {type(y).__name__}')
        if isinstance(y, xr.DataArray):
            ctx.ok(x.dims == y.dims, f'{what}{l}: dims {x.dims}, expected {y.dims}')
        vx, vy = npv(x), npv(y)
        if vy.dtype == object:
            ctx.ok(vx.shape == vy.shape and all(p == q for p, q in zip(vx.ravel(), vy.ravel())), f'{what}{l}: values differ')
        elif vy.dtype.kind in 'mMUSb':
            ctx.ok(np.array_equal(vx, vy), f'{what}{l}: values differ')
        else:
            f = np.abs(vy[np.isfinite(vy)]) if vy.size else vy
            s = f.max() if f.size else 1.0
            ctx.close(vx, vy, f'{what}{l}', rtol=0 if exact else rtol, scale=s if scale is None else scale)
        if meta and isinstance(y, xr.DataArray):
            ctx.ok(set(map(str, x.coords)) == set(map(str, y.coords)), f'{what}{l}: coordinates {sorted(map(str, x.coords))}, expected {sorted(map(str, y.coords))}')
            for k in y.coords:
                if k in skip:
                    continue
                cx, cy = npv(x.coords[k]), npv(y.coords[k])
                ok = cx.shape == cy.shape and (all(p == q for p, q in zip(cx.ravel(), cy.ravel())) if cy.dtype.kind in 'OmMUSb'
                                               else np.allclose(cx, cy, rtol=1e-12, atol=0, equal_nan=True))
                ctx.ok(ok, f'{what}{l}: coordinate {k} differs')
            ctx.ok(set(map(str, x.attrs)) == set(map(str, y.attrs)), f'{what}{l}: attrs {sorted(map(str, x.attrs))}, expected {sorted(map(str, y.attrs))}')
            ctx.ok(y.name is None or x.name == y.name, f'{what}{l}: name {x.name}, expected {y.name}')
