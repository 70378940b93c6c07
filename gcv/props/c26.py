"""C26 empirical orthogonal functions and principal components."""
import numpy as np, xarray as xr
import geocat.comp as gc
from ..gen import pick, chance
from ..core import tonp, Reject

QUICK = 3
ID = 'C26'
RULE = ('Random fields (time on any axis, 1-3 other dimensions, more or fewer times than points, missing points, weights, with or '
        'without centring, every scaling), as numpy, list and data array; oracle: the singular value decomposition of the anomaly '
        'matrix, orthonormality, and reconstruction of the data.')
ASSUMPTIONS = ['modes are compared up to their sign; cases with nearly degenerate eigenvalues are not generated']


def make(rng):
    space = tuple(int(v) for v in rng.integers(1, 6, int(rng.integers(1, 4))))
    nt = int(rng.integers(3, 30))
    p = int(np.prod(space))
    if p < 2:
        space = (3,) + space[1:]
        p = int(np.prod(space))
    # a few strong patterns and noise
    k = int(rng.integers(1, 4))
    X = (rng.standard_normal((nt, k)) * (10.0 / (1 + np.arange(k)))) @ rng.standard_normal((k, p)) + rng.standard_normal((nt, p))
    X = X * 10.0 ** rng.uniform(-3, 3) + float(pick(rng, [0, 0, 50]))
    return X.reshape((nt,) + space), nt, space, p


def reference(X, nt, w, center, ddof):
    A = X.reshape(nt, -1).astype(float)
    if w is not None:
        w = np.broadcast_to(w, X.shape).reshape(nt, -1)
    if center:
        A = A - A.mean(axis=0)
    if w is not None:
        A = A * w
    good = ~np.isnan(A).any(axis=0)
    U, s, Vt = np.linalg.svd(A[:, good], full_matrices=False)
    lam = s ** 2 / (nt - ddof)
    return A, good, U, s, Vt, lam


def run(ctx):
    rng = ctx.rng
    X, nt, space, p = make(rng)
    nd = X.ndim
    cont = pick(rng, ['numpy', 'xarray', 'xarray', 'list'])
    center = not chance(rng, 0.2)
    ddof = int(pick(rng, [1, 1, 0, 2]))
    w = None
    taxis = 0
    if chance(rng, 0.3):
        w = rng.uniform(0.3, 1.5, pick(rng, [space, space[-1:], X.shape]))
        if w.shape == X.shape:
            w = np.broadcast_to(w[:1], X.shape).copy()
    elif cont != 'xarray':
        taxis = int(rng.integers(nd))
    nan = chance(rng, 0.25) and center and p > 3
    if nan:
        j = rng.integers(p)
        Y = X.reshape(nt, -1)
        Y[int(rng.integers(nt)), j] = np.nan
        if chance(rng, 0.5):
            Y[:, int(rng.integers(p))] = np.nan
        X = Y.reshape(X.shape)
    A, good, U, s, Vt, lam = reference(X, nt, w, center, ddof)
    rank = int((s > s[0] * 1e-8).sum())
    neofs = int(rng.integers(1, max(1, min(rank, 6)) + 1))
    gap = np.abs(np.diff(s[:neofs + 1])) if s.size > 1 else np.array([1.0])
    if rank < 1 or (gap < 1e-4 * s[0]).any() or neofs > rank:
        raise Reject()
    data = np.moveaxis(X, 0, taxis)
    neg = taxis == nd - 1 and chance(rng, 0.5)
    kw = {'weights': w, 'center': center, 'ddof': ddof}
    kw = {k: v for k, v in kw.items() if not (k == 'weights' and v is None) and not (k == 'center' and v) and not (k == 'ddof' and v == 1)}
    meta = chance(rng, 0.5)
    dims = ['time', 'lev', 'lat', 'lon'][:1] + ['lev', 'lat', 'lon'][-(nd - 1):]
    co = {d: np.arange(n) * 2.0 + 1 for d, n in zip(dims, X.shape)}
    if cont == 'xarray':
        data = xr.DataArray(data, dims=dims, coords=co, attrs={'units': 'K'})
    elif cont == 'list':
        data = data.tolist()
    if cont != 'xarray':
        kw['time_dim'] = (-1 if neg else taxis)
        meta = meta and taxis == 0
    if meta:
        kw['meta'] = True
    esc, psc = int(pick(rng, [0, 0, 1, 2])), int(pick(rng, [0, 0, 1, 2]))
    vf = chance(rng, 0.3)
    ctx.note(container=cont, center=center, ddof=ddof, weights=str(w is not None), time_axis=taxis if not neg else -1, nan=nan, scaling=f'{esc}{psc}',
             more_times=nt > p)
    E = ctx.call(gc.eofunc_eofs, data, neofs=neofs, eofscaling=esc, **({'vfscaled': True} if vf else {}), **kw)
    P = ctx.call(gc.eofunc_pcs, data, npcs=neofs, pcscaling=psc, **kw)
    ctx.equal(E.shape, (neofs,) + space, 'shape of the EOFs')
    ctx.equal(P.shape, (neofs, nt), 'shape of the PCs')
    e, pc = tonp(E).reshape(neofs, -1), tonp(P)
    L = lam[:neofs]
    ctx.close(E.attrs['eigenvalues'], L, 'eigenvalues', rtol=1e-7, scale=1e-9 * L[0])
    ctx.close(E.attrs['varianceFraction'], L / lam.sum(), 'variance fractions', rtol=1e-7, atol=1e-12)
    ctx.close(E.attrs['totalAnomalyVariance'], lam.sum(), 'total variance', rtol=1e-7)
    ctx.close(E.attrs['northTest'], L * np.sqrt(2.0 / nt) / (lam.sum() if vf else 1), 'North test', rtol=1e-7, scale=1e-12 * L[0])
    fe = {0: np.ones(neofs), 1: 1 / np.sqrt(L), 2: np.sqrt(L)}[esc]
    fp = {0: np.ones(neofs), 1: 1 / np.sqrt(L), 2: np.sqrt(L)}[psc]
    ctx.ok(np.isnan(e[:, ~good]).all(), 'a point without complete data has a value')
    eg = e[:, good] / fe[:, None]
    pg = pc / fp[:, None]
    ctx.close(eg @ eg.T, np.eye(neofs), 'orthonormality of the EOFs', atol=1e-7)
    dev = pg @ pg.T / (nt - ddof)
    ctx.close(dev, np.diag(L), 'covariance of the PCs', atol=1e-7 * L[0])
    for k in range(neofs):
        want = np.outer(U[:, k] * s[k], Vt[k])
        ctx.close(np.outer(pg[k], eg[k]), want, f'mode {k + 1} (component times pattern)', atol=2e-6 * s[0])
    if neofs == rank:
        ctx.close(pg.T @ eg, A[:, good], 'sum of all modes', atol=1e-6 * s[0])
    if cont == 'xarray':
        ctx.equal(P.dims, ('pc', 'time'), 'dims of the PCs')
    if meta and cont == 'xarray':
        ctx.equal(E.dims, ('eof',) + tuple(dims[1:]), 'dims of the EOFs')
        for d in dims[1:]:
            ctx.close(E[d], co[d], f'coordinate {d}')
        ctx.close(P['time'], co['time'], 'times')
        ctx.equal(E.attrs.get('units'), 'K', 'attrs')
        ctx.equal(dict(P.attrs), {'units': 'K'}, 'attrs of the PCs')
    elif not meta:
        ctx.equal((dict(P.attrs), list(P.coords), list(E.coords)), ({}, [], []), 'metadata without meta')
        ctx.equal(set(E.attrs), {'eigenvalues', 'northTest', 'totalAnomalyVariance', 'varianceFraction'}, 'attributes without meta')
        ctx.equal(E.dims, ('eof',) + tuple(f'dim_{i}' for i in range(nd) if i != taxis), 'dims of the EOFs')


def axes(ctx):
    """The time axis only permutes the result; truncation only drops modes; invariances."""
    rng = ctx.rng
    X, nt, space, p = make(rng)
    A, good, U, s, Vt, lam = reference(X, nt, None, True, 1)
    rank = int((s > s[0] * 1e-8).sum())
    n = max(1, min(rank - 1, 4))
    if (np.abs(np.diff(s[:n + 1])) < 1e-4 * s[0]).any():
        raise Reject()
    base = tonp(ctx.call(gc.eofunc_eofs, X, neofs=n))
    bp = tonp(ctx.call(gc.eofunc_pcs, X, npcs=n))
    prod = np.einsum('kt,k...->kt...', bp, base)
    ctx.note(ndim=X.ndim)
    for a in range(1, X.ndim):
        Y = np.moveaxis(X, 0, a)
        e = tonp(ctx.call(gc.eofunc_eofs, Y, neofs=n, time_dim=a))
        q = tonp(ctx.call(gc.eofunc_pcs, Y, npcs=n, time_dim=a - X.ndim if chance(rng, 0.5) else a))
        ctx.close(np.einsum('kt,k...->kt...', q, e), prod, f'time on axis {a}', atol=1e-6 * s[0])
    k = float(rng.uniform(0.1, 50))
    e = ctx.call(gc.eofunc_eofs, X * k + 3.0, neofs=n)
    ctx.close(e.attrs['eigenvalues'], lam[:n] * k * k, 'eigenvalues of a multiple', rtol=1e-6, scale=1e-8 * lam[0] * k * k)
    e = ctx.call(gc.eofunc_eofs, X[rng.permutation(nt)], neofs=1)
    ctx.close(e.attrs['eigenvalues'], lam[:1], 'eigenvalues of shuffled times', rtol=1e-7)
    e1 = tonp(ctx.call(gc.eofunc_eofs, X, neofs=1))
    ctx.close(np.abs(e1[0]), np.abs(base[0]), 'first mode computed alone', atol=1e-7)
    ctx.raises(ValueError, gc.eofunc_eofs, X, neofs=int(pick(rng, [0, -1])), what='no EOFs')
    ctx.raises(ValueError, gc.eofunc_pcs, X, npcs=int(pick(rng, [0, -1])), what='no PCs')
    ctx.raises(ValueError, gc.eofunc_eofs, X, time_dim=X.ndim + int(rng.integers(3)), what='time axis out of range')
    ctx.raises(ValueError, gc.eofunc_pcs, X, time_dim=-X.ndim - 1, what='time axis out of range')


WORKLOADS = {'modes': (run, 400, 8000), 'axes': (axes, 120, 2500)}
