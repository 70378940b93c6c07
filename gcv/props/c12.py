"""C12 ECMWF extrapolation below the lowest model level."""
import numpy as np, xarray as xr
import geocat.comp as gc
from ..gen import pick, chance
from ..vert import extrap_T, extrap_Z, surface
from .c11 import make, targets, expected, columns
from ..core import tonp, Reject

ID = 'C12'
RULE = ('Random columns as for C11 with target levels below the ground, lowest-level temperatures 200-325 K and surface '
        'heights -100..6000 m so that every branch of the ECMWF formulas is taken; the oracle is a scalar transcription of the '
        'published formulas; levels at or above the lowest model level must be untouched by extrapolation.')
ASSUMPTIONS = ['the formulas are continuous at their branch points (2000 m, 2500 m, 255 K, 290.5 K), which are hit exactly']


def geopotential(h):
    """The geopotential whose height comes out as h exactly."""
    p = h * 9.80616
    for q in (p, np.nextafter(p, 0), np.nextafter(p, 1e9), np.nextafter(np.nextafter(p, 1e9), 1e9)):
        if q * (1 / 9.80616) == h:
            return q
    return p


P2000, P2500 = geopotential(2000.0), geopotential(2500.0)


def run(ctx, var):
    rng = ctx.rng
    m = make(rng)
    ground = var != 'other' and chance(rng, 0.3)
    if ground:           # the lowest level is the ground itself, so that T* is the given temperature
        i = int(m['press'].reshape(m['nlev'], -1)[:, 0].argmax())
        m['hya'], m['hyb'], m['press'] = m['hya'].copy(), m['hyb'].copy(), m['press'].copy()
        m['hya'][i], m['hyb'][i], m['press'][i] = 0.0, 1.0, m['psv']
    pl, order = targets(rng, m['press'], below=True)
    method = pick(rng, ['linear', 'log'])
    shape = tuple(m['size'][d] for d in m['extra'])
    tb = pick(rng, [lambda: rng.uniform(200, 325, shape), lambda: rng.uniform(270, 300, shape), lambda: rng.uniform(230, 262, shape)])()
    h = pick(rng, [lambda: rng.uniform(1, 1990, shape), lambda: rng.uniform(2001, 2499, shape), lambda: rng.uniform(2501, 6000, shape),
                   lambda: rng.uniform(-100, 6000, shape)])()
    phi = h * 9.80616
    at = rng.random(shape) < (0.3 if ground else 0.05)
    phi = np.where(at & (rng.random(shape) < 0.5), pick(rng, [P2000, P2500]), phi)
    h = phi / 9.80616
    if ground:
        tb = np.where(rng.random(shape) < 0.3, pick(rng, [290.5, 255.0, 298.0]), tb)
    mk = lambda v: xr.DataArray(v, dims=m['extra'], coords={k: c for k, c in m['ps'].coords.items()})
    kw = dict(m['kw'], method=method, lev_dim=m['lev'], extrapolate=True, variable=var)
    if var != 'other':
        kw.update(t_bot=mk(tb), phi_sfc=mk(phi))
    out = ctx.call(gc.interp_hybrid_to_pressure, m['da'], m['ps'], m['hya'], m['hyb'], new_levels=pl, **kw)
    want = expected(m, pl, method == 'log')
    d = columns(m)
    pb = m['press'].max(0)
    ib = m['press'].reshape(m['nlev'], -1)[:, 0].argmax()
    nb = {'lo': 0, 'mid': 0, 'hi': 0, 'n': 0}
    for idx in np.ndindex(*shape):
        for i, p in enumerate(pl):
            if p > pb[idx]:
                nb['n'] += 1
                nb['lo' if h[idx] < 2000 else 'mid' if h[idx] <= 2500 else 'hi'] += 1
                args = (tb[idx], p, pb[idx], m['psv'][idx], phi[idx])
                want[(i,) + idx] = (extrap_T(*args) if var == 'temperature' else extrap_Z(*args) if var == 'geopotential' else d[(ib,) + idx])
    ctx.note(variable=var, rank=len(m['dims']), below=min(nb['n'], 5), method=method, lev_first=ib == 0, height='+'.join(k for k in ('lo', 'mid', 'hi') if nb[k]))
    ctx.equal(set(out.dims), {'plev', *m['extra']}, 'dims')
    sc = np.abs(want[np.isfinite(want)]).max() if np.isfinite(want).any() else 1
    ctx.close(out.transpose('plev', *m['extra']), want, f'extrapolation of {var}', rtol=1e-8, scale=1e-3 * sc if var != 'other' else sc)
    # extrapolation leaves the levels inside the column alone
    kw2 = dict(m['kw'], method=method, lev_dim=m['lev'])
    if chance(rng, 0.5):
        kw2.update({k: v for k, v in kw.items() if k != 'extrapolate'})
    base = ctx.call(gc.interp_hybrid_to_pressure, m['da'], m['ps'], m['hya'], m['hyb'], new_levels=pl, **kw2)
    P = pl.reshape((-1,) + (1,) * pb.ndim)
    o, b = tonp(out.transpose('plev', *m['extra'])), tonp(base.transpose('plev', *m['extra']))
    inside = (P <= pb) & np.ones(o.shape, bool)
    ctx.ok(np.isnan(b[~inside]).all(), 'values below the ground although extrapolation is off')
    if inside.any():
        ctx.close(o[inside], b[inside], 'levels inside the column', rtol=0)


WORKLOADS = {v: ((lambda c, v=v: run(c, v)), n, t) for v, n, t in
             (('temperature', 200, 5000), ('geopotential', 200, 5000), ('other', 100, 2500))}
