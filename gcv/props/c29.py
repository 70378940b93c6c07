"""C29 no function modifies its arguments."""
import copy
import numpy as np, xarray as xr
from ..gen import pick, chance
from ..catalog import CATALOG
from ..compare import freeze, diff, parts, same, npv

RELAYOUT = False
ID = 'C29'
RULE = ('Every public function in every container with random valid inputs: values, dtypes, writability, names, dims, coordinates, '
        'attributes and encodings of every argument are recorded before and after the call; repeated with read-only arrays (any '
        'write through an alias raises) and with views into a larger guarded buffer.')


def frozen_copy(a):
    if isinstance(a, np.ndarray):
        b = a.copy()
        b.setflags(write=False)
        return b
    if isinstance(a, xr.DataArray):
        v = a.values.copy()
        v.setflags(write=False)
        return a.copy(data=v)
    if isinstance(a, xr.Dataset):
        return a.map(frozen_copy, keep_attrs=True)
    return a


def embed(a, store):
    """The same values as a strided window of a bigger array filled with a guard pattern."""
    if isinstance(a, np.ndarray) and a.dtype == float and a.ndim:
        big = np.full(tuple(2 * n + 2 for n in a.shape), -7.25e11)
        win = big[tuple(slice(1, 1 + 2 * n, 2) for n in a.shape)]
        win[...] = a
        store.append((big, big.copy()))
        return win
    if isinstance(a, xr.DataArray) and a.dtype == float and a.ndim:
        return a.copy(data=embed(a.values, store))
    if isinstance(a, xr.Dataset):
        return a.map(lambda v: embed(v, store), keep_attrs=True)
    return a


def decorate(rng, a):
    """Extra metadata that must survive on the argument."""
    if isinstance(a, xr.DataArray):
        a = a.copy()
        a.attrs['history'] = ['made up']
        a.encoding['_FillValue'] = 1e20
        for c in a.coords:
            a.coords[c].attrs.setdefault('note', 'n')
    return a


def run(ctx, name):
    rng = ctx.rng
    c = CATALOG[name](rng)
    mode = pick(rng, ['plain', 'readonly', 'embedded'])
    ctx.note(entry=name, mode=mode, function=c.fn.__name__)
    c = c.map(lambda a: decorate(rng, a))
    store = []
    if mode == 'readonly':
        c = c.map(frozen_copy)
    elif mode == 'embedded':
        c = c.map(lambda a: embed(a, store))
    before = [(k, freeze(v)) for k, v in c.everything()]
    ident = [(k, id(v)) for k, v in c.everything()]
    r = ctx.call(c.fn, *c.args, **c.kw)
    for (k, f), (_, v) in zip(before, c.everything()):
        d = diff(f, freeze(v))
        ctx.ok(d is None, f'{c.fn.__name__}: argument {k} was modified: {d}')
    for big, orig in store:
        ctx.ok(np.array_equal(big, orig, equal_nan=True), f'{c.fn.__name__}: memory outside an argument was modified')
    # neither does annotating the result reach back into the arguments
    for _, o in parts(r):
        if isinstance(o, xr.DataArray):
            o.attrs['marker'] = 1
    for (k, f), (_, v) in zip(before, c.everything()):
        d = diff(f, freeze(v))
        ctx.ok(d is None, f'{c.fn.__name__}: annotating the result changed argument {k}: {d}')


def psi(ctx):
    """The mesh function, which takes a whole data set."""
    from . import c22
    c = c22.case(ctx.rng)
    for v in c.ds.variables.values():
        v.attrs['history'] = ['made up']
    ctx.note(function=c.fn.__name__, hybrid=c.hybrid)
    before, attrs, grid = freeze(c.ds), copy.deepcopy(c.ds.attrs), id(c.ds.uxgrid)
    kw, lat = dict(c.kw), copy.deepcopy(c.lat)
    o = ctx.call(c.fn, c.ds, lat=c.lat, **c.kw)
    o.attrs['marker'] = 1
    d = diff(before, freeze(c.ds))
    ctx.ok(d is None, f'{c.fn.__name__}: the data set was modified: {d}')
    ctx.ok(id(c.ds.uxgrid) == grid and c.ds.attrs == attrs, f'{c.fn.__name__}: grid or attributes of the data set replaced')
    ctx.ok(np.array_equal(np.asarray(c.lat), np.asarray(lat)) and type(c.lat) is type(lat), f'{c.fn.__name__}: the latitudes were modified')


def prepare():
    from . import c22
    c22.prepare()


WORKLOADS = {n: ((lambda ctx, n=n: run(ctx, n)), 8 if not n.startswith(('cal', 'cli', 'mon')) else 6, 120) for n in CATALOG}
WORKLOADS['psi'] = (psi, 12, 300)
