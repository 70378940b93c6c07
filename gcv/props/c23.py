"""C23 variable discovery by CF attributes and names."""
import json, os, subprocess, sys
import numpy as np, xarray as xr
from geocat.comp.gc_util import _find_var, _find_optional_var
from ..gen import pick, chance

QUICK = 2
ID = 'C23'
RULE = ('Random datasets of 1-8 variables whose names and attributes are drawn from the documented spellings, from decoys (substrings, '
        'other words, wrong attribute) and at random, with 0-3 search criteria; oracle: standard_name, then long_name, then each '
        'name in the order given. The lookups are repeated in interpreters with different hash seeds.')

STD = ['northward_wind', 'surface_air_pressure', 'air_pressure', 'air_temperature', 'temp']
LONG = ['Meridional wind', 'Surface pressure', 'hybrid A coefficient at layer midpoints', 'air_temperature long']
POSS = [['V', 'vs', 'meridional_wind'], ['ps', 'p_surface', 'surface_pressure', 'pressure_surface'], ['hyam', 'hya', 'hybrid_A_midpoints'],
        ['plev', 'pressure_lev', 'pressure_levels'], ['t', 'temp', 'temperature', 'T2']]


def odd(rng, s):
    """a capitalisation that is (nearly always) none of the documented ones"""
    return ''.join(c.upper() if rng.random() < 0.5 else c.lower() for c in s)


def words(s, sep):
    return sep.join(w.capitalize() for w in s.split(sep))


def spell_std(s):
    return [s, s.lower(), s.upper(), s.capitalize(), words(s, '_')]


def spell_long(s):
    return [s, s.lower(), s.upper(), s.capitalize(), words(s, ' '), words(s, '_'), s.replace(' ', '_'), s.replace('_', ' ')]


def spell_name(s):
    return [s, s.lower(), s.upper(), s.capitalize(), words(s, '_')]


def expect(ds, std, long, poss):
    for want, attr, spell in ((std, 'standard_name', spell_std), (long, 'long_name', spell_long)):
        if want:
            ok = spell(want)
            for v in ds.data_vars:
                if v in ok or ds[v].attrs.get(attr, '') in ok:
                    return v
    for n in poss or []:
        for s in spell_name(n):
            if s in ds.variables:
                return s
    return None


def generate(rng):
    std = pick(rng, STD) if chance(rng, 0.6) else None
    long = pick(rng, LONG) if chance(rng, 0.6) else None
    poss = pick(rng, POSS) if chance(rng, 0.7) else None
    pool = ['x1', 'q', 'temp_anomaly', 'wind', 'pressure', 'lat_bnds', 'Vx', 'PSL', 'hyai', 'TEMPERATURE_2M']
    for p in POSS:
        if p is poss or chance(rng, 0.15):
            for n in p:
                pool += spell_name(n)
    if std:
        pool += spell_std(std) if chance(rng, 0.3) else []
    names = []
    for _ in range(int(rng.integers(1, 9))):
        n = pick(rng, pool)
        if n not in names:
            names.append(n)
    data = {}
    for n in names:
        at = {}
        if chance(rng, 0.3):
            s = pick(rng, STD) if not std or chance(rng, 0.4) else std
            at['standard_name'] = pick(rng, spell_std(s) + [s + '_at_10m', 'tendency_of_' + s, s[:-1], s.swapcase(), odd(rng, s), s.replace('_', ' '), ' ' + s, pick(rng, LONG)])
        if std and not long and chance(rng, 0.15):
            at['long_name'] = pick(rng, spell_long(std))
        elif chance(rng, 0.3):
            s = pick(rng, LONG) if not long or chance(rng, 0.4) else long
            at['long_name'] = pick(rng, spell_long(s) + [s + ' tendency', 'mean ' + s, s[1:], odd(rng, s), s + ' ', s.replace(' ', '-'), pick(rng, STD), pick(rng, STD).replace('_', ' '), pick(rng, pick(rng, POSS))])
        if chance(rng, 0.1):
            at['units'] = 'K'
        data[n] = (('i',), np.zeros(2), at)
    co = {}
    if poss and chance(rng, 0.3):
        c = pick(rng, spell_name(pick(rng, poss)))
        if c not in data:      # a dimension coordinate, an auxiliary one or a scalar
            co[c] = pick(rng, [((c,), np.arange(3.0)), (('i',), np.arange(2.0)), ((), 1.0)])
    return xr.Dataset(data, coords=co), std, long, poss


def run(ctx):
    rng = ctx.rng
    ds, std, long, poss = generate(rng)
    want = expect(ds, std, long, poss)
    kw = dict(standard_name=std, long_name=long, possible_names=poss)
    kw = {k: v for k, v in kw.items() if v is not None}
    ctx.note(found=want is not None, std=bool(std), long=bool(long), names=bool(poss), variables=len(ds.data_vars))
    msg = f'{ {v: ds[v].attrs for v in ds.variables} } searched for {kw}'
    if want is None:
        ctx.raises(KeyError, _find_var, ds, what='nothing matches', **kw)
    else:
        ctx.equal(ctx.call(_find_var, ds, **kw), want, msg)
    ctx.equal(ctx.call(_find_optional_var, ds, **kw), want, msg)


def hashes(ctx):
    """The same lookups in interpreters with other hash seeds."""
    from ..run import REPO
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    code = ('import sys, json; sys.path.insert(0, %r); sys.path.insert(0, %r)\n'
            'import numpy as np\n'
            'from gcv.props import c23\n'
            'r = np.random.default_rng(%d)\n'
            'out = []\n'
            'for _ in range(400):\n'
            '    ds, s, l, p = c23.generate(r)\n'
            '    out.append(c23._find_optional_var(ds, standard_name=s, long_name=l, possible_names=p))\n'
            'print(json.dumps(out))\n') % (here, REPO, ctx.seed * 1000 + ctx.index)
    r = np.random.default_rng(ctx.seed * 1000 + ctx.index)
    want = []
    for _ in range(400):
        want.append(expect(*generate(r)))
    hs = str(int(ctx.rng.integers(1, 2 ** 31)))
    env = {**os.environ, 'PYTHONHASHSEED': hs, 'PYTHONDONTWRITEBYTECODE': '1'}
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], capture_output=True, text=True, timeout=140, env=env)
    ctx.called = True
    ctx.last_call = '_find_optional_var in a fresh interpreter'
    if p.returncode:
        raise RuntimeError(p.stderr[-800:])
    got = json.loads(p.stdout.strip().splitlines()[-1])
    ctx.events['lookups in other interpreters'] = len(got)
    ctx.digest.update(hs.encode())
    ctx.sample = f'400 lookups under PYTHONHASHSEED={hs}'
    ctx.note(hash_seed=hs)
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.equal(g, w, f'lookup {i} under hash seed {hs}')


WORKLOADS = {'lookup': (run, 3000, 60000), 'hash_seeds': (hashes, 8, 64)}
