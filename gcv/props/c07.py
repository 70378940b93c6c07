"""C07 the Fourier filters remove exactly the requested frequencies."""
import numpy as np
import geocat.comp as gc
from ..gen import pick, chance, field

ID = 'C07'
RULE = ('Random real signals (odd and even lengths 2-400, 1-3 dimensions) and cut-offs from 0 to the Nyquist frequency, on '
        'exact harmonics and between harmonics; the oracle is an explicit cosine/sine expansion with the unwanted harmonics left out.')
ASSUMPTIONS = ['band cut-offs satisfy low <= high <= Nyquist']


def kept(kind, n, lo, hi, aligned_lo, aligned_hi):
    """Harmonics 0..n//2 that survive.  lo, hi in units of the spectral resolution."""
    k = np.arange(n // 2 + 1)
    cl, ch = int(np.floor(lo)), int(np.ceil(hi))
    if kind == 'low':
        return k < cl
    if kind == 'high':
        return k >= ch
    inside = (k >= cl) & (k < ch)
    return inside if kind == 'band_pass' else ~inside


def expand(x, keep):
    """Sum of the kept harmonics of x (time first)."""
    n = x.shape[0]
    t = np.arange(n)
    flat = x.reshape(n, -1)
    out = np.zeros_like(flat)
    for k in np.flatnonzero(keep):
        ang = 2 * np.pi * ((k * t) % n) / n
        c, s = np.cos(ang), np.sin(ang)
        f = 1.0 if k == 0 or 2 * k == n else 2.0
        out += f / n * (np.outer(c, c @ flat) + np.outer(s, s @ flat))
    return out.reshape(x.shape)


def run(ctx, kind):
    rng = ctx.rng
    n = int(pick(rng, [rng.integers(2, 12), rng.integers(12, 80), rng.integers(80, 400)]))
    space = [(), (), (3,), (2, 2)][int(rng.integers(4))]
    x = field(rng, (n,) + space)
    exact = chance(rng, 0.6)
    nyq = n / 2
    if exact:
        freq = n * 2.0 ** int(rng.integers(-6, 7))
        cand = np.arange(0, n // 2 + 1)
        lo, hi = sorted(float(v) for v in rng.choice(cand, 2))
        if chance(rng, 0.3):
            lo = float(pick(rng, [0, 1]))
            hi = max(hi, lo)
    else:
        freq = float(pick(rng, [24.0, 10.0, 1.0, 365.25, 0.1, 1 / 3600]))
        lo, hi = sorted(int(v) for v in rng.integers(0, max(1, int(nyq)), 2))
        lo, hi = lo + rng.uniform(0.2, 0.8), hi + rng.uniform(0.2, 0.8)
        if hi < lo:
            lo, hi = hi, lo
        hi = min(hi, nyq) if nyq % 1 == 0 else hi
        if hi > nyq:
            hi = nyq - 0.1 if nyq - 0.1 >= lo else hi
    res = freq / n
    if exact:
        assert res * n == freq
    keep = kept(kind, n, lo, hi, exact, exact)
    ctx.note(kind=kind, aligned=exact, parity='odd' if n % 2 else 'even', lo=('0' if lo < 1 else '1' if lo < 2 else '>=2'),
             hi=('0' if hi < 1 else '1' if hi < 2 else 'nyquist' if hi >= nyq - 0.5 else '>=2'), kept=('none' if not keep.any() else 'all' if keep.all() else 'some'))
    want = expand(x, keep)
    sc = np.abs(x).max()
    args = {'low': (freq, lo * res), 'high': (freq, hi * res)}.get(kind, (freq, lo * res, hi * res))
    fn = {'low': gc.fourier_low_pass, 'high': gc.fourier_high_pass, 'band_pass': gc.fourier_band_pass,
          'band_block': gc.fourier_band_block}[kind]
    got = ctx.call(fn, x, *args)
    ctx.ok(not np.iscomplexobj(got), 'complex result')
    ctx.close(got, want, f'{kind} filter, n={n}, cut-offs {lo:.3f} {hi:.3f} harmonics', rtol=0, atol=1e-9 * sc * max(1, np.log2(n)))
    # the general entry point does the same
    kw = {'low': dict(cutoff_frequency_low=args[-1], low_pass=True), 'high': dict(cutoff_frequency_high=args[-1], high_pass=True)}.get(
        kind, dict(cutoff_frequency_low=args[1], cutoff_frequency_high=args[-1], **{kind: True}))
    g2 = ctx.call(gc.fourier_filter, x, freq, **kw)
    ctx.close(g2, want, f'fourier_filter({kind})', rtol=0, atol=1e-9 * sc * max(1, np.log2(n)))


WORKLOADS = {k: ((lambda c, k=k: run(c, k)), 250, 8000) for k in ('low', 'high', 'band_pass', 'band_block')}
