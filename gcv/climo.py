"""Independent model of calendar periods, climatological slots and their means."""
import datetime
import numpy as np
from .gen import parts, days_in_month, moment, next_month, SEASONS, pick, chance, stamps, field, sprinkle_nan


def period_of(p, freq):
    """Key of the calendar period that contains the time stamp p=(y,m,d,h,..)."""
    y, m, d, h = p[:4]
    if freq == 'hour':
        return (y, m, d, h)
    if freq == 'day':
        return (y, m, d)
    if freq == 'month':
        return (y, m)
    if freq == 'year':
        return (y,)
    if freq == 'season':
        return (y + (m == 12), m % 12 // 3)
    raise ValueError(freq)


def bounds_of(key, freq, cal):
    if freq == 'hour':
        a = moment(cal, *key)
        return a, a + datetime.timedelta(hours=1)
    if freq == 'day':
        a = moment(cal, *key)
        return a, a + datetime.timedelta(days=1)
    if freq == 'month':
        return moment(cal, *key), moment(cal, *next_month(*key))
    if freq == 'year':
        return moment(cal, key[0]), moment(cal, key[0] + 1)
    if freq == 'season':
        y, q = key
        a = (y - 1, 12) if q == 0 else (y, 3 * q)
        return moment(cal, *a), moment(cal, *next_month(*a, 3))


def midpoint(key, freq, cal):
    a, b = bounds_of(key, freq, cal)
    return parts(a + (b - a) / 2)


def all_periods(first, last, freq, cal):
    """Every calendar period from the first to the last, whether or not it holds data."""
    keys = [first]
    while keys[-1] != last:
        _, b = bounds_of(keys[-1], freq, cal)
        keys.append(period_of(parts(b), freq))
        assert len(keys) < 100000
    return keys


def nanmean(a):
    """Mean over axis 0 ignoring missing values; missing where there is none."""
    n = (~np.isnan(a)).sum(0)
    s = np.nansum(a, 0)
    with np.errstate(invalid='ignore', divide='ignore'):
        return np.where(n > 0, s / n, np.nan)


def wmean(a, w):
    """Mean of a over axis 0 weighted by w, over the entries that are not missing."""
    w = np.asarray(w, float).reshape((-1,) + (1,) * (a.ndim - 1)) * ~np.isnan(a)
    s = (np.where(np.isnan(a), 0, a) * w).sum(0)
    with np.errstate(invalid='ignore', divide='ignore'):
        return np.where(w.sum(0) > 0, s / w.sum(0), np.nan)


def monthly(a, ps):
    keys = sorted({p[:2] for p in ps})
    idx = {k: [] for k in keys}
    for i, p in enumerate(ps):
        idx[p[:2]].append(i)
    return keys, np.stack([nanmean(a[idx[k]]) for k in keys])


def calendar_average(a, ps, freq, cal):
    """a: values with time first; ps: parts of the time stamps.  -> (period keys, means)"""
    if freq in ('season', 'year'):
        mk, mv = monthly(a, ps)
        keys = [period_of(k + (1, 0), freq) for k in mk]
        per = all_periods(keys[0], keys[-1], freq, cal)
        w = np.array([days_in_month(cal, *k) for k in mk])
        out = []
        for k in per:
            j = [i for i, q in enumerate(keys) if q == k]
            out.append(wmean(mv[j], w[j]) if j else np.full(a.shape[1:], np.nan))
        return per, np.stack(out)
    keys = [period_of(p, freq) for p in ps]
    per = all_periods(keys[0], keys[-1], freq, cal)
    idx = {k: [] for k in per}
    for i, k in enumerate(keys):
        idx[k].append(i)
    return per, np.stack([nanmean(a[idx[k]]) if idx[k] else np.full(a.shape[1:], np.nan) for k in per])


def slot_of(p, freq):
    return {'hour': p[1:4], 'day': p[1:3], 'month': p[1:2]}[freq]


def climatology(a, ps, freq):
    """-> (slots in order of the year, means)"""
    idx = {}
    for i, p in enumerate(ps):
        idx.setdefault(slot_of(p, freq), []).append(i)
    slots = sorted(idx)
    return slots, np.stack([nanmean(a[idx[s]]) for s in slots])


def season_climatology(a, ps, cal, seasons):
    mk, mv = monthly(a, ps)
    w = np.array([days_in_month(cal, *k) for k in mk])
    out = []
    for s in seasons:
        j = [i for i, k in enumerate(mk) if k[1] in SEASONS[s]]
        out.append(wmean(mv[j], w[j]) if j else np.full(a.shape[1:], np.nan))
    return np.stack(out)


H = datetime.timedelta(hours=1)
D = datetime.timedelta(days=1)


def series(rng, res=None, cal=None, cals=None, maxn=2200, minn=3, whole_years=None):
    """A uniformly spaced time axis -> (calendar, resolution name, time stamps)"""
    cal = cal or pick(rng, cals or ['np', 'np', 'noleap', '360_day', 'standard', 'proleptic_gregorian', 'julian', 'all_leap'])
    res = res or pick(rng, ['30min', 'h', '3h', '6h', '12h', 'D', 'D', 'D', '5D', 'M', 'M', 'M15'])
    y = int(rng.integers(1, 3000)) if chance(rng, 0.3) else int(rng.integers(1950, 2090))
    if cal == 'standard' and y < 1600:
        y += 1600            # keep clear of the 1582 gap
    m = int(rng.integers(1, 13))
    d = int(rng.integers(1, 29))
    step = {'30min': H / 2, 'h': H, '3h': 3 * H, '6h': 6 * H, '12h': 12 * H, 'D': D, '5D': 5 * D,
            'M': ('M', 1, 1), 'M15': ('M', 1, int(rng.integers(2, 29)))}[res]
    if whole_years:
        n = {'M': 12, 'M15': 12}.get(res)
        m = d = 1
        h = 0
        if n is None:
            a, b = moment(cal, y), moment(cal, y + whole_years)
            n = int((b - a) / step)
        else:
            n *= whole_years
        hh = ()
        if not isinstance(step, tuple) and step < D:
            hh = (0,)
        elif chance(rng, 0.4):
            hh = (12,)
        return cal, res, stamps(cal, (y, m, d) + hh, n, step)
    if isinstance(step, tuple):
        hi = 12 * 9
    elif step < D:
        hi = int(pick(rng, [20, 40, 90]) * D / step)
    else:
        hi = int(pick(rng, [90, 500, 1500]) * D / step)
    n = int(rng.integers(minn, max(minn + 1, min(hi, maxn))))
    hh = (int(rng.integers(0, 24)),) if chance(rng, 0.5) else ()
    if isinstance(step, datetime.timedelta) and step < D and not hh:
        hh = (0,)
    return cal, res, stamps(cal, (y, m, d) + hh, n, step)


def values(rng, n, space=(), nan=None):
    """values with time first; nan: none / scattered / cell / block"""
    a = field(rng, (n,) + tuple(space))
    nan = nan or pick(rng, ['none', 'none', 'scattered', 'cell', 'block', 'blockcell'])
    if nan == 'scattered':
        a = sprinkle_nan(rng, a, pick(rng, [0.05, 0.4]))
    elif nan == 'cell' and space:
        a[(slice(None),) + tuple(int(rng.integers(s)) for s in space)] = np.nan
    elif nan in ('block', 'blockcell'):
        i = int(rng.integers(n))
        j = i + int(rng.integers(1, max(2, n // 3)))
        if nan == 'block' or not space:
            a[i:j] = np.nan
        else:
            a[(slice(i, j),) + tuple(int(rng.integers(s)) for s in space)] = np.nan
    return a, nan
