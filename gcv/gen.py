"""Input generators shared by the workloads."""
import datetime
import numpy as np
import xarray as xr

CALENDARS = ['np', 'noleap', '360_day', 'standard', 'proleptic_gregorian', 'julian', 'all_leap']


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def chance(rng, p):
    return bool(rng.random() < p)


def span(rng, lo, hi, shape=None, p=0.25):
    """Uniform values; a share of the arrays lies in a narrow part of the range or at one of its ends."""
    if chance(rng, p):
        a, b = np.sort(rng.uniform(lo, hi, 2))
        w = 10 ** rng.uniform(-6, 0)
        lo, hi = pick(rng, [(a, b), (a, a + (b - a) * w), (lo, lo + (b - lo) * w), (hi - (hi - a) * w, hi)])
    return rng.uniform(lo, hi, shape)


def field(rng, shape, kind=None):
    """Finite float64 values of assorted character."""
    kind = kind or pick(rng, ['normal', 'temp', 'wide', 'const+', 'trend', 'int'])
    n = rng.standard_normal(shape)
    if kind == 'normal':
        return n
    if kind == 'temp':
        return 285 + 15 * n
    if kind == 'wide':
        return n * 10.0 ** rng.uniform(-6, 6)
    if kind == 'const+':
        return pick(rng, [1e5, -3e3, 7.5]) + n
    if kind == 'int':
        return np.round(n * 50)
    if kind == 'trend':
        a = np.arange(n.size, dtype=float).reshape(shape) if n.size else n
        return a * 0.1 + n
    raise ValueError(kind)


def sprinkle_nan(rng, a, p=0.1):
    a = np.array(a, dtype=float)
    a[rng.random(a.shape) < p] = np.nan
    return a


# ---------------------------------------------------------------- time axes
def stamps(calendar, start, n, step):
    """n time stamps from start=(y,m,d[,h]); step: timedelta or ('M', k, day) for monthly steps."""
    import cftime
    start = tuple(start) + (1,) * (3 - len(start))
    if calendar == 'np':
        def mk(*a):
            return datetime.datetime(*a)
    else:
        def mk(*a):
            return cftime.datetime(*a, calendar=calendar)
    if isinstance(step, tuple):
        out = []
        y, m = start[0], start[1]
        for _ in range(n):
            out.append(mk(y, m, step[2], *start[3:]))
            m += step[1]
            while m > 12:
                m -= 12
                y += 1
    else:
        t0 = mk(*start)
        out = [t0 + i * step for i in range(n)]
    if calendar == 'np':
        unit = ['ns', 'ns', 'us', 's', 'ms'][(7 * n + start[0] + start[1]) % 5]      # any resolution xarray keeps
        if unit == 'ns' and not (1700 < out[0].year and out[-1].year < 2250):
            unit = 'us'
        return np.array(out, dtype='datetime64[us]').astype(f'datetime64[{unit}]')
    # the specific subclass, as xarray decodes it from a file
    from cftime import (DatetimeNoLeap, Datetime360Day, DatetimeGregorian, DatetimeProlepticGregorian,
                        DatetimeJulian, DatetimeAllLeap)
    cls = {'noleap': DatetimeNoLeap, '360_day': Datetime360Day, 'standard': DatetimeGregorian,
           'proleptic_gregorian': DatetimeProlepticGregorian, 'julian': DatetimeJulian,
           'all_leap': DatetimeAllLeap}[calendar]
    return np.array([cls(t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond) for t in out],
                    dtype=object)


def parts(t):
    """(year, month, day, hour, minute, second, microsecond) of a numpy or cftime time stamp."""
    if isinstance(t, np.datetime64):
        t = t.astype('datetime64[us]').item()
    return (t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond)


def days_in_month(calendar, y, m):
    import cftime
    cal = 'proleptic_gregorian' if calendar == 'np' else calendar
    a = cftime.datetime(y, m, 1, calendar=cal)
    b = cftime.datetime(y + (m == 12), m % 12 + 1, 1, calendar=cal)
    return (b - a).days


def moment(calendar, y, m=1, d=1, h=0):
    import cftime
    return cftime.datetime(y, m, d, h, calendar='proleptic_gregorian' if calendar == 'np' else calendar)


def next_month(y, m, k=1):
    m += k
    while m > 12:
        m -= 12
        y += 1
    return y, m


SEASONS = {s: [(i + j) % 12 + 1 for j in range(3)] for i, s in enumerate(
    ['JFM', 'FMA', 'MAM', 'AMJ', 'MJJ', 'JJA', 'JAS', 'ASO', 'SON', 'OND', 'NDJ', 'DJF'])}


def wrap_da(data, times, rng=None, name='T', attrs=None, time_dim='time', space=(), axis=0, coords=True):
    dims = list(space)
    dims.insert(axis, time_dim)
    c = {time_dim: times}
    if coords:
        for i, s in enumerate(space):
            c[s] = np.linspace(-60, 60, data.shape[dims.index(s)]) if data.shape[dims.index(s)] > 1 else np.array([5.0])
    return xr.DataArray(data, dims=dims, coords=c, name=name, attrs=attrs or {})
