"""C08 calendar features against an independent calendar (zoneinfo arithmetic, the holidays package, day-by-day rules)."""
import datetime as dt
from zoneinfo import ZoneInfo
import holidays
import numpy as np
import pandas as pd
from rv.common import W
from rv import data as D

PROP = 'C08'
RULE = ('one case = random index (naive or zone aware, around DST changes, year ends or holidays), columns and country; every '
        'calendar value is recomputed from the UTC instant with zoneinfo and from the official holiday list day by day, and '
        'compared with formatting of sub-ranges; non-trivial: index crosses a DST change or contains a holiday class > 0')
REQUIRED = {'rows': 20000, 'dst_cases': 20, 'class_2': 10, 'class_3': 10, 'subranges': 60, 'later_calls': 40}
QUICK_S = 200
ZONES = ['Europe/Zurich', 'America/New_York', 'Asia/Kolkata', 'Australia/Lord_Howe', 'Europe/London', 'UTC', 'America/St_Johns']
DST = {'Europe/Zurich': ['2021-03-28', '2021-10-31', '2022-03-27'], 'America/New_York': ['2021-03-14', '2021-11-07'],
       'Australia/Lord_Howe': ['2021-04-04', '2021-10-03'], 'Europe/London': ['2021-03-28', '2021-10-31'],
       'America/St_Johns': ['2021-03-14', '2021-11-07']}
EPOCH = dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc)


def make_index(rng, m):
    step = pd.Timedelta(['1min', '5min', '10min', '15min', '30min', '1h', '2h', '6h', '1D', '90s', '7min'][rng.integers(11)])
    n = int(rng.integers(20, 260))
    tz = None if rng.random() < 0.3 else ZONES[rng.integers(len(ZONES))]
    r = rng.random()
    if tz in DST and r < 0.6:
        day = pd.Timestamp(DST[tz][rng.integers(len(DST[tz]))], tz='UTC')
        start = day - step * int(rng.integers(1, n)) + pd.Timedelta(int(rng.integers(0, 30)), unit='h')
        m.ev('dst_cases')
    else:
        start = pd.Timestamp('2019-01-01', tz='UTC') + pd.Timedelta(int(rng.integers(0, 5 * 365 * 24)), unit='h')
    start = start.floor('min')
    idx = pd.date_range(start, periods=n, freq=step)
    idx = idx.tz_convert(tz) if tz else idx.tz_localize(None)
    if rng.random() < 0.3:
        idx = idx[np.sort(rng.choice(n, max(10, n - int(rng.integers(1, 10))), replace=False))]
    return idx, tz, step


def local(ts_ns, tz):
    """wall clock and offset from the UTC instant, without pandas' calendar."""
    d = EPOCH + dt.timedelta(microseconds=int(ts_ns) // 1000)
    if tz is None:
        return d.replace(tzinfo=None), None
    d = d.astimezone(ZoneInfo(tz))
    return d, d.utcoffset().total_seconds() / 3600


def expected_time(idx, tz):
    rows = []
    for v in idx.as_unit('ns').asi8:
        d, off = local(v, tz)
        wd = (dt.date(d.year, d.month, d.day).toordinal() + 6) % 7
        rows.append([d.hour, wd, d.hour * 60 + d.minute] + ([] if off is None else [off]))
    return np.array(rows, float)


def mk(rng, which):
    from pyforecaster.formatter import Formatter
    f = Formatter(augment=which != 'bare')
    if which == 'feat':
        f.add_transform(['y'], lags=[1, 2])
    return f


def time_features(m, rng, tier):
    idx, tz, step = make_index(rng, m)
    cols = ['y', 'a', 'b'][:int(rng.integers(1, 4))]
    x = D.signals(rng, idx, cols)
    if rng.random() < 0.2:
        x['txt'] = 'q'
    which = ['plain', 'feat', 'bare'][rng.integers(3)]
    f = mk(rng, which)
    names = ['hour', 'dayofweek', 'minuteofday'] + (['utc_offset'] if tz else [])

    def verify(z, src, what):
        t, _ = f.transform(z.copy(), return_target=False) if which != 'bare' else f.transform(z.copy())
        m.check(set(names) <= set(t.columns), 'missing-calendar-column', '%s: %s of %s' % (what, list(t.columns), names))
        if set(names) <= set(t.columns):
            if tz is None:
                m.check('utc_offset' not in t.columns, 'offset-of-naive-index', '')
            m.close(t[names].values, expected_time(t.index, tz), 'calendar-value', '%s tz %s step %s' % (what, tz, step))
        m.ev('rows', len(t))
        return t
    full = verify(x, x, 'full')
    drop = 2 if which == 'feat' else 0
    if which != 'bare':
        for _ in range(2):
            a = int(rng.integers(0, len(x) - 4))
            b = int(rng.integers(a + 4, len(x) + 1))
            sub = x.iloc[a:b]
            t = verify(sub, x, 'sub-range, later call')
            m.ev('later_calls')
            m.check(t.index.equals(x.index[a + drop:b]), 'sub-range-rows', '')
        f2 = mk(rng, which)
        one, _ = f2.transform(x.iloc[:4].copy(), return_target=False)
        m.close(one[names].values, expected_time(one.index, tz), 'calendar-value', 'first rows only')
    m.nontrivial(tz, step, len(x), which, str(idx[0]))
    m.say(tz=tz, step=step, start=idx[0], rows=len(idx))


COUNTRIES = [('CH', {}), ('CH', {'subdiv': 'TI'}), ('IT', {}), ('DE', {}), ('DE', {'subdiv': 'BY'}), ('FR', {}), ('US', {}), ('GB', {}),
             ('AT', {}), ('ES', {}), ('PT', {}), ('NL', {})]


def day_class(d, hol):
    one = dt.timedelta(days=1)
    off = lambda q: q.weekday() >= 5 or q in hol
    bridge = lambda q: not off(q) and off(q - one) and off(q + one)
    vac = lambda q: off(q) or bridge(q)
    if d in hol:
        return 3
    if vac(d):
        n, q = 1, d - one
        while vac(q) and n < 30:
            n, q = n + 1, q - one
        q = d + one
        while vac(q) and n < 30:
            n, q = n + 1, q + one
        if n >= 3:
            return 2
    return 1 if bridge(d) else 0


def hol_case(m, rng, tier):
    code, kw = COUNTRIES[rng.integers(len(COUNTRIES))]
    tz = None if rng.random() < 0.4 else ['Europe/Zurich', 'America/New_York', 'UTC', 'Asia/Kolkata'][rng.integers(4)]
    step = pd.Timedelta(['1h', '3h', '6h', '1D', '30min', '12h'][rng.integers(6)])
    days = int(rng.integers(1, 40))
    year = int(rng.integers(2015, 2028))
    if rng.random() < 0.35:
        start = pd.Timestamp(dt.date(year, 12, 20), tz='UTC') + pd.Timedelta(int(rng.integers(0, 400)), unit='h')
    else:
        start = pd.Timestamp(dt.date(year, 1, 1), tz='UTC') + pd.Timedelta(int(rng.integers(0, 340 * 24)), unit='h')
    n = min(700, max(3, int(pd.Timedelta(days=days) / step)))
    idx = pd.date_range(start, periods=n, freq=step)
    idx = idx.tz_convert(tz) if tz else idx.tz_localize(None)
    x = D.signals(rng, idx, ['y', 'a'][:int(rng.integers(1, 3))])
    hol = set(holidays.country_holidays(code, years=range(year - 2, year + 4), **kw).keys())
    exp = {}

    def want(index):
        out = []
        for v in index.as_unit('ns').asi8:
            d = local(v, tz)[0].date()
            if d not in exp:
                exp[d] = day_class(d, hol)
            out.append(exp[d])
        return np.array(out)
    f = mk(rng, 'plain')
    tf = bool(rng.random() < 0.5)
    args = dict(time_features=tf, holidays=True, return_target=False, state_code=code, **kw)
    x0 = x.copy()
    t, _ = f.transform(x, **args)
    m.check(x.equals(x0), 'caller-data-modified', '')
    m.close(t['holidays'].values, want(t.index), 'holiday-class', '%s %s %s..%s' % (code, kw, idx[0], idx[-1]))
    m.ev('rows', len(t))
    for k in (1, 2, 3):
        if (t['holidays'] == k).any():
            m.ev('class_%d' % k)
            m.nontrivial(code, str(kw), str(idx[0]), n, k)
    for _ in range(3):
        a = int(rng.integers(0, n))
        b = int(rng.integers(a + 1, n + 1))
        s, _ = mk(rng, 'plain').transform(x.iloc[a:b].copy(), **args)
        m.close(s['holidays'].values, t['holidays'].values[a:b], 'holiday-depends-on-range', '%s..%s in %s..%s' % (idx[a], idx[b - 1], idx[0], idx[-1]))
        m.ev('subranges')
    m.say(country=code, kw=kw, start=idx[0], end=idx[-1], tz=tz)


WORKLOADS = [W('time_features', time_features, 160, 2500), W('holidays', hol_case, 160, 2500)]
