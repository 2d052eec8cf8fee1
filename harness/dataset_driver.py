'''Observes dataset retrieval and its saved copies, region creation from metadata, calendar arithmetic.'''
import os
import random
import numpy as np

from obs import attempt, integer, nums, num, scratch
from spta.dataset import temp_brazil
from spta.region import Region
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.util import maths as maths_util

SOURCE = 'raw/TEMPERATURE_1979-2015.hdf'
TOTAL = 54056
PAT = [0, 1, 2, 5]
_base = None


def write_source(x, y):
    import h5py
    days = np.arange(TOTAL // 4)
    series = (8 * days[:, None] + np.array(PAT)[None, :]).reshape(TOTAL).astype(float)
    data = series[:, None, None] + 200000. * np.arange(x * y).reshape(1, x, y)
    with h5py.File(SOURCE, 'w') as f:
        f.create_dataset('real', data=data)


def runs(series, spd):
    '''lossless description of a series: runs of days that increase by 8 with one pattern'''
    v = [num(q) for q in np.asarray(series, dtype=float).ravel()]
    per = 4 if spd == 4 else 1
    if len(v) % per:
        return [dict(**{'from': -1}, days=len(v), pat=[-1])]
    res = []
    for d in range(0, len(v), per):
        day = v[d:d + per]
        pat = [q - day[0] for q in day]
        if res and res[-1]['pat'] == pat and day[0] == res[-1]['from'] + 8 * res[-1]['days']:
            res[-1]['days'] += 1
        else:
            if len(res) > 4:
                break
            res.append({'from': day[0], 'days': 1, 'pat': pat})
    return res


def points(arr, spd):
    a = np.asarray(arr)
    if a.ndim != 3:
        return []
    return [runs(a[:, i, j], spd) for i in range(a.shape[1]) for j in range(a.shape[2])]


def years(rng):
    r = rng.random()
    if r < 0.12:
        return rng.choice([(1978, 1980), (2014, 2016), (1990, 1989), (2016, 2016), (1970, 1975), (2015, 2014)])
    if r < 0.2:
        return 1979, 2015
    ys = rng.choice([1979, 1980, 1981, 1983, 1984, 1996, 1999, 2000, 2012, 2014, 2015, rng.randrange(1979, 2016)])
    return ys, min(2015, ys + rng.choice([0, 0, 0, 1, 1, 2, 5]))


def run_history(seed):
    rng = random.Random(seed)
    ev = []
    with scratch():
        os.makedirs('raw')
        x, y = rng.choice([(1, 1), (2, 2), (1, 3), (3, 2)])
        write_source(x, y)
        ev.append(dict(op='source', x=x, y=y))
        pool = [years(rng) for _ in range(2)]
        pool = [(p, s) for p in pool for s in (1, 4)]
        hidden = False
        for _ in range(rng.randrange(6, 13)):
            (ys, ye), spd = rng.choice(pool) if rng.random() < 0.85 else (years(rng), rng.choice([1, 4, 2, 3]))
            name = 'SouthAmerica' if rng.random() < 0.75 else 'Other'
            fn = 'raw/{}_{}_{}_{}spd.npy'.format(name, ys, ye, spd)
            op = rng.choice(['retrieve'] * 6 + ['create'] * 3 + ['delete', 'corrupt', 'corrupt', 'hide'])
            key = dict(name=name, ys=ys, ye=ye, spd=spd)
            if op == 'retrieve':
                kw = {} if name == 'SouthAmerica' and rng.random() < .5 else dict(name=name)
                ok, res, err = attempt(lambda: temp_brazil.retrieve_dataset_interval(ys, ye, spd, **kw))
                ev.append(dict(op=op, ok=int(ok), pts=points(res, spd) if ok else [], **key))
                if ok and rng.random() < 0.3:
                    try:
                        res[:] = 0        # what a caller does with its array stays with the caller
                    except Exception:
                        pass
            elif op == 'delete':
                if os.path.exists(fn):
                    os.unlink(fn)
                ev.append(dict(op=op, **key))
            elif op == 'corrupt':
                if not os.path.exists(fn):
                    continue
                how = rng.randrange(4)
                with open(fn, 'rb') as f:
                    content = f.read()
                with open(fn, 'wb') as f:
                    f.write([b'', b'not an array', content[:len(content) // 2], content[:60]][how])
                ev.append(dict(op=op, **key))
            elif op == 'hide':
                if hidden:
                    os.rename('source.hdf', SOURCE)
                else:
                    os.rename(SOURCE, 'source.hdf')
                hidden = not hidden
                ev.append(dict(op=op, present=int(not hidden)))
            elif op == 'create':
                x1, y1 = rng.randrange(x), rng.randrange(y)
                x2, y2 = rng.randrange(x1 + 1, x + 1), rng.randrange(y1 + 1, y + 1)
                scaled = int(rng.random() < 0.5)
                md = SpatioTemporalRegionMetadata('r', Region(x1, x2, y1, y2), ys, ye, spd, scaled=bool(scaled))
                ok, reg, err = attempt(lambda: md.create_instance())
                e = dict(op=op, ys=ys, ye=ye, spd=spd, x1=x1, x2=x2, y1=y1, y2=y2, scaled=scaled, ok=int(ok),
                         pts=[], isscaled=0, range=[], md=0)
                if ok:
                    e['isscaled'] = int(bool(reg.has_scaling()))
                    plain = reg
                    if e['isscaled']:
                        a = reg.as_numpy
                        e['range'] = [[num(a[:, i, j].min(), 1), num(a[:, i, j].max(), 1)]
                                      for i in range(a.shape[1]) for j in range(a.shape[2])]
                        okd, plain, _ = attempt(lambda: reg.descale())
                    e['pts'] = points(np.round(plain.as_numpy, 5), spd) if plain is not None else []
                    got = reg.region_metadata
                    e['md'] = int(got is not None and repr(got) == repr(md) and tuple(got.region) == tuple(md.region))
                ev.append(e)
    return dict(ev=ev, note=str(seed))


def run_calendar(seed):
    rng = random.Random(seed)
    ev = []
    for _ in range(20):
        first = rng.choice([1979, 1900, 1895, 2000, 1999, rng.randrange(1800, 2100)])
        ys = first + rng.choice([0, 1, rng.randrange(0, 130)])
        ye = ys + rng.choice([0, 0, 1, 4, rng.randrange(0, 120)])
        spd = rng.choice([1, 4, 4, 2, 24])
        ok, out, _ = attempt(lambda: maths_util.years_to_series_interval(year_start=ys, year_end=ye,
                                                                         first_year_in_sample=first, samples_per_day=spd))
        ev.append(dict(op='interval', ys=ys, ye=ye, first=first, spd=spd, ok=int(ok),
                       out=[integer(q) for q in out] if ok else []))
    n, x, y = rng.randrange(1, 5), rng.randrange(1, 4), rng.randrange(1, 4)
    a = np.array([[[rng.randrange(-99, 99) for _ in range(y)] for _ in range(x)] for _ in range(4 * n)], dtype=float)
    b = a.copy()
    ok, out, _ = attempt(lambda: temp_brazil.average_4spd_to_1spd(a))
    grid = [(i, j) for i in range(x) for j in range(y)]
    ev.append(dict(op='average', data=[nums(b[:, i, j]) for (i, j) in grid], ok=int(ok),
                   out=[nums(np.asarray(out)[:, i, j] * 4) for (i, j) in grid] if ok else [], same=int(np.array_equal(a, b))))
    return dict(ev=ev, note=str(seed))
