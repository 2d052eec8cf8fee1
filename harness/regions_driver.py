'''Replays operation histories of Regions.tla on spta.region and records what is observable.'''
import os
import random

from core import NAN
from obs import attempt, num, nums, pt, pts, integer, ints, scratch
import numpy as np

from spta.region import Point, Region, TimeInterval
from spta.region.spatial import SpatialRegion, SpatialCluster
from spta.region.temporal import SpatioTemporalRegion
from spta.region.base import BaseRegion
from spta.region.partition import PartitionRegionCrisp
from spta.region.scaling import ScaleFunction
from spta.region.function import FunctionRegionScalar, FunctionRegionSeries, \
    FunctionRegionScalarSame, FunctionRegionSeriesSame
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.model.error import ErrorRegion

S = 10000


def enc(v):
    '''a value or a series, scaled'''
    return [num(x, S) for x in np.asarray(v, dtype=float).ravel().tolist()]


def safe_enc(v):
    ok, r, _ = attempt(lambda: enc(v))
    return r if ok else [2000000003]


def iterate(o):
    ps, vs = [], []
    for (p, v) in o:
        ps.append(p)
        vs.append(np.array(v, dtype=float).ravel().copy())
        if len(ps) > 2000:
            raise RuntimeError('endless iteration')
    return ps, vs


def interrupt(o, count):
    for i, _ in enumerate(o):
        if i + 1 >= count:
            break


def same_iteration(a, b):
    return int([tuple(p) for p in a[0]] == [tuple(p) for p in b[0]] and
               len(a[1]) == len(b[1]) and
               all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a[1], b[1])))


def observe(o):
    '''full projection of a region to the abstract state'''
    kind = 'st' if isinstance(o, SpatioTemporalRegion) else ('sp' if isinstance(o, SpatialRegion) else '?')
    r = dict(kind=kind, shape=[], pts=[], vals=[], again=0, at=[], lst=[], arr=[], idx=[],
             sc=0, ci=-1, clen=-1, k=-1)

    def shape():
        sh = [int(x) for x in o.as_numpy.shape]
        return sh if kind == 'st' else [1] + sh
    ok, v, _ = attempt(shape)
    r['shape'] = v if ok else []
    ok, it, _ = attempt(lambda: iterate(o))
    if ok:
        r['pts'] = pts(it[0])
        r['vals'] = [safe_enc(x) for x in it[1]]
        attempt(lambda: interrupt(o, (len(it[0]) + 1) // 2))     # a loop left early
        ok2, it2, _ = attempt(lambda: iterate(o))
        ok3, it3, _ = attempt(lambda: iterate(o))
        r['again'] = int(ok2 and ok3 and same_iteration(it, it2) and same_iteration(it, it3))
    x_len, y_len = int(o.x_len), int(o.y_len)
    get = o.series_at if kind == 'st' else o.value_at
    for x in range(x_len):
        for y in range(y_len):
            ok, v, _ = attempt(lambda: get(Point(x, y)))
            r['at'].append(dict(ok=int(ok), v=safe_enc(v) if ok else []))
    if kind == 'st':
        ok, v, _ = attempt(lambda: o.as_list)
        r['lst'] = [safe_enc(x) for x in v] if ok else [[2000000003]]
        ok, v, _ = attempt(lambda: o.as_2d)
        r['arr'] = [safe_enc(x) for x in v] if ok else [[2000000003]]
        ok, v, _ = attempt(lambda: o.all_point_indices)
        r['idx'] = ints(v) if ok else [2000000003]
        ok, v, _ = attempt(lambda: o.has_scaling())
        r['sc'] = integer(v) if ok else 2000000003
    elif not isinstance(o, SpatialCluster):
        ok, v, _ = attempt(lambda: o.as_array)
        r['arr'] = [[num(x, S)] for x in np.asarray(v).ravel()] if ok else [[2000000003]]
    if isinstance(o, SpatialCluster):
        r['ci'] = integer(o.cluster_index)
        r['clen'] = integer(attempt(lambda: o.cluster_len)[1])
        r['k'] = integer(getattr(o.partition, 'k', None))
    return r


class Session:
    def __init__(self, dim, seed, note='', special=True):
        self.rng = random.Random(seed)
        self.heap = []
        self.ev = []
        self.note = note
        self.special = special
        self.new(dim)

    def layout(self, data):
        '''the same numbers, stored in some order and type'''
        d = data.copy()
        kind = self.rng.choice(['float', 'float', 'single', 'integer', 'small'])
        if kind == 'single':
            d = d.astype(np.float32)
        elif kind != 'float' and not np.isnan(d).any() and np.array_equal(d, np.rint(d)) and np.abs(d).max() < 128:
            d = d.astype(np.int64 if kind == 'integer' else np.int8)
        how = self.rng.randrange(4)
        if how == 1:
            d = np.asfortranarray(d)
        elif how == 2:          # a view on a transposed array
            d = np.ascontiguousarray(d.transpose()).transpose()
        elif how == 3:          # a view on every other row of a larger array
            big = np.full(tuple(2 * n for n in d.shape), 99, dtype=d.dtype)
            view = big[tuple(slice(None, None, 2) for _ in d.shape)]
            view[...] = d
            d = view
        return d

    def event(self, op, o=0, a=(), f='', l=(), **kw):
        e = dict(op=op, o=o, a=list(a), f=f, l=list(l), ok=1, err='', calls=[], r=dict(none=1), s=dict(none=1))
        e.update(kw)
        self.ev.append(e)
        return e

    def new(self, dim):
        (x, y, t) = dim
        rng = self.rng
        data = np.zeros((t, x, y))
        for i in range(x):
            for j in range(y):
                mode = rng.random() if self.special else 1
                if mode < 0.12:
                    col = [rng.randrange(-20, 80)] * t                   # constant series
                elif mode < 0.2:
                    col = [float('nan')] * t                              # undefined series
                elif mode < 0.27:
                    col = [rng.randrange(-20, 80) for _ in range(t)]
                    col[rng.randrange(t)] = float('nan')                  # partially undefined
                else:
                    col = rng.sample(range(-20, 80), t)
                data[:, i, j] = col
        md = SpatioTemporalRegionMetadata('r', Region(0, x, 0, y), 2015, 2015, 1, scaled=False,
                                          dataset_dir=os.getcwd())
        obj = SpatioTemporalRegion(self.layout(data), region_metadata=md)
        self.md = md
        self.heap.append(obj)
        flat = []
        for i in range(x):
            for j in range(y):
                flat += [NAN if v != v else int(v) for v in data[:, i, j].tolist()]
        self.event('new', 0, [x, y, t], 'st', flat, r=observe(obj))

    def apply(self, op):
        name, oi, a, f, l = op['op'], op['o'], list(op['a']), op['f'], list(op['l'])
        # the code may have refused something that the model created: stop there (the event that
        # did so is rejected already)
        if oi > len(self.heap):
            return False
        o = self.heap[oi - 1]
        n = int(o.x_len) * int(o.y_len)
        calls = []
        creates = True
        result = {}
        if name == 'cluster':
            if len(l) != n:
                return False
            lab = np.array(l, dtype=np.uint32).reshape(int(o.x_len), int(o.y_len))
            if self.rng.random() < 0.5:
                def make():
                    return PartitionRegionCrisp(lab.copy(), a[0])
            else:
                def make():
                    return PartitionRegionCrisp.from_membership_array(
                        np.array(l), int(o.x_len), int(o.y_len))
            if isinstance(o, SpatioTemporalRegion):
                def run():
                    return make().create_spt_cluster(o, a[1])
            else:
                def run():
                    return make().create_spatial_cluster(o, a[1])
        elif name == 'isub':
            def run():
                return o.interval_subset(TimeInterval(a[0], a[1]))
        elif name == 'rsub':
            def run():
                return o.region_subset(Region(*a))
        elif name == 'sub':
            def run():
                return o.subset(Region(*a[:4]), TimeInterval(a[4], a[5]))
        elif name == 'reps':
            def run():
                return o.repeat_series(np.array(l, dtype=float))
        elif name == 'repv':
            def run():
                return o.repeat_value(a[0])
        elif name == 'repp':
            p = Point((a[0] - 1) // int(o.y_len), (a[0] - 1) % int(o.y_len))

            def run():
                return o.repeat_point(p)
        elif name in ('fsca', 'fser'):
            fr = self.function_region(name, f, a[0], o, calls)
            if name == 'fsca':
                def run():
                    return fr.apply_to(o)
            else:
                out_len = a[0] if f in ('head', 'rep') else int(o.series_len)

                def run():
                    return fr.apply_to(o, out_len)
        elif name == 'scale':
            def run():
                return ScaleFunction(int(o.x_len), int(o.y_len)).apply_to(o, int(o.series_len))
        elif name == 'descale':
            def run():
                return o.descale()
        elif name == 'extrema':
            creates = False

            def run():
                (minp, mn), (maxp, mx) = o.find_minimum(), o.find_maximum()
                return dict(minp=pt(minp), min=num(mn, S), maxp=pt(maxp), max=num(mx, S))
        elif name == 'pickle':
            def run():
                o.pickle_to('o.pickle')
                return BaseRegion.from_pickle('o.pickle')
        elif name == 'errreg':
            def run():
                return ErrorRegion(o)
        elif name == 'look':
            creates = False

            def run():
                o.save_to('o.npy')
                d = np.load('o.npy')
                if d.ndim == 2:
                    d = d.reshape((1,) + d.shape)
                return dict(file=[[num(v, S) for v in row.ravel()] for row in d])
        elif name == 'disk':
            creates = False

            def run():
                return self.disk(o)
        else:
            raise ValueError(name)
        ok, r, err = attempt(run)
        if ok and not creates:
            result = r
        if ok and creates and type(r) is SpatialRegion and self.rng.random() < .5:
            r = SpatialRegion(self.layout(np.asarray(r.as_numpy, dtype=float)))
        if ok and creates:
            ok2, result, err2 = attempt(lambda: observe(r))
            if not ok2:
                ok, result, err = False, {}, 'observe-' + err2
            else:
                self.heap.append(r)
        ok3, s, err3 = attempt(lambda: observe(o))
        self.event(name, oi, a, f, l, ok=int(ok), err=err, calls=calls,
                   r=result if result else dict(none=1), s=s if ok3 else dict(none=1))
        return True

    UNITS = [(2.0 ** -10, 300.0), (2.0 ** -10, 2.0 ** 20), (2.0 ** -40, 0.0), (2.0 ** -60, 0.0),
             (2.0 ** 40, 0.0), (2.0 ** -20, -2.0 ** 8), (0.125, 273.15)]

    def units(self):
        '''the same data in another unit and with another zero'''
        unit, base = self.rng.choice(self.UNITS)
        e = self.ev[0]
        (x, y, t) = e['a']
        data = np.array([np.nan if v == NAN else v for v in e['l']], dtype=float)
        data = np.moveaxis(data.reshape(x, y, t), 2, 0) * unit + base

        def series(o):
            return [safe_enc(o.as_numpy[:, i, j]) for i in range(x) for j in range(y)]

        def run():
            o = SpatioTemporalRegion(data.copy())
            sc = ScaleFunction(x, y).apply_to(o, t)
            back = sc.descale()
            dec = SpatioTemporalRegion((back.as_numpy - base) / unit)
            return dict(scaled=series(sc), back=series(dec),
                        lo=enc((sc.scale_min.as_numpy.ravel() - base) / unit),
                        hi=enc((sc.scale_max.as_numpy.ravel() - base) / unit))
        ok, r, err = attempt(run)
        self.event('units', 0, e['a'], 'st', e['l'], ok=int(ok), err=err, r=r if ok else dict(none=1))

    def disk(self, o):
        for fn in os.listdir('.'):
            if fn.endswith('.npy'):
                os.unlink(fn)
        old = o.region_metadata
        o.region_metadata = self.md
        try:
            o.save()
        finally:
            o.region_metadata = old
        d = np.load(self.md.dataset_filename)
        res = dict(file=[[num(v, S) for v in row.ravel()] for row in d], lo=[], hi=[])
        names = {os.path.basename(self.md.dataset_filename)}
        if o.has_scaling():
            res['lo'] = [num(v, S) for v in np.load(self.md.scaled_min_filename).ravel()]
            res['hi'] = [num(v, S) for v in np.load(self.md.scaled_max_filename).ravel()]
            names |= {os.path.basename(self.md.scaled_min_filename),
                      os.path.basename(self.md.scaled_max_filename)}
        res['named'] = int(set(x for x in os.listdir('.') if x.endswith('.npy')) == names and
                           len(names) == (3 if o.has_scaling() else 1))
        return res

    def function_region(self, name, f, a, o, calls):
        x_len, y_len = int(o.x_len), int(o.y_len)

        def val(v):
            return np.atleast_1d(np.asarray(v, dtype=float))

        def at(index):
            def fn(v):
                calls.append(index)
                s = val(v)
                if name == 'fsca':
                    return {'sum': np.sum, 'min': np.min, 'max': np.max, 'first': lambda z: z[0],
                            'last': lambda z: z[-1], 'pos': lambda z: z[0] + index + 1}[f](s)
                return {'rev': lambda z: z[::-1], 'neg': lambda z: -z, 'add': lambda z: z + a,
                        'head': lambda z: z[:a], 'pos': lambda z: z + index + 1,
                        'rep': lambda z: np.repeat(z[0], a)}[f](s)
            return fn
        fns = [at(i) for i in range(x_len * y_len)]
        if f != 'pos' and self.rng.random() < 0.5:
            # the same function everywhere; the calls are then identified by the point asked for
            def same(v):
                return at(0)(v)
            cls = FunctionRegionScalarSame if name == 'fsca' else FunctionRegionSeriesSame

            class Recording(cls):
                def function_at(me, point):
                    fn = super().function_at(point)

                    def wrapped(v):
                        res = fn(v)
                        calls[-1] = point.x * y_len + point.y
                        return res
                    return wrapped
            return Recording(same, x_len, y_len)
        arr = np.empty(x_len * y_len, dtype=object)
        for i, fn in enumerate(fns):
            arr[i] = fn
        cls = FunctionRegionScalar if name == 'fsca' else FunctionRegionSeries
        return cls(arr.reshape(x_len, y_len))


def replay(scenario, seed, note=''):
    with scratch('reg'):
        s = Session(scenario['dim'], seed, note)
        if any(op['op'] == 'scale' for op in scenario['ops']):
            s.units()
        for op in scenario['ops']:
            if not s.apply(op):
                break
        return dict(ev=s.ev, note=note)
