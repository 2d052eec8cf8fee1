'''Observes distance measures: DTW/RMSE values, matrices, the life cycle of the matrix of a measure,
centroids, intra-cluster cost, distance histograms.'''
import os
import random
import numpy as np

from obs import attempt, integer, num, nums, mat, pt, scratch
from spta.region import Point, Region
from spta.region.centroid import CalculateCentroid
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.region.partition import PartitionRegionCrisp, intra_cluster_cost
from spta.region.temporal import SpatioTemporalRegion
from spta.distance.dtw import DistanceByDTW, DistanceBySpatialDTW
from spta.distance.dtw_parallel import DistanceByDTWParallel
from spta.distance.rmse import DistanceByRMSE


def squares(m):
    return mat(np.square(np.asarray(m, dtype=float)))


def run_math(seed):
    rng = random.Random(seed)
    ev = []
    for _ in range(3):
        hi = rng.choice([2, 6, 40])
        a = [rng.randrange(-hi, hi) for _ in range(rng.randrange(1, 9))]
        same_len = rng.random() < 0.6
        b = [rng.randrange(-hi, hi) for _ in range(len(a) if same_len else rng.randrange(1, 9))]
        m = DistanceByDTW() if rng.random() < 0.7 else DistanceBySpatialDTW(rng.randrange(1, 4))
        ok, d, _ = attempt(lambda: m.measure(np.array(a, dtype=float), np.array(b, dtype=float)))
        ev.append(dict(op='measure', kind='dtw', a=a, b=b, ok=int(ok), d2=num(d * d) if ok else 0))
        if same_len:
            m = DistanceByRMSE()
            ok, d, _ = attempt(lambda: m.measure(np.array(a, dtype=float), np.array(b, dtype=float)))
            ev.append(dict(op='measure', kind='rmse', a=a, b=b, ok=int(ok), d2=num(d * d * len(a)) if ok else 0))
    x, y = np.array([1., 2., 3.]), np.array([1., 2., 3.])
    (x if rng.random() < .5 else y)[rng.randrange(3)] = np.nan
    m = rng.choice([DistanceByDTW, DistanceByRMSE])()
    ok, d, _ = attempt(lambda: m.measure(x, y))
    ev.append(dict(op='measurenan', ok=int(ok), nan=int(ok and bool(np.isnan(d)))))
    ds = [rng.randrange(0, 30) for _ in range(rng.randrange(1, 7))]
    ok, v, _ = attempt(lambda: DistanceByDTW().combine(np.array(ds, dtype=float)))
    ev.append(dict(op='combine', kind='dtw', ds=ds, ok=int(ok), val=num(v) if ok else 0))
    ok, v, _ = attempt(lambda: DistanceByRMSE().combine(np.array(ds, dtype=float)))
    ev.append(dict(op='combine', kind='rmse', ds=ds, ok=int(ok), val=num(v * v * len(ds)) if ok else 0))
    ds = [float(rng.randrange(0, 30)) for _ in range(rng.randrange(0, 6))]
    ds.insert(rng.randrange(len(ds) + 1), np.nan)
    ok, v, _ = attempt(lambda: DistanceByDTW().combine(rng.choice([np.array, list])(ds)))
    ev.append(dict(op='combinenan', ok=int(ok), nan=int(ok and bool(np.isnan(v)))))
    return dict(ev=ev, note=str(seed))


def run_matrix(item):
    seed, parallel = item
    rng = random.Random(seed)
    ev = []
    with scratch():
        for _ in range(2):
            X, Y, L = rng.randrange(1, 5), rng.randrange(1, 4), rng.randrange(1, 6)
            hi = rng.choice([2, 9])
            data = np.array([[[rng.randrange(-hi, hi) for _ in range(Y)] for _ in range(X)] for _ in range(L)],
                            dtype=float)
            ser = [[int(v) for v in data[:, i, j]] for i in range(X) for j in range(Y)]
            m = DistanceByDTWParallel(rng.randrange(1, 4)) if parallel else \
                (DistanceByDTW() if rng.random() < 0.7 else DistanceBySpatialDTW(2))
            form = rng.randrange(3) if not parallel else rng.choice([1, 1, 2])
            before = data.copy()
            if form == 0:
                ok, res, _ = attempt(lambda: m.compute_distance_matrix(np.array(ser, dtype=float)))
            elif form == 1:
                ok, res, _ = attempt(lambda: m.compute_distance_matrix(SpatioTemporalRegion(data)))
            else:
                from spta.region.scaling import ScaleFunction
                # a region seen through a decorator that does not change any value
                whole = PartitionRegionCrisp.from_membership_array(np.zeros(X * Y, dtype=int), X, Y)
                cl = whole.create_spt_cluster(SpatioTemporalRegion(data), 0)
                ok, res, _ = attempt(lambda: m.compute_distance_matrix(cl))
            ev.append(dict(op='dtwmatrix', ser=ser, ok=int(ok), d2=squares(res) if ok else [],
                           same=int(np.array_equal(before, data))))
    return dict(ev=ev, note=str(item))


def obs_matrix(m, ev):
    dm = m.distance_matrix
    ev['has'] = int(dm is not None)
    ev['mat'] = mat(dm, 100) if dm is not None else []
    return ev


def run_life(seed):
    rng = random.Random(seed)
    ev = []
    with scratch() as d:
        os.makedirs('raw')
        line = rng.random() < 0.7
        X, Y = (rng.choice([(1, rng.randrange(2, 7)), (rng.randrange(2, 7), 1)]) if line
                else (rng.randrange(2, 4), rng.randrange(2, 4)))
        n = X * Y
        hi = rng.choice([2, 9, 9])
        vals = [rng.randrange(-hi, hi) for _ in range(n)]
        data = np.array(vals, dtype=float).reshape(1, X, Y)
        ev.append(dict(op='setup', X=X, Y=Y, ser=vals))
        rx, ry = rng.randrange(0, 5), rng.randrange(0, 5)
        md = SpatioTemporalRegionMetadata('reg', Region(rx, rx + X, ry, ry + Y), 2015, 2015, 1,
                                          scaled=False, dataset_dir=os.path.join(d, 'raw') if rng.random() < .5 else 'raw')
        region = SpatioTemporalRegion(data, md)
        bare = SpatioTemporalRegion(data)
        k = rng.randrange(1, min(4, n) + 1)
        lab = [rng.randrange(k) for _ in range(n)]
        for c, i in enumerate(rng.sample(range(n), k)):
            lab[i] = c
        partition = PartitionRegionCrisp.from_membership_array(np.array(lab), X, Y)
        has_file = 0
        # the same objects are asked again and again: what they answer may not depend on what was asked before
        regions = {0: (region, list(range(n)), 1), 1: (bare, list(range(n)), 0)}
        for c in range(k):
            base = rng.choice([region, bare])
            withmd = rng.random() < 0.4
            cl = partition.create_spt_cluster(base, c)
            cl.region_metadata = md if withmd else None
            regions[10 + c] = (cl, [i for i in range(n) if lab[i] == c], int(withmd))

        def new_measure():
            sp = int(rng.random() < 0.5)
            w = rng.randrange(0, 4) if sp else 0
            e = dict(op='newmeasure', spatial=sp, w=w)
            ev.append(e)
            return (DistanceBySpatialDTW(w) if sp else DistanceByDTW()), sp
        m, sp = new_measure()
        exact = line or not sp
        for _ in range(rng.randrange(6, 14)):
            op = rng.choice(['putfile', 'load', 'load', 'compute', 'weigh', 'dist', 'dist', 'dist', 'centroid', 'centroid',
                             'getcentroid', 'getcentroid', 'intra', 'hist', 'newmeasure'])
            if op == 'newmeasure':
                m, sp = new_measure()
                exact = line or not sp
            elif op == 'putfile':
                how = rng.random()
                if how < 0.15:
                    if os.path.exists(md.distances_filename):
                        os.unlink(md.distances_filename)
                    f = []
                else:
                    shape = (n, n) if how < 0.8 else rng.choice([(n + 1, n + 1), (n, n + 1), (n + 1, n), (max(n - 1, 1), max(n - 1, 1)),
                                                                  (1, n * n), (n * n, 1)] + [(n // 2, 2 * n), (2 * n, n // 2)] * (n % 2 == 0))
                    f = [[0] * shape[1] for _ in range(shape[0])]
                    fh = rng.choice([3, 50])
                    for i in range(shape[0]):
                        for j in range(shape[1]):
                            f[i][j] = rng.randrange(1, fh) if i < j else (0 if i == j or j >= shape[0] else (f[j][i] if i < shape[1] else 5))
                    np.save(md.distances_filename, np.array(f, dtype=float))
                ev.append(dict(op='putfile', file=f))
            elif op == 'load':
                via = rng.randrange(4)
                if via == 0:
                    fn, mdp = (lambda: m.load_distance_matrix_2d(md.distances_filename, md.region)), 1
                elif via == 1:
                    fn, mdp = (lambda: m.load_distance_matrix_md(md)), 1
                elif via == 2:
                    fn, mdp = (lambda: m.try_load_distance_matrix(region)), 1
                else:
                    fn, mdp = (lambda: m.try_load_distance_matrix(bare)), 0
                ok, res, err = attempt(fn)
                e = dict(op='load', md=mdp, ok=int(ok), none=int(ok and res is None),
                         ret=mat(res, 100) if ok and res is not None else [])
                ev.append(obs_matrix(m, e))
            elif op == 'compute':
                src = rng.choice([region, bare, data.reshape(1, n).T.copy()])
                ok, res, err = attempt(lambda: m.compute_distance_matrix(src))
                ev.append(obs_matrix(m, dict(op='compute', ok=int(ok), ret=mat(res, 100) if ok else [])))
            elif op == 'weigh':
                if not sp:
                    continue
                for _ in range(rng.choice([1, 2])):
                    ok, res, err = attempt(lambda: m.weight_distance_matrix(md.region))
                    ev.append(obs_matrix(m, dict(op='weigh', ok=int(ok), ret=mat(res, 100) if ok else [])))
            elif op == 'dist':
                who = rng.choice(list(regions))
                reg, idx, wmd = regions[who]
                p = rng.randrange(n) if who < 10 else rng.choice(idx)
                sub = list(idx) if rng.random() < 0.6 else rng.sample(range(n), rng.randrange(1, n + 1))
                pre = int(rng.random() < 0.6)
                if not pre and who >= 10:      # computing a matrix is supported for whole regions
                    pre = 1
                arr = np.array(sub) if rng.random() < 0.7 else sub
                ok, res, err = attempt(lambda: m.distances_to_point(reg, Point(p // Y, p % Y), arr, only_if_precalculated=bool(pre)))
                e = dict(op='dist', p=p + 1, idx=[i + 1 for i in sub], md=wmd, pre=pre, ok=int(ok),
                         out=nums(res, 100) if ok else [])
                ev.append(obs_matrix(m, e))
            elif op == 'centroid' and exact:
                reg, idx, wmd = regions[rng.choice(list(regions))]
                ok, res, err = attempt(lambda: CalculateCentroid(m).find_centroid_and_distances(reg))
                p, out = 0, []
                if ok:
                    c = pt(res[0])
                    p, out = c[0] * Y + c[1] + 1, nums(res[1], 100)
                ev.append(obs_matrix(m, dict(op='centroid', idx=[i + 1 for i in idx], md=wmd, ok=int(ok), p=p, out=out)))
            elif op == 'getcentroid' and exact:
                who = rng.choice(list(regions))
                reg, idx, wmd = regions[who]
                use = int(rng.random() < 0.7)
                before = int(reg.has_centroid())
                ok, res, err = attempt(lambda: reg.get_centroid(m) if use else reg.get_centroid())
                c = pt(res) if ok else [0, 0]
                ev.append(obs_matrix(m, dict(op='getcentroid', who=who, idx=[i + 1 for i in idx], md=wmd, measure=use,
                                             before=before, ok=int(ok), p=c[0] * Y + c[1] + 1)))
            elif op == 'intra' and exact and m.distance_matrix is not None:
                med = [rng.choice([i for i in range(n) if lab[i] == c]) for c in range(k)]
                partition.medoids = [Point(i // Y, i % Y) for i in med]
                ok, cost, err = attempt(lambda: intra_cluster_cost(partition, rng.choice([region, bare]), m))
                ev.append(dict(op='intra', lab=[c + 1 for c in lab], med=[i + 1 for i in med], ok=int(ok),
                               cost=num(cost) if ok else 0))
                partition.medoids = None
            elif op == 'hist' and exact and m.distance_matrix is not None:
                from spta.distance.variance import DistanceHistogram, DistanceHistogramWithRandomPointsOtherClusters, \
                    DistanceHistogramRandomOutsidePoints
                c = rng.randrange(k)
                cl, idx, _ = regions[10 + c]
                if len(idx) == n:
                    continue
                p = rng.choice(idx)
                want = rng.choice([0, 0, 1, 2, n + 3])
                h = DistanceHistogram(cl, m)

                seen = []

                class Spy:       # what the histogram asks the measure for
                    distance_matrix = m.distance_matrix

                    def distances_to_point(self, r, point, indices, *a, **kw):
                        seen.append(list(np.asarray(indices)))
                        return m.distances_to_point(r, point, indices, *a, **kw)
                h = DistanceHistogram(cl, Spy())

                def obs():
                    if rng.random() < 0.5:
                        both = DistanceHistogramWithRandomPointsOtherClusters(h, want)
                        return both.distances_to_point(Point(p // Y, p % Y))
                    return (h.distances_to_point(Point(p // Y, p % Y)),
                            DistanceHistogramRandomOutsidePoints(cl, Spy(), num_points=want).distances_to_point(Point(p // Y, p % Y)))
                ok, res, err = attempt(obs)
                ev.append(dict(op='hist', idx=[i + 1 for i in idx], p=p + 1, n=want, ok=int(ok),
                               rnd=[integer(i) + 1 for i in seen[-1]] if ok and len(seen) == 2 else [0],
                               out=nums(res[0]) if ok else [], rout=nums(res[1]) if ok else []))
    return dict(ev=ev, note=str(seed))


def run_default(seed):
    '''The centroid of several regions, one after another, through the default measure.'''
    rng = random.Random(seed)
    ev = []
    with scratch():
        os.makedirs('raw')
        nyears = 1
        X, Y = 8, 8
        data = np.random.RandomState(rng.randrange(10 ** 6)).randint(0, 9, size=(365, X, Y)).astype(float)
        np.save('raw/SouthAmerica_2015_2015_1spd.npy', data)
        for q in range(3):
            x, y = rng.randrange(1, 4), rng.randrange(1, 4)
            x0, y0 = rng.randrange(X - x), rng.randrange(Y - y)
            md = SpatioTemporalRegionMetadata('r{}'.format(q), Region(x0, x0 + x, y0, y0 + y), 2015, 2015, 1,
                                              scaled=rng.random() < .5)
            n = x * y
            f = [[0] * n for _ in range(n)]
            for i in range(n):
                for j in range(i):
                    f[i][j] = f[j][i] = rng.randrange(1, 20)
            np.save(md.distances_filename, np.array(f, dtype=float))
            ev.append(dict(op='setup', X=x, Y=y, ser=[0] * n))
            ev.append(dict(op='putfile', file=f))
            ok, c, _ = attempt(lambda: CalculateCentroid.for_sptr_metadata(md))
            c = pt(c) if ok else [0, 0]
            p = c[0] * y + c[1] + 1
            ev.append(dict(op='centroid', idx=[i + 1 for i in range(n)], md=1, ok=int(ok), p=p,
                           out=[100 * v for v in f[p - 1]] if 0 < p <= n else [], has=1,
                           mat=[[100 * v for v in r] for r in f]))
    return dict(ev=ev, note=str(seed))
