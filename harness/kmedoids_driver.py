'''Observes k-medoids runs and partitions.'''
import random
import numpy as np

from obs import FINE, attempt, fine, fines, ints, integer, quiet, scratch
from spta.distance.dtw import DistanceByDTW
from spta.kmedoids import kmedoids
from spta.clustering.kmedoids import KmedoidsClusteringAlgorithm, KmedoidsClusteringMetadata
from spta.region.temporal import SpatioTemporalRegion


def matrix_of(rng, n):
    hi = rng.choice([3, 10, 60])
    lo = 0 if rng.random() < 0.3 else 1
    d = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            d[i][j] = d[j][i] = rng.randrange(lo, hi)
    return d


def run(seed):
    rng = random.Random(seed)
    ev = []
    with scratch():
        X, Y = rng.choice([(1, 4), (2, 3), (3, 3), (2, 2), (5, 2), (3, 4), (1, 7)])
        n = X * Y
        measured = rng.random() < 0.5
        if measured:          # distances come from the series
            L = rng.choice([1, 4, 9])
            f = {1: 1, 4: 2, 9: 3}[L]
            hi = rng.choice([3, 8, 40])
            vals = [rng.randrange(-hi, hi) for _ in range(n)]
            d = [[f * abs(a - b) for a in vals] for b in vals]
            data = np.repeat(np.array(vals, dtype=float)[None, :], L, axis=0).reshape(L, X, Y)
        else:
            d = matrix_of(rng, n)
            data = np.array([[[rng.randrange(0, 9) for _ in range(Y)] for _ in range(X)] for _ in range(3)], dtype=float)
        unit = rng.choice([1, FINE])
        data = data * unit
        dm = np.array(d, dtype=float) * unit
        region = SpatioTemporalRegion(data)
        x2d = region.as_2d
        ev.append(dict(op='data', d=d))

        def measure(kind):
            m = DistanceByDTW()
            if kind == 'matrix':
                m.distance_matrix = dm.copy()
            elif kind == 'computed':
                m.compute_distance_matrix(region)
            return m
        kinds = ['matrix', 'computed', 'none', 'none'] if measured else ['matrix']
        settings = []
        for _ in range(rng.choice([1, 2])):
            k = rng.choice([1, 2, 2, 3, 3, n, rng.randrange(1, n + 1)])
            k = min(k, n)
            init = rng.sample(range(n), k) if rng.random() < 0.5 else None
            settings.append(dict(k=k, random_seed=rng.randrange(5), mode=rng.choice(['lite', 'robust']), initial_medoids=init,
                                 tol=rng.choice([0.001, 0.001, 2.5, 10.5])))
        for _ in range(rng.randrange(3, 7)):
            st = rng.choice(settings)
            maxiter = rng.choice([1000, 1000, 1000, -1, 0, 1])
            m = measure(rng.choice(kinds))
            md = dict(k=st['k'], seed=st['random_seed'], mode=st['mode'], maxiter=maxiter,
                      init=[i + 1 for i in st['initial_medoids'] or []], tol10=int(st['tol'] * 10))
            verbose = rng.random() < 0.5
            np.random.seed(rng.randrange(1000))        # what happened before must not matter
            if rng.random() < 0.7:
                before = x2d.copy()
                init = list(st['initial_medoids']) if st['initial_medoids'] else None
                if rng.random() < 0.5:
                    def go():
                        return kmedoids.run_kmedoids(x2d, st['k'], m, initial_medoids=init, random_seed=st['random_seed'],
                                                     mode=st['mode'], max_iter=maxiter, tol=st['tol'], verbose=verbose)
                else:
                    def go():
                        meta = kmedoids.kmedoids_default_metadata(st['k'], m, initial_medoids=init, random_seed=st['random_seed'],
                                                                  mode=st['mode'], max_iter=maxiter, tol=st['tol'], verbose=verbose)
                        return kmedoids.run_kmedoids_from_metadata(x2d, meta)
                ok, r, err = attempt(go)
                e = dict(op='run', ok=int(ok), med=[], lab=[], costs=[], total=0, same=1)
                if ok:
                    e.update(med=[i + 1 for i in ints(r.medoids)], lab=[i + 1 for i in ints(r.labels)],
                             costs=fines(r.costs, unit), total=fine(r.total_cost, unit),
                             same=int(np.array_equal(before, x2d) and (init is None or init == st['initial_medoids'])
                                      and (m.distance_matrix is None or (np.allclose if measured else np.array_equal)(m.distance_matrix, dm))))
            else:
                cm = KmedoidsClusteringMetadata(st['k'], random_seed=st['random_seed'], mode=st['mode'],
                                                initial_medoids=st['initial_medoids'], max_iter=maxiter, tol=st['tol'], verbose=verbose)
                withmed = int(rng.random() < 0.8)
                ok, p, err = attempt(lambda: KmedoidsClusteringAlgorithm(cm, m).partition(region, with_medoids=bool(withmed)))
                e = dict(op='partition', ok=int(ok), med=[], lab=[], pk=0, withmed=withmed)
                if ok:
                    e['lab'] = [i + 1 for i in ints(np.asarray(p.as_numpy).ravel())]
                    e['pk'] = integer(p.k)
                    if withmed:
                        okm, med, _ = attempt(lambda: [integer(q.x) * Y + integer(q.y) + 1 for q in p.medoids])
                        e['med'] = med if okm else []
            e.update(md)
            ev.append(e)
    return dict(ev=ev, note=str(seed))


def run_many(seed):
    '''more clusters than a byte can number; the distances are those of numbers on a line'''
    rng = random.Random(seed)
    ev = []
    with scratch():
        n = rng.randrange(259, 275)
        k = rng.randrange(257, n + 1)
        spread = rng.choice([400, 5000])
        vals = [rng.randrange(spread) for _ in range(n)]
        a = np.array(vals, dtype=float)
        Y = rng.choice([y for y in range(1, n + 1) if n % y == 0])
        region = SpatioTemporalRegion(a.reshape(1, n // Y, Y))

        def measure():
            m = DistanceByDTW()
            m.distance_matrix = np.abs(a[:, None] - a[None, :])
            return m
        init = rng.sample(range(n), k) if rng.random() < .6 else None
        s = rng.randrange(5)
        e = dict(op='many', vals=vals, k=k, ok=0, med=[], lab=[], total=0, costs=[], pk=k, same=1)

        def go():
            r = kmedoids.run_kmedoids(region.as_2d, k, measure(), initial_medoids=init, random_seed=s, mode='lite', max_iter=3, verbose=False)
            e.update(med=[i + 1 for i in ints(r.medoids)], lab=[i + 1 for i in ints(r.labels)], total=fine(r.total_cost, 1), costs=fines(r.costs, 1), ok=1)
        attempt(go)
        ev.append(e)
        e = dict(e, ok=0, med=[], lab=[], total=-1, costs=[])

        def part():
            cm = KmedoidsClusteringMetadata(k, random_seed=s, mode='lite', initial_medoids=init, max_iter=3, verbose=False)
            p = KmedoidsClusteringAlgorithm(cm, measure()).partition(region, with_medoids=True)
            e.update(lab=[i + 1 for i in ints(np.asarray(p.as_numpy).ravel())], med=[integer(q.x) * Y + integer(q.y) + 1 for q in p.medoids],
                     pk=integer(p.k), ok=1)
        attempt(part)
        ev.append(e)
    return dict(ev=ev, note=str(seed))
