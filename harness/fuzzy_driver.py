'''Observes fuzzy k-medoids runs and fuzzy masks.'''
import random
import numpy as np

from obs import attempt, ints, integer, num, nums, pt
from kmedoids_driver import matrix_of
from spta.distance.dtw import DistanceByDTW
from spta.kmedoids import kmedoids_fuzzy as kf
from spta.region import Point
from spta.region.mask import MaskRegionFuzzy
from spta.region.temporal import SpatioTemporalRegion

M = 1000000


def swaps(X, st, m, med):
    '''Costs after exchanging one medoid for a series that is not a medoid.'''
    out = []
    for j in range(len(med)):
        for i in range(len(X)):
            if i not in med:
                other = kf.choose_initial_medoids(X, st['k'], st['random_seed'], med[:j] + [i] + med[j + 1:])
                out.append(num(kf.compute_membership_fcm(X, st['m'], other, m, st['tol'])[2], 1000))
    return out


def run_fuzzy(seed):
    rng = random.Random(seed)
    ev = []
    n = rng.randrange(2, 9)
    measured = rng.random() < 0.5
    if measured:
        vals = [rng.randrange(-20, 20) for _ in range(n)]
        if rng.random() < 0.3:
            vals[rng.randrange(n)] = vals[0]
        d = [[abs(a - b) for a in vals] for b in vals]
        X = np.array(vals, dtype=float).reshape(n, 1)
    else:
        d = matrix_of(rng, n)
        X = np.array([[rng.randrange(0, 9) for _ in range(3)] for _ in range(n)], dtype=float)
    ev.append(dict(op='data', d=d))
    settings = []
    for _ in range(2):
        k = min(n, rng.choice([1, 2, 2, 3, n]))
        settings.append(dict(k=k, m=rng.choice([2, 2, 2, 1.5, 3]), random_seed=rng.randrange(4),
                             initial_medoids=rng.sample(range(n), k) if rng.random() < 0.6 else None,
                             tol=rng.choice([0.001, 0.001, 0.1])))
    for _ in range(4):
        st = rng.choice(settings)
        maxiter = rng.choice([1000, 1000, 0, -1])
        m = DistanceByDTW()
        if not measured or rng.random() < 0.5:
            m.distance_matrix = np.array(d, dtype=float)
        init = list(st['initial_medoids']) if st['initial_medoids'] else None

        def initial():
            med = kf.choose_initial_medoids(X, st['k'], st['random_seed'], list(init) if init else None)
            return kf.compute_membership_fcm(X, st['m'], med, m, st['tol'])[2]
        oki, initcost, _ = attempt(initial)
        np.random.seed(rng.randrange(1000))
        before = X.copy()
        kw = dict(initial_medoids=init, random_seed=st['random_seed'], max_iter=maxiter, tol=st['tol'], verbose=rng.random() < .5)
        if rng.random() < 0.5:
            ok, r, err = attempt(lambda: kf.run_kmedoids_fuzzy(X, st['k'], st['m'], m, **kw))
        else:
            ok, r, err = attempt(lambda: kf.run_kmedoids_fuzzy_from_params(
                X, kf.kmedoids_fuzzy_default_params(st['k'], m=st['m'], distance_measure=m, **kw)))
        e = dict(op='fuzzy', k=st['k'], m10=int(st['m'] * 10), seed=st['random_seed'], maxiter=maxiter, tol10=int(st['tol'] * 10000),
                 init=[i + 1 for i in st['initial_medoids'] or []], ok=int(ok and oki), med=[], uij=[], costs=[], total=0,
                 initcost=num(initcost, 1000) if oki else 0, same=1, swaps=[], sums=[])
        if ok:
            e.update(med=[i + 1 for i in ints(r.medoids)], uij=[[num(v, M) for v in row] for row in np.asarray(r.uij).tolist()],
                     sums=[num(sum(row), 1, 1e-9) for row in np.asarray(r.uij, dtype=float).tolist()], costs=nums(r.costs, 1000), total=num(r.total_cost, 1000), same=int(np.array_equal(before, X)))
            if maxiter == 1000:
                e['swaps'] = swaps(X, st, m, ints(r.medoids))
        ev.append(e)
    return dict(ev=ev, note=str(seed))


def run_mask(seed):
    rng = random.Random(seed)
    ev = []
    X, Y, k = rng.randrange(1, 5), rng.randrange(1, 5), rng.randrange(1, 5)
    unit = rng.choice([4, 64, 1024])
    n = X * Y
    u = []
    for _ in range(n):
        cuts = sorted(rng.choice([0, unit, rng.randrange(unit + 1)]) for _ in range(k - 1))
        row = [b - a for a, b in zip([0] + cuts, cuts + [unit])]
        rng.shuffle(row)
        u.append(row)
    if rng.random() < 0.15:        # not normalised: only differences matter
        u = [[rng.randrange(unit + 1) for _ in range(k)] for _ in range(n)]
    arr = np.array(u, dtype=float) / unit
    ev.append(dict(op='memberships', u=u, X=X, Y=Y, unit=unit))
    for _ in range(8):
        c = rng.choice([0, k - 1, rng.randrange(k), rng.randrange(k), rng.randrange(k), -1, k, k + 2])
        gaps = [max(r) - r[c] for r in u] if 0 <= c < k else [0]
        thr = rng.choice([0, unit, rng.choice(gaps), max(rng.choice(gaps) - 1, 0), min(rng.choice(gaps) + 1, unit),
                          rng.randrange(unit + 1), -1, unit + 1])
        mx, my = (X, Y) if rng.random() < 0.85 else rng.choice([(X + 1, Y), (Y, X), (X, Y + 1)])
        before = arr.copy()
        t = thr / unit
        if rng.random() < 0.5 and mx * my == n:
            np3 = np.array([[[arr[i * my + j, q] for j in range(my)] for i in range(mx)] for q in range(k)])
            ok, m, err = attempt(lambda: MaskRegionFuzzy(np3, c, t))
        else:
            ok, m, err = attempt(lambda: MaskRegionFuzzy.from_uij_and_region(arr, mx, my, c, t))
        e = dict(op='mask', c=c + 1, thr=thr, X=mx, Y=my, ok=int(ok), iter=[], again=[], len=-1, member=[], none=0, clone=[], same=1)
        if ok:
            def it(o):
                return [p[0] * my + p[1] + 1 for p in [pt(q) for q in o]]
            if rng.random() < .3:
                e['clone'] = it(m.clone())
            oki, e['iter'], _ = attempt(lambda: it(m))
            e['iter'] = e['iter'] or []
            if rng.random() < .5:
                e['len'] = integer(attempt(lambda: m.cluster_len)[1])
            for q in m:
                break
            e['again'] = attempt(lambda: it(m))[1] or []
            e['len'] = integer(attempt(lambda: m.cluster_len)[1])
            e['clone'] = attempt(lambda: it(m.clone()))[1] or []
            e['member'] = [integer(bool(m.is_member(Point(i // my, i % my)))) for i in range(n)]
            e['none'] = integer(bool(m.is_member(None)))
            e['same'] = int(np.array_equal(before, arr))
        ev.append(e)
    return dict(ev=ev, note=str(seed))
