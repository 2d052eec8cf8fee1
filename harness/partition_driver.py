'''Observes spta.region.partition for a given labelling.'''
import random
import numpy as np

from core import BAD
from obs import FINE, attempt, fine, ints, integer, num, nums, pt, pts, scratch
from spta.region import Point, Region
from spta.region.spatial import SpatialRegion
from spta.region.temporal import SpatioTemporalRegion
from spta.region.partition import PartitionRegion, PartitionRegionCrisp


class Custom(PartitionRegion):
    '''a partition that only supplies what subclasses must supply'''

    def is_member(self, point, cluster_index):
        if point is None:
            return False
        return self.numpy_dataset[point.x, point.y] == cluster_index

    def membership_of_point_indices(self, point_indices):
        return [int(self.numpy_dataset.ravel()[i]) for i in point_indices]


def halves(v, unit):
    '''a value in halves, possibly of another unit'''
    if v is None:
        return BAD
    w = num(2 * v, 1, 1e-9)
    return fine(2 * v, unit) if w == BAD else w


def run(item):
    sc, seed = item
    rng = random.Random(seed)
    X, Y, k, lab = sc['X'], sc['Y'], sc['k'], list(sc['lab'])
    n = X * Y
    ev = []

    def P(i):
        return Point(i // Y, i % Y)

    # a wrong k is refused, the right one accepted
    dt = rng.choice([np.uint32, np.int64, np.uint8 if k < 255 else np.uint16])
    arr = np.array(lab, dtype=dt)
    medoids = []
    for c in range(k):
        members = [i for i in range(n) if lab[i] == c]
        medoids.append(P(rng.choice(members)) if members else None)
    with_medoids = rng.random() < 0.8 and all(m is not None for m in medoids)
    wrong = k + rng.choice([-1, 1])
    ok, _, err = attempt(lambda: PartitionRegionCrisp(arr.reshape(X, Y).copy(), wrong))
    ev.append(dict(op='create', X=X, Y=Y, k=wrong, lab=lab, med=[], ok=int(ok)))
    way = rng.randrange(3)
    if way == 0:
        def make():
            return PartitionRegionCrisp(arr.reshape(X, Y).copy(), k)
    else:
        def make():
            return PartitionRegionCrisp.from_membership_array(arr.copy(), X, Y)
    ok, part, err = attempt(make)
    ev.append(dict(op='create', X=X, Y=Y, k=k, lab=lab, med=pts(medoids) if with_medoids else [], ok=int(ok)))
    if not ok:
        return dict(ev=ev, note=str(seed))
    if with_medoids:
        part.medoids = list(medoids)

    def members(p):
        m = [[int(bool(p.is_member(P(i), c))) for c in range(k)] for i in range(n)]
        return dict(m=m, len=[integer(p.cluster_len(c)) for c in range(k)],
                    none=int(bool(p.is_member(None, 0))))
    subjects = [part, Custom(arr.reshape(X, Y).astype(np.int64), k)]
    for p in subjects:
        ok, r, err = attempt(lambda: members(p))
        ev.append(dict(dict(op='member', ok=int(ok), m=[], len=[], none=0), **(r or {})))
        for _ in range(2):
            q = [rng.randrange(n) for _ in range(rng.randrange(1, n + 2))]
            ok1, a, _ = attempt(lambda: ints(p.membership_of_point_indices(
                np.array(q) if rng.random() < 0.5 else q)))
            ok2, b, _ = attempt(lambda: ints(p.membership_of_points([P(i) for i in q])))
            ev.append(dict(op='indices', q=q, ok=int(ok1 and ok2), byidx=a or [], bypt=b or []))

    def obs(cluster, data, st):
        it = [(p, v) for (p, v) in cluster]
        return dict(c=integer(cluster.cluster_index), pts=pts([p for p, _ in it]),
                    vals=[num(np.asarray(v).ravel()[0]) for _, v in it], len=integer(cluster.cluster_len),
                    data=data, idx=ints(cluster.all_point_indices) if st else [-1],
                    cen=pt(cluster.centroid) if st else [-9, -9])
    none_c = dict(c=-5, pts=[], vals=[], len=0, data=[], idx=[], cen=[])
    data = rng.sample(range(1, 1000), n)
    sp = SpatialRegion(np.array(data, dtype=float).reshape(X, Y))
    spt = SpatioTemporalRegion(np.array([data, data], dtype=float).reshape(2, X, Y))
    for c in range(k):
        st = rng.random() < 0.5
        ok, r, err = attempt(lambda: obs(part.create_spt_cluster(spt, c) if st else
                                         part.create_spatial_cluster(sp, c), data, st))
        ev.append(dict(op='cluster', ok=int(ok), c=r or none_c))
    ok, r, err = attempt(lambda: [obs(c, data, False) for c in part.create_all_spatial_clusters(sp)])
    ev.append(dict(op='all', ok=int(ok), cs=r or [], med=[]))
    if all(m is not None for m in medoids):
        kind = rng.randrange(4)

        def make_all():
            if kind == 0:
                return part.create_all_spt_clusters(spt, medoids=list(medoids))
            ci = [m.x * Y + m.y for m in medoids]
            if kind == 1:
                return part.create_all_spt_clusters(spt, centroid_indices=ci)
            if kind == 2:
                return part.create_all_spt_clusters(spt, centroid_indices=np.array(ci))
            return part.create_all_spt_clusters(spt)
        ok, r, err = attempt(lambda: [obs(c, data, True) for c in make_all()])
        ev.append(dict(op='all', ok=int(ok), cs=r or [], med=pts(medoids) if kind < 3 else []))
    for _ in range(3):
        x1, y1 = rng.randrange(X), rng.randrange(Y)
        a = [x1, rng.randrange(x1 + 1, X + 1), y1, rng.randrange(y1 + 1, Y + 1)]
        ok, cl, _ = attempt(lambda: ints(part.find_indices_of_clusters_intersecting_with(Region(*a))))
        mok, md, _ = attempt(lambda: pts(part.find_medoids_of_clusters_intersecting_with(Region(*a))))
        ev.append(dict(op='touch', a=a, ok=int(ok), cl=cl or [], mok=int(mok), md=md or []))

    # merges: right order, permuted, duplicated, incomplete, too many
    for kindm in ['ordered', 'permuted', 'duplicate', 'missing', 'extra', 'reps', 'repsperm', 'repsbad', 'repsmiss']:
        cidx = list(range(k))
        if kindm in ('permuted', 'repsperm', 'repsbad'):
            rng.shuffle(cidx)
        if kindm == 'duplicate' and k > 1:
            cidx[rng.randrange(k)] = rng.randrange(k)
        if kindm in ('missing', 'repsmiss'):
            cidx.pop(rng.randrange(k))
        if kindm == 'extra':
            cidx.insert(rng.randrange(k + 1), rng.randrange(k))
        if not cidx:
            continue
        # values are recorded doubled; the clusters may hold integers, fractions or any objects
        vals = [rng.sample(range(1, 5000), n) for _ in cidx]
        mixed = rng.random() < 0.6
        unit = rng.choice([1, FINE])
        clusters = []
        for v, c in zip(vals, cidx):
            kind = rng.choice(['int', 'float', 'object']) if mixed else 'float'
            if kind == 'int':
                v[:] = [2 * x for x in v]
                arr = np.array([x // 2 for x in v], dtype=rng.choice([np.int64, np.int32]))
            elif kind == 'float':
                arr = np.array([x / 2 * unit for x in v])
            else:
                arr = np.empty(n, dtype=object)
                for i in range(n):
                    if rng.random() < .3:
                        v[i] = BAD
                        arr[i] = None
                    else:
                        arr[i] = v[i] / 2
            clusters.append(part.create_spatial_cluster(SpatialRegion(arr.reshape(X, Y)), c))
        rec = [dict(c=c, v=v) for v, c in zip(vals, cidx)]
        given = list(clusters)
        before = [c.as_numpy.copy() for c in clusters]
        if not kindm.startswith('reps'):
            ok, r, err = attempt(lambda: part.merge_clusters_2d(given))
            e = dict(op='merge', cs=rec, ok=int(ok), v=[], pts=[])
        else:
            if any(m is None for m in medoids):
                continue
            reps = [rng.choice([i for i in range(n) if lab[i] == c]) for c in cidx]
            if kindm == 'repsbad' and k > 1:
                j = rng.randrange(k)
                reps[j] = rng.choice([i for i in range(n) if lab[i] != cidx[j]])
            ok, r, err = attempt(lambda: part.merge_with_representatives_2d(given, [P(i) for i in reps]))
            e = dict(op='mergereps', cs=rec, ok=int(ok), v=[], pts=[], reps=[i + 1 for i in reps])
        if ok:
            ok2, it, _ = attempt(lambda: [(p, v) for (p, v) in r])
            e['v'] = [halves(v, unit) for _, v in it] if ok2 else []
            e['pts'] = pts([p for p, _ in it]) if ok2 else []
        e['same'] = int(all(np.array_equal(a, c.as_numpy) for a, c in zip(before, clusters)) and
                        len(given) == len(clusters) and all(a is b for a, b in zip(given, clusters)))
        ev.append(e)
    # clusters of a region with another shape
    other = SpatialRegion(np.zeros((X + 1, Y)) if rng.random() < 0.5 else np.zeros((X, Y + 1)))
    ok, _, err = attempt(lambda: part.create_spatial_cluster(other, 0))
    ev.append(dict(op='wrongshape', ok=int(ok)))
    # copies
    for kindc in ('pickle', 'clone'):
        def copy():
            if kindc == 'clone':
                return part.clone()
            part.to_pickle('dir/a/part.pkl')
            return PartitionRegionCrisp.try_from_pickle('dir/a/part.pkl')

        def copied():
            c = copy()
            return dict(lab=[integer(v) for v in c.membership_of_point_indices(list(range(n)))], k=integer(c.k),
                        X=integer(c.x_len), Y=integer(c.y_len),
                        med=pts(c.medoids) if with_medoids and kindc == 'pickle' else [])
        with scratch('part'):
            ok, r, err = attempt(copied)
        ev.append(dict(dict(op='copy', ok=int(ok), lab=[], k=0, X=0, Y=0, med=[]), **(r or {})))
    return dict(ev=ev, note=str(seed))
