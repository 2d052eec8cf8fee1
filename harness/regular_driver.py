'''Observes regular partitions and the medoids reported for them.'''
import random
import numpy as np

from obs import attempt, ints, integer, nums, scratch
from spta.region import Region
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.region.spatial import SpatialRegion
from spta.region.temporal import SpatioTemporalRegion
from spta.region.partition import PartitionRegionCrisp
from spta.clustering.regular import RegularClusteringMetadata, RegularClusteringAlgorithm
from spta.distance.dtw import DistanceByDTW
from spta.util import arrays as arrays_util
from spta.util import maths as maths_util


def run_divisors(item):
    k, X, Y = item

    def f():
        return (ints(maths_util.find_two_balanced_divisors(k)), ints(maths_util.two_balanced_divisors_order_x_y(k, X, Y)),
                ints(maths_util.divisors(k)))
    ok, o, _ = attempt(f)
    o = o or ([], [], [])
    return dict(ev=[dict(op='balanced', k=k, X=X, Y=Y, ok=int(ok), out=o[0], xy=o[1], divs=o[2])], note=str(item))


def run_shape(item):
    X, Y, ks, seed = item
    rng = random.Random(seed)
    ev = []
    for k in ks:
        way = rng.randrange(4)

        def f():
            if way == 0:
                m = arrays_util.regular_partitioning(X, Y, k)
                return ints(np.asarray(m).ravel().tolist()), k, None
            if way == 1:
                p = PartitionRegionCrisp.with_regular_partition(k, X, Y)
            elif way == 2:
                alg = RegularClusteringAlgorithm(RegularClusteringMetadata(k), DistanceByDTW())
                p = alg.partition(SpatioTemporalRegion(np.zeros((1, X, Y))), with_medoids=False)
            else:
                p = PartitionRegionCrisp.with_regular_partition(k, X, Y).clone()
            return (ints(p.membership_of_point_indices(list(range(X * Y)))), integer(p.k), p)
        ok, o, _ = attempt(f)
        ev.append(dict(op='regular', X=X, Y=Y, k=k, ok=int(ok), lab=o[0] if ok else [], pk=o[1] if ok else 0))
        if ok and o[2] is not None:
            ok, z, _ = attempt(lambda: [integer(o[2].cluster_len(c)) for c in range(k)])
            ev.append(dict(op='sizes', ok=int(ok), out=z or []))
    return dict(ev=ev, note=str(item[:2]))


def run_points(item):
    '''the points of a region and their distances, in the order of the labels'''
    X, Y, seed = item
    rng = random.Random(seed)
    ok, o, _ = attempt(lambda: [ints(p) for p in arrays_util.list_of_2d_points(X, Y).tolist()])
    ev = [dict(op='points', X=X, Y=Y, ok=int(ok), out=o or [])]
    for _ in range(3):
        i, j = rng.randrange(X), rng.randrange(Y)
        ok, o, _ = attempt(lambda: nums(np.asarray(arrays_util.distances_to_point_in_2d_region(i, j, X, Y)).ravel(), 1000))
        ev.append(dict(op='away', X=X, Y=Y, i=i, j=j, ok=int(ok), out=o or []))
    return dict(ev=ev, note=str(item))


def run_medoids(item):
    X, Y, k, seed = item
    rng = random.Random(seed)
    n = X * Y
    hi = rng.choice([2, 5, 60])
    D = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            D[i][j] = D[j][i] = rng.randrange(0 if hi == 5 else 1, hi + 1)
    ev = []
    with scratch():
        import os
        os.mkdir('raw')
        x0, y0 = rng.randrange(3), rng.randrange(3)
        md = SpatioTemporalRegionMetadata('reg', Region(x0, x0 + X, y0, y0 + Y), 2015, 2015, 1, scaled=False)
        np.save(md.distances_filename, np.array(D, dtype=float))
        spt = SpatioTemporalRegion(np.random.RandomState(1).rand(4, X, Y))
        spt.region_metadata = md
        alg = RegularClusteringAlgorithm(RegularClusteringMetadata(k), DistanceByDTW())
        again = rng.random() < 0.3

        def f():
            p = alg.partition(spt, with_medoids=True)
            if again:
                p = alg.partition(spt, with_medoids=True)
            return (ints(p.membership_of_point_indices(list(range(n)))), integer(p.k),
                    [integer(m.x * Y + m.y + 1) for m in p.medoids])
        ok, o, _ = attempt(f)
        ev.append(dict(op='regular', X=X, Y=Y, k=k, ok=int(ok), lab=o[0] if ok else [], pk=o[1] if ok else 0))
        ev.append(dict(op='medoids', D=D, ok=int(ok), meds=o[2] if ok else []))
    return dict(ev=ev, note=str(item))
