'''Observes coordinate conversions and the data delivered for described areas.'''
import os
import random
import re
import numpy as np

from obs import attempt, ints, num, nums, pt, pts, scratch
from spta.region import Point, Region
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.region.spatial import SpatialRegion
from spta.region.temporal import SpatioTemporalRegion
from spta.region.partition import PartitionRegionCrisp
from spta.kmedoids import medoids_to_absolute_coordinates
from spta.clustering.regular import RegularClusteringMetadata
from spta.clustering.suite import ClusteringSuite
from spta.distance.dtw import DistanceByDTW
from spta.model.mean import MeanOfPastParams
from spta.solver.metadata import SolverMetadataBuilder
from spta.solver.result import PredictionQueryResultBuilder
from spta.classifier.train_input import MedoidSeriesFormatter


def dataset(X, Y, spd, year):
    t = 366 if year % 4 == 0 else 365
    base = np.add.outer(1000.0 * np.arange(X), 1.0 * np.arange(Y))
    return np.repeat(base[np.newaxis, :, :], t * spd, axis=0)


def run(item):
    sc, seed = item
    rng = random.Random(seed)
    with scratch():
        return _run(sc, rng, seed)


def one_value(series, scaled=False):
    '''the place named by a constant series'''
    s = np.asarray(series)
    if s.size == 0 or not np.all(s == s.ravel()[0]):
        return -1
    return num(s.ravel()[0])


def _run(sc, rng, seed):
    X, Y, r, q = sc['X'], sc['Y'], sc['r'], sc['q']
    ev = [dict(op='setting', X=X, Y=Y, r=r, q=q)]
    spd, year = rng.choice([1, 4]), rng.choice([2014, 2015, 2012])
    os.mkdir('raw')
    np.save('raw/SouthAmerica_{0}_{0}_{1}spd.npy'.format(year, spd), dataset(X, Y, spd, year))
    scaled = rng.random() < 0.3
    md = SpatioTemporalRegionMetadata('r', Region(*r), year, year, spd, scaled=scaled)
    xl, yl = r[1] - r[0], r[3] - r[2]
    n = xl * yl
    npint = rng.random() < 0.5
    ok, out, _ = attempt(lambda: pts([md.index_to_absolute_point(np.int64(i) if npint else i) for i in range(n)]))
    ev.append(dict(op='absindex', ok=int(ok), out=out or []))
    some = [[rng.randrange(xl), rng.randrange(yl)] for _ in range(5)]
    ok, out, _ = attempt(lambda: pts([md.absolute_position_of_point(Point(*p)) for p in some]))
    ev.append(dict(op='abspoint', pts=some, ok=int(ok), out=out or []))
    rects = [q]
    for _ in range(4):
        a, c = rng.randrange(xl), rng.randrange(yl)
        rects.append([a, rng.randrange(a + 1, xl + 1), c, rng.randrange(c + 1, yl + 1)])
    ok, out, _ = attempt(lambda: [ints([b.x1, b.x2, b.y1, b.y2]) for b in
                                  [md.absolute_coordinates_of_region(Region(*b)) for b in rects]])
    ev.append(dict(op='absrect', rects=rects, ok=int(ok), out=out or []))
    for a in (r, rects[-1]):
        ok, z, _ = attempt(lambda: SpatialRegion.region_with_zeroes(Region(*a)))
        okl, it, _ = attempt(lambda: list(z)) if ok else (False, None, '')
        ev.append(dict(op='zeroes', a=a, ok=int(ok and okl), pts=pts([p for p, _ in it]) if okl else [],
                       vals=nums([v for _, v in it]) if okl else []))

    # the data delivered
    ok, inst, _ = attempt(md.create_instance)
    if not ok:
        ev.append(dict(op='instance', ok=0, pts=[], vals=[]))
        return dict(ev=ev, note=str(seed))

    def obs(region):
        if scaled:
            region = region.descale()
        it = list(region)
        return pts([p for p, _ in it]), [one_value(s) for _, s in it]
    ok, o, _ = attempt(lambda: obs(inst))
    ev.append(dict(op='instance', ok=int(ok), pts=o[0] if ok else [], vals=o[1] if ok else []))
    way = rng.randrange(3)

    def area():
        if way == 0:
            return obs(inst.region_subset(Region(*q)))
        if way == 1:
            x1, x2, y1, y2 = q
            sub = inst.region_subset(Region(x1, xl, y1, yl))
            return obs(sub.region_subset(Region(0, x2 - x1, 0, y2 - y1)))
        absr = md.absolute_coordinates_of_region(Region(*q))
        md2 = SpatioTemporalRegionMetadata('q', absr, year, year, spd, scaled=scaled)
        return obs(md2.create_instance())
    ok, o, _ = attempt(area)
    ev.append(dict(op='query', ok=int(ok), pts=o[0] if ok else [], vals=o[1] if ok else []))
    ok, o, _ = attempt(lambda: [one_value(inst.descale().series_at(Point(*p)) if scaled else inst.series_at(Point(*p)))
                                for p in [[i // yl, i % yl] for i in range(n)]])
    ev.append(dict(op='instance', ok=int(ok), pts=[[i // yl, i % yl] for i in range(n)], vals=o or []))

    # medoid series by absolute position
    plain = SpatioTemporalRegionMetadata('r', Region(*r), year, year, spd, scaled=False)
    meds = [[r[0] + rng.randrange(xl), r[2] + rng.randrange(yl)] for _ in range(rng.randrange(1, 5))]
    dist = DistanceByDTW()
    suite = ClusteringSuite('s', 'regular', k=[len(meds)])

    def medoid_series():
        f = MedoidSeriesFormatter(plain, dist, suite)
        d = f.retrieve_medoid_data({'regular_k{}'.format(len(meds)): [Point(*m) for m in meds]},
                                   plain.create_instance())
        (rows,) = d.values()
        return (ints([x['cluster_index'] for x in rows]), [ints([x['medoid_x'], x['medoid_y']]) for x in rows],
                [one_value(x['series']) for x in rows])
    ok, o, err = attempt(medoid_series)
    ev.append(dict(op='medoidseries', meds=meds, ok=int(ok), ci=o[0] if ok else [], xy=o[1] if ok else [],
                   vals=o[2] if ok else []))
    idx = [rng.randrange(n) for _ in range(3)]

    def names():
        txt = medoids_to_absolute_coordinates(inst, idx)
        return [[int(a), int(b)] for a, b in re.findall(r'\((-?\d+),\s*(-?\d+)\)', txt)]
    ok, o, _ = attempt(names)
    ev.append(dict(op='medoidnames', idx=idx, ok=int(ok), out=o or []))

    # query results
    qx, qy = q[1] - q[0], q[3] - q[2]
    fc = SpatioTemporalRegion(np.zeros((2, qx, qy)))
    err = SpatialRegion(np.zeros((qx, qy)))
    k = rng.randrange(1, min(n, 4) + 1)
    lab = np.array([i % k for i in range(n)]).reshape(xl, yl)
    for oos in (False, True):
        for deco in (0, 1, 2):
            def conv():
                cm = RegularClusteringMetadata(k)
                smd = SolverMetadataBuilder(md, MeanOfPastParams(1), 2, 'MSE').with_clustering(cm, dist).build()
                b = PredictionQueryResultBuilder(
                    solver_metadata=smd, forecast_len=2 if oos else 0, forecast_subregion=fc,
                    test_subregion=fc, error_subregion=err, prediction_region=Region(*q),
                    spt_region=inst, output_home='outputs', is_out_of_sample=oos)
                if deco == 1:
                    b = b.with_partition(PartitionRegionCrisp(lab, k))
                if deco == 2:
                    b = b.from_classifier(suite, {Point(i, j): 'l' for i in range(qx) for j in range(qy)})
                res = b.build()
                rel = list(res)
                dom = [res.to_domain_coordinates(p) for p in rel]
                return (pts(rel), pts(dom), pts([res.to_relative_coordinates(p) for p in dom]),
                        pts([res.absolute_coordinates_of(p) for p in dom]))
            ok, o, e = attempt(conv)
            o = o or ([], [], [], [])
            ev.append(dict(op='result', ok=int(ok), pts=o[0], dom=o[1], back=o[2], abs=o[3]))
    return dict(ev=ev, note=str(seed))
