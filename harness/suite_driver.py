'''Observes clustering suites: combinations, organisation, elbows, report file.'''
import argparse
import csv
import logging
import os
import random
import numpy as np

from obs import attempt, integer, ints, num, pts, quiet, scratch
from kmedoids_driver import matrix_of
from spta.clustering.factory import ClusteringFactory, ClusteringMetadataFactory
from spta.clustering.kmedoids import KmedoidsClusteringMetadata, kmedoids_metadata_generator
from spta.clustering.regular import regular_metadata_generator
from spta.clustering.suite import ClusteringSuite, FindSuiteElbow, OrganizeClusteringSuite
from spta.distance.dtw import DistanceByDTW
from spta.region import Point, Region
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.region.temporal import SpatioTemporalRegion


def collection(rng, values):
    values = list(values)
    rng.shuffle(values)
    return rng.choice([list, tuple, lambda v: list(v)])(values)


def make_suite(rng, ks, seeds, mode, ident='quick'):
    kw = dict(mode=mode, verbose=False)
    if len(seeds) == 1 and rng.random() < .5:
        s = seeds[0]
    else:
        s = collection(rng, seeds)
    if rng.random() < .4 and not isinstance(s, int):
        suite = kmedoids_metadata_generator(collection(rng, ks), s, **kw)
        suite.identifier = ident
        return suite
    return ClusteringSuite(ident, 'kmedoids', k=collection(rng, ks), random_seed=s, **kw)


def items(suite):
    return [[integer(m.k), integer(m.random_seed), m.mode] for m in suite]


def suite_event(suite, ks, seeds, mode):
    ok, it, _ = attempt(lambda: items(suite))
    ok2, again, _ = attempt(lambda: items(suite))
    return dict(op='suite', ks=list(ks), seeds=list(seeds), mode=mode, ok=int(ok and ok2), items=it or [], again=again or [])


def organize_event(suite):
    ok, g, _ = attempt(lambda: OrganizeClusteringSuite().organize_kmedoids_suite(suite))
    groups = [[integer(sd), [integer(m.k) for m in ms], [integer(m.random_seed) for m in ms]] for sd, ms in g.items()] if ok else []
    return dict(op='organize', ok=int(ok), groups=groups)


def elbows_of(r):
    return [[integer(sd), integer(m.k), integer(m.random_seed)] for sd, m in r.items()]


def measure_with(d, unit=1):
    m = DistanceByDTW()
    m.distance_matrix = np.array(d, dtype=float) * unit
    return m


def run(seed):
    rng = random.Random(seed)
    ev = []
    with scratch(), quiet():
        # made-up costs
        for _ in range(3):
            ks = rng.sample(range(1, 40), rng.choice([2, 3, 3, 4, 5, 7]))
            seeds = rng.sample(range(0, 13), rng.choice([1, 2, 2, 3]))
            mode = rng.choice(['lite', 'robust'])
            suite = make_suite(rng, ks, seeds, mode)
            ev.append(suite_event(suite, ks, seeds, mode))
            ev.append(organize_event(suite))
            flat = rng.random() < .2
            # costs in any unit, above any level: the elbow stays where it is
            base, unit = rng.choice([(0, 1), (0, 1), (4096, 1), (0, 2.**-10), (8, 2.**-10), (0, 1024), (0, 2.**-20)])
            keys, costs, by_md = [], [], {}
            mds = list(suite)
            if rng.random() < .5:
                mds = [KmedoidsClusteringMetadata(m.k, random_seed=m.random_seed, mode=m.mode) for m in mds]
                rng.shuffle(mds)
            for m in mds:
                c = rng.randrange(0, 5 if flat else 1000)
                keys.append([m.k, m.random_seed])
                costs.append(c)
                by_md[m] = base + float(c) * unit
            region = SpatioTemporalRegion(np.zeros((2, 2, 2)))
            ok, r, err = attempt(lambda: FindSuiteElbow(suite, region, DistanceByDTW()).find_cost_elbow_for_each_kmedoids_seed(by_md))
            ev.append(dict(op='elbow-of-costs', keys=keys, costs=costs, ok=int(ok), elbows=elbows_of(r) if ok else []))
        kr = rng.sample(range(2, 30), rng.randrange(1, 5))
        ok, r, _ = attempt(lambda: [integer(m.k) for m in regular_metadata_generator(collection(rng, kr))])
        ev.append(dict(op='regular-suite', ks=kr, ok=int(ok), items=r or []))
        # a real region
        X, Y = rng.choice([(2, 3), (3, 3), (4, 2), (1, 7), (3, 4)])
        n = X * Y
        x1, y1 = rng.randrange(20), rng.randrange(20)
        md = SpatioTemporalRegionMetadata('r', Region(x1, x1 + X, y1, y1 + Y), 2010, 2011, 1, scaled=False)
        region = SpatioTemporalRegion(np.array([[[rng.randrange(20) for _ in range(Y)] for _ in range(X)] for _ in range(3)], dtype=float), md)
        d = matrix_of(rng, n)
        unit = random.Random('unit' + seed).choice([1, 1, 2.**-5, 2.**-5, 1024])
        ks = rng.sample(range(1, n + 1), rng.choice([3, 4, 4, 5]))
        seeds = rng.sample(range(9), rng.choice([1, 2, 2, 3]))
        mode = rng.choice(['lite', 'robust'])
        suite = make_suite(rng, ks, seeds, mode)
        ev.append(suite_event(suite, ks, seeds, mode))
        ev.append(dict(op='distances', d=d))
        for m in suite:
            ok, p, _ = attempt(lambda: ClusteringFactory(measure_with(d, unit)).instance(m).partition(region, with_medoids=True))
            ev.append(dict(op='partition', k=m.k, seed=m.random_seed, ok=int(ok),
                           mem=ints(np.asarray(p.numpy_dataset).ravel()) if ok else [],
                           med=[x * Y + y + 1 for x, y in pts(p.medoids)] if ok else []))
        home = rng.choice(['pickle', 'p2'])
        if rng.random() < .5:     # some are stored already
            attempt(lambda: FindSuiteElbow(make_suite(rng, ks[:3], [seeds[0], 11], mode), region, measure_with(d, unit)).calculate_elbows_kmedoids(home))
        for _ in range(2):
            ok, r, err = attempt(lambda: FindSuiteElbow(suite, region, measure_with(d, unit)).calculate_elbows_kmedoids(home))
            ev.append(dict(op='elbow', ok=int(ok), elbows=elbows_of(r) if ok else []))
        # reports
        dm = DistanceByDTW()
        ok, r, _ = attempt(lambda: suite.retrieve_suite_result_csv('outputs', md, dm))
        ev.append(dict(op='no-report', ok=int(ok)))
        written = []
        path = suite.analysis_csv_filepath('outputs', md, dm)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w', newline='') as f:
            w = csv.writer(f, delimiter=' ', quotechar='|', quoting=csv.QUOTE_MINIMAL)
            w.writerow(['clustering', 'total_cost', 'medoids'])
            for m in suite:
                meds = [[rng.randrange(130), rng.randrange(130)] for _ in range(m.k)]
                w.writerow([repr(m), '{:0.3f}'.format(rng.random() * 1000), ''.join('({},{}) '.format(*q) for q in meds)])
                written.append([repr(m), meds])
        ok, r, _ = attempt(lambda: suite.retrieve_suite_result_csv('outputs', md, DistanceByDTW()))
        ev.append(dict(op='read-report', ok=int(ok), written=written, read=[[k, pts(v)] for k, v in r.items()] if ok else []))
        other = make_suite(rng, ks, seeds, mode, ident='other')
        ok, r, _ = attempt(lambda: other.retrieve_suite_result_csv('outputs', md, dm))
        ev.append(dict(op='no-report', ok=int(ok)))
        ok, r, _ = attempt(lambda: suite.retrieve_suite_result_csv('elsewhere', md, dm))
        ev.append(dict(op='no-report', ok=int(ok)))
    return dict(ev=ev, note=str(seed))


def run_cli(seed):
    '''the partition analysis program on one of its predefined regions'''
    rng = random.Random(seed)
    ev = []
    from experiments.clustering import partition_analysis
    from experiments.metadata.clustering import get_suite
    from experiments.metadata.region import predefined_regions
    import sys
    with scratch(), quiet():
        os.mkdir('raw')
        name = 'nordeste_small_2015_2015_1spd'
        md = predefined_regions()[name]
        r = md.region
        X, Y = r.x2 - r.x1, r.y2 - r.y1
        np.save('raw/SouthAmerica_2015_2015_1spd.npy', np.random.RandomState(1).randint(0, 50, (365, 60, 100)).astype(float))
        d = matrix_of(rng, X * Y)
        np.save(md.distances_filename, np.array(d, dtype=float))
        suite = get_suite('kmedoids', 'quick')
        ks, seeds = sorted(set(m.k for m in suite)), sorted(set(m.random_seed for m in suite))
        ev.append(suite_event(suite, ks, seeds, 'lite'))
        ev.append(dict(op='distances', d=d))
        region = md.create_instance()
        for m in suite:
            ok, p, _ = attempt(lambda: ClusteringFactory(measure_with(d)).instance(m).partition(region, with_medoids=True))
            ev.append(dict(op='partition', k=m.k, seed=m.random_seed, ok=int(ok),
                           mem=ints(np.asarray(p.numpy_dataset).ravel()) if ok else [],
                           med=[x * Y + y + 1 for x, y in pts(p.medoids)] if ok else []))
        for _ in range(2):          # the second time with stored partitions
            old = sys.argv
            sys.argv = ['x', name, 'kmedoids', 'quick', '--log', 'WARN']
            try:
                ok, _, err = attempt(partition_analysis.processRequest)
            finally:
                sys.argv = old
                logging.disable(logging.CRITICAL)
            suite.identifier = 'quick'
            e = dict(op='report', ok=0, err=err, rows=[], totals=[], x1=r.x1, y1=r.y1, y=Y)

            def read():
                res = suite.retrieve_suite_result_csv('outputs', md, DistanceByDTW())
                for k, v in res.items():
                    m = ClusteringMetadataFactory().from_repr(k)
                    e['rows'].append(dict(k=m.k, seed=m.random_seed, med=pts(v)))
                with open(suite.analysis_csv_filepath('outputs', md, DistanceByDTW())) as f:
                    for row in list(csv.reader(f, delimiter=' ', quotechar='|'))[1:]:
                        m = ClusteringMetadataFactory().from_repr(row[0])
                        e['totals'].append([m.k, m.random_seed, num(row[1], 1000)])
            okr, _, _ = attempt(read)
            e['ok'] = int(ok and okr)
            ev.append(e)
    return dict(ev=ev, note=str(seed))
