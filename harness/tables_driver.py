'''Observes the tables of medoids a classifier is trained with (C24).'''
import csv
import logging
import os
import random
import sys
import numpy as np

from core import BAD
from obs import attempt, quiet, scratch
from choice_driver import absolute, distinct_world, expected_series, read_table, write_report
from kmedoids_driver import matrix_of
from spta.classifier.train_input import MedoidSeriesFormatter
from spta.clustering.kmedoids import KmedoidsClusteringMetadata
from spta.clustering.regular import RegularClusteringMetadata
from spta.clustering.suite import ClusteringSuite
from spta.distance.dtw import DistanceByDTW, DistanceBySpatialDTW


def digits(label):
    return [10 if c == '-' else int(c) if c.isdigit() else BAD for c in label]


def read(path, w, md, kind, report):
    names = [repr(cm) for cm, _ in report]
    good, rows = read_table(path, w, md, names, [expected_series(w, i, md.scaled) for i in range(w.n)], kind)
    with open(path, newline='') as f:
        table = list(csv.reader(f, delimiter=' ', quotechar='|'))
    for r, cells in zip(rows, table[1:]):
        c = dict(zip(table[0], cells))
        r['label'], r['back'] = [], BAD
        if kind == 'kmedoids':
            label = '{}-{}-{}'.format(c['k'], c['seed'], c['cluster_index'])
            ok, m, _ = attempt(lambda: repr(KmedoidsClusteringMetadata.from_classifier_label(label)))
            r['label'] = digits(label)
            r['back'] = names.index(m) + 1 if ok and m in names else BAD
    return dict(good=good, rows=rows)


def report_of(rng, w, kind):
    seen, out = set(), []
    for _ in range(rng.randrange(1, 5)):
        k = rng.randrange(1, min(w.n, 12) + 1)
        cm = RegularClusteringMetadata(k) if kind == 'regular' else KmedoidsClusteringMetadata(k, random_seed=rng.choice([0, 1, 2, 11, 110]), mode='lite')
        if repr(cm) not in seen:
            seen.add(repr(cm))
            out.append((cm, rng.sample(range(w.n), k)))
    return out


def event(place, report):
    return dict(op='report', place=place, r=[dict(k=cm.k, seed=int(getattr(cm, 'random_seed', 0)), medoids=[i + 1 for i in cells]) for cm, cells in report])


def run(seed):
    rng = random.Random(seed)
    ev = []
    with scratch(), quiet():
        w = distinct_world(rng)
        ev.append(dict(op='world', x0=w.x1, y0=w.y1, Y=w.Y))
        places = []
        first = ('r', False, 'kmedoids', 'quick', 'dtw', 'outputs')
        for _ in range(rng.randrange(1, 5)):
            p = list(first)
            for _ in range(rng.choice([0, 1, 1, 2])):
                j = rng.randrange(6)
                p[j] = [['r', 's'], [False, True], ['kmedoids', 'regular'], ['quick', 'whole'], ['dtw', 'w3'], ['outputs', 'a/b']][j][rng.randrange(2)]
            if tuple(p) not in places:
                places.append(tuple(p))

        def suite(p):
            return ClusteringSuite(p[3], p[2], k=[2, 4]) if p[2] == 'regular' else ClusteringSuite(p[3], p[2], k=[2, 3], random_seed=[0, 1])

        def measure(p):
            return DistanceByDTW() if p[4] == 'dtw' else DistanceBySpatialDTW(3)
        reports, mds, done = {}, {}, {}

        def path(p):
            return suite(p).medoid_series_csv_filepath(p[5], mds[p], measure(p))
        for p in places:
            mds[p] = w.region(p[0], p[1])
        formatters = {}
        for _ in range(rng.randrange(4, 10)):
            p = rng.choice(places)
            pl = places.index(p) + 1
            u = rng.random()
            if u < .35:
                reports[p] = report_of(rng, w, p[2])
                # as partition_analysis does
                target = suite(p).analysis_csv_filepath(p[5], mds[p], measure(p))
                os.makedirs(os.path.dirname(target), exist_ok=True)
                with open(target, 'w', newline='') as f:
                    wr = csv.writer(f, delimiter=' ', quotechar='|', quoting=csv.QUOTE_MINIMAL)
                    wr.writerow(['clustering', 'total_cost', 'medoids'])
                    for cm, cells in reports[p]:
                        wr.writerow([repr(cm), '{:0.3f}'.format(rng.random() * 1000),
                                     ''.join('({},{}) '.format(m.x, m.y) for m in (absolute(w, i) for i in cells))])
                ev.append(event(pl, reports[p]))
            elif u < .8:
                e = dict(op='produce', place=pl, ok=0, good=0, rows=[])

                def go():
                    if p not in formatters or rng.random() < .5:
                        formatters[p] = MedoidSeriesFormatter(mds[p], measure(p), suite(p))
                    formatters[p].produce_csv(p[5])
                    e.update(read(path(p), w, mds[p], p[2], reports.get(p, [])))
                    done[p] = reports[p]
                    e['ok'] = 1
                _, _, e['error'] = attempt(go)
                ev.append(e)
            else:
                e = dict(op='read', place=pl, ok=0, good=0, rows=[])

                def look():
                    e.update(read(path(p), w, mds[p], p[2], done.get(p, [])))
                    e['ok'] = 1
                attempt(look)
                ev.append(e)
    return dict(ev=ev, note=str(seed))


class Predefined:
    '''the data of a predefined region of the programs'''

    def __init__(self, rng, name):
        from experiments.metadata.region import predefined_regions
        os.mkdir('raw')
        self.md = predefined_regions()[name]
        r = self.md.region
        self.x1, self.y1, self.X, self.Y = r.x1, r.y1, r.x2 - r.x1, r.y2 - r.y1
        self.n = self.X * self.Y
        big = np.random.RandomState(rng.randrange(99)).randint(1, 80, (365, max(r.x2, 60), max(r.y2, 100))).astype(float)
        np.save('raw/SouthAmerica_2015_2015_1spd.npy', big)
        self.data = [[int(v) for v in big[:, self.x1 + i // self.Y, self.y1 + i % self.Y]] for i in range(self.n)]
        self.d = matrix_of(rng, self.n)
        np.save(self.md.distances_filename, np.array(self.d, dtype=float))


def program(main, *args):
    old = sys.argv
    sys.argv = ['x'] + [str(a) for a in args] + ['--log', 'WARN']
    try:
        return attempt(main)
    finally:
        sys.argv = old
        logging.disable(logging.CRITICAL)


def run_program(seed):
    '''the extraction program after a report of the suite'''
    from experiments.clustering import extraction_lstm
    from experiments.metadata.clustering import get_suite
    rng = random.Random(seed)
    ev = []
    with scratch(), quiet():
        w = Predefined(rng, 'nordeste_small_2015_2015_1spd')
        ev.append(dict(op='world', x0=w.x1, y0=w.y1, Y=w.Y))
        suite = get_suite('kmedoids', 'quick')
        suite.identifier = 'quick'
        report = [(cm, rng.sample(range(w.n), cm.k)) for cm in suite]
        if rng.random() < .7:
            write_report(suite, w.md, {repr(cm): [absolute(w, i) for i in cells] for cm, cells in report}, rng, 'outputs')
            ev.append(event(1, report))
        e = dict(op='produce', place=1, ok=0, good=0, rows=[])
        ok, _, e['error'] = program(extraction_lstm.processRequest, w.md, 'kmedoids', 'quick', 'min_distance', '--random', 5, '--random-seed', rng.randrange(9))
        if ok:
            def look():
                e.update(read(suite.medoid_series_csv_filepath('outputs', w.md, DistanceByDTW()), w, w.md, 'kmedoids', report))
                e['ok'] = 1
            attempt(look)
        ev.append(e)
    return dict(ev=ev, note=str(seed))
