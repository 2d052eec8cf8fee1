'''Observes the choice of medoids for points and the tables made of them (C18, C24).'''
import csv
import math
import os
import random
import numpy as np

from core import BAD, INF, NAN
from obs import attempt, integer, ints, num, pt, pts, quiet, scratch
from solver_world import HashParams, World
from spta.classifier.train_input import MedoidSeriesFormatter, MedoidsChoiceMinDistance, MedoidsChoiceMinPredictionError, TrainDataWithRandomPoints
from spta.clustering.factory import ClusteringFactory
from spta.clustering.kmedoids import KmedoidsClusteringMetadata
from spta.clustering.regular import RegularClusteringMetadata
from spta.clustering.suite import ClusteringSuite
from spta.distance.dtw import DistanceByDTW, DistanceBySpatialDTW
from spta.region import Point, Region
from spta.solver.metadata import SolverMetadataBuilder
from spta.solver.model import SolverPickler
from spta.util.maths import random_integers_with_blacklist


def absolute(w, i):
    '''place of the cell i = 0.. of the region in the data set'''
    return Point(w.x1 + i // w.Y, w.y1 + i % w.Y)


def relative(w, i):
    return Point(i // w.Y, i % w.Y)


def history(h, names):
    out = []
    for key, n in h.items():
        try:
            out.append([names.index(key[0]) + 1 if key[0] in names else BAD, integer(key[1]) + 1, integer(n)])
        except Exception:
            out.append([BAD, BAD, BAD])
    return sorted(out)


def choose(strategy, result, point, limit, h):
    # the options of the error criterion are given to every strategy by the program
    return strategy.choose_medoid(result, point, limit, h)


class Chooser:
    '''several records of uses, one or more strategy objects over the same suite'''

    def __init__(self, rng, w, result, ev):
        self.rng, self.w, self.result, self.ev = rng, w, result, ev
        self.names = list(result)
        self.records = []
        self.copy = {k: list(v) for k, v in result.items()}

    def record(self, limit, used=()):
        h = {(self.names[c], i): n for c, i, n in used}
        self.records.append((h, limit))
        self.ev.append(dict(op='record', limit=limit, used=history(h, self.names)))
        return len(self.records)

    def ask(self, strategy, hid, cell, scores=None, unchanged=lambda: True):
        h, limit = self.records[hid - 1]
        e = dict(op='choose', hid=hid, p=cell + 1, ok=0, got=[0, 0], pt=[0, 0], hist=[], same=1, scores=scores if scores is not None else [])

        def go():
            r = choose(strategy, self.result, relative(self.w, cell), limit, h)
            e['got'] = [self.names.index(r[0]) + 1, integer(r[1]) + 1]
            e['pt'] = pt(r[2])
            e['ok'] = 1
        _, _, e['error'] = attempt(go)
        e['hist'] = history(h, self.names)
        e['same'] = int(unchanged() and self.result == self.copy and list(self.result) == self.names)
        self.ev.append(e)
        return e


def suite_of(rng, sizes):
    '''names of clusterings with these numbers of medoids'''
    return [repr(KmedoidsClusteringMetadata(k, random_seed=i, mode='lite')) for i, k in enumerate(sizes)]


def run_distances(item):
    seed, scenario = item
    rng = random.Random(seed)
    ev = []
    with scratch(), quiet():
        if scenario is not None:
            sizes, vectors, limit = scenario['sizes'], scenario['scores'], scenario['limit']
            nm, npts = sum(sizes), len(vectors)
            w = World(rng, rng.choice([(3, (nm + npts + 2) // 3), (nm + npts, 1), (1, nm + npts)]))
            cells = rng.sample(range(w.n), nm + npts)
            places, points = cells[:nm], cells[nm:]
            d = [[0] * w.n for _ in range(w.n)]
            for p, vec in zip(points, vectors):
                for m, v in zip(places, [v for row in vec for v in row]):
                    d[p][m] = d[m][p] = v
            at, groups = 0, []
            for k in sizes:
                groups.append(places[at:at + k])
                at += k
            order = list(points)
        else:
            w = World(rng)
            from kmedoids_driver import matrix_of
            d = matrix_of(rng, w.n)
            groups = [rng.sample(range(w.n), rng.randrange(1, min(w.n, 4) + 1)) for _ in range(rng.randrange(1, 5))]
            limit = rng.choice([0, 0, 1, 2, 3])
            order = [rng.randrange(w.n) for _ in range(rng.randrange(4, 16))]
        md = w.region('r', rng.random() < .5)
        # the stored distances are in the same order as d, in some unit and possibly close to each other
        base, unit = rng.choice([(0, 1), (0, 1), (1, 2.**-20), (0, 2.**-30), (1000, 2.**-10), (0, 2.**20)])
        stored = np.array([[base + v * unit if v else 0. for v in row] for row in d])
        np.save(md.distances_filename, stored)
        measure = DistanceByDTW()
        if rng.random() < .5:
            measure.distance_matrix = stored.astype(rng.choice([float, np.float32]))
        result = {name: [absolute(w, i) for i in g] for name, g in zip(suite_of(rng, [len(g) for g in groups]), groups)}
        ev.append(dict(op='suite', d=d, cells=[[i + 1 for i in g] for g in groups], x0=w.x1, y0=w.y1, Y=w.Y, n=w.n))
        c = Chooser(rng, w, result, ev)
        used = []
        if limit and rng.random() < .3:
            used = [(a, b, rng.randrange(1, limit + 1)) for a, g in enumerate(groups) for b in range(len(g)) if rng.random() < .3]
        first = c.record(limit, used)
        other = c.record(rng.choice([0, 1, 2]))
        strategies = [MedoidsChoiceMinDistance(md, measure) for _ in range(rng.choice([1, 2]))]

        def unchanged():
            return measure.distance_matrix is not None and np.array_equal(np.asarray(measure.distance_matrix, dtype=float), stored)
        for p in order:
            c.ask(rng.choice(strategies), first, p, unchanged=unchanged)
            if rng.random() < .25:
                c.ask(rng.choice(strategies), other, rng.choice(order), unchanged=unchanged)
    return dict(ev=ev, note=str(item))


def ranks(rows):
    '''scores as numbers in the same order'''
    values = sorted({v for row in rows for v in row if math.isfinite(v)})
    return [[NAN if math.isnan(v) else INF if math.isinf(v) else values.index(v) for v in row] for row in rows]


def solvers(rng, w, md, clusterings, fail):
    params = HashParams(rng.choice([0, 1, 5]), fail, rng.randrange(2))
    tl, err = rng.choice([1, 2, 5]), rng.choice(['MSE', 'MASE', 'sMAPE'])
    for cm in clusterings:
        w.trainer(md, cm, params, tl, err).train('out').save()
    return params, tl, err


def loaded(md, params, tl, err, cm):
    return SolverPickler(SolverMetadataBuilder(md, params, tl, err).with_clustering(cm, DistanceByDTW()).build()).load_solver()


def clusterings_of(rng, w):
    out, seen = [], set()
    for _ in range(rng.randrange(1, 4)):
        cm = w.clustering('kmedoids', rng.randrange(1, min(w.n, 4) + 1), rng.randrange(3))
        if repr(cm) not in seen:
            seen.add(repr(cm))
            out.append(cm)
    return out


def error_scores(w, md, params, tl, err, cms, cell, labels):
    rows = []
    p = relative(w, cell)
    for cm in cms:
        s = loaded(md, params, tl, err, cm)
        e = float(s.predict(Region(p.x, p.x + 1, p.y, p.y + 1), 0, 'out', plot=False).prediction_error_at(Point(0, 0)))
        k = cm.k
        rows.append([e if i == labels[repr(cm)][cell] else math.inf for i in range(k)])
    return rows


def prepared(rng, w, md):
    '''stored solvers of a suite, and the partitions they use'''
    cms = clusterings_of(rng, w)
    params, tl, err = solvers(rng, w, md, cms, rng.choice([0, 2, 3]))
    labels, result, cells = {}, {}, []
    for cm in cms:
        part = ClusteringFactory(DistanceByDTW()).instance(cm).partition(md.create_instance(), with_medoids=True)
        labels[repr(cm)] = [int(v) for v in np.asarray(part.numpy_dataset).ravel().tolist()]
        idx = [int(m.x * w.Y + m.y) for m in part.medoids]
        cells.append([i + 1 for i in idx])
        result[repr(cm)] = [absolute(w, i) for i in idx]
    return cms, params, tl, err, labels, result, cells


def run_errors(seed):
    rng = random.Random(seed)
    ev = []
    with scratch(), quiet():
        w = World(rng)
        md = w.region('r', rng.random() < .5)
        cms, params, tl, err, labels, result, cells = prepared(rng, w, md)
        ev.append(dict(op='suite', d=[], cells=cells, x0=w.x1, y0=w.y1, Y=w.Y, n=w.n))
        missing = None
        if rng.random() < .15:
            # a clustering whose solver was never stored
            cm = w.clustering('kmedoids', rng.randrange(1, min(w.n, 4) + 1), 7)
            missing = repr(cm)
        c = Chooser(rng, w, result, ev)
        hids = [c.record(rng.choice([0, 1, 2])) for _ in range(2)]
        strategy = MedoidsChoiceMinPredictionError(md, DistanceByDTW(), 'out', params, tl, err)
        for _ in range(rng.randrange(4, 9)):
            cell = rng.randrange(w.n)
            c.ask(strategy, rng.choice(hids), cell, ranks(error_scores(w, md, params, tl, err, cms, cell, labels)))
        if missing:
            h = {}
            ok, _, e = attempt(lambda: choose(strategy, dict(result, **{missing: [absolute(w, 0)]}), relative(w, 0), 0, h))
            ev.append(dict(op='missing', ok=int(ok), hist=[1] * len(h)))
    return dict(ev=ev, note=str(seed))


def write_report(suite, md, result, rng, home):
    '''the way the analysis of a suite writes its report'''
    path = suite.analysis_csv_filepath(home, md, DistanceByDTW())
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', newline='') as f:
        wr = csv.writer(f, delimiter=' ', quotechar='|', quoting=csv.QUOTE_MINIMAL)
        wr.writerow(['clustering', 'total_cost', 'medoids'])
        for name, meds in result.items():
            wr.writerow([name, '{:0.3f}'.format(rng.random() * 1000), ''.join('({},{}) '.format(m.x, m.y) for m in meds)])


def expected_series(w, i, scaled):
    '''the series of a cell as the table shows it, from the raw data'''
    s = w.data[i]
    lo, hi = min(s), max(s)
    vals = [(v - lo) / (hi - lo) if hi > lo else 0.0 for v in s] if scaled else s
    return ['{:0.3f}'.format(v) for v in vals]


def read_table(path, w, md, names, expected, kind='kmedoids'):
    with open(path, newline='') as f:
        table = list(csv.reader(f, delimiter=' ', quotechar='|'))
    head, rows = table[0], []
    L = len(expected[0])
    cols = ['type', 'k', 'seed', 'mode'] if kind == 'kmedoids' else ['type', 'k']
    good = int(head == ['region_id'] + cols + ['cluster_index', 'medoid_x', 'medoid_y'] + ['s{}'.format(i) for i in range(L)])
    for cells in table[1:]:
        c = dict(zip(head, cells))
        name = '{}_k{}_seed{}_{}'.format(*[c.get(x) for x in cols]) if kind == 'kmedoids' else '{}_k{}'.format(c.get('type'), c.get('k'))
        got = cells[-L:]
        rows.append(dict(region=int(c.get('region_id') == repr(md) and len(cells) == len(head)), c=names.index(name) + 1 if name in names else BAD,
                         i=integer(int(c['cluster_index'])) + 1, x=integer(int(c['medoid_x'])), y=integer(int(c['medoid_y'])),
                         p=next((i + 1 for i, s in enumerate(expected) if s == got), BAD)))
    return good, rows


def read_history(path, names):
    with open(path, newline='') as f:
        table = list(csv.reader(f, delimiter=' ', quotechar='|'))
    return int(table[0] == ['clustering_repr', 'cluster_index', 'count']), sorted(
        [names.index(r[0]) + 1 if r[0] in names else BAD, int(r[1]) + 1, int(r[2])] for r in table[1:])


def distinct_world(rng, shape=None):
    while True:
        w = World(rng, shape)
        if all(len(set(s)) > 1 for s in w.data) and all(len({tuple(expected_series(w, i, sc)) for i in range(w.n)}) == w.n for sc in (False, True)):
            return w


def run_table(seed):
    '''random points of a region with their medoids'''
    rng = random.Random(seed)
    ev = []
    with scratch(), quiet():
        w = distinct_world(rng, rng.choice([(3, 3), (4, 3), (3, 5), (2, 7), (1, 8)]))
        md = w.region('r', rng.random() < .5)
        criterion = rng.choice(['min_distance', 'min_distance', 'min_error'])
        measure = DistanceByDTW()
        if criterion == 'min_error':
            cms, params, tl, err, labels, result, cells = prepared(rng, w, md)
        else:
            params, tl, err, labels, cms = HashParams(0, 0, 0), 8, 'MSE', None, None
            groups = [rng.sample(range(w.n), rng.randrange(1, 4)) for _ in range(rng.randrange(1, 4))]
            result = {name: [absolute(w, i) for i in g] for name, g in zip(suite_of(rng, [len(g) for g in groups]), groups)}
            cells = [[i + 1 for i in g] for g in groups]
        names = list(result)
        home = rng.choice(['outputs', 'deep/er'])
        suite = ClusteringSuite(rng.choice(['quick', 'other']), 'kmedoids', k=[2, 3], random_seed=[0, 1])
        write_report(suite, md, result, rng, home)
        d = [[int(v) for v in row] for row in np.load(md.distances_filename).tolist()]
        ev.append(dict(op='suite', d=d if criterion == 'min_distance' else [], cells=cells, x0=w.x1, y0=w.y1, Y=w.Y, n=w.n))
        expected = [expected_series(w, i, md.scaled) for i in range(w.n)]
        free = w.n - len({i for g in cells for i in g})
        for _ in range(3):
            count = rng.choice([1, 2, 3, free, free, free + 1, max(1, free - 1)])
            limit = rng.choice([0, 0, 1, 2])
            rs = rng.randrange(50)
            e = dict(op='table', count=count, limit=limit, ok=0, good=0, rows=[], hist=[], again=1, scores=[])

            def once():
                t = TrainDataWithRandomPoints(md, measure if rng.random() < .7 else DistanceByDTW())
                t.evaluate_score_of_random_points(clustering_suite=suite, count=count, random_seed=rs, criterion=criterion, threshold=limit,
                                                  output_home=home, model_params=params, test_len=tl, error_type=err)
                a, b = t.get_choice_strategy(criterion, home, model_params=params, test_len=tl, error_type=err).csv_filepaths(
                    output_home=home, clustering_suite=suite, count=count, random_seed=rs)
                good, rows = read_table(a, w, md, names, expected)
                goodh, h = read_history(b, names)
                return good and goodh, rows, h

            def go():
                e['good'], e['rows'], e['hist'] = once()
                e['ok'] = 1
                np.random.seed(rng.randrange(1000))
                e['again'] = int(once()[1:] == (e['rows'], e['hist']))
                if criterion == 'min_error':
                    e['scores'] = [ranks(error_scores(w, md, params, tl, err, cms, r['p'] - 1, labels)) if 0 < r['p'] <= w.n else [] for r in e['rows']]
            _, _, e['error'] = attempt(go)
            if criterion == 'min_error' and not e['ok'] and count <= free:
                continue        # undefined errors may leave a point without any medoid
            ev.append(e)
    return dict(ev=ev, note=str(seed))


def run_sampling(seed):
    rng = random.Random(seed)
    ev = []
    with scratch(), quiet():
        for _ in range(6):
            lo = rng.randrange(-3, 6)
            hi = lo + rng.choice([0, 1, 3, 8, 40])
            black = [rng.randrange(lo - 2, hi + 3) for _ in range(rng.randrange(0, 8))]
            free = len(set(range(lo, hi + 1)) - set(black))
            n = rng.choice([free, free, max(0, free - 1), free + 1, rng.randrange(0, free + 1)])
            given = list(black)
            ok, r, err = attempt(lambda: random_integers_with_blacklist(n, lo, hi, given))
            ev.append(dict(op='integers', n=n, lo=lo, hi=hi, black=black, ok=int(ok), out=ints(r) if ok else [], same=int(given == black)))
        w = World(rng)
        md = w.region('r', False)
        t = TrainDataWithRandomPoints(md, DistanceByDTW())
        for _ in range(4):
            X, Y = rng.randrange(1, 6), rng.randrange(1, 7)
            med = rng.sample(range(X * Y), rng.randrange(0, X * Y))
            med += rng.sample(med, len(med) // 3)
            free = X * Y - len(set(med))
            n = rng.choice([free, free, max(1, free - 1), free + 1])
            rs = rng.randrange(100)

            def once():
                return pts(t.get_random_points_different_to_medoids(n, rs, med, X, Y))
            ok, r, err = attempt(once)
            np.random.seed(rng.randrange(100))
            ok2, again, _ = attempt(once)
            ev.append(dict(op='points', n=n, X=X, Y=Y, med=med, ok=int(ok), out=r if ok else [], again=int(ok == ok2 and r == again)))
    return dict(ev=ev, note=str(seed))
