'''Observes silhouette analyses.'''
import os
import random
import warnings
import numpy as np

from core import BAD
from obs import attempt, integer, ints, num, quiet, scratch
from kmedoids_driver import matrix_of
import matplotlib
matplotlib.use('Agg')
import matplotlib.figure
import matplotlib.pyplot as plt
from spta.clustering.factory import ClusteringFactory
from spta.clustering.regular import RegularClusteringMetadata
from spta.clustering.silhouette import SilhouetteAnalysis
from spta.clustering.suite import ClusteringSuite
from spta.distance.dtw import DistanceByDTW
from spta.region import Region
from spta.region.metadata import SpatioTemporalRegionMetadata


class Saved:
    '''records the figures saved instead of writing them'''

    def __enter__(self):
        self.figures = []
        self.old = matplotlib.figure.Figure.savefig
        me = self

        def savefig(fig, fname, *args, **kwargs):
            me.figures.append((os.path.basename(str(fname)), [a.get_title() for a in fig.axes]))
        matplotlib.figure.Figure.savefig = savefig
        return self

    def __exit__(self, *_):
        matplotlib.figure.Figure.savefig = self.old
        plt.close('all')

    def reports(self, name_of):
        out = []
        for fname, titles in self.figures:
            scores = [t.split('score=')[1] for t in titles if 'score=' in t]
            out.append([name_of(os.path.splitext(fname)[0]), num(scores[0], 1000) if len(scores) == 1 else BAD])
        return out


def place(names, name):
    return names.index(name) + 1 if name in names else BAD


def opposed(rng, labels):
    '''distances 0 between clusters and positive inside: the worst score'''
    n = len(labels)
    d = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            d[i][j] = d[j][i] = rng.randrange(1, 9) if labels[i] == labels[j] else 0
    return d


def measure(d=None):
    m = DistanceByDTW()
    if d is not None:
        m.distance_matrix = np.array(d, dtype=float)
    return m


def labels_of(partition):
    return ints(np.asarray(partition.numpy_dataset).ravel())


def regular(k, region):
    '''whether there is a regular partition of k rectangles (C09)'''
    n = region.shape[1] * region.shape[2]
    return attempt(lambda: ClusteringFactory(measure([[0] * n] * n)).instance(RegularClusteringMetadata(k)).partition(region))[0]


def run(seed):
    rng = random.Random(seed)
    ev = []
    with scratch(), quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        os.mkdir('raw')
        X, Y = rng.choice([(2, 2), (2, 3), (3, 3), (4, 2), (1, 6), (3, 4), (4, 4)])
        n = X * Y
        x1, y1 = rng.randrange(4), rng.randrange(4)
        md = SpatioTemporalRegionMetadata('sil', Region(x1, x1 + X, y1, y1 + Y), 2015, 2015, 1, scaled=rng.random() < .3)
        np.save('raw/SouthAmerica_2015_2015_1spd.npy', np.random.RandomState(rng.randrange(99)).randint(0, 50, (365, 9, 9)).astype(float))
        np.save(md.dataset_filename, np.load('raw/SouthAmerica_2015_2015_1spd.npy')[:, x1:x1 + X, y1:y1 + Y])
        kind = rng.choice(['kmedoids', 'kmedoids', 'regular'])
        if kind == 'regular':
            ks = [k for k in range(2, n) if regular(k, md.create_instance())]
            ks = rng.sample(ks, rng.randrange(1, len(ks) + 1)) if ks else []
            make = lambda ks=ks: ClusteringSuite('quick', 'regular', k=list(ks))
        else:
            ks = rng.sample(range(2, n), rng.randrange(1, min(4, n - 1)))
            seeds = rng.sample(range(9), rng.choice([1, 2]))
            mode = rng.choice(['lite', 'robust'])
            make = lambda ks=ks: ClusteringSuite('quick', 'kmedoids', k=list(ks), random_seed=list(seeds), mode=mode)
        if not ks:
            return dict(ev=[], note=str(seed))
        region = md.create_instance()
        mds = list(make())
        d = matrix_of(rng, n)
        if rng.random() < .15:
            d = [[int(i != j) for i in range(n)] for j in range(n)]
        if kind == 'regular' and rng.random() < .5:
            d = opposed(rng, labels_of(ClusteringFactory(measure(d)).instance(rng.choice(mds)).partition(region)))
        parts = [labels_of(ClusteringFactory(measure(d)).instance(m).partition(region, with_medoids=True)) for m in mds]
        names = [repr(m) for m in mds]
        if not all(1 < len(set(p)) < n for p in parts):
            return dict(ev=[], note=str(seed))
        ev.append(dict(op='suite', d=d, parts=parts))
        np.save(md.distances_filename, np.array(d, dtype=float))
        home = rng.choice([None, 'pickle', 'pickle'])
        if home and rng.random() < .5:      # partitions stored by an earlier program
            few = rng.sample(mds, rng.randrange(1, len(mds) + 1))
            for m in few:
                attempt(lambda: ClusteringFactory(measure(d)).instance(m).partition(region, with_medoids=True, pickle_home=home))
        for _ in range(rng.choice([1, 1, 2])):
            dm = measure(d) if rng.random() < .5 else measure()
            e = dict(op='analysis', ok=0, reports=[], named=0, best=BAD, labels=[], same=1)
            before = region.numpy_dataset.copy()

            def go():
                a = SilhouetteAnalysis(md, dm, make())
                best, algorithm = a.perform_analysis('outputs', home)
                e['best'] = num(best, 100000)
                e['named'] = 0 if algorithm is None else place(names, repr(algorithm.metadata))
                e['ok'] = 1
            with Saved() as s:
                _, _, e['error'] = attempt(go)
                e['reports'] = s.reports(lambda f: place(names, f[len('silhouette-'):]))
            e['same'] = int(np.array_equal(dm.distance_matrix, np.array(d, dtype=float)) if dm.distance_matrix is not None else 0)
            ev.append(e)
    return dict(ev=ev, note=str(seed))


def run_points(seed):
    '''the analysis of points that are not part of a data set'''
    from spta.kmedoids import kmedoids, silhouette
    from spta.region.temporal import SpatioTemporalRegion
    rng = random.Random(seed)
    ev = []
    with scratch(), quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        X, Y = rng.choice([(2, 2), (2, 3), (3, 3), (4, 2), (1, 6), (3, 4)])
        n = X * Y
        region = SpatioTemporalRegion(np.array([[[rng.randrange(9) for _ in range(Y)] for _ in range(X)] for _ in range(3)], dtype=float))
        d = matrix_of(rng, n)
        ks = rng.sample(range(2, n), rng.randrange(1, min(4, n - 1)))
        seeds = rng.sample(range(9), rng.choice([1, 2]))
        mode = rng.choice(['lite', 'robust'])
        init = rng.sample(range(n), max(ks)) if rng.random() < .4 else None
        keys = [(k, s) for s in seeds for k in ks]
        names = ['f_k{}_seed{}'.format(k, s) for k, s in keys]
        parts = []
        for k, s in keys:
            parts.append(ints(kmedoids.run_kmedoids(region.as_2d, k, measure(d), init[:k] if init else None, s, mode, 1000, .001, False).labels))
        if not all(1 < len(set(p)) < n for p in parts):
            return dict(ev=[], note=str(seed))
        ev.append(dict(op='suite', d=d, parts=parts))
        dm = measure(d)
        e = dict(op='analysis', ok=0, reports=[], named=0, best=BAD, labels=[], same=1)

        def go():
            m = silhouette.silhouette_default_metadata(k_values=ks, seed_values=seeds, kmedoids_mode=mode, distance_measure=dm,
                                                       initial_medoids=init, verbose=False, show_graphs=rng.random() < .5, save_graphs='f')
            k, s, _, labels = silhouette.do_silhouette_analysis(region, m)
            e['named'] = keys.index((k, s)) + 1 if (k, s) in keys else 0
            e['labels'] = ints(labels)
            e['ok'] = 1
        with Saved() as s:
            _, _, e['error'] = attempt(go)
            e['reports'] = s.reports(lambda f: place(names, f))
        e['same'] = int(np.array_equal(dm.distance_matrix, np.array(d, dtype=float)))
        ev.append(e)
    return dict(ev=ev, note=str(seed))


def run_program(seed):
    '''the program over the saved region and its saved distances'''
    import logging
    import sys
    from unittest import mock
    from experiments.clustering import silhouette as program
    from spta.kmedoids import kmedoids, silhouette
    rng = random.Random(seed)
    ev = []
    with scratch(), quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        os.mkdir('raw')
        X, Y = rng.choice([(2, 2), (2, 3), (3, 3), (4, 2), (1, 6), (3, 4)])
        n = X * Y
        x1, y1 = rng.randrange(4), rng.randrange(4)
        md = SpatioTemporalRegionMetadata('sil', Region(x1, x1 + X, y1, y1 + Y), 2015, 2015, 1, scaled=False)
        # constant series: all the distances are in the same proportion to the differences
        vals = np.random.RandomState(rng.randrange(999)).randint(0, rng.choice([6, 50]), (9, 9)).astype(float)
        np.save('raw/SouthAmerica_2015_2015_1spd.npy', np.repeat(vals[None], 365, axis=0))
        mine = [int(v) for v in vals[x1:x1 + X, y1:y1 + Y].ravel()]
        d = [[abs(a - b) for a in mine] for b in mine]
        ks = rng.sample(range(2, n), rng.randrange(1, min(4, n - 1)))
        seeds = rng.sample(range(9), rng.choice([1, 2]))
        mode = rng.choice(['lite', 'robust'])
        keys = [(k, s) for s in seeds for k in ks]
        names = ['sil_k{}_seed{}'.format(k, s) for k, s in keys]

        def command(name):
            # every command is a process of its own
            m = silhouette.silhouette_default_metadata(k_values=list(ks), seed_values=list(seeds), kmedoids_mode=mode, distance_measure=DistanceByDTW(),
                                                       verbose=False, plot_name='sil')
            records = []

            class Keep(logging.Handler):
                def emit(self, r):
                    records.append(r.getMessage())
            root, keep = logging.getLogger(), Keep()
            level, off = root.level, logging.root.manager.disable
            root.addHandler(keep)
            root.setLevel(logging.INFO)
            logging.disable(logging.NOTSET)
            try:
                with mock.patch.object(program, 'predefined_regions', lambda: dict(r=md)), \
                        mock.patch.object(program, 'silhouette_metadata_by_name', lambda name: m), \
                        mock.patch.object(sys, 'argv', ['silhouette', 'r', name]):
                    ok, _, err = attempt(program.processRequest)
            finally:
                root.removeHandler(keep)
                root.setLevel(level)
                logging.disable(off)
            return ok, records, err
        ok, _, err = command('save')
        ok2, _, err2 = command('distances')
        _, dm, err3 = attempt(lambda: np.load(md.distances_filename))
        near = dm is not None and np.shape(dm) == (n, n) and np.allclose(dm, np.array(d) * np.sqrt(365))
        ev.append(dict(op='prepared', ok=int(bool(ok and ok2 and near)), error='{} {} {}'.format(err, err2, err3)))
        if not near:
            return dict(ev=ev, note=str(seed))
        region = md.create_instance()
        parts = []
        for k, s in keys:
            parts.append(ints(kmedoids.run_kmedoids(region.as_2d, k, measure(dm), None, s, mode, 1000, .001, False).labels))
        if not all(1 < len(set(p)) < n for p in parts):
            return dict(ev=ev, note=str(seed))
        ev.append(dict(op='suite', d=d, parts=parts))
        e = dict(op='analysis', ok=0, reports=[], named=0, best=BAD, labels=[], same=1)
        with Saved() as saved:
            ok, records, e['error'] = command('kmedoids')
            e['reports'] = saved.reports(lambda f: place(names, f))

        def look():
            k, s = [int([t for t in records if t.startswith(start)][-1].split(':')[1]) for start in ('Best k:', 'Best seed:')]
            e['named'] = keys.index((k, s)) + 1 if (k, s) in keys else 0
        e['ok'] = int(ok and attempt(look)[0])
        e['same'] = int(np.array_equal(np.load(md.distances_filename), dm))
        ev.append(e)
    return dict(ev=ev, note=str(seed))
