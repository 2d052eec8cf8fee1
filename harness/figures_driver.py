'''Runs the programs that draw figures (C27, C28). Observed is what is on a figure at the moment it
is saved: colours of pixels, marks, rectangles, points, bars, texts and limits.'''
import arima_stub  # (first: replaces the ARIMA fitting)

import contextlib
import os
import random
import re
from unittest import mock
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.collections import PathCollection, PolyCollection
from matplotlib.container import BarContainer
from matplotlib.figure import Figure
from matplotlib.patches import Rectangle

from core import BAD
from obs import attempt, integer, mat, num, quiet, scratch
import analysis_driver as ad
import solver_world
from analysis_driver import AUTO, EXPS, PDQ, PDQ_EXPS, REGIONS, place
from programs_driver import launch
import experiments.metadata.silhouette as silhouette_md
from spta.clustering.factory import ClusteringFactory
from spta.distance.dtw import DistanceByDTW
from spta.distance.variance import DistanceHistogram
from spta.kmedoids.silhouette import silhouette_default_metadata
from spta.region import Point


class Colours:
    '''colours of a figure as numbers'''
    def __init__(self):
        self.known = {}

    def of(self, rgba):
        c = tuple(int(round(float(v) * 255)) for v in rgba[:3])
        return self.known.setdefault(c, len(self.known))


def two(v):
    return num(float(v), 2)


def thousand(v):
    return num(float(v), 1000)


def image(ax, colours):
    '''the pixels of the one image, pixel (i, j) being at (x=j, y=i) of the axes'''
    if len(ax.images) != 1:
        return []
    im = ax.images[0]
    a = np.asarray(im.get_array())
    h, w = a.shape[:2]
    x0, x1, y0, y1 = im.get_extent()
    if sorted([x0, x1]) != [-.5, w - .5] or sorted([y0, y1]) != [-.5, h - .5]:
        return []
    if a.ndim == 3:
        return [[colours.of(c) for c in row] for row in a.tolist()]
    return [[thousand(v) for v in row] for row in a.tolist()]


def poly(coll, colours):
    '''the values of a filled curve x(y), in the order of y'''
    ys = {}
    for path in coll.get_paths():
        for x, y in path.vertices.tolist():
            ys.setdefault(round(y, 6), []).append(x)
    return dict(col=colours.of(coll.get_facecolor()[0]), lo=two(min(ys)), hi=two(max(ys)),
                v=[thousand(max(xs, key=abs)) for y, xs in sorted(ys.items())])


def bars(c):
    ps = list(c.patches)
    e = [p.get_x() for p in ps] + [ps[-1].get_x() + ps[-1].get_width()]
    h = [p.get_height() for p in ps]
    # (the bars of equal values reach .5 beyond them)
    one = sum(1 for v in h if v) == 1 and abs(e[-1] - e[0] - 1) < 1e-6
    return dict(rnd=int('random' in (str(c.get_label()), str(ps[0].get_label()))), e=[thousand(v) for v in e], h=[num(v, 1) for v in h],
                low=thousand((e[0] + e[-1]) / 2 if one else e[-1]), top=thousand(e[-1]))


def axes_of(ax, colours):
    inside = {id(p) for c in ax.containers if isinstance(c, BarContainer) for p in c.patches}
    ss = ax.get_subplotspec()
    img = image(ax, colours)
    return dict(row=ss.rowspan.start, col=ss.colspan.start, rows=ss.get_gridspec().nrows, cols=ss.get_gridspec().ncols, title=ax.get_title(), img=img,
                lines=[dict(xy=l.get_xydata().tolist(), col=colours.of(matplotlib.colors.to_rgba(l.get_color())), marker=str(l.get_marker())) for l in ax.lines] +
                [dict(xy=np.asarray(c.get_offsets()).tolist(), col=colours.of(c.get_facecolor()[0]), marker='') for c in ax.collections if isinstance(c, PathCollection)],
                rects=[[two(v) for v in (p.get_x(), p.get_y(), p.get_width(), p.get_height())] for p in ax.patches if isinstance(p, Rectangle) and id(p) not in inside],
                bars=[bars(c) for c in ax.containers if isinstance(c, BarContainer)],
                polys=[poly(c, colours) for c in ax.collections if isinstance(c, PolyCollection)],
                texts=[(t.get_text(), t.get_position()) for t in ax.texts], xlim=[thousand(v) for v in ax.get_xlim()])


@contextlib.contextmanager
def saved(windows, render=True):
    '''the figures that are saved: [(file, axes)]. With windows, showing figures waits until they are closed.'''
    out = []
    real = Figure.savefig

    def savefig(self, fname, *args, **kwargs):
        colours = Colours()
        out.append((str(fname), [axes_of(a, colours) for a in self.axes]))
        if render:
            return real(self, fname, *args, **kwargs)
        open(fname, 'w').close()

    def show(*args, **kwargs):
        if windows:
            plt.close('all')
    plt.close('all')
    with mock.patch.object(Figure, 'savefig', savefig), mock.patch.object(plt, 'show', show):
        try:
            yield out
        finally:
            plt.close('all')


def silhouette_figure(axes):
    left, right = axes
    vertical = [l for l in right['lines'] if len({x for x, _ in l['xy']}) == 1]
    score = re.search(r'score\s*=\s*(\S+)', right['title'])
    return dict(img=left['img'], polys=right['polys'], avg=[thousand(l['xy'][0][0]) for l in vertical], score=thousand(score.group(1)),
                tags=[[integer(int(t)), two(y)] for t, (_, y) in right['texts'] if t.isdigit()])


def panel(a):
    st = {}
    for t, _ in a['texts']:
        for m in re.finditer(r'^\s*(\S+)\s*=\s*(\S+)\s*$', t, re.M):
            st[m.group(1)] = m.group(2)

    def value(*names, whole=False):
        for n in names:
            if n in st:
                return integer(int(st[n])) if whole else thousand(st[n])
        return -1
    return dict(row=a['row'], col=a['col'], n=value('n', whole=True), min=value('min'), max=value('max'), mean=value('x̅'), dev=value('s'), med=value('M'),
                rand=value('#rand', whole=True), both=value('∩rand', whole=True), hists=a['bars'], xlim=a['xlim'])


def areas(n):
    return [(i, j) for i in range(n) for j in range(i + 1, n + 1)]


class Figures(ad.Analyses):
    def __init__(self, seed):
        super().__init__(seed)
        self.files = {}
        self.keys = {}
        self.windows = self.rng.random() < .5
        self.render = self.rng.random() < .25

    def drawn(self, module, args):
        '''(succeeded, error, figures)'''
        with saved(self.windows, self.render) as figs:
            ok, _, err = launch(module, args)
        for f, _ in figs:
            ok = ok and os.path.isfile(f)
        return ok, err, figs

    def event(self, e, module, args, look):
        ok, e['error'], figs = self.drawn(module, args)
        if ok:
            a, _, x = attempt(lambda: look(figs))
            if not a:
                e['error'] = 'unreadable ' + x
            e['ok'] = int(a)
        self.ev.append(e)

    # ---- the area of a query over a partition
    def confusable(self, area):
        '''areas whose numbers read the same as those of this one, without one of the separators'''
        out = []
        for s in self.rng.sample(range(3), 3):
            def read(a):
                return [''.join(('' if i == s + 1 else '-') + str(v) for i, v in enumerate(a))]
            out = out or [list(x + y) for x in areas(self.w.X) for y in areas(self.w.Y) if read(x + y) == read(area) and list(x + y) != area]
        return out

    def near(self, q):
        '''a query of which one thing is different, or the numbers of the area read the same without a separator'''
        rng, w = self.rng, self.w
        sid, ci, area, solver, name = q
        same = self.confusable(area)
        one = [list(x + y) for x in areas(w.X) for y in areas(w.Y) if sum(a != b for a, b in zip(x + y, area)) == 1]
        u = rng.random()
        if same and u < .5:
            area = rng.choice(same)
        elif one and u < .8:
            area = rng.choice(one)
        else:
            ci = rng.randrange(len(self.known[sid - 1]['cm']))
        return sid, ci, area, solver, name

    def query(self, sid, key):
        rng, w = self.rng, self.w
        ci = rng.randrange(len(self.known[sid - 1]['cm']))
        x1, y1 = rng.randrange(w.X), rng.randrange(w.Y)
        area = [x1, rng.randrange(x1 + 1, w.X + 1), y1, rng.randrange(y1 + 1, w.Y + 1)]
        if rng.random() < .3:
            area = [rng.randrange(min(2, w.X)), w.X, rng.randrange(min(2, w.Y)), w.Y]
        if w.X > 10 and w.Y > 10:       # (rows up to 1 and columns from 10 read like rows up to 11 and columns from 0)
            area = [0, 1, rng.choice([10, w.Y - 1]), w.Y] if rng.random() < .5 else [rng.randrange(9), 11, rng.randrange(2), w.Y]
        q = sid, ci, area, rng.randrange(3 if w.n < 10 else 2 if w.n < 40 else 1), rng.choice([n for n in sorted(AUTO) if AUTO[n].start_q == 0])
        self.ask(key, q)
        for _ in range(rng.choice([0, 1, 2] if w.n < 10 else [2, 3])):
            q = self.near(q)
            self.ask(key, q)

    def ask(self, key, q):
        rng = self.rng
        sid, ci, area, solver, name = q
        k = self.known[sid - 1]
        cm = k['cm'][ci]
        kind = k['s']['kind']
        module, pos, opts = [('experiments.baseline.solver_mean_past', [key, kind], ['--test', 8]), ('experiments.baseline.solver_knn_medoids', [key, kind, 1], ['--test', 8]),
                             ('experiments.auto_arima.solver', [key, name, kind], ['--tp', 8])][solver]
        options = ['-k', cm.k] + (['--seed', cm.random_seed] if kind == 'kmedoids' else []) + opts
        e = dict(op='map', sid=sid, ci=ci + 1, scaled=int(REGIONS[key].scaled), area=area, ok=0, n=0, img=[], marks=[], rects=[], corners=[], file=0, key=0)
        key_ = (module, tuple(map(str, pos)), repr(cm), tuple(area))
        with saved(False, False):
            ok, _, err = launch(module, ['train'] + pos + options)
        if not ok:
            self.ev.append(dict(e, error=err))
            return

        def look(figs):
            e['n'] = len(figs)
            f, (a,) = figs[0]
            e['img'] = a['img']
            e['marks'] = [[two(x), two(y), l['col']] for l in a['lines'] for x, y in l['xy']]
            e['rects'] = a['rects']
            v = [int(x) for x in re.findall(r'-?\d+', a['title'].split('Region')[-1])]
            e['corners'] = [v[i:i + 2] for i in range(0, len(v), 2)]
            e['file'] = self.files.setdefault(os.path.normpath(f), len(self.files) + 1)
            e['key'] = self.keys.setdefault(key_, len(self.keys) + 1)
        self.event(e, module, ['predict'] + pos + area + options, look)

    # ---- silhouettes of a suite
    def silhouettes(self, sid, key):
        k = self.known[sid - 1]
        e = dict(op='sil', sid=sid, scaled=int(REGIONS[key].scaled), ok=0, figs=[])

        def look(figs):
            e['figs'] = [dict(silhouette_figure(axes), c=place(f, k['names'])) for f, axes in figs]
        self.event(e, 'experiments.clustering.partition_analysis', self.shuffled([key, k['s']['kind'], k['name']], [['--silhouette']]), look)

    def legacy_silhouettes(self, key):
        rng = self.rng
        ks, seeds = rng.sample(range(2, self.w.n), min(2, self.w.n - 2)), rng.sample(range(3), rng.choice([1, 2]))
        silhouette_md.silhouette_metadata_by_name = lambda name: silhouette_default_metadata(k_values=ks, seed_values=seeds, plot_name=name, distance_measure=DistanceByDTW())
        e = dict(op='legacy', scaled=int(REGIONS[key].scaled), ks=ks, seeds=seeds, ok=0, figs=[])
        np.save(REGIONS[key].dataset_filename, REGIONS[key].create_instance().as_numpy)

        def look(figs):
            for f, axes in figs:
                m = re.search(r'_k(\d+)_seed(\d+)\.', f)
                e['figs'].append(dict(silhouette_figure(axes), k=int(m.group(1)), seed=int(m.group(2))))
        self.event(e, 'experiments.clustering.silhouette', [key, 'kmedoids'], look)

    # ---- distances to the first cell and to the cell at the centre
    def distances(self, key, legacy):
        e = dict(op='dist', scaled=int(REGIONS[key].scaled), ok=0, figs=[])
        if legacy:
            silhouette_md.silhouette_metadata_by_name = lambda name: silhouette_default_metadata(k_values=[2], seed_values=[0], plot_name=name, distance_measure=DistanceByDTW())
            np.save(REGIONS[key].dataset_filename, REGIONS[key].create_instance().as_numpy)

        def look(figs):
            for f, (a,) in figs:
                f = os.path.basename(f)
                e['figs'].append(dict(at=0 if f.startswith('distances_0_0_') else 1 if f.startswith('distances_center_') else BAD,
                                      name=int(REGIONS[key].name in f.replace('distances', '').replace('center', '')), m=a['img']))
        if legacy:
            self.event(e, 'experiments.clustering.silhouette', [key, 'show_distances'], look)
            return
        md = REGIONS[key]
        args = [key, 'dtw', '--plots'] + (['--parallel', 2] if self.rng.random() < .3 else [])
        os.remove(md.distances_filename)
        lib = mat(DistanceByDTW().compute_distance_matrix(md.create_instance()), 1000)
        got = []
        self.event(e, 'experiments.region.distance', args, lambda figs: (look(figs), got.append(self.matrix(key))))
        self.ev.insert(len(self.ev) - 1, dict(op='measure', scaled=int(md.scaled), ok=len(got), m=got[0] if got else [], lib=lib))

    # ---- distances against errors
    def scatter(self, prog, sid, key):
        k = self.known[sid - 1]
        rng = self.rng
        _, _, e = self.request(prog, sid, key)
        module, args, e = self.request(prog, sid, key)
        e['op'], e['figs'] = 'scatter', []

        def look(figs):
            for f, (a,) in figs:
                base = os.path.basename(f)
                m = re.search(r'cluster(\d+)', base)
                pdq = re.search(r'arima-p(\w+)-d(\w+)-q(\w+)\.', base)
                pts = [p for l in a['lines'] for p in l['xy']]
                e['figs'].append(dict(c=place(base, k['names']), i=int(m.group(1)), pdq=[int(x) for x in pdq.groups()] if prog == 'summary-pdq' else [],
                                      pts=[[thousand(x), thousand(y)] for x, y in pts]))
            e['distinct'] = len({f for f, _ in figs})
        e['distinct'] = 0
        self.event(e, module, args + ['--plots'] if rng.random() < .5 else ['--plots'] + args, look)

    # ---- variance
    def bins(self):
        return self.rng.choice([[], [], ['--bins', 'auto'], ['--bins', 'sturges'], ['--bins', 'sqrt'], ['--bins', 'fd'], ['--bins', '3'], ['--bins', '1'], ['--bins', '10']])

    def variance(self, sid, key):
        rng = self.rng
        k = self.known[sid - 1]
        n = rng.choice([-1, 0, 0, 1, 2, 3, 5, 100])
        e = dict(op='var', sid=sid, scaled=int(REGIONS[key].scaled), random=n, ok=0, figs=[])

        def look(figs):
            for f, axes in figs:
                base = os.path.basename(f)
                m = re.search(r'random(\d+)', base)
                e['figs'].append(dict(c=place(base, k['names']), rnd=int(m.group(1)) if m else -1, rows=axes[0]['rows'], cols=axes[0]['cols'], panels=[panel(a) for a in axes]))
        opts = [['--variance'], self.bins()] + ([['--random', n]] if n >= 0 else [])
        np.random.seed(rng.randrange(10**6))
        self.event(e, 'experiments.clustering.partition_analysis', self.shuffled([key, k['s']['kind'], k['name']], opts), look)

    def whole(self, key):
        '''distances of all cells to a chosen one'''
        rng, w = self.rng, self.w
        i = rng.randrange(w.n)
        e = dict(op='whole', scaled=int(REGIONS[key].scaled), p=i + 1, ok=0, figs=[])
        b = (self.bins() or [0, 'auto'])[1]

        def go():
            r = REGIONS[key].create_instance()
            r.centroid = Point(i // w.Y, i % w.Y)
            measure = DistanceByDTW()
            measure.load_distance_matrix_md(REGIONS[key])
            with saved(self.windows, self.render) as figs:
                DistanceHistogram.histogram_to_centroid(r, measure, bins=int(b) if b.isdigit() else b, plot_name='whole.pdf')
            assert os.path.isfile('whole.pdf')
            e['figs'] = [panel(a) for _, axes in figs for a in axes]
            e['ok'] = 1
        _, _, e['error'] = attempt(go)
        self.ev.append(e)


class WideFigures(Figures):
    SHAPES = [(11, 12), (12, 11), (4, 6), (6, 4), (1, 14), (3, 9), (7, 5)]

    def world(self, shape):
        def varied(*args):
            while True:
                s = make_series(*args)
                if len(set(s)) > 1:
                    return s
        make_series = solver_world.make_series
        with mock.patch.object(solver_world, 'make_series', varied):
            return super().world(shape)


def run_wide(seed):
    '''regions with more rows, columns and clusters than one digit can say'''
    with scratch(), quiet():
        a = WideFigures(seed)
        rng, w = a.rng, a.w
        ids = []
        while not ids:
            i = a.suite('regular', sorted(rng.sample([2, 3, 4, 6, 9, 12, 16], 2)))
            if i:
                ids.append(i)
        if w.n > 40:
            for _ in range(2):
                a.query(ids[0], rng.choice(['r', 'rs']))
        else:
            while len(ids) < 2:
                i = a.suite('kmedoids', [rng.randrange(11, 14)])
                if i:
                    ids.append(i)
            a.silhouettes(ids[1], rng.choice(['r', 'rs']))
            for _ in range(2):
                key = rng.choice(['r', 'rs'])
                u = rng.random()
                if u < .4:
                    a.query(rng.choice(ids), key)
                elif u < .7:
                    a.silhouettes(rng.choice(ids), key)
                else:
                    a.distances(key, True)
    return dict(ev=a.ev, note=str(seed))


def run(seed):
    if random.Random(str(seed) + 'w').random() < .12:
        return run_wide(seed)
    with scratch(), quiet():
        a = Figures(seed)
        rng = a.rng
        if rng.random() < .15:
            a.distances(rng.choice(['r', 'rs']), False)
        kind = rng.choice(['kmedoids', 'kmedoids', 'regular'])
        sid = None
        while sid is None:
            sid = a.suite(kind)
        other = None
        while other is None:
            other = a.suite('kmedoids', rng.sample(range(2, min(a.w.n, 7)), min(2, min(a.w.n, 7) - 2)))
        for _ in range(rng.randrange(5, 8)):
            u = rng.random()
            key = rng.choice(['r', 'rs'])
            if u < .35:
                a.query(rng.choice([sid, other]), key)
            elif u < .5:
                a.silhouettes(other, key)
            elif u < .8:
                a.scatter(rng.choice(['members', 'summary', 'summary-pdq']), rng.choice([sid, other]), key)
            elif u < .87:
                a.legacy_silhouettes(key)
            else:
                a.distances(key, True)
    return dict(ev=a.ev, note=str(seed))


def run_variance(seed):
    with scratch(), quiet():
        a = Figures(seed)
        rng = a.rng
        if rng.random() < .4:
            a.measure('r')
            a.measure('rs')
        ids = []
        while len(ids) < 2:
            kind = rng.choice(['kmedoids', 'kmedoids', 'regular'])
            i = a.suite(kind, None if kind == 'regular' else rng.sample(range(2, a.w.n + 1), min(2, a.w.n - 1)))
            if i:
                ids.append(i)
        for _ in range(rng.randrange(5, 8)):
            key = rng.choice(['r', 'rs'])
            if rng.random() < .85:
                a.variance(rng.choice(ids), key)
            else:
                a.whole(key)
    return dict(ev=a.ev, note=str(seed))
