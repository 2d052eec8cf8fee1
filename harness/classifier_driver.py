'''Observes classifier-driven solvers (C21).'''
import csv
import os
import re
import warnings
from unittest import mock
import numpy as np

from core import BAD
from obs import attempt, integer, num, nums, quiet, scratch
from solver_driver import Session, changed, numbers, snapshot
from solver_world import U
import spta.classifier.model
from spta.classifier.model import SolverFromClassifier
from spta.clustering.suite import ClusteringSuite
from spta.region import Region
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.solver.model import SolverPickler


def parsed(label):
    try:
        k, s, c = str(label).split('-')
        return [int(k), int(s), int(c)]
    except ValueError:
        return [BAD, BAD, BAD]


class Classifier:
    '''answers with labels that depend on the series and on the query; remembers what it was given'''
    current = None

    def __init__(self, params):
        self.params = params
        Classifier.made.append(params)

    def label_for_series(self, series):
        v = nums(np.asarray(series).ravel(), U)
        q = Classifier.current
        i = (sum((j + 1) * x for j, x in enumerate(v)) * 7 + q['salt']) % 9973
        label = q['labels'][i % len(q['labels'])]
        q['calls'].append(dict(s=v, l=parsed(label)))
        return label


class Loads:
    '''counts the solvers loaded'''

    def __enter__(self):
        self.loads = []
        me = self
        init, load = SolverPickler.__init__, SolverPickler.load_solver

        def new_init(this, solver_metadata, *a, **k):
            this.verif_clustering = solver_metadata.clustering_metadata
            return init(this, solver_metadata, *a, **k)

        def new_load(this, *a, **k):
            r = load(this, *a, **k)
            me.loads.append([integer(this.verif_clustering.k), integer(this.verif_clustering.random_seed)])
            return r
        self.patches = [mock.patch.object(SolverPickler, '__init__', new_init), mock.patch.object(SolverPickler, 'load_solver', new_load)]
        for p in self.patches:
            p.start()
        return self

    def __exit__(self, *_):
        for p in self.patches:
            p.stop()


class ClassifierSession(Session):
    def __init__(self, seed, shape=None):
        super(ClassifierSession, self).__init__(seed, 'classifier', shape)
        rng, w = self.rng, self.world
        self.solvers = []
        self.targets = []
        Classifier.made = []
        self.answers = []
        # regions a query may name instead of the own one
        for name in ('other', 'another'):
            if rng.random() < .5:
                scaled = rng.random() < .5
                md = SpatioTemporalRegionMetadata(name, Region(w.x1, w.x1 + w.X, w.y1, w.y1 + w.Y), w.YEAR, w.YEAR, 1, scaled=scaled)
                cut = w.big[:, w.x1:w.x1 + w.X, w.y1:w.y1 + w.Y]
            else:
                scaled = False
                dx, dy = rng.randrange(3), rng.randrange(3)
                md = SpatioTemporalRegionMetadata(name, Region(w.x1 + dx, w.x1 + dx + w.X, w.y1 + dy, w.y1 + dy + w.Y), w.YEAR, w.YEAR, 1, scaled=False)
                cut = w.big[:, w.x1 + dx:w.x1 + dx + w.X, w.y1 + dy:w.y1 + dy + w.Y]
            self.targets.append(md)
            self.ev.append(dict(op='target', data=[[int(v) for v in cut[:, i // w.Y, i % w.Y]] for i in range(w.n)], scaled=int(scaled)))

    def classifier(self, q, ident):
        '''a classifier-driven solver; the clustering of q does not matter'''
        md, _ = self.parts(q)
        params, trainer = self.params(q)
        suite = ClusteringSuite(ident, 'kmedoids', k=[2, 3], random_seed=[0, 1])
        s = SolverFromClassifier(region_metadata=md, distance_measure=self.measure(q), clustering_suite=suite, model_trainer=trainer,
                                 model_params=params, classifier_params='params', test_len=q['tl'], error_type=q['err'])
        self.solvers.append((s, q, ident))
        self.ev.append(dict(op='classifier', key=self.key(q), scaled=int(q['scaled'])))
        return len(self.solvers)

    def drop_saved(self, sid):
        for f in self.saved_files.get(sid, ()):
            if os.path.exists(f):
                os.remove(f)
        self.ev.append(dict(op='remove', sid=sid))

    def rows(self, r):
        out = []
        for p in r:
            head, cells = list(r.result_header()), list(r.result_tuple_for_point(p))
            out.append(dict(x=int(p.x), y=int(p.y), l=parsed(cells[head.index('label')]) if 'label' in head else [BAD] * 3,
                            fc=nums(r.prediction_forecast_at(p), U), err=num(r.prediction_error_at(p), U), e3=num(r.prediction_error_at(p), 1000),
                            test=nums(cells[head.index('test_series')], U)))
        return out

    def ask(self, cid, labels, report):
        rng = self.rng
        s, q, ident = self.solvers[cid - 1]
        area = self.area()
        target = rng.choice([0, 0, 1, 2])
        home = rng.choice(['outputs', 'out', 'elsewhere/deep'])
        query = dict(labels=labels, salt=rng.randrange(9973), calls=[])
        Classifier.current = query
        e = dict(op='ask', cid=cid, target=target, x1=area.x1, x2=area.x2, y1=area.y1, y2=area.y2, tp=rng.choice([1, 2, 5, 15, 365]), calls=query['calls'],
                 ok=0, rows=[], report=int(report), csv=[], files=[], there=1, text=1, qe=[], slack=0, home=home, suite=ident,
                 sum=dict(tp=BAD, suite=0, mse=BAD), loads=[])
        kw = {}
        if target:
            kw['out_of_sample_region'] = self.targets[target - 1]
        if home != 'outputs' or rng.random() < .5:
            kw['output_home'] = home

        def go():
            with Loads() as loads:
                try:
                    r = s.predict(area, e['tp'], **kw)
                finally:
                    e['loads'] = loads.loads
            e['rows'] = self.rows(r)
            if report:
                self.read(r, e, q, ident, home)
            self.answers.append((r, e))
            e['ok'] = 1
        with mock.patch.object(spta.classifier.model, 'ClassifierDNN', Classifier):
            _, _, e['error'] = attempt(go)
        self.ev.append(e)

    def again(self):
        '''an answer given before, looked at again'''
        if self.answers:
            r, e = self.rng.choice(self.answers)
            e = dict(e, ok=0, rows=[], report=0, loads=[], files=[])

            def go():
                e['rows'] = self.rows(r)
                e['ok'] = 1
            attempt(go)
            self.ev.append(e)

    def read(self, r, e, q, ident, home):
        before = snapshot()
        r.save_as_csv()
        e['files'] = changed(before, snapshot())
        e['there'] = int(all(f.startswith(home + os.sep) for f in e['files']))
        errors = [float(r.prediction_error_at(p)) for p in r]
        top = max([x for x in errors if np.isfinite(x)] or [1])
        qs = next(u for u in (64, 8, .5, 1 / 8, 1 / 64, 2. ** -12, 2. ** -18, 2. ** -40) if (top * u + 1) ** 2 * len(errors) < 1e9)
        e['qe'] = [num(x, qs) for x in errors]
        e['slack'] = int(qs * qs * .001) + 2
        for f in e['files']:
            with open(f, newline='') as g:
                table = list(csv.reader(g, delimiter=' ', quotechar='|'))
            head, body = table[0], table[1:]
            if 'forecast_series' in head:
                for cells in body:
                    c = dict(zip(head, cells))
                    xy = numbers(c['Point'], 1)
                    e['csv'].append(dict(ax=xy[0], ay=xy[1], l=parsed(c['label']), err=num(float(c['error']), 1000),
                                         fc=numbers(c['forecast_series'], 1000), test=numbers(c['test_series'], 1000)))
            else:
                c = dict(zip(head, body[0]))
                e['sum'] = dict(tp=integer(int(c['tp'])), suite=int(len(body) == 1 and ident in c['suite']), mse=num(float(c['mse']), qs * qs))
        for p in r:
            t = '\n'.join(r.lines_for_point(p))
            cells = dict(zip(r.result_header(), r.result_tuple_for_point(p)))
            if str(r.absolute_coordinates_of(r.to_domain_coordinates(p))) not in t or str(cells['label']) not in t \
                    or '{:.3f}'.format(float(r.prediction_error_at(p))) not in t:
                e['text'] = 0


def run_many(seed):
    '''clusterings with more than ten clusters'''
    return run(seed, ([(3, 4), (2, 6), (13, 1), (1, 12)])[hash_of(seed) % 4])


def hash_of(text):
    return sum((i + 1) * ord(c) for i, c in enumerate(text))


def run(seed, shape=None):
    with scratch(), quiet():
        s = ClassifierSession(seed, shape)
        rng, n = s.rng, s.world.n
        base = dict(s.base(), kind='kmedoids', mode='lite')
        commons = [base]
        if rng.random() < .5:
            v = s.vary(base)
            v.update(kind='kmedoids', mode='lite', err=base['err'])
            commons.append(v)
        ks = rng.sample(range(1, min(n, 4) + 1), min(n, 4, 2)) if shape is None else [rng.choice([11, 12, n]), rng.choice([2, 3])]
        names = [(k, sd) for k in ks for sd in (0, 1)]
        stored = []
        for q in commons:
            for k, sd in rng.sample(names, rng.randrange(1, 4)):
                sid = s.add(dict(q, k=k, seed=sd))
                if sid:
                    h = s.train(sid)
                    if h:
                        if rng.random() < .8:
                            s.save(h)
                            stored.append((k, sd))
                        else:
                            s.handles[h - 1] = (s.handles[h - 1][0], sid)
        cs = [s.classifier(rng.choice(commons), rng.choice(['quick', 'whole'])) for _ in range(rng.choice([1, 1, 2]))]
        good = ['{}-{}-{}'.format(q['k'], q['seed'], c) for q in s.settings for c in range(q['k'])]
        for _ in range(rng.randrange(4, 9)):
            u = rng.random()
            cid = rng.choice(cs)
            if u < .62:
                # mostly labels of solvers that were stored
                common = {a: b for a, b in s.key(s.solvers[cid - 1][1]).items() if a not in ('k', 'seed')}
                mine = [q for q in s.settings if {a: b for a, b in s.key(q).items() if a not in ('k', 'seed')} == common]
                pool = ['{}-{}-{}'.format(q['k'], q['seed'], c) for q in mine for c in range(q['k'])] or good
                labels = rng.sample(pool, rng.randrange(1, min(4, len(pool)) + 1))
                if rng.random() < .25:
                    labels.append(rng.choice(good + ['9-9-0', '2-1-7', '1-0-1']))
                s.ask(cid, labels, rng.random() < .4)
            elif u < .72:
                s.again()
            elif u < .82 and s.settings:
                s.drop_saved(rng.randrange(1, len(s.settings) + 1))
            elif u < .94 and s.handles:
                s.save(rng.randrange(1, len(s.handles) + 1))
            elif s.settings:
                s.drop_partition(rng.randrange(1, len(s.settings) + 1))
    return dict(ev=s.ev, note=str(seed))


def run_network(seed):
    '''the network with given weights: the label of its largest output'''
    import random
    import keras
    import pandas as pd
    from sklearn.preprocessing import normalize
    from spta.classifier.dnn import ClassifierDNN, ClassifierDNNParams
    rng = random.Random(seed)
    ev = []
    with scratch(), quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        w, m = rng.choice([3, 5, 15]), rng.randrange(2, 8)
        labels = ['{}-{}-{}'.format(rng.randrange(2, 99), rng.randrange(9), i) for i in range(m)]
        rng.shuffle(labels)
        pd.DataFrame(dict(label=labels)).to_csv('labels.csv')
        L = keras.layers
        net = keras.models.Sequential([L.Input((w, 1)), L.LSTM(w, return_sequences=True), L.LSTM(100, return_sequences=True), L.Dropout(.4), L.LSTM(100),
                                       L.Dense(m, activation='softmax')])
        r = np.random.RandomState(rng.randrange(1 << 30))
        net.set_weights([r.normal(scale=1.5, size=a.shape) for a in net.get_weights()])
        net.save_weights('m.weights.h5')
        params = ClassifierDNNParams('n', 'm.weights.h5', 'labels.csv', w)
        ok, c, err = attempt(lambda: ClassifierDNN(params))
        if not ok:
            ev.append(dict(op='network', ok=0, out=[], got=BAD, error=err))
            return dict(ev=ev, note=str(seed))
        for _ in range(6):
            s = np.array([rng.uniform(1, 40) * rng.choice([1, 1, -1]) for _ in range(w)])
            out = net.predict((s / np.abs(s).sum()).reshape(1, w, 1), verbose=0).ravel()
            ok, got, err = attempt(lambda: c.label_for_series(rng.choice([s, s.tolist(), s.reshape(1, w)])))
            ev.append(dict(op='network', ok=int(ok), out=nums(out, 10000), got=labels.index(got) + 1 if got in labels else BAD, error=err))
    return dict(ev=ev, note=str(seed))
