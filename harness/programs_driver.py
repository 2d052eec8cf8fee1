'''Runs the solver programs (C25): every run is a program with its command line, in one scratch
directory; observed are the text printed and the files written.'''
import arima_stub  # (first: replaces the ARIMA fitting)

import csv
import io
import os
import random
import re
import resource
import runpy
import signal
import sys
import contextlib
from collections import namedtuple
import logging
from unittest import mock
import numpy as np

from core import BAD, NAN
from obs import attempt, integer, num, quiet, scratch
from solver_world import World
from solver_driver import NUMBER, changed, snapshot
import experiments.metadata.arima as arima_md
import experiments.metadata.arima_clustering as arima_clustering_md
import experiments.metadata.classifier as classifier_md
import experiments.metadata.region as region_md
from spta.arima import AutoArimaParams
from spta.clustering.factory import ClusteringFactory
from spta.distance.dtw import DistanceByDTW
from spta.model.knn import predict_future_values_with_knn
from spta.region import Region
from spta.region.metadata import SpatioTemporalRegionMetadata

REGIONS = {}
region_md.predefined_regions = lambda: dict(REGIONS)
AUTO = {}


def some_auto_arima(rng):
    '''settings, and others that differ from them in a single value'''
    base = dict(start_p=rng.randrange(6), start_q=rng.choice([0, 2, 3]), max_p=rng.randrange(1, 9), max_q=rng.randrange(1, 9), d=rng.choice([None, 0, 1]),
                stepwise=rng.random() < .5)
    other = dict(start_p=[(base['start_p'] + 1) % 6], start_q=[q for q in (0, 2, 3) if q != base['start_q']], max_p=[base['max_p'] + 1], max_q=[base['max_q'] + 1],
                 d=[d for d in (None, 0, 1) if d != base['d']], stepwise=[not base['stepwise']])
    alls = [base] + [dict(base, **{a: v}) for a, vs in other.items() for v in vs]
    return {'a{}'.format(i): AutoArimaParams(**p) for i, p in enumerate(alls)}


arima_md.predefined_auto_arima = lambda: dict(AUTO)
WINDOWS = dict(c1=1, c2=2, c5=5, c15=15, call=365)
Params = namedtuple('Params', 'name window_size')
classifier_md.classifier_experiments = lambda: {c: Params(c, n) for c, n in WINDOWS.items()}
arima_clustering_md.auto_arima_clustering_experiments = lambda: {
    '{}-{}'.format(s, a): arima_clustering_md.AutoArimaCluster(a, 'kmedoids', s, 'dtw') for s in ('quick', 'all') for a in AUTO}

MODULES = dict(hash='experiments.auto_arima.solver', mean='experiments.baseline.solver_mean_past', knn='experiments.baseline.solver_knn_medoids',
               hasheach='experiments.auto_arima.solver_each', knneach='experiments.baseline.solver_knn_each')


def launch(module, args):
    '''(succeeded, what was printed, error)'''
    old, opts = sys.argv, np.get_printoptions()
    out = io.StringIO()
    sys.argv = [module.split('.')[-1]] + [str(a) for a in args]

    def go():
        try:
            runpy.run_module(module, run_name='__main__')
        except SystemExit as e:
            if e.code not in (0, None):
                raise
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            ok, _, err = attempt(go, 100)
    finally:
        sys.argv = old
        np.set_printoptions(**opts)     # every program is a process of its own
        logging.disable(logging.CRITICAL)
    return ok, out.getvalue(), err


def numbers(text, scale=1000):
    if '...' in text:
        return [BAD]
    return [num(float(x), scale) for x in NUMBER.findall(text)]


def label(text):
    '''a label as [k, seed, cluster]'''
    try:
        return [int(v) for v in text.split('-')] if text else []
    except ValueError:
        return [BAD, BAD, BAD]


def printed(text):
    '''the points printed by a program'''
    rows = []
    for part in re.split(r'\*{10,}', text):
        part = part.strip()
        if not part.startswith('Point:'):
            continue
        m = re.match(r'Point:(?P<p>[^\n]*?)(?:\(cluster\s*(?P<c>-?\d+)\s*\)|\(label\s*(?P<l>[-\d]+)\s*\))?\n(?P<rest>.*)\Z', part, re.S)
        if not m:
            return [dict(ax=BAD, ay=BAD, c=BAD, l=[], err=BAD, fc=[BAD], test=[BAD])]
        xy = numbers(m.group('p'), 1)
        rest = m.group('rest')
        f = re.search(r'Forecast[^:]*:\s*\[(.*?)\]', rest, re.S)
        t = re.search(r'Test[^:]*:\s*\[(.*?)\]', rest, re.S)
        e = re.search(r'Error \((\w+)\):\s*(\S+)', rest)
        rows.append(dict(ax=xy[0] if len(xy) == 2 else BAD, ay=xy[1] if len(xy) == 2 else BAD, c=int(m.group('c')) if m.group('c') else -1, l=label(m.group('l')),
                         err=num(float(e.group(2)), 1000) if e else BAD, fc=numbers(f.group(1)) if f else [BAD], test=numbers(t.group(1)) if t else []))
    return rows


def table(f):
    with open(f, newline='') as g:
        t = list(csv.reader(g, delimiter=' ', quotechar='|'))
    return t[0], t[1:]


def reported(files, e):
    for f in files:
        head, body = table(f)
        if 'forecast_series' in head:
            for cells in body:
                c = dict(zip(head, cells))
                xy = numbers(c['Point'], 1)
                e['csv'].append(dict(ax=xy[0] if len(xy) == 2 else BAD, ay=xy[1] if len(xy) == 2 else BAD,
                                     c=integer(int(c['cluster_index'])) if 'cluster_index' in c else -1, l=label(c.get('label')), err=num(float(c['error']), 1000),
                                     fc=numbers(c['forecast_series']), test=numbers(c['test_series']) if 'test_series' in c else []))
        else:
            c = dict(zip(head, body[0]))
            e['sum'] = dict(tp=integer(int(c['tp'])), mse=num(float(c['mse']), 100), k=integer(int(c.get('k', -1))),
                            seed=integer(int(c.get('random_seed', c.get('seed', -1)))), clusters=integer(int(c.get('clusters', -1))), rm=num(float(c.get('dtw_r_m', -1)), 100))


class Programs:
    def __init__(self, seed):
        self.rng = rng = random.Random(seed)
        self.ev = []
        self.w = w = World(rng, rng.choice([(2, 2), (2, 3), (3, 2), (1, 4), (4, 2)]))
        REGIONS.clear()
        for key, name, scaled in (('r', 'r', False), ('rs', 'r', True), ('t', 't', False)):
            REGIONS[key] = w.region(name, scaled)
        AUTO.clear()
        AUTO.update(some_auto_arima(rng))
        self.settings = []
        self.reports = {}
        self.targets = []
        self.ev.append(dict(op='world', data=w.data, x0=w.x1, y0=w.y1, X=w.X, Y=w.Y))

    def base(self, each=False):
        rng = self.rng
        kind = rng.choice(['kmedoids', 'kmedoids', 'regular'])
        model = rng.choice(['hash', 'hash', 'mean', 'knn']) if not each else rng.choice(['hasheach', 'knneach'])
        q = dict(model=model, region=rng.choice(['r', 'rs', 't']), kind=kind, k=2 if kind == 'regular' else rng.randrange(1, min(self.w.n, 4) + 1),
                 seed=rng.choice([None, 0, 2]), tp=rng.choice([None, 1, 2, 5] if rng.random() < .93 else [120]), err=rng.choice([None, 'MASE', 'sMAPE', 'MSE']),
                 auto=rng.choice(sorted(AUTO) + ['a0'] * 3), past=rng.choice([None, 1, 2, 4]), knn=rng.choice([1, 2, 3]))
        return self.fix(q)

    def fix(self, q):
        if q['model'] in ('mean', 'knn', 'knneach') and q['err'] == 'MSE':
            q['err'] = 'MASE'
        if q['model'] in ('knn', 'knneach') and q['tp'] == 120:
            q['tp'] = 6
        return q

    def vary(self, q):
        rng = self.rng
        q = dict(q)
        fields = ['region', 'k', 'seed', 'tp', 'err'] + {'hash': ['auto'], 'mean': ['past'], 'knn': ['knn'], 'hasheach': ['auto'], 'knneach': ['knn']}[q['model']]
        f = rng.choice(fields)
        while True:
            v = self.base()[f]
            if f == 'k' and q['kind'] == 'regular':
                v = rng.choice([2, 4])
            if f == 'k' and q['kind'] == 'kmedoids':
                v = rng.randrange(1, min(self.w.n, 4) + 1)
            if v != q[f]:
                break
            if rng.random() < .1:
                f = rng.choice(fields)
        q[f] = v
        return self.fix(q)

    def effective(self, q):
        '''the options as the help texts say: what was not given has its default'''
        model, each = q['model'].replace('each', ''), q['model'].endswith('each')
        p = AUTO[q['auto']]
        return dict(model=model, each=int(each), region=q['region'][0], scaled=int(q['region'] == 'rs'), kind='' if each else q['kind'], k=0 if each else q['k'],
                    seed=(1 if q['seed'] is None else q['seed']) if not each and q['kind'] == 'kmedoids' else 0,
                    tl=8 if q['tp'] is None else q['tp'], err=q['err'] or 'sMAPE', par=arima_stub.par_of_params(p) if model == 'hash' else 0, auto=q['auto'] if model == 'hash' else '',
                    fm=p.start_q if model == 'hash' else 0, past=(10 if q['past'] is None else q['past']) if model == 'mean' else 0,
                    knn=q['knn'] if model == 'knn' else 0)

    def add(self, q, known=1):
        e = self.effective(q)
        w = self.w
        for i, s in enumerate(self.settings):
            if s['e'] == e:
                return i + 1
        md = REGIONS[q['region']]
        if e['each']:
            lab, rep = list(range(w.n)), list(range(1, w.n + 1))
        else:
            def fresh():
                p = ClusteringFactory(DistanceByDTW()).instance(w.clustering(e['kind'], e['k'], e['seed'])).partition(md.create_instance(), with_medoids=True)
                return [integer(v) for v in np.asarray(p.numpy_dataset).ravel().tolist()], [int(m.x * w.Y + m.y + 1) for m in p.medoids]
            ok, r, _ = attempt(fresh)
            if not ok:
                return None
            lab, rep = r
        self.settings.append(dict(q=q, e=e, lab=lab, rep=rep))
        self.ev.append(dict(op='settings', sid=len(self.settings), key=e, scaled=e['scaled'], tl=e['tl'], par=e['par'], fm=e['fm'], rf=1, err=e['err'],
                            lab=lab, rep=rep, model=e['model'] if known else 'other', each=e['each'], past=e['past'], knn=e['knn']))
        return len(self.settings)

    def line(self, q, sub, area=None, tf=None):
        '''the command line: options given in some order'''
        rng = self.rng
        each = q['model'].endswith('each')
        pos = [q['region']]
        if q['model'] in ('hash', 'hasheach'):
            pos.append(q['auto'])
        if not each:
            pos.append(q['kind'])
        if q['model'] in ('knn', 'knneach'):
            pos.append(q['knn'])
        if area:
            pos += list(area)
        opts = []
        if each:
            if q['tp'] is not None:
                opts.append(['--tf', q['tp']])
        else:
            opts.append(['-k', q['k']])
            if q['seed'] is not None:
                opts.append(['--seed', q['seed']])
            if q['tp'] is not None:
                opts.append(['--tp' if q['model'] == 'hash' else '--test', q['tp']])
            if q['model'] == 'mean' and q['past'] is not None:
                opts.append(['--past', q['past']])
            if tf:
                opts.append(['--tf', tf])
        if q['err']:
            opts.append(['--error', q['err']])
        if rng.random() < .3:
            opts.append(['--log', 'WARN'])
        rng.shuffle(opts)
        flat = [x for o in opts for x in o]
        args = pos + flat if rng.random() < .5 else flat + pos
        return ([] if each else [sub]) + args

    def train(self, sid):
        q = self.settings[sid - 1]['q']
        ok, _, err = launch(MODULES[q['model']], self.line(q, 'train'))
        self.ev.append(dict(op='train', sid=sid, ok=int(ok), error=err))

    def burst(self, sids):
        '''several programs train at the same time'''
        kids = []
        for sid in sids:
            q = self.settings[sid - 1]['q']
            args = self.line(q, 'train')
            pid = os.fork()
            if pid == 0:
                ok = False
                try:
                    ok = launch(MODULES[q['model']], args)[0]
                finally:
                    os._exit(0 if ok else 1)
            kids.append((sid, pid))
        for sid, pid in kids:
            _, st = os.waitpid(pid, 0)
            self.ev.append(dict(op='train', sid=sid, ok=int(st == 0), error='burst'))

    def crash(self, sid):
        '''a training program dies: when a file grows beyond some size, after some time, or when it is about to write one more file'''
        rng = self.rng
        q = self.settings[sid - 1]['q']
        args = self.line(q, 'train')
        how = rng.random()
        limit, when, files = rng.choice([0, 1, 100, 400, 800, 1500, 3000, 6000]), rng.choice([.003, .01, .03, .08]), rng.randrange(1, 7)
        pid = os.fork()
        if pid == 0:
            ok = False
            try:
                if how < .55:
                    # a file that is cut, from the n-th one on
                    cut = how < .25 and limit
                    if cut:
                        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    opened = []

                    def hook(event, a):
                        if event == 'open' and isinstance(a[1], str) and ('w' in a[1] or 'a' in a[1] or 'x' in a[1]):
                            opened.append(a[0])
                            if len(opened) >= files and cut:
                                resource.setrlimit(resource.RLIMIT_FSIZE, (cut, resource.RLIM_INFINITY))
                            elif len(opened) >= files:
                                os._exit(9)
                    sys.addaudithook(hook)
                elif how < .7:
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.setitimer(signal.ITIMER_REAL, when)
                else:
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                ok = launch(MODULES[q['model']], args)[0]
            finally:
                os._exit(0 if ok else 1)
        _, st = os.waitpid(pid, 0)
        self.ev.append(dict(op='crash', sid=sid, ok=int(st == 0)))
        if rng.random() < .8:
            if rng.random() < .4:
                self.train(sid)
            self.predict(sid, tf=rng.choice([0, 1, 3, 20]))

    def area(self):
        rng, w = self.rng, self.w
        if rng.random() < .25:
            return (0, w.X, 0, w.Y)
        x1, y1 = rng.randrange(w.X), rng.randrange(w.Y)
        return (x1, rng.randrange(x1 + 1, w.X + 1), y1, rng.randrange(y1 + 1, w.Y + 1))

    def library(self, sid, area, tf):
        '''the nearest-window forecasts that the library gives, in thousandths of original units:
        of the requested kind, and of the held-out samples'''
        s = self.settings[sid - 1]
        e, w = s['e'], self.w

        def series(i):
            a = np.array(w.data[i], dtype=float)
            if not e['scaled']:
                return a
            r = a.max() - a.min()
            return (a - a.min()) / r if r else a * 0

        def forecast(p, tf):
            a = series(s['rep'][s['lab'][p]] - 1)
            f = np.asarray(predict_future_values_with_knn(a if tf else a[:-e['tl']], e['knn'], tf or e['tl'], DistanceByDTW()))
            if e['scaled']:
                b = np.array(w.data[p], dtype=float)
                f = f * (b.max() - b.min()) + b.min()
            return [num(v, 1000) for v in f.tolist()]
        return [dict(ax=w.x1 + x, ay=w.y1 + y, fc=forecast(x * w.Y + y, tf), held=forecast(x * w.Y + y, 0))
                for x in range(area[0], area[1]) for y in range(area[2], area[3])]

    def predict(self, sid, area=None, tf=None):
        rng = self.rng
        s = self.settings[sid - 1]
        q = s['q']
        area = area or self.area()
        tf = (rng.choice([0, 0, 0, 0, 1, 1, 3, 3, 20, 5 if q['model'] == 'knn' else 60]) if tf is None else tf) if not s['e']['each'] else 0
        e = dict(op='each' if s['e']['each'] else 'predict', sid=sid, x1=area[0], x2=area[1], y1=area[2], y2=area[3], tf=tf, ok=0, rows=[], csv=[],
                 sum=dict(tp=BAD, mse=BAD, k=BAD, seed=BAD, clusters=BAD, rm=BAD), files=[], qe=[], lib=[])
        before = snapshot('outputs')
        ok, text, e['error'] = launch(MODULES[q['model']], self.line(q, 'predict', area, tf))
        e['files'] = [f for f in changed(before, snapshot('outputs')) if f.endswith('.csv')]
        if ok:
            def look():
                e['rows'] = printed(text)
                reported(e['files'], e)
                if s['e']['model'] == 'knn':
                    e['lib'] = self.library(sid, area, tf)
                for f in e['files']:
                    self.reports[f] = open(f, 'rb').read()
            a, _, x = attempt(look)
            if not a:
                e['rows'] = e['csv'] = []
                e['error'] = 'unreadable ' + x
            e['ok'] = 1
        self.ev.append(e)
        return e

    def target(self, key, dx, dy, scaled):
        '''a region that a classifier query may name instead of the own one'''
        w = self.w
        REGIONS[key] = SpatioTemporalRegionMetadata(key, Region(w.x1 + dx, w.x1 + dx + w.X, w.y1 + dy, w.y1 + dy + w.Y), w.YEAR, w.YEAR, 1, scaled=bool(scaled))
        cut = w.big[:, w.x1 + dx:w.x1 + dx + w.X, w.y1 + dy:w.y1 + dy + w.Y]
        self.targets.append(key)
        self.ev.append(dict(op='target', data=[[int(v) for v in cut[:, i // w.Y, i % w.Y]] for i in range(w.n)], scaled=int(scaled)))

    def labelled(self, q, labels):
        '''the classifier program: the region, auto ARIMA settings, error and held-out length of q'''
        import spta.classifier.model
        rng = self.rng
        area = self.area()
        suite, wide = rng.choice(['quick', 'all']), rng.choice(sorted(WINDOWS))
        target = rng.choice([0, 0] + list(range(1, len(self.targets) + 1)))
        heard, salt = [], rng.randrange(9973)

        class Stub:
            def __init__(self, params):
                heard.append(dict(params=params.window_size))

            def label_for_series(self, series):
                v = [num(x, 64) for x in np.asarray(series).ravel().tolist()]
                l = labels[(sum((j + 1) * x for j, x in enumerate(v)) * 7 + salt) % 9973 % len(labels)]
                heard.append(dict(s=v, l=label(l)))
                return l
        e = dict(op='labelled', key=self.effective(q), suite=suite, target=target, tp=WINDOWS[wide], x1=area[0], x2=area[1], y1=area[2], y2=area[3], tf=0, ok=0,
                 calls=[], rows=[], csv=[], sum=dict(tp=BAD, mse=BAD, k=BAD, seed=BAD, clusters=BAD, rm=BAD), files=[])
        pos = [q['region'], '{}-{}'.format(suite, q['auto']), wide] + list(area)
        opts = []
        if q['tp'] is not None:
            opts.append(['--tf', q['tp']])
        if q['err']:
            opts.append(['--error', q['err']])
        if target:
            opts.append(['--out-of-sample', self.targets[target - 1]])
        rng.shuffle(opts)
        flat = [x for o in opts for x in o]
        before = snapshot('outputs')
        with mock.patch.object(spta.classifier.model, 'ClassifierDNN', Stub):
            ok, text, e['error'] = launch('experiments.classifier.solver_dnn', pos + flat if rng.random() < .5 else flat + pos)
        e['calls'] = [c for c in heard if 's' in c]
        e['files'] = [f for f in changed(before, snapshot('outputs')) if f.endswith('.csv')]
        if ok:
            def look():
                e['rows'] = printed(text)
                reported(e['files'], e)
                for f in e['files']:
                    self.reports[f] = open(f, 'rb').read()
            a, _, x = attempt(look)
            if not a:
                e['rows'] = e['csv'] = []
                e['error'] = 'unreadable ' + x
            e['ok'] = 1
        self.ev.append(e)

    def reread(self):
        same = all(os.path.exists(f) and open(f, 'rb').read() == v for f, v in self.reports.items())
        self.ev.append(dict(op='reread', same=int(same)))


def run(seed):
    with scratch(), quiet():
        s = Programs(seed)
        rng = s.rng
        ids = []
        while not ids:
            i = s.add(s.base())
            if i:
                ids.append(i)
        for _ in range(rng.randrange(2, 5)):
            i = s.add(s.vary(s.settings[rng.choice(ids) - 1]['q']))
            if i and i not in ids:
                ids.append(i)
        if rng.random() < .4:
            s.crash(rng.choice(ids))
        if rng.random() < .4:
            s.burst(rng.sample(ids, rng.randrange(1, len(ids) + 1)))
        for _ in range(rng.randrange(7, 11)):
            u = rng.random()
            sid = rng.choice(ids)
            if u < .3:
                s.train(sid)
            elif u < .45:
                s.crash(sid)
            elif u < .95:
                s.predict(sid)
            else:
                s.reread()
        s.reread()
    return dict(ev=s.ev, note=str(seed))


def run_near(seed):
    '''the only solver that was trained does not answer for other options'''
    with scratch(), quiet():
        s = Programs(seed)
        rng = s.rng
        sid = None
        while sid is None:
            q = dict(s.base(), auto='a0')
            sid = s.add(q)
        s.train(sid)
        n = min(s.w.n, 4)
        out = [dict(q, region=r) for r in ('r', 'rs', 't')] + [dict(q, seed=x) for x in (None, 0, 1, 2, 10, 12)] + [dict(q, tp=t) for t in (None, 1, 2, 5, 18)] + \
            [dict(q, k=k) for k in ([2, 4] if q['kind'] == 'regular' else range(1, n + 1))] + [dict(q, err=x) for x in (None, 'MASE', 'sMAPE', 'MSE')]
        if q['model'] == 'hash':
            out += [dict(q, auto=a) for a in sorted(AUTO)]
        elif q['model'] == 'mean':
            out += [dict(q, past=p) for p in (None, 1, 2, 4, 11)]
        else:
            out += [dict(q, knn=p) for p in (1, 2, 3, 11)]
        area = s.area()
        for o in rng.sample(out, len(out)):
            i = s.add(s.fix(dict(o)), 0)
            if i and i != sid:
                s.predict(i, area=area, tf=0)
        s.predict(sid)
        s.reread()
    return dict(ev=s.ev, note=str(seed))


def run_each(seed):
    with scratch(), quiet():
        s = Programs(seed)
        rng = s.rng
        ids = []
        for _ in range(2):
            i = s.add(s.base(True))
            if i and i not in ids:
                ids.append(i)
        i = s.add(s.vary(s.settings[ids[0] - 1]['q']))
        if i not in ids:
            ids.append(i)
        for _ in range(4):
            sid = rng.choice(ids)
            s.predict(sid, area=s.area())
        s.reread()
    return dict(ev=s.ev, note=str(seed))


def run_labelled(seed):
    '''the classifier program over solvers stored by the training program'''
    with scratch(), quiet():
        s = Programs(seed)
        rng, w = s.rng, s.w
        s.target('o', rng.randrange(3), rng.randrange(3), 0)
        s.target('p', 0, 0, rng.randrange(2))
        q = dict(s.base(), model='hash', kind='kmedoids', k=1)
        commons = [q]
        if rng.random() < .6:
            o = dict(q)
            what = rng.choice(['region', 'tp', 'err', 'auto'])
            o[what] = rng.choice([v for v in dict(region=['r', 'rs', 't'], tp=[None, 1, 2, 5], err=[None, 'MASE', 'sMAPE', 'MSE'], auto=sorted(AUTO))[what] if v != q[what]])
            commons.append(o)
        ids = []
        for c in commons:
            for k, sd in rng.sample([(k, sd) for k in range(1, min(w.n, 4) + 1) for sd in (0, 1, 2)], rng.randrange(1, 4)):
                i = s.add(dict(c, k=k, seed=sd if sd != 1 or rng.random() < .5 else None))
                if i and i not in ids:
                    ids.append(i)
        for i in ids:
            if rng.random() < .9:
                s.train(i)
        every = ['{}-{}-{}'.format(x['e']['k'], x['e']['seed'], c) for x in s.settings for c in range(x['e']['k'])]
        for _ in range(rng.randrange(3, 6)):
            c = rng.choice(commons)
            common = {a: b for a, b in s.effective(c).items() if a not in ('k', 'seed')}
            mine = ['{}-{}-{}'.format(x['e']['k'], x['e']['seed'], j) for x in s.settings for j in range(x['e']['k'])
                    if {a: b for a, b in x['e'].items() if a not in ('k', 'seed')} == common] or every
            pool = rng.sample(mine, rng.randrange(1, min(5, len(mine)) + 1))
            if rng.random() < .2:
                pool.append(rng.choice(every + ['9-9-0', '1-0-1']))
            s.labelled(c, pool)
            if rng.random() < .3:
                s.predict(rng.choice(ids))
        s.reread()
    return dict(ev=s.ev, note=str(seed))
