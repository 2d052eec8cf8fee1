'''Observes solvers: training, saving, loading, answering and reporting (C15, C16, C17).'''
import csv
import os
import random
import re
import resource
import signal
import numpy as np

from core import BAD, NAN
from obs import attempt, integer, num, nums, pt, quiet, scratch
from solver_world import U, HashParams, TrainerHash, World, units
from spta.arima import ArimaPDQ, AutoArimaParams
from spta.arima.train import TrainerArimaPDQ
from spta.clustering.factory import ClusteringFactory
from spta.distance.dtw import DistanceByDTW, DistanceBySpatialDTW
from spta.distance.rmse import DistanceByRMSE
from spta.model.knn import KNNParams, TrainerKNN
from spta.model.mean import MeanOfPastParams, TrainerMeanOfPast
from spta.region import Point, Region
from spta.solver.metadata import SolverMetadataBuilder
from spta.solver.model import SolverPickler
from spta.solver.train import SolverTrainer


def snapshot(base='.'):
    out = {}
    for b, _, files in os.walk(base):
        for f in files:
            p = os.path.relpath(os.path.join(b, f))
            s = os.stat(p)
            out[p] = (s.st_mtime_ns, s.st_size, s.st_ino)
    return out


def changed(before, after):
    return sorted(f for f in after if before.get(f) != after[f])


NUMBER = re.compile(r'nan|-?inf|-?\d+\.?\d*(?:e[-+]?\d+)?')


def numbers(text, scale):
    if '...' in text:
        return [BAD]
    return [num(float(x), scale) for x in NUMBER.findall(text)]


class Session:
    def __init__(self, seed, profile, shape=None):
        self.rng = random.Random(seed)
        self.profile = profile
        self.ev = []
        self.world = World(self.rng, shape, near=profile == 'ask' and self.rng.random() < .5)
        self.settings = []
        self.handles = []         # (solver, sid)
        self.partition_files = {}
        self.saved_files = {}
        self.reports = {}
        w = self.world
        self.ev.append(dict(op='world', data=w.data, x0=w.x1, y0=w.y1, X=w.X, Y=w.Y))

    # ---- settings
    def base(self):
        rng = self.rng
        kind = rng.choice(['kmedoids', 'kmedoids', 'regular'])
        return dict(name='r', scaled=rng.random() < .5, kind=kind, k=rng.choice([2, 4]) if kind == 'regular' else rng.randrange(1, min(self.world.n, 4) + 1),
                    seed=rng.randrange(3), mode='lite', dist='dtw', par=rng.choice([0, 1, 5]), fm=rng.choice([0, 0, 2, 3]), rf=rng.randrange(2),
                    tl=rng.choice([1, 2, 5, 8]), err=rng.choice(['MSE', 'MASE', 'sMAPE']), model='hash', auto=[rng.randrange(5), rng.randrange(1, 7), rng.randrange(1, 7), rng.choice([-1, 0, 1])] if rng.random() < .4 else [])

    def vary(self, q):
        rng = self.rng
        q = dict(q)
        what = rng.choice(['name', 'scaled', 'k', 'seed', 'mode', 'dist', 'par', 'fm', 'rf', 'tl', 'tl', 'err', 'err'])
        if what == 'name':
            q['name'] = 's' if q['name'] == 'r' else 'r'
        elif what == 'scaled':
            q['scaled'] = not q['scaled']
        elif what == 'k':
            q['k'] = rng.choice([2, 4]) if q['kind'] == 'regular' else rng.randrange(1, min(self.world.n, 4) + 1)
        elif what == 'seed':
            q['seed'] = (q['seed'] + 1) % 4
        elif what == 'mode':
            q['mode'] = 'robust' if q['mode'] == 'lite' else 'lite'
        elif what == 'dist':
            q['dist'] = rng.choice([d for d in ('dtw', 'w3', 'w60') if d != q['dist']])
        elif what == 'par':
            if q['auto']:
                i = rng.randrange(4)
                q['auto'] = q['auto'][:i] + [q['auto'][i] + 1] + q['auto'][i + 1:]
            else:
                q['par'] = rng.choice([p for p in (0, 1, 5, 10) if p != q['par']])
        elif what == 'fm':
            q['fm'] = rng.choice([p for p in (0, 2, 3) if p != q['fm']])
        elif what == 'rf':
            q['rf'] = 1 - q['rf']
        elif what == 'tl':
            q['tl'] = rng.choice([p for p in (1, 2, 5, 8) if p != q['tl']])
        else:
            q['err'] = rng.choice([p for p in ('MSE', 'MASE', 'sMAPE') if p != q['err']])
        return q

    def key(self, q):
        k = dict(q, auto=' '.join(str(v) for v in q['auto']), par=self.par(q))
        if q['kind'] == 'regular':
            k.update(seed=0, mode='')
        return {a: (int(b) if isinstance(b, bool) else b) for a, b in k.items()}

    def measure(self, q):
        return DistanceByDTW() if q['dist'] == 'dtw' else DistanceBySpatialDTW(int(q['dist'][1:]))

    def parts(self, q):
        md = self.world.region(q['name'], q['scaled'])
        return md, self.world.clustering(q['kind'], q['k'], q['seed'], q['mode'])

    def add(self, q, known=1):
        if any(self.key(q) == self.key(o) for o in self.settings):
            return [i for i, o in enumerate(self.settings) if self.key(q) == self.key(o)][0] + 1
        md, cm = self.parts(q)

        def fresh():
            region = md.create_instance()
            p = ClusteringFactory(self.measure(q)).instance(cm).partition(region, with_medoids=True)
            lab = [integer(v) for v in np.asarray(p.numpy_dataset).ravel().tolist()]
            return lab, [int(m.x * self.world.Y + m.y + 1) for m in p.medoids]
        ok, r, err = attempt(fresh)
        if not ok:
            return None
        self.settings.append(q)
        self.ev.append(dict(op='settings', sid=len(self.settings), known=known * int(q['model'] == 'hash'), key=self.key(q), scaled=int(q['scaled']), tl=q['tl'],
                            par=self.par(q), fm=q['fm'], rf=q['rf'], err=q['err'], lab=r[0], rep=r[1]))
        return len(self.settings)

    def par(self, q):
        '''what the settings of the models amount to'''
        if not q['auto']:
            return q['par']
        p, mp, mq, d = q['auto']
        return p + mp + 2 * mq + d

    def params(self, q):
        w = self.world
        if q['model'] == 'hash' and q['auto']:
            p, mp, mq, d = q['auto']
            return (AutoArimaParams(start_p=p, start_q=q['fm'], max_p=mp, max_q=mq, d=None if d < 0 else d, stepwise=not q['rf']),
                    TrainerHash(HashParams(self.par(q), q['fm'], q['rf']), w.X, w.Y))
        if q['model'] == 'hash':
            p = HashParams(q['par'], q['fm'], q['rf'])
            return p, TrainerHash(p, w.X, w.Y)
        if q['model'] == 'mean':
            p = MeanOfPastParams(q['par'] + 1)
            return p, TrainerMeanOfPast(p, w.X, w.Y)
        if q['model'] == 'arima':
            p = ArimaPDQ(*[(1, 0, 0), (0, 1, 1), (1, 1, 0)][q['fm'] % 3])
            return p, TrainerArimaPDQ(p, w.X, w.Y)
        if q['model'] == 'knn':
            p = KNNParams(q['par'] + 1, DistanceByDTW() if q['fm'] == 0 else DistanceByRMSE())
            return p, TrainerKNN(p, w.X, w.Y)
        raise ValueError(q['model'])

    # ---- actions
    def train(self, sid):
        q = self.settings[sid - 1]
        md, cm = self.parts(q)
        params, trainer = self.params(q)
        before = snapshot('pickle') if os.path.isdir('pickle') else {}
        ok, s, err = attempt(lambda: SolverTrainer(region_metadata=md, clustering_metadata=cm, distance_measure=self.measure(q), model_trainer=trainer,
                                                   model_params=params, test_len=q['tl'], error_type=q['err']).train('out'))
        new = changed(before, snapshot('pickle')) if os.path.isdir('pickle') else []
        if new:
            self.partition_files[sid] = new
        self.ev.append(dict(op='train', sid=sid, hid=len(self.handles) + 1, ok=int(ok), error=err))
        self.handles.append((s, sid))
        return len(self.handles) if ok else None

    def save(self, hid, cut=None):
        s, sid = self.handles[hid - 1]
        before = snapshot('pickle') if os.path.isdir('pickle') else {}
        if cut is None:
            ok, _, err = attempt(s.save)
            self.ev.append(dict(op='save', hid=hid, ok=int(ok), error=err))
        else:
            # the file system refuses to grow a file beyond some size
            old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (cut, hard))
            try:
                attempt(s.save)
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                signal.signal(signal.SIGXFSZ, old)
            self.ev.append(dict(op='cutsave', sid=sid))
        if os.path.isdir('pickle'):
            self.saved_files.setdefault(sid, set()).update(changed(before, snapshot('pickle')))

    def load(self, sid):
        q = self.settings[sid - 1]
        md, cm = self.parts(q)
        params, _ = self.params(q)

        def go():
            meta = SolverMetadataBuilder(md, params, q['tl'], q['err']).with_clustering(cm, self.measure(q)).build()
            return SolverPickler(meta).load_solver()
        before = snapshot('pickle') if os.path.isdir('pickle') else {}
        ok, s, err = attempt(go)
        if os.path.isdir('pickle'):
            new = changed(before, snapshot('pickle'))
            if new:
                self.partition_files[sid] = new
        self.ev.append(dict(op='load', sid=sid, hid=len(self.handles) + 1, ok=int(ok and s is not None), error=err))
        if ok and s is not None:
            self.handles.append((s, sid))
            return len(self.handles)

    def drop_partition(self, sid):
        for f in self.partition_files.get(sid, []):
            if os.path.exists(f):
                os.remove(f)
        if self.rng.random() < .4:
            # something else stores the same partition, without medoids
            q = self.settings[sid - 1]
            md, cm = self.parts(q)
            attempt(lambda: ClusteringFactory(self.measure(q)).instance(cm).partition(md.create_instance(), with_medoids=False, pickle_home='pickle'))
        self.ev.append(dict(op='droppartition', sid=sid))

    def drop_file(self, sid):
        fs = sorted(f for f in self.saved_files.get(sid, ()) if os.path.exists(f))
        if fs:
            os.remove(self.rng.choice(fs))
            self.ev.append(dict(op='dropfile', sid=sid))

    def after_loss(self, sid):
        '''what is left in the store may be refused, but not answer something else'''
        h = self.load(sid) if self.rng.random() < .7 else None
        if h:
            for tf in (0, 2):
                self.ask(h, tf=tf)

    def area(self):
        rng, w = self.rng, self.world
        x1, y1 = rng.randrange(w.X), rng.randrange(w.Y)
        if rng.random() < .25:
            return Region(0, w.X, 0, w.Y)
        return Region(x1, rng.randrange(x1 + 1, w.X + 1), y1, rng.randrange(y1 + 1, w.Y + 1))

    def rows_of(self, e, r):
        e['rows'] = []
        for p in r:
            row = dict(x=int(p.x), y=int(p.y), fc=units(r.prediction_forecast_at(p)), err=num(r.prediction_error_at(p), U), test=[],
                       e3=num(r.prediction_error_at(p), 1000))
            head, cells = list(r.result_header()), list(r.result_tuple_for_point(p))
            if 'test_series' in head:
                row['test'] = units(cells[head.index('test_series')])
            elif len(cells) > 4:
                row['test'] = [BAD]
            e['rows'].append(row)

    def ask(self, hid, area=None, tf=None):
        rng = self.rng
        s, sid = self.handles[hid - 1]
        area = area or self.area()
        tf = rng.choice([0, 0, 1, 3, 8]) if tf is None else tf
        e = dict(op='ask', hid=hid, x1=area.x1, x2=area.x2, y1=area.y1, y2=area.y2, tf=tf, ok=0, rows=[])
        kept = []

        def go():
            r = s.predict(area, tf, 'out', plot=False)
            self.rows_of(e, r)
            kept.append(r)
            e['ok'] = 1
        _, _, e['error'] = attempt(go)
        self.ev.append(e)
        return kept[0] if kept else None, e

    def again(self, r, e):
        '''an answer given before, looked at again'''
        e = dict(e, ok=0, rows=[])

        def go():
            self.rows_of(e, r)
            e['ok'] = 1
        attempt(go)
        self.ev.append(e)

    def digest(self, hid, area, tf):
        s, sid = self.handles[hid - 1]
        e = dict(op='digest', hid=hid, x1=area.x1, x2=area.x2, y1=area.y1, y2=area.y2, tf=tf, ok=0, dig='')

        def go():
            r = s.predict(area, tf, 'out', plot=False)
            e['dig'] = ' '.join(str(v) for p in r for v in [r.prediction_forecast_at(p).tolist(), float(r.prediction_error_at(p))])
            e['ok'] = 1
        _, _, e['error'] = attempt(go)
        self.ev.append(e)

    def report(self, hid, area=None, tf=None, home=None):
        rng = self.rng
        s, sid = self.handles[hid - 1]
        q = self.settings[sid - 1]
        area = area or self.area()
        tf = rng.choice([0, 0, 1, 3, 8, 40] + ([1100] if rng.random() < .1 else [])) if tf is None else tf
        home = home or rng.choice(['out', 'out', 'elsewhere/deep'])
        e = dict(op='report', hid=hid, x1=area.x1, x2=area.x2, y1=area.y1, y2=area.y2, tf=tf, ok=0, rows=[], csv=[], home=home, files=[], qe=[],
                 slack=0, text=1, sum=dict(tp=BAD, settings=0, clusters=BAD, mse=BAD, rm=BAD))

        def go():
            r = s.predict(area, tf, home, plot=False)
            self.rows_of(e, r)
            before = snapshot()
            # an earlier report of the same question is written again
            if rng.random() < .2:
                r.save_as_csv()
            r.save_as_csv()
            e['files'] = changed(before, snapshot())
            errors = [float(r.prediction_error_at(p)) for p in r]
            top = max([x for x in errors if np.isfinite(x)] or [1])
            # units in which the sum of the squares stays small enough for the model checker
            qs = next(u for u in (64, 8, .5, 1 / 8, 1 / 64, 2. ** -12, 2. ** -18, 2. ** -40) if (top * u + 1) ** 2 * len(errors) < 1e9)
            e['qe'] = [num(x, qs) for x in errors]
            e['slack'] = int(qs * qs * .001) + 2
            for f in e['files']:
                with open(f, newline='') as g:
                    table = list(csv.reader(g, delimiter=' ', quotechar='|'))
                head, body = table[0], table[1:]
                if 'forecast_series' in head:
                    for cells in body:
                        c = dict(zip(head, cells))
                        xy = numbers(c['Point'], 1)
                        e['csv'].append(dict(ax=xy[0] if len(xy) == 2 else BAD, ay=xy[1] if len(xy) == 2 else BAD, c=integer(int(c['cluster_index'])),
                                             err=num(float(c['error']), 1000), fc=numbers(c['forecast_series'], 1000),
                                             test=numbers(c['test_series'], 1000) if 'test_series' in c else []))
                        if len(cells) != len(head):
                            e['csv'] = []
                            break
                else:
                    c = dict(zip(head, body[0]))
                    want = {'k': str(q['k'])}
                    if q['kind'] == 'kmedoids':
                        want.update(seed=str(q['seed']))
                    got = {a: c.get(a) for a in want}
                    e['sum'] = dict(tp=integer(int(c['tp'])), settings=int(len(body) == 1 and got.get('k') == want['k'] and (
                        'seed' not in want or c.get('random_seed', c.get('seed')) == want['seed'])),
                        clusters=integer(int(c['clusters'])), mse=num(float(c['mse']), qs * qs), rm=num(float(c['dtw_r_m']), 100))
                self.reports[f] = open(f, 'rb').read()
            # the text of a point names its position, cluster and error
            for p in r:
                t = '\n'.join(r.lines_for_point(p))
                cells = r.result_tuple_for_point(p)
                if str(r.absolute_coordinates_of(r.to_domain_coordinates(p))) not in t or 'cluster {}'.format(cells[1]) not in t \
                        or '{:.3f}'.format(float(r.prediction_error_at(p))) not in t:
                    e['text'] = 0
            e['ok'] = 1
        _, _, e['error'] = attempt(go)
        self.ev.append(e)

    def reread(self):
        same = all(os.path.exists(f) and open(f, 'rb').read() == v for f, v in self.reports.items())
        self.ev.append(dict(op='reread', same=int(same)))


def run_ask(seed):
    '''one solver, many questions in some order'''
    with scratch(), quiet():
        s = Session(seed, 'ask')
        rng = s.rng
        sid = None
        while sid is None:
            sid = s.add(s.base())
        h = s.train(sid)
        if h is None:
            return dict(ev=s.ev, note=str(seed))
        kept = []
        if rng.random() < .3:
            s.save(h)
            h = s.load(sid) or h
        for _ in range(rng.randrange(6, 12)):
            if kept and rng.random() < .2:
                s.again(*rng.choice(kept))
                continue
            if kept and rng.random() < .25:       # the same question again
                e = rng.choice(kept)[1]
                r, e = s.ask(h, Region(e['x1'], e['x2'], e['y1'], e['y2']), e['tf'] if rng.random() < .5 else None)
            else:
                r, e = s.ask(h)
            if r is not None:
                kept.append((r, e))
    return dict(ev=s.ev, note=str(seed))


def several(s, n):
    ids = []
    while not ids:
        q = s.base()
        i = s.add(q)
        if i:
            ids.append(i)
    for _ in range(n):
        i = s.add(s.vary(s.settings[s.rng.choice(ids) - 1]))
        if i and i not in ids:
            ids.append(i)
    return ids


def run_store(seed):
    '''several settings sharing one store'''
    with scratch(), quiet():
        s = Session(seed, 'store')
        rng = s.rng
        ids = several(s, 3)
        live = {}
        for _ in range(rng.randrange(14, 22)):
            u = rng.random()
            sid = rng.choice(ids)
            if u < .3 or sid not in live and u < .5:
                h = s.train(sid)
                if h:
                    live[sid] = h
                    if rng.random() < .7:
                        s.save(h)
            elif u < .4 and sid in live:
                s.save(live[sid])
            elif u < .44 and sid in live:
                s.save(live[sid], cut=rng.choice([0, 10, 200, 1000, 3000]))
                s.after_loss(sid)
            elif u < .72:
                h = s.load(sid)
                if h:
                    s.ask(h)
                    if rng.random() < .5:
                        s.ask(h, tf=rng.choice([0, 2]))
                    if rng.random() < .25:
                        s.report(h)
                    if rng.random() < .3:
                        live[sid] = h
            elif u < .82:
                s.drop_partition(sid)
            elif u < .91:
                s.drop_file(sid)
                s.after_loss(sid)
            elif sid in live:
                s.ask(live[sid])
    return dict(ev=s.ev, note=str(seed))


def neighbours(s, q):
    '''settings that differ from q in a single value'''
    rng, n = s.rng, min(s.world.n, 4)
    out = [dict(q, name='s' if q['name'] == 'r' else 'r'), dict(q, scaled=not q['scaled']), dict(q, seed=q['seed'] + 1), dict(q, seed=q['seed'] + 10),
           dict(q, mode='robust' if q['mode'] == 'lite' else 'lite'), dict(q, rf=1 - q['rf'])]
    out += [dict(q, dist=d) for d in ('dtw', 'w3', 'w60', 'w61') if d != q['dist']]
    out += [dict(q, k=k) for k in ([2, 4] if q['kind'] == 'regular' else range(1, n + 1)) if k != q['k']]
    out += [dict(q, tl=t) for t in (1, 2, 5, 8, 11, 12, 18, 51) if t != q['tl']]
    out += [dict(q, err=e) for e in ('MSE', 'MASE', 'sMAPE') if e != q['err']]
    out += [dict(q, fm=m) for m in (0, 2, 3) if m != q['fm']]
    if q['auto']:
        out += [dict(q, auto=q['auto'][:i] + [v] + q['auto'][i + 1:]) for i in range(4) for v in ((-1, 0, 1, 2) if i == 3 else (0, 1, 3, 10, 11)) if v != q['auto'][i]]
    else:
        out += [dict(q, par=p) for p in (0, 1, 5, 10, 11) if p != q['par']]
    rng.shuffle(out)
    return out


def run_near(seed):
    '''the only solver in the store is not the solver of any other settings'''
    with scratch(), quiet():
        s = Session(seed, 'near')
        sid = None
        while sid is None:
            q = s.base()
            sid = s.add(q)
        others = [i for i in (s.add(o, 0) for o in neighbours(s, q)) if i and i != sid]
        h = s.train(sid)
        if h:
            s.save(h)
            for i in others:
                s.load(i)
            h = s.load(sid)
            if h:
                s.ask(h)
    return dict(ev=s.ev, note=str(seed))


def run_report(seed):
    '''reports of several settings and questions in one output location'''
    with scratch(), quiet():
        r = random.Random('shape' + seed).random()
        s = Session(seed, 'report', (1, 12) if r < .08 else (12, 1) if r < .16 else None)
        rng = s.rng
        live = [h for h in (s.train(i) for i in several(s, 2)) if h]
        old = []
        for _ in range(rng.randrange(6, 10)):
            if not live:
                break
            if old and rng.random() < .5:
                e = dict(rng.choice(old))
                e[rng.choice(['x1', 'x2', 'y1', 'y2', 'tf', 'hid'])] = None
                a = (Region(e['x1'], e['x2'], e['y1'], e['y2']) if None not in (e['x1'], e['x2'], e['y1'], e['y2']) else None)
                s.report(e['hid'] or rng.choice(live), a, e['tf'])
            else:
                s.report(rng.choice(live))
            old.append(s.ev[-1])
            if rng.random() < .3:
                s.reread()
        s.reread()
    return dict(ev=s.ev, note=str(seed))


def run_wide(seed):
    '''more than ten rows and columns: the numbers of two areas may read alike when put together'''
    with scratch(), quiet():
        s = Session(seed, 'report', (11, 13))
        rng = s.rng
        live = [h for h in (s.train(i) for i in several(s, 1)) if h]
        if live:
            y = rng.randrange(3)
            home = rng.choice(['out', 'elsewhere/deep'])
            two = [Region(0, 1, 10 + y, 11 + y), Region(0, 11, y, 11 + y)]
            tf = rng.choice([0, 1, 3])
            for a in rng.sample(two, 2):
                s.report(live[0], a, tf, home)
            s.reread()
    return dict(ev=s.ev, note=str(seed))


def run_real(seed):
    '''real models: a loaded solver answers like the saved one'''
    with scratch(), quiet():
        s = Session(seed, 'real')
        rng = s.rng
        q = dict(s.base(), model=rng.choice(['mean', 'knn', 'knn', 'arima']), fm=0, rf=0, auto=[], scaled=False, kind='kmedoids', k=rng.choice([1, 2]))
        if q['model'] == 'arima' and q['tl'] > 5:
            q['tl'] = 5
        ids = [s.add(q)]
        v = dict(q, **rng.choice([dict(fm=1), dict(fm=1), dict(tl=3), dict(par=q['par'] + 1), dict(seed=q['seed'] + 1)]))
        if q['model'] == 'mean':
            v['fm'] = 0
        i = s.add(v)
        if i and i not in ids:
            ids.append(i)
        area = s.area()
        tfs = [0, rng.choice([1, 4])]
        for i in ids:
            h = s.train(i)
            if not h:
                return dict(ev=s.ev, note=str(seed))
            s.save(h)
            for tf in tfs:
                s.digest(h, area, tf)
        for i in rng.sample(ids, len(ids)):
            if rng.random() < .4:
                s.drop_partition(i)
            h = s.load(i)
            if h:
                for tf in tfs:
                    s.digest(h, area, tf)
    return dict(ev=s.ev, note=str(seed))
