'''Runs the programs that analyse the clusterings of a suite (C26), several over one scratch
directory; observed are the tables they write and the text they print.'''
import arima_stub  # (first: replaces the ARIMA fitting)

import csv
import os
import random
import re
import resource
import signal
import numpy as np

from core import BAD
from obs import attempt, integer, mat, num, quiet, scratch
from choice_driver import distinct_world, expected_series, read_table
from solver_driver import changed, snapshot
import programs_driver as pd
from programs_driver import launch
import experiments.metadata.arima as arima_md
import experiments.metadata.arima_clustering as arima_clustering_md
import experiments.metadata.clustering as clustering_md
import experiments.metadata.region as region_md
from spta.arima import AutoArimaParams
from spta.classifier.train_input import MedoidsChoiceMinDistance, MedoidsChoiceMinPredictionError
from spta.clustering.factory import ClusteringFactory
from spta.clustering.kmedoids import KmedoidsClusteringMetadata, kmedoids_metadata_generator
from spta.clustering.regular import RegularClusteringMetadata, regular_metadata_generator
from spta.distance.dtw import DistanceByDTW
from spta.region.centroid import CalculateCentroid

REGIONS, SUITES, AUTO, PDQ, EXPS, PDQ_EXPS = {}, {}, {}, {}, {}, {}


def suites_of(kind):
    return {n: (kmedoids_metadata_generator(k_values=s['ks'], seed_values=s['seeds']) if kind == 'kmedoids' else regular_metadata_generator(k_values=s['ks']))
            for n, s in SUITES.items() if s['kind'] == kind}


def patch():
    region_md.predefined_regions = lambda: dict(REGIONS)
    clustering_md.kmedoids_suites = lambda: suites_of('kmedoids')
    clustering_md.regular_suites = lambda: suites_of('regular')
    arima_md.predefined_auto_arima = lambda: dict(AUTO)
    arima_md.predefined_arima_suites = lambda: dict(PDQ)
    arima_clustering_md.auto_arima_clustering_experiments = lambda: dict(EXPS)
    arima_clustering_md.experiments_for_arima_with_clusters = lambda: dict(PDQ_EXPS)


def read_csv(path):
    with open(path, newline='') as f:
        return list(csv.reader(f, delimiter=' ', quotechar='|', quoting=csv.QUOTE_MINIMAL))


def thousandths(text):
    return num(float(text), 1000)


def whole(text):
    return integer(int(text))


def points(text):
    return [[integer(int(v)) for v in m] for m in re.findall(r'(-?\d+)\s*,\s*(-?\d+)', text)]


KIND = {'clustering': 'costs', 'k': 'distances', 'cluster': 'between', 'position': 'members'}


def kind_of(head):
    if 'error_each' in head:
        return 'summary'
    if head[0] == 'cluster' and not all(x.isdigit() for x in head[1:]):
        return ''
    return KIND.get(head[0], '')


def places(path, names):
    '''the clusterings that a path names'''
    return [i + 1 for i, n in enumerate(names) if re.search(r'(?<![0-9A-Za-z])' + re.escape(n) + r'(?![0-9A-Za-z])', path)]


def place(path, names):
    found = places(path, names)
    return found[0] if len(found) == 1 else BAD


class Analyses:
    SHAPES = [(2, 2), (2, 3), (3, 2), (1, 4), (4, 2), (2, 4), (3, 3)]

    def __init__(self, seed):
        self.rng = rng = random.Random(seed)
        self.ev = []
        patch()
        for d in (REGIONS, SUITES, AUTO, PDQ, EXPS, PDQ_EXPS):
            d.clear()
        AUTO.update({'p{}f{}'.format(p, f): AutoArimaParams(p, f, rng.randrange(1, 9), rng.randrange(1, 9), rng.choice([None, 0, 1]), rng.random() < .5)
                     for p in (0, 1, 5) for f in (0, 2, 3)})
        AUTO['simple'] = AutoArimaParams(2, 0, 6, 5, None, True)
        self.w = w = self.world(rng.choice(self.SHAPES))
        for key, scaled in (('r', False), ('rs', True)):
            REGIONS[key] = w.region('r', scaled)
        for name, vs in (('one', [(2,), (1,), (0,)]), ('two', [(1, 0), (0, 1), (0,)]), ('fail', [(1,), (0,), (2, 3)])):
            PDQ[name] = vs
        self.ev.append(dict(op='world', data=w.data, x0=w.x1, y0=w.y1, X=w.X, Y=w.Y,
                            d0=self.matrix('r'), d1=self.matrix('rs')))
        self.known = []
        self.trained = {}

    def world(self, shape):
        return distinct_world(self.rng, shape)

    def matrix(self, key):
        return mat(np.load(REGIONS[key].distances_filename), 1000)

    def measure(self, key):
        '''the program that measures the distances, before anything else'''
        md = REGIONS[key]
        args = [key, 'dtw'] + (['--parallel', 2] if self.rng.random() < .3 else [])
        os.remove(md.distances_filename)
        e = dict(op='measure', scaled=int(md.scaled), m=[], lib=mat(DistanceByDTW().compute_distance_matrix(md.create_instance()), 1000))
        e['ok'], _, e['error'] = launch('experiments.region.distance', args)
        e['ok'] = int(e['ok'] and os.path.isfile(md.distances_filename))
        if e['ok']:
            e['m'] = self.matrix(key)
        self.ev.append(e)

    def suite(self, kind=None, ks=None):
        rng, w = self.rng, self.w
        kind = kind or rng.choice(['kmedoids', 'kmedoids', 'regular'])
        if kind == 'regular':
            s = dict(kind=kind, ks=ks or sorted(rng.sample([2, 3, 4], rng.choice([1, 2]))), seeds=[])
        else:
            s = dict(kind=kind, ks=ks or rng.sample(range(1, min(w.n, 5) + 1), rng.choice([1, 2, 2, 3])), seeds=rng.sample(range(3), rng.choice([1, 2])))
        name = 's{}'.format(len(self.known) + 1)
        metadata = list(suites_of_one(s))
        both = []
        for key in ('r', 'rs'):
            def fresh():
                out = []
                for cm in metadata:
                    p = ClusteringFactory(DistanceByDTW()).instance(cm).partition(REGIONS[key].create_instance(), with_medoids=True)
                    out.append(dict(k=cm.k, seed=int(getattr(cm, 'random_seed', 0)), lab=[integer(v) for v in np.asarray(p.numpy_dataset).ravel().tolist()],
                                    rep=[int(m.x * w.Y + m.y + 1) for m in p.medoids]))
                return out
            ok, r, _ = attempt(fresh)
            if not ok:
                return None
            both.append(r)
        SUITES[name] = s
        self.known.append(dict(name=name, s=s, cm=metadata, names=[repr(cm) for cm in metadata]))
        self.ev.append(dict(op='suite', sid=len(self.known), c0=both[0], c1=both[1], ks=sorted(s['ks']), seeds=sorted(s['seeds'])))
        return len(self.known)

    # ---- command lines
    def shuffled(self, pos, opts):
        rng = self.rng
        if rng.random() < .3:
            opts = opts + [['--log', 'WARN']]
        opts = list(opts)
        rng.shuffle(opts)
        flat = [x for o in opts for x in o]
        return pos + flat if rng.random() < .5 else flat + pos

    def auto(self):
        name = self.rng.choice(sorted(AUTO))
        p = AUTO[name]
        return name, arima_stub.par_of_params(p), p.start_q

    def request(self, prog, sid, key):
        '''(module, command line, event)'''
        rng = self.rng
        from experiments.metadata.arima_clustering import ArimaWithClusters, AutoArimaCluster
        k = self.known[sid - 1]
        md = REGIONS[key]
        e = dict(op='run', prog=prog, sid=sid, scaled=int(md.scaled), tl=8, err='sMAPE', par=0, fm=0, pdq=[], ok=0, rows=[], tables=[])
        err = rng.choice([None, 'MASE', 'sMAPE', 'MSE'])
        e['err'] = err or 'sMAPE'
        erro = [['--error', err]] if err else []
        tl = rng.choice([None, 1, 2, 5])
        flen = [['--flen', tl]] if tl else []
        if prog in ('costs', 'distances'):
            m = 'experiments.clustering.partition_analysis' if prog == 'costs' else 'experiments.clustering.medoid_distances'
            return m, self.shuffled([key, k['s']['kind'], k['name']], []), e
        if prog == 'elbows':
            return 'experiments.clustering.find_elbows', self.shuffled([key, k['name']], []), e
        if prog in ('between', 'members', 'summary'):
            name, e['par'], e['fm'] = self.auto()
            exp = 'x{}'.format(len(EXPS))
            EXPS[exp] = AutoArimaCluster(name, k['s']['kind'], k['name'], 'dtw')
            module = dict(between='error_between_medoids', members='distance_errors', summary='training_error_analysis')[prog]
            par = [['--parallel', 2]] if prog == 'summary' and rng.random() < .15 else []
            if prog != 'summary':
                e['tl'] = tl or 8
            return 'experiments.auto_arima.' + module, self.shuffled([key, exp], erro + par + (flen if prog != 'summary' else [])), e
        if prog == 'summary-pdq':
            name = rng.choice(sorted(PDQ))
            exp = 'y{}'.format(len(PDQ_EXPS))
            PDQ_EXPS[exp] = ArimaWithClusters(name, k['s']['kind'], k['name'], 'dtw')
            e['pdq'] = [[p, d, q] for p in PDQ[name][0] for d in PDQ[name][1] for q in PDQ[name][2]]
            return 'experiments.arima.training_error_analysis', self.shuffled([key, exp], erro), e
        if prog == 'region':
            name = rng.choice(sorted(PDQ))
            e['err'] = 'MASE'
            e['pdq'] = [[p, d, q] for p in PDQ[name][0] for d in PDQ[name][1] for q in PDQ[name][2]]
            return 'experiments.arima.forecast', self.shuffled([key, name], []), e
        raise ValueError(prog)

    def understand(self, e, key, sid, files, text):
        names = self.known[sid - 1]['names'] if sid else []
        prog = e['prog']
        if prog == 'elbows':
            for part in re.split(r'\*+ Seed', text)[1:]:
                m = re.match(r'\s*(-?\d+).*?\[([^\]]*)\].*?=\s*(-?\d+)', part, re.S)
                e['rows'].append([int(m.group(1)), [int(x) for x in m.group(2).split(',')], int(m.group(3))])
            return
        if prog == 'region':
            for line in text.splitlines():
                m = re.match(r'.*p=(\d+), d=(\d+), q=(\d+).*each=(\S+), min_local=(\S+), centroid=(\S+)', line)
                if m:
                    e['rows'].append(dict(pdq=[int(m.group(i)) for i in (1, 2, 3)], each=num(float(m.group(4)), 1000),
                                          local=num(float(m.group(5)), 1000), medoid=num(float(m.group(6)), 1000)))
            return
        want = 'summary' if prog == 'summary-pdq' else prog
        for f in files:
            t = read_csv(f)
            if not t or kind_of(t[0]) != want:
                continue
            head, body = t[0], t[1:]
            if prog == 'costs':
                for c in (dict(zip(head, cells)) for cells in body):
                    e['rows'].append(dict(c=names.index(c['clustering']) + 1 if c['clustering'] in names else BAD, total=thousandths(c['total_cost']),
                                          med=points(c['medoids'])))
                e['tables'].append(1)
            elif prog in ('distances', 'between'):
                e['tables'].append(dict(c=place(f, names), head=[whole(x) for x in head[1:]], side=[whole(r[0]) for r in body],
                                        m=[[thousandths(x) for x in r[1:]] for r in body]))
            elif prog == 'members':
                rows = []
                for r in body:
                    xy = [integer(int(v)) for v in re.findall(r'-?\d+', r[0])]
                    rows.append(dict(ax=xy[0] if len(xy) == 2 else BAD, ay=xy[1] if len(xy) == 2 else BAD, d=thousandths(r[1]), err=thousandths(r[2])))
                e['tables'].append(dict(c=place(f, names), rows=rows))
            else:
                rows = []
                for r in body:
                    c = dict(zip(head, r))
                    pdq = [c['p'], c['d'], c['q']] if 'p' in c else [c['p_medoid'], c['d_medoid'], c['q_medoid']]
                    rows.append(dict(i=whole(c['cluster']), size=whole(c['size']), failed=whole(c['failed']), pdq=[whole(x) for x in pdq],
                                     aic=thousandths(c['aic_medoid']) if 'aic_medoid' in c else 0, each=thousandths(c['error_each']),
                                     min=thousandths(c['error_min']), local=thousandths(c['error_min_local']), medoid=thousandths(c['error_medoid']),
                                     max=thousandths(c['error_max'])))
                e['tables'].append(dict(c=place(f, names), rows=rows))

    def run(self, prog, sid, key):
        module, args, e = self.request(prog, sid, key)
        e['centroid'] = 0
        if prog == 'region':
            c = CalculateCentroid.for_sptr_metadata(REGIONS[key], DistanceByDTW())
            e['centroid'] = int(c.x * self.w.Y + c.y + 1)
        before = snapshot('outputs')
        ok, text, e['error'] = launch(module, args)
        if ok:
            files = [f for f in changed(before, snapshot('outputs')) if f.endswith('.csv')]
            a, _, x = attempt(lambda: self.understand(e, key, sid, files, text))
            e['ok'] = int(a)
            if not a:
                e['error'] = 'unreadable ' + x
                e['rows'], e['tables'] = [], []
        self.ev.append(e)
        return e

    def fork(self, args, limit=0, when=0):
        pid = os.fork()
        if pid == 0:
            ok = False
            try:
                if when:
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.setitimer(signal.ITIMER_REAL, when)
                if limit:
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                ok = launch(*args)[0]
            finally:
                os._exit(0 if ok else 1)
        return pid

    def die(self, prog, sid, key):
        '''a program that dies: when a file grows beyond some size, or after some time'''
        rng = self.rng
        module, args, e = self.request(prog, sid, key)
        limit, when = (rng.choice([1, 60, 120, 300, 800]), 0) if rng.random() < .7 else (0, rng.choice([.003, .01, .03]))
        os.waitpid(self.fork((module, args), limit, when), 0)
        self.ev.append(dict(op='die', prog=prog, sid=sid))

    def burst(self, jobs):
        '''several programs at the same time, with tables of their own'''
        kids = []
        before = snapshot('outputs')
        for prog, sid, key in jobs:
            module, args, e = self.request(prog, sid, key)
            e['centroid'] = 0
            kids.append((e, key, sid, self.fork((module, args))))
        done = [(e, key, sid, os.waitpid(pid, 0)[1]) for e, key, sid, pid in kids]
        files = [f for f in changed(before, snapshot('outputs')) if f.endswith('.csv')]
        for e, key, sid, st in done:
            if st == 0:
                names = self.known[sid - 1]['names']
                mine = [f for f in files if places(f, names) or e['prog'] == 'costs']
                a, _, x = attempt(lambda: self.understand(e, key, sid, mine, ''))
                e['ok'] = int(a)
                if not a:
                    e['rows'], e['tables'] = [], []
            e['error'] = 'burst'
            self.ev.append(e)

    # ---- the tables a classifier is trained with
    def extract(self, sid, key):
        rng, w = self.rng, self.w
        k = self.known[sid - 1]
        md = REGIONS[key]
        suite = suites_of_one(k['s'])
        suite.identifier = k['name']
        criterion = rng.choice(['min_distance', 'min_error']) if k['s']['kind'] == 'kmedoids' else 'min_distance'
        taken = len({i for c in self.ev if c['op'] == 'suite' and c['sid'] == sid for x in c['c1' if md.scaled else 'c0'] for i in x['rep']})
        if taken == w.n:
            return
        count, rs = rng.randrange(1, w.n - taken + 1), rng.randrange(9)
        e = dict(op='extract', sid=sid, scaled=int(md.scaled), criterion=criterion, count=count, par=0, fm=0, tl=8, err='sMAPE', ok=0, good=0, goodm=0, rows=[], meds=[])
        args = ['--random', count, '--random-seed', rs]
        name, tl, err = 'simple', 8, 'sMAPE'
        if criterion == 'min_error':
            name = rng.choice([n for n in sorted(AUTO) if AUTO[n].start_q == 0])
            tl, err = rng.choice([2, 8]), rng.choice(['MASE', 'sMAPE'])
            e.update(par=arima_stub.par_of_params(AUTO[name]), tl=tl, err=err)
            for cm in k['cm']:
                ok, _, x = launch('experiments.auto_arima.solver', ['train', key, name, 'kmedoids', '-k', cm.k, '--seed', cm.random_seed, '--tp', tl, '--error', err])
                if not ok:
                    e['error'] = x
                    self.ev.append(dict(e, ok=0))
                    return
            args += ['--auto-arima', name, '--tp', tl, '--error', err]
        ok, _, x = launch('experiments.clustering.partition_analysis', [key, k['s']['kind'], k['name']])
        e['error'] = x
        if ok:
            ok, _, e['error'] = launch('experiments.clustering.extraction_lstm', self.shuffled([key, k['s']['kind'], k['name'], criterion], [args]))
        if ok:
            def look():
                strategy = MedoidsChoiceMinDistance(md, DistanceByDTW()) if criterion == 'min_distance' else \
                    MedoidsChoiceMinPredictionError(md, DistanceByDTW(), 'outputs', AUTO[name], tl, err)
                a, _ = strategy.csv_filepaths(output_home='outputs', clustering_suite=suite, count=count, random_seed=rs)
                expected = [expected_series(w, i, md.scaled) for i in range(w.n)]
                e['good'], e['rows'] = read_table(a, w, md, k['names'], expected, k['s']['kind'])
                e['goodm'], e['meds'] = read_table(suite.medoid_series_csv_filepath('outputs', md, DistanceByDTW()), w, md, k['names'], expected, k['s']['kind'])
                e['ok'] = 1
            _, _, e['error'] = attempt(look)
        self.ev.append(e)


def suites_of_one(s):
    return kmedoids_metadata_generator(k_values=s['ks'], seed_values=s['seeds']) if s['kind'] == 'kmedoids' else regular_metadata_generator(k_values=s['ks'])


PROGRAMS = ['costs', 'distances', 'between', 'members', 'summary', 'summary-pdq']


def run(seed):
    with scratch(), quiet():
        a = Analyses(seed)
        rng = a.rng
        if rng.random() < .25:
            a.measure(rng.choice(['r', 'rs']))
        ids = []
        while len(ids) < 2:
            i = a.suite()
            if i:
                ids.append(i)
        for _ in range(rng.randrange(6, 9)):
            u = rng.random()
            sid, key = rng.choice(ids), rng.choice(['r', 'rs'])
            if u < .62:
                prog = rng.choice(PROGRAMS)
                if rng.random() < .2:
                    a.die(prog, sid, key)
                a.run(prog, sid, key)
            elif u < .72:
                a.burst([(p, sid, key) for p in rng.sample(['costs', 'distances', 'between', 'members', 'summary'], rng.choice([2, 3]))])
            elif u < .8:
                a.run('region', sid, key)
            elif u < .9:
                ok = [i for i in ids if a.known[i - 1]['s']['kind'] == 'kmedoids' and len(a.known[i - 1]['s']['ks']) >= 3]
                if ok:
                    a.run('elbows', rng.choice(ok), key)
                else:
                    a.extract(sid, key)
            else:
                a.extract(sid, key)
    return dict(ev=a.ev, note=str(seed))
