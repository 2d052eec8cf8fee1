'''Observes saved partitions and the textual identity of clustering descriptions.'''
import csv
import os
import random
import numpy as np

from obs import attempt, integer, ints, num, pts, scratch
from spta.clustering.factory import ClusteringFactory, ClusteringMetadataFactory
from spta.clustering.kmedoids import KmedoidsClusteringMetadata
from spta.clustering.regular import RegularClusteringMetadata
from spta.distance.dtw import DistanceByDTW, DistanceBySpatialDTW
from spta.region import Region
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.region.temporal import SpatioTemporalRegion


def desc_args(d):
    return dict(algo=d['algo'], k=d['k'], seed=d['seed'], mode=d['mode'], init=list(d['init']))


def metadata(d, rng, factory=True):
    kw = dict(rng.choice([{}, {'verbose': False}, {'max_iter': 1000}]))
    init = list(d['init']) or None
    if d['algo'] == 'regular':
        return ClusteringMetadataFactory().instance('regular', d['k']) if rng.random() < .5 else RegularClusteringMetadata(d['k'])
    if rng.random() < .5:
        return ClusteringMetadataFactory().instance('kmedoids', d['k'], random_seed=d['seed'], mode=d['mode'],
                                                    initial_medoids=init, **kw)
    return KmedoidsClusteringMetadata(d['k'], random_seed=d['seed'], mode=d['mode'], initial_medoids=init, **kw)


def variant(rng, d, n):
    d = dict(d)
    what = rng.choice(['seed', 'seed', 'mode', 'init', 'init', 'k', 'algo'])
    if what == 'seed':
        d['seed'] = rng.choice([0, 1, 2, 3, 12, 10])
    elif what == 'mode':
        d['mode'] = 'robust' if d['mode'] == 'lite' else 'lite'
    elif what == 'init':
        d['init'] = [] if d['init'] and rng.random() < .5 else rng.sample(range(n), d['k'])
    elif what == 'k':
        d['k'] = rng.randrange(1, min(n, 5) + 1)
        d['init'] = []
    else:
        d['algo'] = 'regular' if d['algo'] == 'kmedoids' else 'kmedoids'
    if d['algo'] == 'regular':
        d.update(seed=0, mode='', init=[], k=rng.choice([2, 3, 4]) if n >= 4 else 1)
    elif d['mode'] == '':
        d['mode'] = 'lite'
    return d


def snapshot():
    out = {}
    for base, _, files in os.walk('.'):
        for f in files:
            p = os.path.join(base, f)
            s = os.stat(p)
            out[p] = (s.st_mtime_ns, s.st_size, s.st_ino)
    return out


def content(p):
    mem = ints(np.asarray(p.numpy_dataset).ravel().tolist())
    med = pts(p.medoids) if hasattr(p, 'medoids') and p.medoids is not None else []
    return mem, med


def run(seed):
    rng = random.Random(seed)
    ev = []
    with scratch():
        os.mkdir('raw')
        X, Y = rng.choice([(2, 2), (2, 3), (3, 3), (4, 2), (1, 5)])
        n = X * Y
        regions = []
        x1, y1, y = rng.randrange(5), rng.randrange(5), rng.randrange(2000, 2014)
        base = dict(name='r', year_start=y, year_end=y + 1, spd=1, scaled=False)
        mds = [base] + [dict(base, **rng.choice([dict(name='r2'), dict(year_start=y + 1), dict(year_end=y), dict(spd=4),
                                                 dict(scaled=True)]))]
        for i, m in enumerate(mds):
            md = SpatioTemporalRegionMetadata(m['name'], Region(x1, x1 + X, y1, y1 + Y), m['year_start'], m['year_end'],
                                              m['spd'], scaled=m['scaled'])
            data = np.array([[[rng.randrange(0, 20) for _ in range(Y)] for _ in range(X)] for _ in range(3)], dtype=float)
            r = SpatioTemporalRegion(data, md)
            dm = DistanceByDTW()
            dm.compute_distance_matrix(r)
            np.save(md.distances_filename, dm.distance_matrix)
            regions.append(r)
        measures = {}

        def measure(ri, dist):
            if (ri, dist) not in measures or rng.random() < .5:
                measures[ri, dist] = DistanceByDTW() if dist == 'dtw' else DistanceBySpatialDTW(int(dist[1:]))
            return measures[ri, dist]
        dists = ['dtw', 'w3', 'w40']
        d0 = dict(algo='kmedoids', k=rng.choice([2, 3]), seed=rng.randrange(3), mode='lite', init=[])
        pool = [dict(region=0, dist='dtw', **d0)]
        for _ in range(3):
            q = dict(rng.choice(pool))
            u = rng.random()
            if u < .2:
                q['region'] = 1 - q['region']
            elif u < .45:
                q['dist'] = rng.choice(dists)
            else:
                v = variant(rng, desc_args(q), n)
                q.update(v)
            if q['algo'] == 'regular':
                try:
                    metadata(q, rng)
                except Exception:
                    continue
            pool.append(q)

        def algorithm(q):
            return ClusteringFactory(measure(q['region'], q['dist'])).instance(metadata(q, rng))

        def settings(q):
            return dict(region=q['region'], dist=q['dist'], **desc_args(q))
        good = []
        for q in pool:
            before = snapshot()
            ok, p, err = attempt(lambda: algorithm(q).partition(regions[q['region']], with_medoids=True))
            e = dict(op='fresh', ok=int(ok), mem=[], med=[], files=int(snapshot() != before), **settings(q))
            if not ok and q['algo'] == 'regular':
                continue            # no regular partition of this shape: not a question of storage
            if ok:
                e['mem'], e['med'] = content(p)
            ev.append(e)
            good.append(q)
        homes = ['pickle', 'other', os.path.join(os.getcwd(), 'deep', 'er')]
        paths = {}
        for _ in range(rng.randrange(8, 14)):
            q = rng.choice(good)
            hi = rng.choice([0, 0, 1, 2])
            home = homes[hi]
            pid = repr((hi, settings(q)))
            u = rng.random()
            if u < .62:
                before = snapshot()
                wm = rng.random() < .7
                at = 'out' if rng.random() < .3 else None
                kw = dict(save_csv_at=at)
                if rng.random() < .9:
                    ok, p, err = attempt(lambda: algorithm(q).partition(regions[q['region']], with_medoids=wm, pickle_home=home, **kw))
                else:
                    alg = algorithm(q)

                    def twice():
                        alg.partition(regions[q['region']], with_medoids=wm, pickle_home=home, **kw)
                        return alg.partition(regions[q['region']], wm, at, home)
                    ok, p, err = attempt(twice)
                after = snapshot()
                changed = [f for f in after if before.get(f) != after[f]]
                here = os.path.relpath(home)
                stored = [f for f in changed if os.path.relpath(f).startswith(here + os.sep)]
                outs = [f for f in changed if os.path.relpath(f).startswith('out' + os.sep)]
                e = dict(op='request', home=hi, wm=int(wm), ok=int(ok), mem=[], med=[], csv=[], csvat=int(at is not None),
                         elsewhere=len(changed) - len(stored) - len(outs), **settings(q))
                if stored:
                    paths[pid] = stored
                if ok:
                    e['mem'], e['med'] = content(p)
                if at is not None:
                    try:
                        with open([f for f in outs if f.endswith('.csv')][0]) as f:
                            rows = list(csv.reader(f, delimiter=' ', quotechar='|'))[1:]
                        e['csv'] = [[integer(int(r[0])), integer(int(r[1])), num(float(r[2]), 10)] for r in rows]
                    except Exception:
                        e['csv'] = []
                ev.append(e)
            elif u < .8:
                alg = algorithm(q)
                md = regions[q['region']].region_metadata
                ok, p, err = attempt(lambda: alg.load_previous_partition(md, home))
                okt, pt_, err = attempt(lambda: alg.try_load_previous_partition(md, pickle_home=home))
                e = dict(op='load', home=hi, ok=int(ok and p is not None), tryok=int(okt and (pt_ is not None) == (ok and p is not None)),
                         mem=[], med=[], **settings(q))
                if e['ok']:
                    e['mem'], e['med'] = content(p)
                ev.append(e)
            elif pid in paths:
                kind = 'delete' if u < .88 else 'corrupt'
                for f in paths[pid]:
                    if not os.path.isfile(f):
                        continue
                    if kind == 'delete':
                        os.remove(f)
                    else:
                        with open(f, 'rb') as g:
                            old = g.read()
                        new = rng.choice([b'', b'garbage', old[:len(old) // 2], old[:-1], b'hello world', b'\x80\x7f', b'cno_such_module\nThing\n.',
                                          old.replace(b'spta.region.partition', b'spta.region.partitiom'), bytes(reversed(old)), b'\x00' * len(old)])
                        with open(f, 'wb') as g:
                            g.write(new)
                if kind == 'delete':
                    del paths[pid]
                ev.append(dict(op=kind, home=hi, **settings(q)))
    return dict(ev=ev, note=str(seed))


def run_descriptions(seed):
    rng = random.Random(seed)
    ev = []
    n = 25
    d = dict(algo='kmedoids', k=rng.choice([1, 2, 12, 21]), seed=rng.randrange(30), mode='lite', init=[])
    seen = []
    for i in range(10):
        e = dict(op='describe', id=i + 1, ok=0, label=1, other=0, eq=[], texteq=[], hasheq=[], back=[], **desc_args(d))

        def observe():
            m = metadata(d, rng)
            b = ClusteringMetadataFactory().from_repr(repr(m))
            e['back'] = dict(algo=b.name, k=integer(b.k), seed=integer(getattr(b, 'random_seed', 0)),
                             mode=getattr(b, 'mode', ''), init=ints(getattr(b, 'initial_medoids', None) or []))
            e['eq'] = [int((m == o) if rng.random() < .5 else (o == m)) for o in seen]
            e['texteq'] = [int(repr(m) == repr(o)) for o in seen]
            e['hasheq'] = [int(hash(m) == hash(o)) for o in seen]
            e['other'] = int(m == repr(m) or m == 5)
            if d['algo'] == 'kmedoids':
                ci = rng.randrange(d['k'])
                b = KmedoidsClusteringMetadata.from_classifier_label('{}-{}-{}'.format(d['k'], d['seed'], ci), mode=d['mode'])
                e['label'] = int((b.k, b.random_seed, b.mode) == (d['k'], d['seed'], d['mode']) and not b.initial_medoids)
            seen.append(m)
            e['ok'] = 1
        attempt(observe)
        ev.append(e)
        if not e['ok']:
            break
        d = variant(rng, d, n) if rng.random() < .85 else dict(d)
        if rng.random() < .2:
            d = dict(desc_args(ev[0]))
    return dict(ev=ev, note=str(seed))
