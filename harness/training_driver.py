'''Observes splitting, training, refitting and the training of solvers (C13).'''
import random
import numpy as np

from obs import attempt, integer, num, nums, quiet, scratch
import solver_world as sw
from solver_world import U, HashParams, TrainerHash, World, TRAINED, units
from spta.arima import ArimaPDQ, AutoArimaParams
from spta.arima.train import TrainerArimaPDQ, TrainerAutoArima
from spta.distance.dtw import DistanceByDTW
from spta.model.mean import MeanOfPastParams, TrainerMeanOfPast
from spta.model.train import NoTrainer, SplitTrainingAndTestLast, TrainAtRepresentatives
from spta.region import Point, Region
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.region.partition import PartitionRegionCrisp
from spta.region.scaling import ScaleFunction
from spta.region.spatial import SpatialRegion
from spta.region.temporal import SpatioTemporalRegion
from spta.solver.train import SolverTrainer


def some_region(rng, n_samples, scaled=False, cluster=None, top=80):
    '''(region, members, series in units, original series in units)'''
    X, Y = rng.choice([(1, 1), (1, 3), (2, 2), (2, 3), (3, 2), (3, 3), (4, 2)])
    a = np.array([[sw.make_series(rng, n_samples, scaled) for _ in range(Y)] for _ in range(X)], dtype=float).transpose(2, 0, 1)
    dtype = rng.choice([float, float, np.float32])
    region = SpatioTemporalRegion(a.astype(dtype).copy())
    orig = [[int(v) * U for v in a[:, x, y]] for x in range(X) for y in range(Y)]
    members = [Point(x, y) for x in range(X) for y in range(Y)]
    if scaled:
        region = ScaleFunction(X, Y).apply_to(region, n_samples)
    if cluster if cluster is not None else rng.random() < .4:
        k = rng.choice([1, 2])
        lab = [rng.randrange(k) for _ in range(X * Y)]
        lab[rng.randrange(X * Y)] = 0
        k = max(lab) + 1
        part = PartitionRegionCrisp(np.array(lab).reshape(X, Y), k)
        region = part.create_spt_cluster(region, 0)
        members = [m for i, m in enumerate(members) if lab[i] == 0]
        orig = [o for i, o in enumerate(orig) if lab[i] == 0]
    return region, X, Y, members, orig


def series_of(region, members):
    return [nums(region.series_at(m), U) for m in members]


def split_event(rng):
    n = rng.choice([2, 3, 5, 9, 20])
    scaled = rng.random() < .5
    region, X, Y, members, orig = some_region(rng, n, scaled)
    tl = rng.randrange(1, n)
    e = dict(op='split', ok=0, tl=tl, data=series_of(region, members), orig=orig if scaled else [], train=[], test=[],
             otrain=[], otest=[], after=[])

    def observe():
        train, test = SplitTrainingAndTestLast(tl).split(region)
        e['train'], e['test'] = series_of(train, members), series_of(test, members)
        if [p for p, _ in train] != members or [p for p, _ in test] != members:
            e['train'] = e['test'] = []
        e['after'] = series_of(region, members)
        if scaled:
            e['otrain'], e['otest'] = series_of(train.descale(), members), series_of(test.descale(), members)
        e['ok'] = 1
    attempt(observe)
    return e


def train_events(rng):
    n = rng.choice([3, 6, 12])
    region, X, Y, members, _ = some_region(rng, n)
    fm = rng.choice([0, 0, 2, 3])
    data = series_of(region, members)
    ln = rng.choice([1, 2, 5])
    constant = rng.random() < .5
    pars = {m: rng.choice([0, 1, 2, 5, 8]) for m in members}
    if constant:
        c = rng.choice([0, 1, 5])
        pars = {m: c for m in members}
        trainer = TrainerHash(HashParams(c, fm, 1), X, Y)
    else:
        fm = 0 if rng.random() < .5 else fm
        pr = np.full((X, Y), None, dtype=object)
        for m in members:
            if rng.random() < .25:
                pars[m] = -1
            else:
                pr[m.x, m.y] = HashParams(pars[m], fm, 1)
        trainer = TrainerHash(params_region=SpatialRegion(pr))
    reps = None
    if rng.random() < .5:
        reps = rng.sample(members, rng.randrange(1, len(members) + 1))
        applied = TrainAtRepresentatives(trainer, reps if rng.random() < .7 else [Point(p.x, p.y) for p in reps])
    else:
        applied = trainer
    at = [i + 1 for i, m in enumerate(members) if reps is None or m in reps]
    e = dict(op='train', ok=0, data=data, par=[pars[m] for m in members], fm=fm, at=at, len=ln, missing=0, counted=int(reps is None), fc=[])
    out = [e]
    state = {}

    def observe():
        models = applied.apply_to(region)
        state['m'] = models
        e['missing'] = integer(applied.missing_count)
        if rng.random() < .3:
            again = NoTrainer(models)
            models = again.apply_to(region)
        if rng.random() < .3:
            # forecasts of another length before
            models.apply_to(region, ln + 2)
        target = region if rng.random() < .5 else region.empty_region_2d()
        e['fc'] = series_of(models.apply_to(target, ln), members)
        e['ok'] = 1
    attempt(observe)
    if e['ok'] and reps is None:
        # refit with more data
        more = [[rng.randrange(1, 80) for _ in range(n + 3)] for _ in range(X * Y)]
        whole = SpatioTemporalRegion(np.array(more, dtype=float).reshape(X, Y, n + 3).transpose(2, 0, 1).copy())
        r = dict(op='refit', ok=0, data=data, par=e['par'], fm=fm if constant else 0, len=ln, fc=[], whole=series_of(whole, members))
        if constant:
            def observe2():
                r['fc'] = series_of(trainer.create_refitter(state['m']).apply_to(whole).apply_to(whole, ln), members)
                r['ok'] = 1
            attempt(observe2)
            out.append(r)
    return out


def mean_event(rng):
    n = rng.choice([2, 5, 9])
    region, X, Y, members, orig = some_region(rng, n)
    past = rng.choice([1, 2, 4, n, n + 3])
    ln = rng.choice([1, 3])
    e = dict(op='mean', ok=0, data=[[v // U for v in s] for s in orig], past=past, len=ln, fc=[])

    def observe():
        models = TrainerMeanOfPast(MeanOfPastParams(past), X, Y).apply_to(region)
        e['fc'] = series_of(models.apply_to(region, ln), members)
        e['ok'] = 1
    attempt(observe)
    return e


def run_small(seed):
    rng = random.Random(seed)
    sw.NEAR[0] = 1.0
    ev = []
    with quiet():
        for _ in range(4):
            ev.append(split_event(rng))
        for _ in range(3):
            ev += train_events(rng)
        ev.append(mean_event(rng))
    return dict(ev=ev, note=str(seed))


def all_points(X, Y):
    return [Point(x, y) for x in range(X) for y in range(Y)]


def lab_rep(solver, Y):
    lab = [integer(v) for v in np.asarray(solver.partition.numpy_dataset).ravel().tolist()]
    rep = [m.x * Y + m.y + 1 for m in solver.partition.medoids]
    return lab, rep


def run_solver(seed):
    rng = random.Random(seed)
    ev = []
    with scratch(), quiet():
        w = World(rng, near=rng.random() < .5)
        scaled = rng.random() < .5
        md = w.region('r', scaled)
        kind = rng.choice(['kmedoids', 'kmedoids', 'regular'])
        k = rng.choice([2, 4]) if kind == 'regular' else rng.randrange(1, min(w.n, 4) + 1)
        params = HashParams(rng.choice([-1, 0, 1, 5]) if rng.random() < .1 else rng.choice([0, 1, 5]), rng.choice([0, 0, 2, 3]), rng.randrange(2))
        tl = rng.choice([1, 2, 5, 8])
        err = rng.choice(['MSE', 'MASE', 'sMAPE'])
        ln = rng.choice([1, 3, 7])
        e = dict(op='solver', ok=0, data=w.data, scaled=int(scaled), tl=tl, par=params.par, fm=params.fail, rf=params.refit, err=err,
                 lab=[], rep=[], len=ln, infc=[], fut=[], test=[], errs=[], seen=[])
        try:
            cm = w.clustering(kind, k, rng.randrange(3))
        except Exception:
            return dict(ev=[split_event(rng)], note=str(seed))
        del TRAINED[:]
        state = {}

        def train():
            p = params if params.par >= 0 else None
            t = SolverTrainer(region_metadata=md, clustering_metadata=cm, distance_measure=DistanceByDTW(),
                              model_trainer=TrainerHash(p, w.X, w.Y), model_params=params, test_len=tl, error_type=err)
            state['s'] = t.train('out')
        ok, _, errname = attempt(train)
        if not ok and kind == 'regular' and (w.n % k != 0 or k == 4 and min(w.X, w.Y) < 2):
            return dict(ev=[split_event(rng)], note=str(seed))

        def observe():
            s = state['s']
            e['lab'], e['rep'] = lab_rep(s, w.Y)
            e['seen'] = [list(t) for t in TRAINED]
            area = Region(0, w.X, 0, w.Y)
            r = s.predict(area, 0, 'out', plot=False)
            f = s.predict(area, ln, 'out', plot=False)
            for p in all_points(w.X, w.Y):
                e['infc'].append(units(r.prediction_forecast_at(p)))
                e['test'].append(units(r.result_tuple_for_point(p)[-1]))
                e['errs'].append(num(r.prediction_error_at(p), U))
                e['fut'].append(units(f.prediction_forecast_at(p)))
            e['ok'] = 1
        if ok:
            attempt(observe)
        if params.par < 0:
            e['rf'] = 0
        ev.append(e)
    return dict(ev=ev, note=str(seed))


def order_of(model):
    if model is None or not hasattr(model, 'model'):
        return []
    return [integer(v) for v in model.model.order]


def run_pair(seed):
    '''a real trainer with two data sets that differ in one sample'''
    rng = random.Random(seed)
    ev = []
    with scratch(), quiet():
        w = World(rng, rng.choice([(2, 2), (1, 3), (2, 3)]))
        md = w.region('r', False)
        k = rng.choice([1, 2, 2])
        cm = w.clustering('kmedoids', k, rng.randrange(3))
        tl = rng.choice([2, 5, 8])
        ln = 3
        err = rng.choice(['MSE', 'MASE', 'sMAPE'])
        kind = rng.choice(['pdq', 'auto', 'auto', 'mean'])
        if kind == 'pdq':
            params = ArimaPDQ(*rng.choice([(1, 0, 0), (1, 1, 1), (0, 1, 1), (0, 0, 0), (0, 0, 0)]))
            trainer = lambda: TrainerArimaPDQ(params, w.X, w.Y)
        elif kind == 'auto':
            params = AutoArimaParams(0, 0, 1, 1, rng.choice([None, 0, 1, 2]), True)
            trainer = lambda: TrainerAutoArima(params, w.X, w.Y)
        else:
            params = MeanOfPastParams(rng.choice([1, 5, 30]))
            trainer = lambda: TrainerMeanOfPast(params, w.X, w.Y)

        def outcome():
            s = SolverTrainer(region_metadata=md, clustering_metadata=cm, distance_measure=DistanceByDTW(), model_trainer=trainer(),
                              model_params=params, test_len=tl, error_type=err).train('out')
            lab, rep = lab_rep(s, w.Y)
            area = Region(0, w.X, 0, w.Y)
            r, f = s.predict(area, 0, 'out', plot=False), s.predict(area, ln, 'out', plot=False)
            ps = all_points(w.X, w.Y)
            mt, mw = s.model_region_training, s.model_region_whole
            reps = [ps[i - 1] for i in rep]
            return dict(lab=lab, rep=rep,
                        inf=[np.asarray(r.prediction_forecast_at(p)).tobytes() for p in ps],
                        fut=[np.asarray(f.prediction_forecast_at(p)).tobytes() for p in ps],
                        err=[repr(float(r.prediction_error_at(p))) for p in ps],
                        ordt=[order_of(mt.value_at(p)) for p in reps] if kind != 'mean' else [[] for p in reps],
                        ordw=[order_of(mw.value_at(p)) for p in reps] if kind != 'mean' else [[] for p in reps])
        e = dict(op='pair', ok=0, n=w.LEN, tl=tl, lab=[], rep=[], at=[0, 0], din=[], dfut=[], derr=[], mase=int(err == 'MASE'), inid=[], futid=[],
                 ordt=[], ordw=[], again=0)
        keep = {}
        ok, a, name = attempt(outcome, 200)
        if not ok:
            e['err'] = name
            return dict(ev=[e], note=str(seed))
        for _ in range(2):
            who = rng.choice([rng.randrange(w.n), rng.choice(a['rep']) - 1])
            i = rng.choice([w.LEN - 1, w.LEN - tl, w.LEN - tl - 1, rng.randrange(w.LEN)])
            old = w.big[i, w.x1 + who // w.Y, w.y1 + who % w.Y]
            w.big[i, w.x1 + who // w.Y, w.y1 + who % w.Y] = old + rng.choice([1, 7, 30])
            np.save('raw/SouthAmerica_{0}_{0}_1spd.npy'.format(w.YEAR), w.big)
            ok, b, name = attempt(outcome, 200)
            w.big[i, w.x1 + who // w.Y, w.y1 + who % w.Y] = old
            np.save('raw/SouthAmerica_{0}_{0}_1spd.npy'.format(w.YEAR), w.big)
            f = dict(e, ok=int(ok), lab=a['lab'], rep=a['rep'], at=[who + 1, i + 1])
            if ok:
                diff = lambda key: [int(x != y) for x, y in zip(a[key], b[key])]
                first = lambda key: [a[key].index(x) for x in a[key]]
                same = lambda key: [b[key].index(x) for x in b[key]]
                f.update(din=diff('inf'), dfut=diff('fut'), derr=diff('err'), inid=first('inf'), futid=same('fut'),
                         ordt=b['ordt'], ordw=b['ordw'], again=int(b['lab'] == a['lab'] and b['rep'] == a['rep']))
            ev.append(f)
        if rng.random() < .4:
            ok, b, name = attempt(outcome, 200)
            z = [0] * w.n
            ev.append(dict(e, ok=int(ok), lab=a['lab'], rep=a['rep'], at=[1, w.LEN], din=z, dfut=z, derr=z, inid=z, futid=z,
                           ordt=a['ordt'], ordw=a['ordw'], again=int(ok and a == b)))
    return dict(ev=ev, note=str(seed))


def run_short(seed):
    '''real trainers where some points cannot be trained'''
    rng = random.Random(seed)
    with scratch(), quiet():
        X, Y = rng.choice([(1, 2), (2, 2), (1, 3)])
        n = rng.choice([2, 3, 4, 8])
        data = np.array([[[rng.randrange(1, 60) for _ in range(Y)] for _ in range(X)] for _ in range(n)], dtype=float)
        for i in range(X * Y):
            u = rng.random()
            if u < .2:
                data[rng.randrange(n), i // Y, i % Y] = np.nan if rng.random() < .6 else np.inf
            elif u < .3:
                data[:, i // Y, i % Y] = 5
        ln = rng.choice([1, 3])
        order = ArimaPDQ(*rng.choice([(1, 1, 1), (1, 2, 0), (2, 0, 2), (3, 1, 0), (0, 1, 0)]))
        auto = rng.random() < .35
        trainer = (lambda a, b: TrainerAutoArima(AutoArimaParams(1, 1, 2, 2, None, True), a, b)) if auto else (lambda a, b: TrainerArimaPDQ(order, a, b))
        e = dict(op='short', ok=0, missing=0, fin=[], flen=[], same=[], len=ln)

        def observe():
            region = SpatioTemporalRegion(data.copy())
            t = trainer(X, Y)
            models = t.apply_to(region)
            fc = models.apply_to(region, ln)
            e['missing'] = integer(t.missing_count)
            for p in all_points(X, Y):
                has = models.value_at(p) is not None
                f = np.asarray(fc.series_at(p), dtype=float)
                e['fin'].append(int(has))
                e['flen'].append(len(f))
                # the same training for this point alone
                alone = SpatioTemporalRegion(data[:, p.x:p.x + 1, p.y:p.y + 1].copy())
                m1 = trainer(1, 1).apply_to(alone)
                g = np.asarray(m1.apply_to(alone, ln).series_at(Point(0, 0)), dtype=float)
                same = (m1.value_at(Point(0, 0)) is not None) == has and np.array_equal(f, g, equal_nan=True)
                if not has:
                    same = same and bool(np.all(np.isnan(f)))
                e['same'].append(int(same))
            e['ok'] = 1
        ok, _, name = attempt(observe, 200)
        e['err'] = name
    return dict(ev=[e], note=str(seed))
