'''Observes forecast errors: of given forecasts, of representatives, and of whole analyses (C14, C22).'''
import copy
import random
import numpy as np

from core import NAN
from obs import FINE, attempt, num, nums, quiet, scratch
from solver_world import sig
from spta.model.base import ModelRegion
from spta.model.error import ErrorAnalysis, MeasureForecastingError, OverallErrorForEachForecast, get_error_func, get_overall_error_func
from spta.model.forecast import ForecastAnalysis
from spta.model.train import ModelTrainer
from spta.region import Point
from spta.region.partition import PartitionRegionCrisp
from spta.region.scaling import ScaleFunction
from spta.region.temporal import SpatioTemporalRegion

V = 16
UNIT = {'MSE': 8, 'MASE': 32, 'sMAPE': 64}


class ModelRegionSmall(ModelRegion):
    def forecast_from_model(self, model_at_point, forecast_len, value_at_point, point):
        g, scaled = model_at_point
        m = 21 if scaled else 31
        u = V if scaled else 1
        return np.array([((g * j + j * j) % m) / u for j in range(1, forecast_len + 1)])

    def instance(self, model_numpy_array):
        return ModelRegionSmall(model_numpy_array)


class Fingerprint(tuple):
    pass


class TrainerSmall(ModelTrainer):
    def __init__(self, fail, scaled, x_len, y_len):
        super(TrainerSmall, self).__init__(model_params_and_shape=((fail, scaled), x_len, y_len))

    def training_function(self, model_params, training_series):
        fail, scaled = model_params
        g = sig([int(round(v * V)) for v in np.asarray(training_series, dtype=float).tolist()])
        return None if fail > 0 and g % fail == 0 else Fingerprint((g, scaled))

    def create_model_region(self, numpy_model_array):
        return ModelRegionSmall(numpy_model_array)


SHAPES = [(1, 1), (1, 3), (2, 2), (2, 3), (3, 2), (3, 3), (4, 2)]


class Fixture:
    '''a region of some kind with its members, series and scaling'''

    def __init__(self, rng, length, shape=None, scaled=None, cluster=None):
        X, Y = self.X, self.Y = shape or rng.choice(SHAPES)
        self.scaled = rng.random() < .5 if scaled is None else scaled
        n = X * Y
        data, lo, rg = [], [], []
        for _ in range(n):
            if self.scaled:
                l, r = rng.randrange(1, 15), 0 if rng.random() < .08 else 2 ** rng.randrange(0, 5)
                s = [rng.randrange(l, l + r + 1) for _ in range(length)]
                if r and length > 1:
                    i, j = rng.sample(range(length), 2)
                    s[i], s[j] = l, l + r
                elif length == 1:
                    r = 0
                    s = [l]
            else:
                l, r = 0, 0
                s = [rng.randrange(0 if rng.random() < .2 else 1, 31) for _ in range(length)]
                if rng.random() < .1:
                    s = [s[0]] * length
            data.append(s)
            lo.append(l)
            rg.append(r)
        a = np.array(data, dtype=float).reshape(X, Y, length).transpose(2, 0, 1).copy()
        keep = list(range(n))
        if rng.random() < .5 if cluster is None else cluster:
            k = rng.choice([1, 2, 2])
            lab = [rng.randrange(k) for _ in range(n)]
            lab[rng.randrange(n)] = 0
            self.part = PartitionRegionCrisp(np.array(lab).reshape(X, Y), max(lab) + 1)
            keep = [i for i in keep if lab[i] == 0]
        else:
            self.part = None
        self.raw, self.length, self.unit = a, length, 1.
        self.region = self.build(a.astype(rng.choice([float, float, np.float32])))
        self.members = [Point(i // Y, i % Y) for i in keep]
        self.full = [[v * V for v in data[i]] for i in keep]
        self.lo = [lo[i] for i in keep] if self.scaled else []
        self.rg = [rg[i] for i in keep] if self.scaled else []
        self.n = len(keep)

    def build(self, a):
        region = SpatioTemporalRegion(a)
        if self.scaled:
            region = ScaleFunction(self.X, self.Y).apply_to(region, self.length)
        return region if self.part is None else self.part.create_spt_cluster(region, 0)

    def twin(self, unit):
        '''the same region, measured in another unit'''
        other = copy.copy(self)
        other.unit = unit
        other.region = other.build(self.raw * unit)
        return other

    def series(self, region):
        return [nums(region.series_at(m), V) for m in self.members]

    def forecast_region(self, fcs, keep_scaling):
        '''forecasts of the members (units of 1/V, scaled if the region is) as a region of the same kind'''
        length = len(fcs[0])
        a = np.full((length, self.X, self.Y), 7777.0)
        for m, f in zip(self.members, fcs):
            a[:, m.x, m.y] = [np.nan if v == NAN else v / V for v in f]
        if self.scaled and not keep_scaling:
            for i, m in enumerate(self.members):
                a[:, m.x, m.y] = (a[:, m.x, m.y] * self.rg[i] + self.lo[i]) * self.unit
            r = SpatioTemporalRegion(a)
            return self.part.create_spt_cluster(r, 0) if self.part is not None else r
        return self.region.new_spatio_temporal_region(a if self.scaled else a * self.unit)

    def describe(self, tl):
        return dict(obs=[s[len(s) - tl:] for s in self.full], train=[s[:len(s) - tl] for s in self.full], lo=self.lo, rg=self.rg)


def split(region, tl):
    from spta.model.train import SplitTrainingAndTestLast
    return SplitTrainingAndTestLast(tl).split(region)


def map_of(fx, errors, kind):
    return [num(errors.value_at(m), UNIT[kind]) for m in fx.members]


def inputs(fx, *regions):
    return [s for r in regions if r is not None for s in fx.series(r)]


def random_forecasts(rng, fx, tl):
    out = []
    for _ in range(fx.n):
        if rng.random() < .15:
            out.append([NAN] * tl)
        else:
            top = V + 5 if fx.scaled else 31
            out.append([rng.randrange(0, top) * (1 if fx.scaled else V) for _ in range(tl)])
    return out


def in_unit(fx, kind, plain, other, unit):
    '''by how much (in 10^-9) errors in another unit differ from the errors, which that unit multiplies (MSE) or leaves'''
    k = unit * unit if kind == 'MSE' else 1.
    out = []
    for a, b in zip(plain, other):
        a, b = float(a) * k, float(b)
        if np.isfinite(a) and np.isfinite(b):
            out.append(min(10 ** 9, int(round(abs(a - b) / max(abs(a), .001 * k) * 1e9))))
        else:
            out.append(0 if repr(a) == repr(b) else 10 ** 9)
    return out


def given_events(rng, workers=None):
    '''errors of given forecasts, one analysis object and several requests'''
    tl = rng.choice([1, 2, 4])
    fx = Fixture(rng, tl + rng.choice([2, 3, 7]))
    train, test = split(fx.region, tl)
    # some error functions need no training data
    needs = rng.random() < .75
    analysis = ErrorAnalysis(test, train if needs else None, parallel_workers=workers)
    out = []
    for _ in range(3):
        kind = rng.choice(['MSE', 'MASE', 'sMAPE'] if needs else ['MSE', 'sMAPE'])
        fcs = random_forecasts(rng, fx, tl)
        keep = rng.random() < .6
        fr = fx.forecast_region(fcs, keep)
        what = rng.choice(['each', 'each', 'repeat', 'all', 'all']) if workers is None else 'all'
        if what != 'each':
            # representatives of a scaled region are forecasts of scaled series
            keep = True
            fr = fx.forecast_region(fcs, True)
        before = inputs(fx, train, test, fr)
        e = dict(op=what, ok=0, kind=kind, fcs=fcs, map=[], total=0, unit=[], before=before, after=[], workers=workers or 0, **fx.describe(tl))

        way = rng.random()

        def measure(fx, fr, train, test, analysis):
            if what == 'each':
                if way < .5:
                    return analysis.with_forecast_region(fr, kind)
                return MeasureForecastingError(get_error_func(kind), test, train if needs else None).apply_to(fr)
            if what == 'repeat':
                s = np.array([np.nan if v == NAN else v / V for v in fcs[0]])
                return analysis.with_repeated_forecast(s if fx.scaled else s * fx.unit, kind)
            if way < .7:
                return analysis.overall_with_each_forecast(fr, kind)
            return OverallErrorForEachForecast(kind, test, train if needs else None, workers).apply_to(fr)

        def observe():
            r = measure(fx, fr, train, test, analysis)
            e['map'] = map_of(fx, r, kind)
            if what != 'all':
                e['total'] = num(r.overall_error, UNIT[kind])
            if [p for p, _ in r] != fx.members:
                e['map'] = []
            e['after'] = inputs(fx, train, test, fr)
            constant = any(len(set(s)) == 1 for s in e['train'])
            # of a constant series that was scaled, the error of the naive forecast is rounding
            if workers is None and not (fx.scaled and kind == 'MASE' and constant):
                tx = fx.twin(4097 * FINE)
                ttrain, ttest = split(tx.region, tl)
                t = measure(tx, tx.forecast_region(fcs, keep), ttrain, ttest,
                            ErrorAnalysis(ttest, ttrain if needs else None))
                e['unit'] = in_unit(fx, kind, [r.value_at(m) for m in fx.members] + ([r.overall_error] if what != 'all' else []),
                                    [t.value_at(m) for m in fx.members] + ([t.overall_error] if what != 'all' else []), tx.unit)
            e['ok'] = 1
        _, _, e['error'] = attempt(observe)
        out.append(e)
    bad = rng.choice(['mase', 'RMSE', '', 'smape'])
    for f, name in ((lambda: analysis.with_forecast_region(fr, bad), 'each'), (lambda: get_error_func(bad), 'function'),
                    (lambda: analysis.overall_with_each_forecast(fr, bad), 'all'), (lambda: get_overall_error_func(bad), 'overall'),
                    (lambda: analysis.with_repeated_forecast(np.ones(tl), bad), 'repeat')):
        ok, _, err = attempt(f)
        out.append(dict(op='bad', ok=int(ok), what=name))
    return out


def run_given(seed):
    rng = random.Random(seed)
    ev = []
    with quiet():
        for _ in range(3):
            ev += given_events(rng)
    return dict(ev=ev, note=str(seed))


def run_analysis(seed, workers=None):
    '''one analysis object, several regions of the same shape, many requests'''
    rng = random.Random(seed)
    ev = []
    with scratch(), quiet():
        shape = rng.choice(SHAPES)
        scaled = rng.random() < .5
        fm = rng.choice([0, 0, 2, 3])
        cluster = rng.random() < .5
        fxs = []
        for _ in range(2):
            fx = Fixture(rng, rng.choice([6, 12]), shape, scaled, cluster)
            fxs.append(fx)
            ev.append(dict(op='region', full=fx.full, lo=fx.lo, rg=fx.rg, fm=fm))
        fa = ForecastAnalysis(TrainerSmall(fm, scaled, *shape), parallel_workers=workers)
        if rng.random() < .3:
            ok, _, err = attempt(lambda: fa.forecast_at_each_point(2, 'MSE'))
            ev.append(dict(op='bad', ok=int(ok), what='untrained'))
        cur = None
        tl = None
        for _ in range(rng.randrange(6, 11)):
            kind = rng.choice(['MSE', 'MASE', 'sMAPE'])
            u = rng.random()
            if cur is None or u < .2:
                rid = rng.randrange(2)
                t = rng.choice([1, 2, 4])
                ok, _, err = attempt(lambda: fa.train_models(fxs[rid].region, t))
                ev.append(dict(op='train', rid=rid + 1, tl=t, ok=int(ok), error=err))
                if not ok:
                    break
                cur, tl = rid, t
            elif u < .42:
                cur, tl = analyze(rng, fa, fxs, cur, tl, kind, ev)
            else:
                fx = fxs[cur]
                what = rng.choice(['aeach', 'asingle', 'asingle', 'aall', 'aall'])
                length = tl if rng.random() < .9 else tl + 1
                p = rng.randrange(fx.n)
                e = dict(op=what, ok=0, kind=kind, len=length, p=p + 1, map=[], total=0, fc=[], before=inputs(fx, fx.region), after=[])

                def observe():
                    if what == 'aeach':
                        fr, r, _ = fa.forecast_at_each_point(length, kind)
                        e['fc'] = fx.series(fr.descale() if fr.has_scaling() else fr)
                    elif what == 'asingle':
                        r = fa.forecast_whole_region_with_single_model(fx.members[p], length, kind)
                    else:
                        r = fa.forecast_whole_region_with_all_models(length, kind)
                    e['map'] = map_of(fx, r, kind)
                    if what != 'aall':
                        e['total'] = num(r.overall_error, UNIT[kind])
                    if [q for q, _ in r] != fx.members:
                        e['map'] = []
                    e['after'] = inputs(fx, fx.region)
                    e['ok'] = 1
                _, _, e['error'] = attempt(observe)
                ev.append(e)
    return dict(ev=ev, note=str(seed))


def analyze(rng, fa, fxs, cur, tl, kind, ev):
    rid = rng.randrange(2)
    length = rng.choice([1, 2, 4])
    fx = fxs[rid]
    cen = rng.randrange(fx.n) + 1 if rng.random() < .6 else 0
    fx.region.centroid = None
    at = fx.region
    if fx.scaled and fx.part is None:
        # the centroid may have been found before scaling
        at.decorated_region.centroid = None
        at = rng.choice([at, at.decorated_region])
    at.centroid = fx.members[cen - 1] if cen else None
    e = dict(op='analyze', ok=0, rid=rid + 1, len=length, kind=kind, cen=cen, all=[], each=0, minimum=0, minlocal=0, centroid=0, maximum=0,
             before=inputs(fx, fx.region), after=[])

    def observe():
        r, _, _ = fa.analyze_errors(fx.region, kind, length)
        for a, b in (('each', r.each), ('minimum', r.minimum), ('minlocal', r.min_local), ('centroid', r.centroid), ('maximum', r.maximum)):
            e[a] = num(b, UNIT[kind])
        e['all'] = map_of(fx, fa.forecast_whole_region_with_all_models(length, kind), kind)
        e['after'] = inputs(fx, fx.region)
        e['ok'] = 1
    # an analysis needs at least one point whose own error is defined
    own = attempt(lambda: own_errors(fx, fa, kind, length))
    if own[0] and not np.isfinite(own[1]).any():
        return cur, tl
    ok, _, e['error'] = attempt(observe)
    ev.append(e)
    return (rid, length) if ok else (None, None)


def own_errors(fx, fa, kind, length):
    probe = ForecastAnalysis(fa.trainer)
    probe.train_models(fx.region, length)
    _, r, _ = probe.forecast_at_each_point(length, kind)
    return [float(r.value_at(m)) for m in fx.members]
