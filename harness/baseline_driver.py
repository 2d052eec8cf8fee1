'''Observes the mean and nearest-neighbour baselines.'''
import random
import numpy as np

from obs import FINE, attempt, fine, integer
from spta.region import Point, TimeInterval
from spta.region.temporal import SpatioTemporalRegion
from spta.region.partition import PartitionRegionCrisp
from spta.distance import DistanceBetweenSeries
from spta.distance.dtw import DistanceByDTW
from spta.distance.rmse import DistanceByRMSE
from spta.model.mean import MeanOfPastParams, TrainerMeanOfPast
from spta.model.knn import KNNParams, TrainerKNN, predict_future_values_with_knn


class SumDistance(DistanceBetweenSeries):
    def measure(self, a, b):
        return abs(float(np.sum(a)) - float(np.sum(b)))

    def combine(self, d):
        return np.sum(d)

    name = 'sum'

    def __repr__(self):
        return 'sum'


def distance(kind):
    return dict(dtw=DistanceByDTW, rmse=DistanceByRMSE, sum=SumDistance)[kind]()


def run(seed):
    rng = random.Random(seed)
    ev = []
    X, Y = rng.randrange(1, 4), rng.randrange(1, 4)
    n = X * Y
    L = rng.randrange(3, 11)
    hi = rng.choice([2, 3, 30, 4000])
    unit = rng.choice([1, FINE])

    def sample(h):
        return rng.randrange(-h, h + 1) if h < 4000 else rng.choice([0, h]) + rng.randrange(4)
    data = [[sample(hi) for _ in range(L)] for _ in range(n)]
    test = rng.randrange(1, 4)       # samples after the training interval: never to be used
    full = np.zeros((L + test, X, Y))
    for i in range(n):
        full[:L, i // Y, i % Y] = np.array(data[i]) * unit
        full[L:, i // Y, i % Y] = [rng.randrange(1000, 2000) for _ in range(test)]
    whole = SpatioTemporalRegion(full)
    member = [1] * n
    if rng.random() < 0.5:
        k = rng.randrange(1, n + 1)
        lab = [i % k for i in range(n)]
        rng.shuffle(lab)
        c = rng.randrange(k)
        member = [int(v == c) for v in lab]
        whole = PartitionRegionCrisp(np.array(lab).reshape(X, Y), k).create_spt_cluster(whole, c)
    train = whole.interval_subset(TimeInterval(0, L))

    # the region over which the models are applied: not used by the forecast
    def targets():
        g = np.array([rng.randrange(5000, 9000) for _ in range(n)], dtype=float).reshape(1, X, Y)
        yield train
        yield train.new_spatio_temporal_region(np.repeat(g, 3, axis=0))
        yield SpatioTemporalRegion(np.repeat(g, 2, axis=0)) if all(member) else train.new_spatio_temporal_region(g)

    def forecast(model, target, length, den):
        r = model.apply_to(target, length)
        out = []
        for i in range(n):
            if member[i]:
                s = np.asarray(r.series_at(Point(i // Y, i % Y)))
                if s.shape != (length,):
                    raise ValueError('length')
                out.append([fine(v * den, unit) for v in s.tolist()])
            else:
                out.append([])
        if len([1 for _ in r]) != sum(member):
            raise ValueError('points')
        return out

    past = rng.choice([1, 2, rng.randrange(1, L + 3)])
    tm = TrainerMeanOfPast(MeanOfPastParams(past), X, Y)
    ok, mm, _ = attempt(lambda: tm.apply_to(train))
    ev.append(dict(op='trainmean', data=data, member=member, past=past, ok=int(ok), missing=integer(tm.missing_count)))
    for t in targets():
        ln = rng.randrange(1, 6)
        ok, out, _ = attempt(lambda: forecast(mm, t, ln, min(past, L)))
        ev.append(dict(op='fmean', len=ln, ok=int(ok), out=out or []))
    kind = rng.choice(['dtw', 'dtw', 'rmse', 'sum'])
    kk = rng.randrange(1, 5)
    tk = TrainerKNN(KNNParams(kk, distance(kind)), X, Y)
    ok, km, _ = attempt(lambda: tk.apply_to(train))
    ev.append(dict(op='trainknn', data=data, member=member, k=kk, kind=kind, ok=int(ok), missing=integer(tk.missing_count)))
    for t in targets():
        ln = rng.randrange(1, 5)
        ok, out, _ = attempt(lambda: forecast(km, t, ln, kk))
        ev.append(dict(op='fknn', len=ln, ok=int(ok), out=out or []))
    ok, out, _ = attempt(lambda: forecast(mm, train, 2, min(past, L)))   # models do not disturb one another
    for _ in range(3):
        m = rng.randrange(2, 13)
        h = rng.choice([1, 2, 20, 4000])
        s = [sample(h) for _ in range(m)]
        ln, kk = rng.randrange(1, 5), rng.randrange(1, 5)
        kind = rng.choice(['dtw', 'dtw', 'rmse', 'sum'])
        arr = np.array(s, dtype=float) * unit

        def f():
            r = np.asarray(predict_future_values_with_knn(arr, kk, ln, distance(kind)))
            if r.shape != (ln,):
                raise ValueError('length')
            return [fine(v * kk, unit) for v in r.tolist()]
        if m < ln:
            continue
        ok, out, _ = attempt(f)
        ev.append(dict(op='knn', s=s, k=kk, len=ln, kind=kind, ok=int(ok), out=out or [],
                       same=int(arr.tolist() == [float(x) * unit for x in s])))
    return dict(ev=ev, note=str(seed))
