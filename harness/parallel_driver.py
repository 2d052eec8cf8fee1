'''Observes computations done by a pool of workers, under schedules given by the specification and
with real pools whose workers are held up at random places (C22).'''
import multiprocessing
import random
import numpy as np

import errors_driver
from obs import FINE, attempt, mat, num, quiet, scratch, warm_dtw
from sched_pool import ScheduledPool, disturbed, scheduled
from spta.distance.dtw import DistanceByDTW
from spta.distance.dtw_parallel import DistanceByDTWParallel
from spta.region.partition import PartitionRegionCrisp
from spta.region.scaling import ScaleFunction
from spta.region.temporal import SpatioTemporalRegion
from spta.util.parallel import InterPointsOperation


def task_ends(spt_region, i, j):
    s = spt_region.as_2d
    return 100 * s[i][0] + s[j][-1]


def task_number(spt_region, i, j):
    return 1000 * (i + 1) + j + 1


def task_sums(spt_region, i, j):
    s = spt_region.as_2d
    return np.nan if i == j else s[i].sum() - 50 * s[j].sum()


TASKS = dict(ends=task_ends, number=task_number, sums=task_sums)


def build(rng):
    X, Y = rng.choice([(1, 1), (1, 3), (2, 2), (3, 1), (2, 3), (3, 2)])
    L = rng.randrange(1, 6)
    unit = rng.choice([1, FINE])
    hi = rng.choice([2, 9])
    data = np.array([[[rng.randrange(-hi, hi) for _ in range(Y)] for _ in range(X)] for _ in range(L)], dtype=float)
    undefined = []
    if rng.random() < .4:
        undefined = rng.sample(range(X * Y), rng.randrange(1, X * Y + 1))
        for i in undefined:
            data[rng.choice([0, rng.randrange(L), slice(None)]), i // Y, i % Y] = np.nan
    ser = [[num(v) for v in data[:, i, j]] for i in range(X) for j in range(Y)]
    region = SpatioTemporalRegion((data * unit).astype(rng.choice([float, np.float32]) if unit == 1 else float))
    if rng.random() < .3:
        # a cluster with all points: matrices are computed for whole regions
        region = PartitionRegionCrisp(np.zeros((X, Y), dtype=int), 1).create_spt_cluster(region, 0)
    return region, ser, unit


def content(region, unit):
    return mat(np.asarray(region.as_numpy, dtype=float).reshape(region.shape[0], -1).T / unit, tol=1e-9)


def operations(rng, workers):
    '''inter-point operations, several with the same object'''
    region, ser, unit = build(rng)
    ev, results = [], []

    def out(r):         # the numbers of a pair have no unit
        name, r = r
        return mat(np.asarray(r) / (1 if name == 'number' else unit), tol=1e-9)
    ok, op, err = attempt(lambda: InterPointsOperation(workers, region, chunksize=rng.choice([1, 2, 5, 50])))
    for _ in range(2):
        name = rng.choice(sorted(TASKS))
        e = dict(op='operate', ser=ser, task=name, workers=workers, ok=0, out=[], after=[], earlier=[], before=[out(r) for r in results])

        def observe():
            r = op.operate(TASKS[name])
            e['out'] = out((name, r))
            e['after'] = content(region, unit)
            e['earlier'] = [out(r) for r in results]
            results.append((name, r))
            e['ok'] = 1
        _, _, e['error'] = attempt(observe)
        ev.append(e)
    return ev


def distances(rng, workers):
    '''the matrix of one measure for several regions'''
    ev, results = [], []
    m = DistanceByDTWParallel(workers)

    def squares(r, unit):
        return mat(np.square(np.asarray(r, dtype=float) / unit), tol=1e-9)
    for _ in range(2):
        region, ser, unit = build(rng)
        e = dict(op='distances', ser=ser, workers=workers, ok=0, d2=[], serial=[], kept=[], after=[], earlier=[], before=[squares(r, u) for r, u in results])

        def observe():
            r = m.compute_distance_matrix(region)
            e['d2'] = squares(r, unit)
            e['serial'] = squares(DistanceByDTW().compute_distance_matrix(region), unit)
            e['kept'] = squares(m.distance_matrix, unit)
            e['after'] = content(region, unit)
            e['earlier'] = [squares(r, u) for r, u in results]
            results.append((r, unit))
            e['ok'] = 1
        _, _, e['error'] = attempt(observe)
        ev.append(e)
    return ev


def errors(rng, workers):
    return [e for e in errors_driver.given_events(rng, workers) if e['op'] != 'bad']


KINDS = dict(operations=operations, distances=distances)


def run(item):
    '''(seed, kind, schedule): with a schedule of the specification, or (None) a disturbed real pool'''
    seed, kind, schedule = item
    rng = random.Random(seed)
    with scratch(), quiet():
        if schedule is not None:
            with scheduled(schedule):
                workers = max(schedule)
                return dict(ev=KINDS[kind](rng, rng.choice([workers, 1, 2, 4])), note='{} {} {}'.format(seed, kind, schedule))
        with disturbed(rng, rng.choice([0, .1, .4])):
            return dict(ev=KINDS[kind](rng, rng.choice([1, 2, 3, 8])), note='{} {}'.format(seed, kind))


def run_errors(item):
    seed, schedule = item
    rng = random.Random(seed)
    with scratch(), quiet():
        if schedule is not None:
            with scheduled(schedule):
                return dict(ev=errors(rng, rng.choice([max(schedule), 1, 2, 4])), note='{} {}'.format(seed, schedule))
        with disturbed(rng, rng.choice([0, .1, .4])):
            return dict(ev=errors(rng, rng.choice([1, 2, 3, 8])), note=str(seed))


def run_analysis(item):
    seed, schedule = item
    rng = random.Random(seed)
    with scratch(), quiet():
        if schedule is not None:
            with scheduled(schedule):
                return errors_driver.run_analysis(seed, workers=rng.choice([1, 2, 3]))
        with disturbed(rng, rng.choice([0, .1])):
            return errors_driver.run_analysis(seed, workers=rng.choice([1, 2, 3]))
