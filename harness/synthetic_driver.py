'''Makes synthetic tables, series, groups and regions with the real code (C30)'''
import csv
import random
import re
import numpy as np

from obs import attempt, integer, nums, quiet, scratch
from spta.classifier import synthetic
from spta.dataset import synthetic_temporal as st
from spta.kmedoids import example1d, example2d

LABELS = ['k', 'seed', 'cluster_index', 'medoid_x', 'medoid_y']


def row(entry):
    k, seed, c, x, y = (integer(entry[n]) for n in LABELS)
    return dict(k=k, seed=seed, c=c, x=x, y=y, v=nums(entry['series'], 1000, None))


def table(rng):
    '''arguments of a table, and what is recorded of them'''
    noise = rng.choice([0, 0, 20, 200])
    low = rng.choice([298, 298, 10, -5])
    e = dict(ks=sorted(rng.sample([1, 2, 3, 5, 8, 13, 32], rng.choice([1, 2, 3]))), seeds=rng.sample([0, 1, 2, 3, 7, 10], rng.choice([1, 2, 3])),
             X=rng.choice([1, 2, 5, 90]), Y=rng.choice([1, 3, 6, 90]), medoids=rng.choice([1, 2, 4, 30]), n=rng.choice([0, 1, 3, 20, 60]),
             L=rng.choice([1, 2, 6, 12]), w=rng.choice([10, 10, 250, 1000]), low=1000 * low, high=1000 * (low + rng.choice([1, 4, 4])), noise=noise)
    args = [e['ks'], tuple(e['seeds']), e['medoids'], e['n'], e['L'], rng.choice([0, rng.randrange(1000)]), e['X'], e['Y']]
    kw = dict(a_weight=e['w'] / 1000, b_min=low, b_max=e['high'] // 1000, noise=noise / 1000)
    return e, args, kw


def tables(rng, ev):
    e, args, kw = table(rng)
    ok, res, err = attempt(lambda: [row(x) for x in synthetic.generate_synthetic_series(*args, **kw)])
    ev.append(dict(e, op='synthetic', ok=int(ok), rows=res if ok else [], error=err))
    if not ok:
        return
    for op in rng.sample(['again', 'csv'], rng.choice([1, 2])):
        random.seed(rng.random())
        np.random.seed(rng.randrange(1 << 30))
        if op == 'again':
            ok, res, err = attempt(lambda: [row(x) for x in synthetic.generate_synthetic_series(*args, **kw)])
            ev.append(dict(op=op, ok=int(ok), rows=res if ok else [], error=err))
            continue
        names = dict(region_id=rng.choice(['nordeste', 'a-b']), clustering_type=rng.choice(['kmedoids', 'regular']), clustering_mode=rng.choice(['lite', 'build']))
        more, f = (names, list(names.values())) if rng.random() < .6 else ({}, ['whole_real_brazil_2014_2014_1spd', 'kmedoids', 'lite'])
        ok, res, err = attempt(lambda: (synthetic.generate_synthetic_csv(*args, 't.csv', **more, **kw), stored(args[4], f))[1])
        ev.append(dict(op=op, ok=int(ok), error=err, **(res if ok else dict(rows=[], header=0, named=0, decimals=0))))


def stored(L, names):
    with open('t.csv', newline='') as f:
        lines = list(csv.reader(f, delimiter=' ', quotechar='|'))
    head = ['region_id', 'type', 'k', 'seed', 'mode', 'cluster_index', 'medoid_x', 'medoid_y'] + ['s%d' % i for i in range(L)]
    e = dict(header=int(lines[0] == head), named=1, decimals=1, rows=[])
    for line in lines[1:]:
        d = dict(zip(head, line))
        e['named'] &= int([d['region_id'], d['type'], d['mode']] == names)
        e['decimals'] &= int(all(re.fullmatch(r'-?\d+\.\d{3}', x) for x in line[8:]))
        e['rows'].append(dict(k=int(d['k']), seed=int(d['seed']), c=int(d['cluster_index']), x=int(d['medoid_x']), y=int(d['medoid_y']),
                              v=nums([float(x) for x in line[8:]], 1000, None)))
    return e


def length(rng):
    return rng.choice([7, 8, 13, 14, 20, 21, 60, 100, 199, 201, 260])


def delayed(rng, ev):
    L = length(rng)
    seen = []

    def profile(j, indices):
        seen.append(len(indices))
        return (7 * j * j + 3 * j) % 11 - 5 + (j == 0) * 4

    ok, res, err = attempt(lambda: nums(st.delayed_function_with_noise(profile, L), 1000, None))
    n = seen[0] if seen else 0
    ok = ok and set(seen) == {n} and n <= L
    ev.append(dict(op='delayed', ok=int(ok), error=err, L=L, f=[1000 * profile(j, [0]) for j in range(n)], v=res if ok else []))


def constant(h):
    return lambda j, indices: h


def options(rng):
    hs = rng.sample([-9, -4, 2, 5, 8, 13], rng.choice([1, 2, 3, 4]))
    return [1000 * h for h in hs], tuple(constant(h) for h in hs)


def group(rng, ev):
    L, n = length(rng) % 70 + 7, rng.choice([1, 2, 5, 9])
    hs, fs = options(rng)
    ok, res, err = attempt(lambda: [nums(s, 1000, None) for s in example1d.alternating_functions_1d(n, L, fs)])
    ev.append(dict(op='group', ok=int(ok), error=err, L=L, n=n, heights=hs, v=res if ok else []))


def region(rng, ev):
    L, X, Y = length(rng) % 30 + 7, rng.choice([1, 2, 4]), rng.choice([1, 3, 5])
    hs, fs = options(rng)

    def made():
        spt, mask = example2d.alternating_functions_2d(np.empty((X, Y)), L, fs)
        a, m = np.asarray(spt.as_numpy), np.asarray(mask.as_numpy)
        return [[nums(a[:, i, j], 1000, None) for j in range(a.shape[2])] for i in range(a.shape[1])], [[integer(v) for v in r] for r in m.tolist()]

    ok, res, err = attempt(made)
    v, mask = res if ok else ([], [])
    ev.append(dict(op='region', ok=int(ok), error=err, L=L, X=X, Y=Y, heights=hs, v=v, mask=mask))


def profile(rng, ev):
    n, name = rng.choice([4, 6, 12, 13, 24, 36, 50, 60]), rng.choice(['sine', 'square', 'gaussian'])
    f = getattr(st, name + '_function')
    ok, res, err = attempt(lambda: nums([f(j, range(n)) for j in range(n)], 1000, None))
    ev.append(dict(op='profile', ok=int(ok), error=err, name=name, n=n, v=res if ok else []))


def run(seed):
    rng = random.Random(seed)
    np.random.seed(rng.randrange(1 << 30))
    ev = []
    with scratch(), quiet():
        tables(rng, ev)
        for f in rng.sample([delayed, group, region, profile], 3):
            f(rng, ev)
    return dict(ev=ev, note=str(seed))
