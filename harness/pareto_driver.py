'''Chooses models by time and error with the real code (C29)'''
import logging
import os
import random
import re
from unittest import mock
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt

from core import BAD
from obs import attempt, num, quiet, scratch
from programs_driver import launch
from spta.arima import optimize

NUMBER = re.compile(r'nan|inf|-?\d+\.?\d*(?:e[-+]?\d+)?')
SCALE = 10000


class Said(logging.Handler):
    '''what is logged about models: single models, and the best ones'''
    def __init__(self):
        super().__init__(logging.INFO)
        self.single, self.best = [], []

    def emit(self, record):
        t = record.getMessage()
        kind = self.single if t.startswith('cost for model') else self.best if t.startswith('best model') else None
        if kind is not None:
            v = [float(x) for x in NUMBER.findall(t)]
            kind.append((v[:-3], v[-3], v[-2:]) if '...' not in t else ([], BAD, [BAD, BAD]))

    def __enter__(self):
        root = logging.getLogger()
        self.before = logging.root.manager.disable, root.level, root.handlers[:]
        logging.disable(logging.NOTSET)
        root.handlers[:] = [self]
        root.setLevel(logging.INFO)
        return self

    def __exit__(self, *_):
        root = logging.getLogger()
        root.handlers[:] = self.before[2]
        root.setLevel(self.before[1])
        logging.disable(self.before[0])


class Table:
    def __init__(self, rng, positive):
        n = rng.choice([1, 2, 3, 5, 8, 15, 30])
        self.unit = [rng.choice([1, 1, .25, 8, 1 / 1024]) for _ in range(2)]
        hi = rng.choice([3, 6, 40] + [2000] * (not positive))
        lo = rng.choice([0, 0, 0, 1500, 400000]) if not positive else 0
        ids = rng.sample([(p, d, q) for p in range(11) for d in range(3) for q in range(3)], n)
        self.rows = []
        for _ in range(n):
            r = [rng.randrange(1 if positive or rng.random() < .9 else 0, hi + 1) for _ in range(2)]
            if not positive and rng.random() < .15:
                r = [-1, -1]
            self.rows.append([v + lo if v > 0 else v for v in r])
        if self.rows and not positive and rng.random() < .2:
            self.rows[0] = [-1, -1]
        if not lo and rng.random() < .3:
            # (most of them on a line, few are beaten)
            self.rows = [r if r[0] < 0 else [max(1, r[0]), max(1, hi - r[0] + rng.choice([0, 0, 0, 1]))] for r in self.rows]
        self.array = np.array([list(i) + [np.nan if v < 0 else v * u for v, u in zip(r, self.unit)] for i, r in zip(ids, self.rows)])
        self.number = {i: x + 1 for x, i in enumerate(ids)}

    def index(self, row, digits=None):
        '''the number of a row, if all of it is as it was'''
        i = self.number.get(tuple(int(v) for v in row[:3]), 0)
        if not i or len(row) != 5:
            return BAD
        a = self.array[i - 1]
        same = all(x == y or (x != x and y != y) if digits is None else abs(x - y) <= digits * max(1e-9, abs(y)) for x, y in zip(row, a))
        return i if same else BAD


def sweep_said(t, said, e):
    '''costs of every step'''
    n = len(said.single) // max(1, len(said.best))
    for s, (vs, cost, (a, b)) in enumerate(said.best):
        single = said.single[s * n:(s + 1) * n]
        e['steps'].append(dict(costs=[[t.index(v, 1e-4), num(c, SCALE, None)] for v, c, _ in single],
                               factors=[[num(x * u, SCALE, None) for x, u in zip(f, t.unit)] for _, _, f in single] + [[num(a * t.unit[0], SCALE, None), num(b * t.unit[1], SCALE, None)]],
                               best=[t.index(vs[i:i + 5], 1e-4) for i in range(0, len(vs), 5)], cost=num(cost, SCALE, None)))
    e['whole'] = int(len(said.single) == n * len(said.best))


def run(seed):
    rng = random.Random(seed)
    ev = []
    with scratch(), quiet():
        for _ in range(rng.randrange(2, 5)):
            u = rng.random()
            t = Table(rng, u >= .5)
            ev.append(dict(op='table', rows=t.rows))
            if u < .5:
                e = dict(op='select', ok=0, got=[], kept=0)
                a = t.array.copy()
                ok, res, e['error'] = attempt(lambda: optimize.find_best_models(a, show=False))
                plt.close('all')
                if ok:
                    e['ok'], e['got'] = 1, [t.index(r) for r in np.asarray(res).tolist()]
                e['kept'] = int(np.array_equal(a, t.array, equal_nan=True))
                ev.append(e)
                continue
            e = dict(op='sweep' if u < .7 else 'program', ok=0, steps=[], whole=0)
            with Said() as said:
                if e['op'] == 'sweep':
                    ok, _, e['error'] = attempt(lambda: optimize.sweep_cost_factors(t.array.copy()))
                else:
                    os.makedirs('raw', exist_ok=True)
                    np.save('raw/performance.npy', t.array)
                    with mock.patch.object(plt, 'show', lambda *a, **k: None):
                        ok, _, e['error'] = launch('spta.arima.optimize', [])
                    plt.close('all')
            if ok:
                ok, _, e['error'] = attempt(lambda: sweep_said(t, said, e))
                e['ok'] = int(ok)
            ev.append(e)
    return dict(ev=ev, note=str(seed))
