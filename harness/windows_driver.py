'''Observes sliding windows (series and labelled tables).'''
import random
import numpy as np
import pandas as pd

from obs import attempt, integer, ints, mat, num, nums
from spta.util import arrays as arrays_util
from spta.classifier.sliding_window import apply_sliding_window_to_labeled_series


def fine_values(rng):
    '''numbers that single precision cannot tell apart, and how to read them back'''
    base, unit = rng.choice([(0, 1), (0, 1), (1, 2.**-40), (1000, 2.**-30), (-7, 2.**-30)])

    def make(v):
        return base + v * unit if v == v else v

    def back(values):
        return nums([(float(x) - base) / unit for x in values])
    return make, back, unit == 1


def run_windows(seed):
    rng = random.Random(seed)
    ev = []
    for _ in range(12):
        make, back, plain = fine_values(rng)
        n = rng.randrange(1, 14)
        w = rng.randrange(1, n + 3)
        stride = rng.choice([1, 1, 2, 3, rng.randrange(1, n + 3)])
        s = [rng.randrange(-50, 50) for _ in range(n)]
        form = rng.randrange(4)
        t = s if plain else [make(v) for v in s]
        src = [np.array(t, dtype=float), np.array(t), list(t), tuple(t)][form]
        if stride == 1 and rng.random() < 0.5:
            ok, out, _ = attempt(lambda: arrays_util.sliding_window(src, w))
        else:
            ok, out, _ = attempt(lambda: arrays_util.sliding_window(src, w, stride))
        if ok:
            ok, out, _ = attempt(lambda: [back(x) for x in out])
        ev.append(dict(op='windows', s=s, w=w, stride=stride, ok=int(ok), out=out or [],
                       same=int(list(src) == t)))
    return dict(ev=ev, note=str(seed))


def run_table(seed):
    rng = random.Random(seed)
    ev = []
    for _ in range(4):
        n = rng.randrange(1, 12)
        w = rng.choice([1, n, rng.randrange(1, n + 1), rng.randrange(1, n + 1)])
        rows = rng.randrange(1, 6)
        # labels may repeat; values may repeat too
        labels = [rng.randrange(3) for _ in range(rows)] if rng.random() < 0.5 else \
            rng.sample(range(rows), rows)
        hi = rng.choice([2, 1000])
        vals = [[rng.randrange(-hi, hi) for _ in range(n)] for _ in range(rows)]
        nan = rng.random() < 0.15
        if nan:
            for _ in range(rng.randrange(1, 3)):
                vals[rng.randrange(rows)][rng.randrange(n)] = float('nan')
        name = (lambda i: 'l{}'.format(i)) if rng.random() < 0.6 else (lambda i: i)
        df = pd.DataFrame({'label': [name(i) for i in labels]})
        for j in range(n):
            col = [v[j] for v in vals]
            df['s' + str(j)] = [float(x) for x in col] if nan or rng.random() < 0.7 else col
        how = rng.randrange(4)
        if how == 1:      # index left over from selecting rows of a larger table
            df.index = [5 * i + 3 for i in range(rows)]
        elif how == 2:
            df.index = [0] * rows
        elif how == 3:
            df.index = list(reversed(range(rows)))
        make, read, plain = fine_values(rng)
        if not plain:
            for j in range(n):
                df['s' + str(j)] = [make(v[j]) for v in vals]
        before = df.copy(deep=True)

        def obs():
            out = apply_sliding_window_to_labeled_series(df, w)
            back = {name(i): i for i in set(labels)}
            res = []
            for _, r in out.iterrows():
                res.append(dict(label=back.get(r['label'], 99), window=read(r['window']), offset=integer(r['offset'])))
            if list(out.columns)[:3] != ['label', 'window', 'offset']:
                raise ValueError('columns')
            if list(out.index) != list(range(len(out))):
                raise ValueError('index')
            return res
        ok, out, _ = attempt(obs)
        ev.append(dict(op='table', rows=[dict(label=a, s=nums(b)) for a, b in zip(labels, vals)], w=w, ok=int(ok),
                       out=out or [], same=int(before.equals(df))))
    return dict(ev=ev, note=str(seed))
