from obs import parallel_map


def _one(item):
    import regions_driver
    return regions_driver.replay(item[0], item[1], note=item[1])


def replay_all(check, scs):
    import regions_driver  # noqa: F401 (import once, before forking)
    items = [(sc, '{}-{}-{}'.format(check.pid, check.seed, i)) for i, sc in enumerate(scs)]
    return parallel_map(_one, items, chunksize=4)


WIDTHS = [49, 98, 103, 107, 161, 187, 257, 300]     # 1/n is rounded down, or above the range of a byte


def wide(rng):
    '''a history on a region with a long side and many points'''
    n = rng.choice(WIDTHS)
    x, y = rng.choice([(rng.randrange(1, 4), n), (2, n), (n, rng.randrange(1, 3)), (3, 103), (49, 7)])
    t = rng.randrange(1, 3)
    N = x * y
    ops = []

    def op(name, o, a=(), f='', labels=()):
        ops.append(dict(op=name, o=o, a=list(a), f=f, l=list(labels)))

    def labels():
        k = rng.choice([1, 2, 3, 11, min(N, 130), min(N, 260)])
        lab = [rng.randrange(k) for _ in range(N)]
        lab[rng.randrange(N)] = k - 1
        c = rng.choice(lab)
        return [k, c], lab

    a, lab = labels()
    if rng.random() < .5:
        op('cluster', 1, a, labels=lab)                                 # heap 2
        op('fsca', 2, [1], rng.choice(['first', 'sum', 'pos']))         # 3
        op('extrema', 3)
        op('errreg', 3)                                                 # 4
        op('repp', 2, [1 + rng.choice([i for i in range(N) if lab[i] == a[1]])])
        op('repp', 2, [rng.randrange(1, N + 1)])
    else:
        op('scale', 1)                                                  # 2
        op('cluster', 2, a, labels=lab)                                 # 3
        op('fser', 3, [1], rng.choice(['pos', 'add', 'rev']))           # 4
        op('descale', 3)
        y1 = rng.randrange(max(1, y - 50)) if rng.random() < .5 else 0
        x1 = rng.randrange(x)
        op('rsub', 2, [x1, x, y1, y])
        op('look', 2)
    return dict(dim=[x, y, t], ops=ops)


def run(check):
    check.mc('Regions', 'MC_Regions.cfg')
    if not check.quick:
        check.mc('Regions', 'MC_RegionsDeep.cfg')
    scs = check.generate('Regions', 'GEN_Regions.cfg', num=check.n(400, 8000), depth=14)
    scs += [wide(check.rng) for _ in range(check.n(16, 160))]
    sessions = replay_all(check, scs)
    check.validate('T_Regions', 'T_Regions.cfg', sessions)
    check.assumptions += ['values are compared after rounding to 1e-4']
