from obs import parallel_map


def fits(k, X, Y):
    d = max(f for f in range(1, k + 1) if k % f == 0 and f * f <= k)
    dx, dy = (d, k // d) if X < Y else (k // d, d)
    return dx <= X and dy <= Y


def run(check):
    import regular_driver
    check.mc('Regular', 'MC_Regular.cfg' if check.quick else 'MC_RegularDeep.cfg')
    rng = check.rng
    items = [(k, rng.randrange(1, 40), rng.randrange(1, 40)) for k in range(1, check.n(200, 600))]
    items += [(k, x, x) for k, x in ((6, 5), (12, 12), (7, 9), (1, 1))]
    sessions = parallel_map(regular_driver.run_divisors, items, chunksize=32)
    # every shape up to M x M with every k that fits, plus k that do not fit
    M = check.n(9, 16)
    shapes = []
    for X in range(1, M + 1):
        for Y in range(1, M + 1):
            ks = [k for k in range(1, X * Y + 3) if fits(k, X, Y) or rng.random() < 0.1]
            shapes.append((X, Y, ks, '{}-{}-{}'.format(check.seed, X, Y)))
    for i in range(check.n(40, 400)):
        X, Y = rng.randrange(1, 40), rng.randrange(1, 40)
        ks = [k for k in range(1, 2 * max(X, Y)) if fits(k, X, Y)]
        shapes.append((X, Y, rng.sample(ks, min(6, len(ks))), '{}-big-{}'.format(check.seed, i)))
    for X, Y, ks in ((20, 17, [289, 255, 256, 340]), (1, 300, [257, 300]), (300, 1, [299]), (2, 260, [130, 260, 520]),
                     (103, 3, [49, 98, 206]), (33, 31, [1023, 528])):
        shapes.append((X, Y, ks if not check.quick else rng.sample(ks, min(2, len(ks))), '{}-many-{}-{}'.format(check.seed, X, Y)))
    sessions += parallel_map(regular_driver.run_shape, shapes, chunksize=4)
    meds = []
    while len(meds) < check.n(150, 1500):
        X, Y = rng.randrange(1, 6), rng.randrange(1, 7)
        k = rng.randrange(1, X * Y + 1)
        if fits(k, X, Y):
            meds.append((X, Y, k, '{}-{}'.format(check.seed, len(meds))))
    for X, Y, k in ((1, 150, 3), (2, 103, 2), (49, 3, 51), (12, 13, 78)):
        meds.append((X, Y, k, '{}-many-{}'.format(check.seed, len(meds))))
    sessions += parallel_map(regular_driver.run_points, [(X, Y, '{}-{}'.format(check.seed, X * Y)) for X, Y in
                             ((1, 1), (2, 3), (7, 5), (1, 300), (257, 2), (49, 49), (20, 17), (130, 3))], chunksize=1)
    sessions += parallel_map(regular_driver.run_medoids, meds, chunksize=8)
    check.validate('T_Regular', 'T_Regular.cfg', sessions)
