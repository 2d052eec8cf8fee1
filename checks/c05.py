from obs import parallel_map


def run(check):
    import coordinates_driver
    check.mc('Coordinates', 'MC_Coordinates.cfg')
    scs = check.generate('Coordinates', 'GEN_Coordinates.cfg')   # every region and query area of a 3x4 dataset
    check.rng.shuffle(scs)
    scs = scs[:check.n(60, 1000)]
    rng = check.rng

    def rect(X, Y):
        a, c = rng.randrange(X), rng.randrange(Y)
        return [a, rng.randrange(a + 1, X + 1), c, rng.randrange(c + 1, Y + 1)]
    for _ in range(check.n(120, 1200)):
        X, Y = rng.randrange(1, 9), rng.randrange(1, 10)
        r = rect(X, Y)
        scs.append(dict(X=X, Y=Y, r=r, q=rect(r[1] - r[0], r[3] - r[2])))
    for _ in range(check.n(10, 80)):        # long sides
        X, Y = rng.choice([(1, 49), (3, 52), (49, 2), (2, 98), (2, 105), (1, 107), (110, 2), (3, 187), (1, 260), (300, 1)])
        a, c = rng.randrange(min(X, 3)), rng.randrange(min(Y, 3))
        r = [a, X, c, Y] if rng.random() < .8 else [0, X, 0, Y]
        scs.append(dict(X=X, Y=Y, r=r, q=rect(r[1] - r[0], r[3] - r[2])))
    items = [(sc, '{}-{}-{}'.format(check.pid, check.seed, i)) for i, sc in enumerate(scs)]
    check.validate('T_Coordinates', 'T_Coordinates.cfg', parallel_map(coordinates_driver.run, items, chunksize=4))
    check.assumptions += ['the value stored at a place of the synthetic dataset names that place']
