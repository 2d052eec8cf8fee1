from obs import parallel_map


def run(check):
    import partition_driver
    check.mc('Partition', 'MC_Partition.cfg')
    scs = check.generate('Partition', 'GEN_Partition.cfg')      # every labelling of up to 6 points
    if check.quick:
        check.rng.shuffle(scs)
        scs = scs[:260]
    for _ in range(check.n(150, 3000)):
        X, Y = check.rng.randrange(1, 6), check.rng.randrange(1, 7)
        k = check.rng.randrange(1, min(X * Y, 7) + 1)
        lab = [check.rng.randrange(k) for _ in range(X * Y)]
        if check.rng.random() < 0.85:
            for c, i in enumerate(check.rng.sample(range(X * Y), k)):
                lab[i] = c
        lab[check.rng.randrange(X * Y)] = k - 1
        scs.append(dict(X=X, Y=Y, k=k, lab=lab))
    for _ in range(check.n(10, 120)):       # long sides, many clusters
        X, Y = check.rng.choice([(1, 49), (2, 49), (49, 3), (1, 98), (2, 103), (107, 1), (1, 257), (2, 161), (300, 1)])
        k = check.rng.choice([1, 2, 12, min(X * Y, 40), min(X * Y, 130)])
        lab = [check.rng.randrange(k) for _ in range(X * Y)]
        for c, i in enumerate(check.rng.sample(range(X * Y), k)):
            lab[i] = c
        scs.append(dict(X=X, Y=Y, k=k, lab=lab))
    items = [(sc, '{}-{}-{}'.format(check.pid, check.seed, i)) for i, sc in enumerate(scs)]
    check.validate('T_Partition', 'T_Partition.cfg', parallel_map(partition_driver.run, items, chunksize=8))
    check.assumptions += ['numbers are exact: values are distinct integers']
