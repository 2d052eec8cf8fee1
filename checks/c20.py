from obs import parallel_map


def run(check):
    import baseline_driver
    check.mc('Windows', 'MC_Neighbours.cfg' if check.quick else 'MC_NeighboursDeep.cfg')
    items = ['{}-{}-{}'.format(check.pid, check.seed, i) for i in range(check.n(300, 5000))]
    check.validate('T_Windows', 'T_Windows.cfg', parallel_map(baseline_driver.run, items, chunksize=8))
    check.assumptions += ['series are small integers, so sums and squared distances are exact']
