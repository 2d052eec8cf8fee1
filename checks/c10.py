from obs import parallel_map, warm_dtw


def run(check):
    import distances_driver as d
    check.mc('Distances', 'MC_Distances.cfg' if check.quick else 'MC_DistancesDeep.cfg')
    warm_dtw()
    seeds = ['{}-{}-{}'.format(check.pid, check.seed, i) for i in range(check.n(300, 6000))]
    sessions = parallel_map(d.run_math, seeds, chunksize=16)
    sessions += parallel_map(d.run_matrix, [(s, 0) for s in seeds[:check.n(120, 1500)]], chunksize=8)
    # this implementation starts processes of its own
    sessions += parallel_map(d.run_matrix, [(s, 1) for s in seeds[:check.n(8, 60)]], procs=1)
    sessions += parallel_map(d.run_life, seeds, chunksize=8)
    sessions += parallel_map(d.run_default, seeds[:check.n(24, 200)], chunksize=2)
    check.validate('T_Distances', 'T_Distances.cfg', sessions)
    check.assumptions += ['distances compared as squares of integers, or exactly for integer matrices; '
                          'spatial weights on two-dimensional regions to within 0.01']
