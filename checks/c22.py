from obs import parallel_map, warm_dtw


def run(check):
    check.mc('Parallel', 'MC_Parallel.cfg')
    check.mc('Parallel', 'MC_ParallelWhole.cfg')
    if not check.quick:
        check.mc('Parallel', 'MC_ParallelDeep.cfg')
    schedules = [g['sched'] for g in check.generate('Parallel', 'GEN_Parallel.cfg', num=check.n(150, 3000), depth=60)]
    import parallel_driver as d
    warm_dtw()
    rng = check.rng

    def seeds(kind, n):
        return ['{}-{}-{}-{}'.format(check.pid, check.seed, kind, i) for i in range(n)]

    def half(ss):
        # two of three under a schedule of the specification, the others on a disturbed real pool
        return [(s, None if i % 3 == 2 else rng.choice(schedules)) for i, s in enumerate(ss)]
    items = [(s, kind, sched) for kind in sorted(d.KINDS) for s, sched in half(seeds(kind, check.n(150, 3000)))]
    check.validate('T_Parallel', 'T_Parallel.cfg', parallel_map(d.run, items, chunksize=4, children=True))
    sessions = parallel_map(d.run_errors, half(seeds('e', check.n(150, 3000))), chunksize=4, children=True)
    sessions += parallel_map(d.run_analysis, half(seeds('a', check.n(60, 1500))), chunksize=2, children=True)
    check.validate('T_Errors', 'T_Errors.cfg', sessions)
    check.assumptions += [
        'schedules of the specification decide the order of the steps of the workers at every line of the mapped functions; '
        'a write of one number to shared memory is atomic',
        'distance matrices are computed for whole regions (also seen through a cluster with all points)']
