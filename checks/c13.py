from obs import parallel_map, warm_dtw


def run(check):
    import training_driver as d
    check.mc('Training', 'MC_Training.cfg')
    if not check.quick:
        check.mc('Training', 'MC_TrainingDeep.cfg')
    warm_dtw()

    def seeds(kind, n):
        return ['{}-{}-{}-{}'.format(check.pid, check.seed, kind, i) for i in range(n)]
    sessions = parallel_map(d.run_small, seeds('t', check.n(300, 6000)), chunksize=8)
    sessions += parallel_map(d.run_solver, seeds('s', check.n(120, 2500)), chunksize=4)
    sessions += parallel_map(d.run_short, seeds('x', check.n(32, 600)))
    sessions += parallel_map(d.run_pair, seeds('p', check.n(24, 500)))
    check.validate('T_Training', 'T_Training.cfg', sessions)
