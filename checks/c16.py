from obs import parallel_map, warm_dtw

QUICK, DEEP = 'MC_Solver.cfg', 'MC_SolverDeep.cfg'


def run(check):
    import solver_driver as d
    check.mc('Solver', QUICK if check.quick else DEEP)
    warm_dtw()

    def seeds(kind, n):
        return ['{}-{}-{}-{}'.format(check.pid, check.seed, kind, i) for i in range(n)]
    sessions = parallel_map(d.run_store, seeds('s', check.n(110, 2000)), chunksize=2)
    sessions += parallel_map(d.run_near, seeds('n', check.n(24, 300)), chunksize=1)
    sessions += parallel_map(d.run_real, seeds('r', check.n(48, 800)), chunksize=2)
    check.validate('T_Solver', 'T_Solver.cfg', sessions)
