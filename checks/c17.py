from obs import parallel_map, warm_dtw

QUICK, DEEP = 'MC_Solver.cfg', 'MC_SolverDeep.cfg'


def run(check):
    import solver_driver as d
    check.mc('Solver', QUICK if check.quick else DEEP)
    warm_dtw()

    def seeds(kind, n):
        return ['{}-{}-{}-{}'.format(check.pid, check.seed, kind, i) for i in range(n)]
    sessions = parallel_map(d.run_report, seeds('p', check.n(120, 2400)), chunksize=2)
    sessions += parallel_map(d.run_wide, seeds('w', check.n(4, 40)), chunksize=1)
    check.validate('T_Solver', 'T_Solver.cfg', sessions)
