from obs import parallel_map

QUICK, DEEP = 'MC_Errors.cfg', 'MC_ErrorsDeep.cfg'


def run(check):
    import errors_driver as d
    check.mc('MCErrors', QUICK if check.quick else DEEP)

    def seeds(kind, n):
        return ['{}-{}-{}-{}'.format(check.pid, check.seed, kind, i) for i in range(n)]
    sessions = parallel_map(d.run_given, seeds('g', check.n(250, 6000)), chunksize=4)
    sessions += parallel_map(d.run_analysis, seeds('a', check.n(250, 6000)), chunksize=4)
    check.validate('T_Errors', 'T_Errors.cfg', sessions)
