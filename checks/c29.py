from obs import parallel_map


def run(check):
    import pareto_driver as d
    check.mc('Pareto', 'MC_Pareto.cfg' if check.quick else 'MC_ParetoDeep.cfg')
    sessions = parallel_map(d.run, ['{}-{}-{}'.format(check.pid, check.seed, i) for i in range(check.n(600, 12000))], chunksize=8)
    check.validate('T_Pareto', 'T_Pareto.cfg', sessions)
    check.assumptions += ['costs are compared for models with positive times and errors',
                          'what is said about costs is read from the log of the program']
