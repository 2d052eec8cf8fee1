from obs import parallel_map, warm_dtw


def run(check):
    import suite_driver as d
    check.mc('Suite', 'MC_Suite.cfg' if check.quick else 'MC_SuiteDeep.cfg')
    warm_dtw()
    import experiments.clustering.partition_analysis  # noqa: F401  (loaded once, before forking)
    sd = lambda n, t: ['{}-{}-{}-{}'.format(check.pid, t, check.seed, i) for i in range(n)]
    sessions = parallel_map(d.run, sd(check.n(300, 4000), 's'), chunksize=8)
    sessions += parallel_map(d.run_cli, sd(check.n(8, 80), 'cli'))
    check.validate('T_Suite', 'T_Suite.cfg', sessions)
