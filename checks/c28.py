from obs import parallel_map, warm_dtw


def run(check):
    import figures_driver as d
    for cfg in ['MC_Variance.cfg'] + ([] if check.quick else ['MC_VarianceDeep.cfg']):
        check.mc('MC_Variance', cfg)
    warm_dtw()
    sessions = parallel_map(d.run_variance, ['{}-{}-{}'.format(check.pid, check.seed, i) for i in range(check.n(48, 280))], chunksize=2, children=True)
    check.validate('T_Figures', 'T_Figures.cfg', sessions)
    check.assumptions += ['a figure is judged by what is on it when it is saved (bars, texts, limits), not by the bytes of the file',
                          'partitions have at least two clusters', 'the predefined regions and suites of experiments.metadata are replaced by ones over scratch data']
