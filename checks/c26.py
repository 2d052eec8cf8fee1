from obs import parallel_map, warm_dtw


def run(check):
    import analysis_driver as d
    for cfg in ['MC_Analysis.cfg'] + ([] if check.quick else ['MC_AnalysisDeep.cfg', 'MC_AnalysisProcs.cfg']):
        check.mc('MC_Analysis', cfg)
    warm_dtw()
    sessions = parallel_map(d.run, ['{}-{}-{}'.format(check.pid, check.seed, i) for i in range(check.n(96, 1500))], chunksize=2, children=True)
    check.validate('T_Analysis', 'T_Analysis.cfg', sessions)
    check.assumptions += ['the ARIMA fitting of pmdarima and statsmodels is replaced by fingerprint models',
                          'the predefined regions, suites and experiments of experiments.metadata are replaced by ones over scratch data',
                          'no claim on a summary of a cluster none of whose cells has a model, nor on times']
