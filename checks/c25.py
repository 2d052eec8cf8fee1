from obs import parallel_map, warm_dtw


def run(check):
    import programs_driver as d
    check.mc('Programs', 'MC_Programs.cfg' if check.quick else 'MC_ProgramsDeep.cfg')
    warm_dtw()

    def seeds(kind, n):
        return ['{}-{}-{}-{}'.format(check.pid, check.seed, kind, i) for i in range(n)]
    sessions = parallel_map(d.run, seeds('p', check.n(90, 1500)), chunksize=2)
    sessions += parallel_map(d.run_near, seeds('n', check.n(16, 200)), chunksize=1)
    sessions += parallel_map(d.run_each, seeds('e', check.n(36, 500)), chunksize=2)
    import spta.classifier.model      # noqa: F401 (before the workers are started)
    sessions += parallel_map(d.run_labelled, seeds('l', check.n(24, 400)), chunksize=2)
    check.validate('T_Programs', 'T_Programs.cfg', sessions)
    check.assumptions += ['the ARIMA fitting of pmdarima and statsmodels is replaced by fingerprint models, so that an answer tells what it was trained with',
                          'the predefined regions, ARIMA settings and classifiers of experiments.metadata are replaced by ones over scratch data, and the neural network by a function of the series it is given',
                          'a query is not run at the same time as a training of the same settings']
