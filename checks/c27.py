from obs import parallel_map, warm_dtw


def run(check):
    import figures_driver as d
    check.mc('Figures', 'MC_Figures.cfg' if check.quick else 'MC_FiguresDeep.cfg')
    warm_dtw()
    sessions = parallel_map(d.run, ['{}-{}-{}'.format(check.pid, check.seed, i) for i in range(check.n(64, 400))], chunksize=2, children=True)
    check.validate('T_Figures', 'T_Figures.cfg', sessions)
    check.assumptions += ['a figure is judged by what is on it when it is saved (colours, marks, rectangles, points, texts), not by the bytes of the file',
                          'the ARIMA fitting of pmdarima and statsmodels is replaced by fingerprint models',
                          'the predefined regions, suites and experiments of experiments.metadata are replaced by ones over scratch data',
                          'windows are simulated: showing figures closes them']
