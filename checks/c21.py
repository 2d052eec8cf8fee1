from obs import parallel_map


def run(check):
    import classifier_driver as d
    check.mc('Classifier', 'MC_Classifier.cfg')
    if not check.quick:
        check.mc('Classifier', 'MC_ClassifierDeep.cfg')

    def seeds(kind, n):
        return ['{}-{}-{}-{}'.format(check.pid, check.seed, kind, i) for i in range(n)]
    sessions = parallel_map(d.run, seeds('s', check.n(160, 1500)), chunksize=4)
    sessions += parallel_map(d.run_many, seeds('m', check.n(16, 120)), chunksize=1)
    sessions += parallel_map(d.run_network, seeds('n', check.n(12, 60)), chunksize=1)
    check.validate('T_Classifier', 'T_Classifier.cfg', sessions)
    check.assumptions += ['the classifier is replaced by one that names any stored or missing solver, depending on the series given and on the query',
                          'the stored solvers are trained with the fingerprint models of Training.tla',
                          'the network is built with random weights; trained weights are not part of the repository']
