from obs import parallel_map


def run(check):
    import choice_driver as d
    check.mc('Choice', 'MC_Choice.cfg')
    check.mc('Choice', 'MC_ChoiceError.cfg')
    if not check.quick:
        check.mc('Choice', 'MC_ChoiceDeep.cfg')
    scs = check.generate('Choice', 'GEN_Choice.cfg', num=check.n(150, 4000), depth=14)

    def seeds(kind, n):
        return ['{}-{}-{}-{}'.format(check.pid, check.seed, kind, i) for i in range(n)]
    items = list(zip(seeds('s', len(scs)), scs)) + [(s, None) for s in seeds('d', check.n(200, 5000))]
    sessions = parallel_map(d.run_distances, items, chunksize=4)
    sessions += parallel_map(d.run_errors, seeds('e', check.n(80, 1500)), chunksize=2)
    sessions += parallel_map(d.run_table, seeds('t', check.n(120, 2500)), chunksize=2)
    sessions += parallel_map(d.run_sampling, seeds('r', check.n(80, 2000)), chunksize=4)
    check.validate('T_Choice', 'T_Choice.cfg', sessions)
    check.assumptions += ['the limit of a record of uses does not change between choices',
                          'distances to medoids are defined; forecast errors may be undefined, such a medoid is not available',
                          'the score of the error criterion is the held-out error a freshly loaded solver answers (decided by C15)']
