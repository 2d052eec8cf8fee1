from obs import parallel_map


def run(check):
    import tables_driver as d
    check.mc('Tables', 'MC_Tables.cfg')
    if not check.quick:
        check.mc('Tables', 'MC_TablesDeep.cfg')

    def seeds(kind, n):
        return ['{}-{}-{}-{}'.format(check.pid, check.seed, kind, i) for i in range(n)]
    sessions = parallel_map(d.run, seeds('s', check.n(300, 8000)), chunksize=8)
    sessions += parallel_map(d.run_program, seeds('p', check.n(24, 200)), chunksize=2)
    check.validate('T_Tables', 'T_Tables.cfg', sessions)
    check.assumptions += ['labels are made of the columns k, seed and cluster_index of a row, joined by dashes, as the trained classifiers do',
                          'labels of robust k-medoids suites are not claimed: a label does not name the mode']
