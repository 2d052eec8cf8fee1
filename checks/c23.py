from obs import parallel_map


def run(check):
    import silhouette_driver as d
    check.mc('Silhouette', 'MC_Silhouette.cfg')
    check.mc('Silhouette', 'MC_SilhouetteBest.cfg')
    if not check.quick:
        check.mc('Silhouette', 'MC_SilhouetteDeep.cfg')

    def seeds(kind, n):
        return ['{}-{}-{}-{}'.format(check.pid, check.seed, kind, i) for i in range(n)]
    sessions = parallel_map(d.run, seeds('s', check.n(240, 5000)), chunksize=4)
    sessions += parallel_map(d.run_points, seeds('p', check.n(120, 2500)), chunksize=4)
    sessions += parallel_map(d.run_program, seeds('c', check.n(60, 1200)), chunksize=2)
    check.validate('T_Silhouette', 'T_Silhouette.cfg', [s for s in sessions if s['ev']])
    check.assumptions += ['distances are integers; scores are compared with a tolerance of 3 in the fifth decimal, reported scores in the third',
                          'every partition of the suite has more than one cluster and a cluster of more than one point, as the score requires']
