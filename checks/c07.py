from obs import parallel_map, warm_dtw


def run(check):
    import kmedoids_driver as d
    check.mc('Kmedoids', 'MC_Kmedoids.cfg' if check.quick else 'MC_KmedoidsDeep.cfg')
    warm_dtw()
    seeds = ['{}-{}-{}'.format(check.pid, check.seed, i) for i in range(check.n(400, 8000))]
    sessions = parallel_map(d.run, seeds, chunksize=8)
    sessions += parallel_map(d.run_many, ['m' + s for s in seeds[:check.n(6, 60)]], chunksize=1)
    check.validate('T_Kmedoids', 'T_Kmedoids.cfg', sessions)
    check.assumptions += ['integer distances; runs with a limit of 1000 iterations are taken not to have been stopped by it']
