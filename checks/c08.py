from obs import parallel_map, warm_dtw


def run(check):
    import fuzzy_driver as d
    check.mc('Fuzzy', 'MC_Fuzzy.cfg' if check.quick else 'MC_FuzzyDeep.cfg')
    warm_dtw()
    seeds = ['{}-{}-{}'.format(check.pid, check.seed, i) for i in range(check.n(300, 6000))]
    sessions = parallel_map(d.run_fuzzy, seeds, chunksize=8)
    sessions += parallel_map(d.run_mask, seeds, chunksize=16)
    check.validate('T_Fuzzy', 'T_Fuzzy.cfg', sessions)
    check.assumptions += ['memberships of runs observed to one millionth; memberships of masks are binary fractions']
