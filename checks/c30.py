from obs import parallel_map


def run(check):
    import synthetic_driver as d
    check.mc('Synthetic', 'MC_Synthetic.cfg' if check.quick else 'MC_SyntheticDeep.cfg')
    sessions = parallel_map(d.run, ['{}-{}-{}'.format(check.pid, check.seed, i) for i in range(check.n(500, 10000))], chunksize=8)
    check.validate('T_Synthetic', 'T_Synthetic.cfg', sessions)
    check.assumptions += ['profiles are delayed in series of at least 7 samples (shorter ones have no room for a delay)',
                          'noise is within eight deviations, and the deviation of 200 steps of noise within a factor of about 1.5']
