from obs import parallel_map


def run(check):
    import dataset_driver as d
    check.mc('Dataset', 'MC_Dataset.cfg' if check.quick else 'MC_DatasetDeep.cfg')
    seeds = ['{}-{}-{}'.format(check.pid, check.seed, i) for i in range(check.n(140, 3000))]
    sessions = parallel_map(d.run_history, seeds, chunksize=2)
    sessions += parallel_map(d.run_calendar, seeds, chunksize=16)
    check.validate('T_Dataset', 'T_Dataset.cfg', sessions)
    check.assumptions += ['a synthetic source with the shape of the real dataset (54056 samples, 1979-2015); '
                          'unreadable copies are empty, truncated or not an array']
