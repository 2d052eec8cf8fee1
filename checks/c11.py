from obs import parallel_map, warm_dtw


def run(check):
    import partition_store_driver as d
    check.mc('PartitionStore', 'MC_PartitionStore.cfg')
    if not check.quick:
        check.mc('PartitionStore', 'MC_PartitionStoreDeep.cfg')
    warm_dtw()
    seeds = ['{}-{}-{}'.format(check.pid, check.seed, i) for i in range(check.n(400, 6000))]
    sessions = parallel_map(d.run, seeds, chunksize=8)
    sessions += parallel_map(d.run_descriptions, seeds, chunksize=16)
    check.validate('T_PartitionStore', 'T_PartitionStore.cfg', sessions)
