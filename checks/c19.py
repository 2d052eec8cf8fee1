from obs import parallel_map


def run(check):
    import windows_driver
    check.mc('Windows', 'MC_Windows.cfg' if check.quick else 'MC_WindowsDeep.cfg')
    items = ['{}-{}-{}'.format(check.pid, check.seed, i) for i in range(check.n(300, 5000))]
    sessions = parallel_map(windows_driver.run_windows, items, chunksize=16)
    sessions += parallel_map(windows_driver.run_table, items, chunksize=8)
    check.validate('T_Windows', 'T_Windows.cfg', sessions)
