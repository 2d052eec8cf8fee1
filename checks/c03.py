from c01 import replay_all, wide


def run(check):
    check.mc('Regions', 'MC_Functions.cfg')
    scs = check.generate('Regions', 'GEN_Functions.cfg', num=check.n(250, 5000), depth=14)
    scs += check.generate('Regions', 'GEN_Extrema.cfg', num=check.n(150, 3000), depth=14)
    scs += [wide(check.rng) for _ in range(check.n(8, 80))]
    check.validate('T_Regions', 'T_Regions.cfg', replay_all(check, scs))
    check.assumptions += ['the functions applied are linear or selections (exact in the model)',
                          'values are compared after rounding to 1e-4']
