from c01 import replay_all, wide


def run(check):
    check.mc('Regions', 'MC_Scaling.cfg')
    scs = []
    for cfg, num in (('GEN_Scaling.cfg', 200), ('GEN_ScalingC.cfg', 120), ('GEN_ScalingD.cfg', 80)):
        scs += check.generate('Regions', cfg, num=check.n(num, num * 20), depth=14)
    scs += [wide(check.rng) for _ in range(check.n(8, 80))]
    check.validate('T_Regions', 'T_Regions.cfg', replay_all(check, scs))
    check.assumptions += ['integer source data, so that scaled values are exact rationals in the model',
                          'scaled and restored values are compared after rounding to 1e-4']
