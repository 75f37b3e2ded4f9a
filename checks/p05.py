"""QGPV, interpolation, static stability and the heating forcing."""
from . import formulas as F

TITLE = 'qgpv'
KERNELS = ['compute_qgpv', 'compute_qgpv_direct_inv']
SELECT = ('interp', 'heating', 'grid')
STAGES = ('interp', 'heating')


def select(n):
    return n.split('/')[0] in SELECT


def run(rep):
    rep.level = 'translation_validation'
    rep.rule = F.RULE
    rep.explanation = 'Potential temperature, interpolation to the analysis grid, static stability, QGPV and the heating-rate forcing, as closed-form terms, compared with the reference formulas; the QGPV kernels are compared for generic arguments.'
    rep.trusted = F.TRUSTED
    rep.assumptions = F.ASSUMPTIONS
    rep.minimum = 60
    cfgs = list(F.CONFIGS) if rep.tier == 'quick' else list(F.CONFIGS) + list(F.MORE)
    F.settle(rep, KERNELS, select, cfgs, STAGES, rep.seed, rep.tier, 1)
