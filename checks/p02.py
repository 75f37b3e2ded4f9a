"""Wave activity and flux terms against the reference formulas."""
from . import formulas as F

TITLE = 'flux terms'
KERNELS = ['compute_flux_dirinv_nshem', 'compute_lwa_only_nhn22']
SELECT = ('baro', 'layer', 'only')
STAGES = ('interp', 'ref', 'baro', 'layer', 'only')


def select(n):
    return n.split('/')[0] in SELECT


def run(rep):
    rep.level = 'translation_validation'
    rep.rule = F.RULE
    rep.explanation = 'Every wave-activity and flux quantity the field object reports, as a closed-form term of the input fields, is compared with the term of the reference formula; the flux kernels are compared separately for generic arguments.'
    rep.trusted = F.TRUSTED
    rep.assumptions = F.ASSUMPTIONS
    rep.minimum = 200
    cfgs = list(F.CONFIGS) if rep.tier == 'quick' else list(F.CONFIGS) + list(F.MORE)
    F.settle(rep, KERNELS, select, cfgs, STAGES, rep.seed, rep.tier, 1)
