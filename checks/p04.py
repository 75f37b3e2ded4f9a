"""Reference states against the reference algorithm."""
from . import formulas as F

TITLE = 'reference states'
KERNELS = ['compute_qref_and_fawa_first', 'matrix_after_inversion', 'matrix_b4_inversion', 'upward_sweep', 'compute_reference_states']
SELECT = ('ref',)
STAGES = ('interp', 'ref')


def select(n):
    return n.split('/')[0] in SELECT


def run(rep):
    rep.level = 'translation_validation'
    rep.rule = F.RULE
    rep.explanation = 'The reference-state fields the field object reports, as terms over the reference-state kernels, are compared with the reference algorithm; each kernel is compared with the reference kernel for generic arguments.'
    rep.trusted = F.TRUSTED
    rep.assumptions = F.ASSUMPTIONS
    rep.minimum = 40
    cfgs = list(F.CONFIGS) if rep.tier == 'quick' else list(F.CONFIGS) + list(F.MORE)
    F.settle(rep, KERNELS, select, cfgs, STAGES, rep.seed, rep.tier, 2)
