"""Equivalent latitude and barotropic wave activity against their documented formulas."""
from . import ops


def run(rep):
    rep.explanation = ('Box counting, wave activity, the hemispheric wrappers and the barotropic field object (each '
                       'property order) are interpreted for symbolic sizes and arguments, with default and with '
                       'explicit options, and compared with the reference formula.')
    ops.run(rep, 'P20', 100)
