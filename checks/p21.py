"""Utilities and statistics against their documented formulas."""
from . import ops


def run(rep):
    rep.explanation = ('Each utility is interpreted for symbolic sizes and arguments, with default and with explicit '
                       'options, and compared with the reference formula.')
    ops.run(rep, 'P21', 30)
