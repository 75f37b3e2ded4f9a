"""Set-up of an abstract world: the repository's sources, the symbolic sizes and the kernels."""
import glob
import os
from . import fort, fparse, pyabs, terms as T
from .terms import sym, lift, num
from .ranges import Ctx, declare_param

REPO = os.environ.get('HN_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'falwa')
F90 = os.path.join(SRC, 'f90_modules')
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')

M = sym('m', True)          # number of latitude intervals per hemisphere
NLON = sym('nlon', True)
KMAX = sym('kmax', True)
NND = sym('nnd', True)
declare_param(M, 6)
declare_param(NLON, 4)
declare_param(KMAX, 5)
declare_param(NND, 3)
T.declare_periodic(NLON)

_cache = {}


def kernels():
    """(routines, kernels, {module name: [routine names]}) of the repository's Fortran sources"""
    if 'k' not in _cache:
        rs, files = {}, {}
        for f in sorted(glob.glob(os.path.join(F90, '*.f90'))):
            with open(f) as fh:
                r = fparse.parse_file(f, fh.read())
            files[os.path.splitext(os.path.basename(f))[0]] = sorted(r)
            rs.update(r)
        _cache['k'] = (rs, {n: fort.Kernel(r) for n, r in rs.items()}, files)
    return _cache['k']


def interp(src=SRC, package='falwa'):
    rs, ks, files = kernels()
    I = pyabs.Interp(src, Ctx(), ks, package)
    I.routines = rs
    I.kernel_files = dict(files)
    I.top_exits = []
    return I
