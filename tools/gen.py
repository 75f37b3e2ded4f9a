#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run after editing them)."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OOP = 'src/falwa/oopinterface.py'
STO = 'src/falwa/data_storage.py'
XR = 'src/falwa/xarrayinterface.py'
UT = 'src/falwa/utilities.py'
PU = 'src/falwa/plot_utils.py'
BA = 'src/falwa/basis.py'
WR = 'src/falwa/wrapper.py'
BF = 'src/falwa/barotropic_field.py'
F = 'src/falwa/f90_modules/'
FLUX, ONLY = F + 'compute_flux_dirinv.f90', F + 'compute_lwa_only_nhn22.f90'
REF, QREF = F + 'compute_reference_states.f90', F + 'compute_qref_and_fawa_first.f90'
MB, MA, UP = F + 'matrix_b4_inversion.f90', F + 'matrix_after_inversion.f90', F + 'upward_sweep.f90'
QG1, QG2 = F + 'compute_qgpv.f90', F + 'compute_qgpv_direct_inv.f90'
KERN = [FLUX, ONLY, REF, QREF, MB, MA, UP, QG1, QG2]

AI = 'abstract interpretation to closed-form terms'
P = {}


def prop(i, title, statement, over, text, why, files, mech, tech=None, level='other', note='', na=None):
    P[i] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech,
                level=level, note=note, na=na)


SAMPLE = 'the existing tests run a few fixed data sets and compare a handful of numbers; '

prop('P01', 'The southern hemisphere is diagnosed as the mirror image of the northern one',
     'If two input atmospheres are mirror images of each other across the equator (meridional wind and any diabatic '
     'forcing change sign, zonal wind and temperature do not), every reported diagnostic of one is the mirror image '
     'of the same diagnostic of the other away from the equator row. Quantities that are odd across the equator '
     '(potential vorticity, its reference state, meridional fluxes) change sign and the two momentum-flux '
     'terms of the north and south neighbours exchange places.',
     ['inputs', 'configurations'], 'all wind and temperature fields, both boundary-condition schemes, odd and even '
     'latitude grids, global results',
     SAMPLE + 'none feeds a mirrored atmosphere, and the southern branch is a separately written call with its own '
     'flips, signs, hemispheric averages and output order.',
     [OOP, STO, FLUX, ONLY, QG2, UT],
     [('southern calls with flipped and negated arguments', OOP + ' _compute_intermediate_flux_terms, '
       '_compute_layerwise_lwa_fluxes_wrapper, compute_lwa_only, _compute_reference_states'),
      ('southern storage slots', STO + ' SHemProperty')],
     AI + '; relational comparison of the terms of an input and of its mirror image', 'other',
     'For every configuration of the field classes, the closed-form term of each diagnostic under mirrored inputs is '
     'compared with the mirrored term under the original inputs.')
prop('P02', 'Wave activity and flux terms equal the documented formulas',
     'Each reported component of local wave activity, of the zonal wave-activity flux (three terms), of the '
     'meridional momentum flux and its divergence, of the zonal flux convergence, of the low-level heat flux and of '
     'the layerwise stretching term equals the discretised formula of the papers the documentation cites, evaluated '
     'on the input fields and the reported reference state. This holds at every grid point, level and hemisphere and '
     'for both the layerwise and the vertically averaged results.',
     ['inputs', 'configurations'], 'all fields, grid sizes, hemispheres, forcing given or not, both schemes',
     SAMPLE + 'a wrong index, sign, weight or neighbour in one branch changes only some rows, and most expected-value '
     'tests do not run offline.',
     [OOP, FLUX, ONLY, UT],
     [('flux kernel', FLUX), ('wave-activity-only kernel', ONLY),
      ('assembly of fluxes and divergences', OOP + ' _compute_lwa_and_barotropic_fluxes, '
       '_compute_layerwise_lwa_fluxes, _compute_stretch_term')],
     AI + '; global value numbering and random interpretation against reference terms', 'translation_validation',
     'Kernel terms and the terms of every reported quantity are compared with reference formulas (spec/) for symbolic '
     'sizes and inputs; pairs not settled by normal form are compared at random points of the term algebra.')
prop('P03', 'Vertically averaged results are the density-weighted mean of the layerwise ones',
     'The vertically averaged wave activity, zonal flux terms, zonal wind and diabatic source reported for a column '
     'equal the mean of the corresponding layerwise results over the interior levels with weight exp(-z/H), '
     'normalised by the sum of the same weights. In particular a quantity that is constant in height is its own '
     'vertical average.',
     ['inputs', 'configurations'], 'all fields, grids, level counts and spacings, both schemes and hemispheres',
     SAMPLE + 'no test compares the two computations, which use separate code paths and separate normalisations.',
     [OOP, ONLY], [('vertical averaging', OOP + ' _vertical_average'), ('normalisation', OOP + ' _compute_prefactor'),
                   ('averaging in the wave-activity-only kernel', ONLY)],
     AI + '; relational comparison of barotropic and averaged layerwise terms', 'other', '')
prop('P04', 'Reference states follow the documented area-preserving and inversion algorithm',
     'The reported reference potential vorticity is the area-preserving zonalisation of the potential vorticity of '
     'each hemisphere, and the reference wind and temperature are the fields that the documented iteration or direct '
     'inversion produces from it with the documented boundary conditions. Iteration count, tolerance, partition '
     'number and boundary index given by the user take effect.',
     ['inputs', 'configurations'], 'all fields, both boundary-condition schemes, both hemispheres',
     SAMPLE + 'the solvers have many rows, coefficients and boundary rows of which tests see one converged result.',
     [OOP, REF, QREF, MB, MA, UP],
     [('successive over-relaxation', REF), ('equivalent-latitude analysis', QREF), ('block elimination', MB + ', ' + MA),
      ('back substitution and temperature', UP),
      ('drivers', OOP + ' _compute_reference_states, _compute_reference_states_nhn22_hemispheric_wrapper')],
     AI + '; loop summaries of the solvers compared with reference terms', 'translation_validation',
     'Solver loops are summarised as recurrences and compared with those of a reference implementation (spec/); '
     'convergence and accuracy of the iteration are outside.')
prop('P05', 'Potential vorticity and the interpolated fields follow the documented formulas',
     'Potential temperature, the interpolation to the analysis grid, hemispheric static stability, quasi-geostrophic '
     'potential vorticity and the potential-vorticity forcing derived from a heating rate equal their documented '
     'discretised formulas at every grid point, including the wrap-around longitudes, the polar rows and the lowest '
     'and highest levels.',
     ['inputs', 'configurations'], 'all fields, grids (with or without an equator row), level settings, both schemes',
     SAMPLE + 'they see interior points of one grid.',
     [OOP, UT, QG1, QG2],
     [('interpolation and averaging', OOP + ' interpolate_fields, _compute_static_stability_func'),
      ('potential vorticity', QG1 + ', ' + QG2), ('heating forcing', OOP + ' compute_ncforce_from_heating_rate')],
     AI + '; global value numbering and random interpretation against reference terms', 'translation_validation', '')
prop('P06', 'Rotating the input in longitude rotates every result',
     'Shifting all input fields cyclically in longitude by any number of grid points shifts every reported '
     'longitude-dependent diagnostic by the same number of points and leaves every zonally symmetric one unchanged.',
     ['inputs', 'configurations'], 'all fields and all shifts',
     SAMPLE + 'the date line always falls at the same place of the same data set.',
     [OOP, UT] + KERN,
     [('periodic differences', QG1 + ', ' + QG2 + ', ' + UT + ' zonal_convergence'),
      ('longitude loops', FLUX + ', ' + ONLY)],
     AI + '; relational comparison under rotation of the longitude axis', 'other', '')
prop('P07', 'Results are only available once the stage that computes them has succeeded',
     'Asking for a quantity before the stage that computes it has run raises an error and never returns '
     'placeholder values. After the reference-state iteration has failed to converge, every diagnostic that needs the '
     'reference wind or temperature is refused with an error; in warning mode only the wave activity of '
     'compute_lwa_only remains available.',
     ['histories'], 'all sequences of public calls on a field object, including failing ones',
     SAMPLE + 'they call the stages once in the documented order.',
     [OOP], [('stage flags and guards', OOP + ' getters, _check_reference_states_solved, _reference_states_stored')],
     'abstract interpretation with typestate: exits of every accessor over all stage histories', 'other', '')
prop('P08', 'Repeating a stage repeats its results; objects do not influence each other',
     'Calling any stage again, with other stages or with work on other objects in between, reports exactly what a '
     'fresh object would report for the same inputs and arguments. No result depends on a previous call with '
     'different arguments.',
     ['histories'], 'all sequences of stage calls on one or several field objects',
     SAMPLE + 'objects are used once.',
     [OOP, STO, XR], [('storages filled by each stage', STO), ('stages', OOP)],
     'abstract interpretation over call histories; comparison of the reported terms', 'other', '')
prop('P09', 'Input arrays are never modified and results are not overwritten later',
     'No operation of the package writes into an array, dataset or list the caller passed in, and arrays already '
     'handed to the caller are not changed by later calls of any stage.',
     ['inputs', 'histories'], 'all public functions and methods with all argument combinations',
     SAMPLE + 'none inspects its inputs after the call.',
     [OOP, XR, UT, BA, WR, BF], [('array writes', 'all of ' + OOP + ', ' + UT + ', ' + BA + ', ' + WR)],
     'abstract interpretation with an effect analysis on array storage', 'proof', '')
prop('P10', 'Local wave activity is never negative',
     'Total, cyclonic and anticyclonic local wave activity, layerwise or vertically averaged, of a field object or '
     'of a barotropic field, are never negative (for latitudes ordered from south to north), whatever the potential '
     'vorticity and whatever the reference state.',
     ['inputs'], 'all potential-vorticity fields and all reference states',
     SAMPLE + 'they look at one result each.',
     [FLUX, ONLY, BA, OOP], [('masks of the two meridional integrals', FLUX + ', ' + ONLY + ', ' + BA + ' lwa')],
     'abstract interpretation; sign analysis of gated sums', 'other', '')
prop('P11', 'Numerical kernels stay inside their arrays',
     'No compiled kernel reads or writes outside its arrays or its arguments for any grid size, boundary index '
     '(that leaves at least three latitude rows) and data the field objects can pass to it, including uniform and '
     'undefined data.',
     ['inputs', 'configurations'], 'all grid sizes and all data',
     SAMPLE + 'out-of-range accesses in compiled code usually go unnoticed.',
     KERN, [('loop bounds and array shapes', ', '.join(KERN))],
     'interval and linear-inequality analysis of every subscript', 'proof', '')
prop('P12', 'Results depend on the inputs only',
     'No reported value depends on the contents of memory that was never assigned: a kernel or function assigns every '
     'array element and variable that influences a reported value before it uses or returns it. (The potential '
     'vorticity of the lowest and highest level has no value by definition and is exempt.)',
     ['inputs', 'schedules'], 'all data, grids and memory contents',
     SAMPLE + 'unassigned memory often happens to be zero.',
     KERN + [OOP, UT, BA, WR], [('initialisation of work arrays', ', '.join(KERN))],
     'abstract interpretation with a definite-assignment domain', 'other', '')
prop('P13', 'Northern-hemisphere-only results are the northern half of the global results',
     'Requesting northern-hemisphere results only changes which rows are reported, not their values: every reported '
     'quantity equals the rows of the global computation from the equator northward, up to the shared equator row.',
     ['inputs', 'configurations'], 'all fields, both schemes, odd and even grids',
     SAMPLE + 'the two modes are not compared.',
     [OOP, STO], [('row selection', OOP + ' need_latitude_interpolation and slicing'), ('storage shapes', STO)],
     AI + '; relational comparison of the two modes', 'other', '')
prop('P14', 'Diabatic forcing affects exactly the forcing diagnostics, linearly',
     'The forcing passed to the flux stages changes only the reported diabatic source terms: wave activity, fluxes, '
     'winds and reference states do not depend on it. The diabatic source is linear in the forcing and zero when '
     'none is given.',
     ['inputs'], 'all forcings and fields',
     SAMPLE + 'one forcing, one result.',
     [OOP, FLUX, BA], [('forcing argument', FLUX + ' ncforce'), ('defaults', OOP)],
     AI + '; dependency sets and linearity of the terms', 'other', '')
prop('P15', 'Physical constants given by the user are the ones used',
     'All results follow the planetary radius, rotation rate, gas constant, heat capacity, scale height and level '
     'spacing given to the object: expressing all inputs and constants in other units of length, time or temperature '
     'gives the same results in those units. No computation falls back to built-in constants of the Earth.',
     ['inputs', 'configurations'], 'all values of the constants',
     SAMPLE + 'they use the default constants of the Earth.',
     [OOP, UT, BA, WR, BF] + KERN, [('constants passed to kernels', OOP), ('constants in kernels', ', '.join(KERN))],
     AI + '; covariance of the terms under change of units', 'other', '')
prop('P16', 'Datasets are diagnosed slice by slice under the right names',
     'For a dataset with any number of extra dimensions each reported variable equals, slice by slice, what a field '
     'object reports for that slice, is stored under its own name with the coordinates of that slice, and does not '
     'depend on the order of the latitude or pressure axis of the input beyond orientation.',
     ['inputs', 'configurations'], 'all datasets, extra dimensions, axis orientations, schemes and stages',
     SAMPLE + 'most dataset tests do not run offline and none compares the slices of several dimensions.',
     [XR, OOP], [('collection of slices', XR + ' _DataArrayCollector, _MetadataServiceProvider'),
                 ('orientation', XR + ' QGDataset.__init__')],
     'abstract interpretation of the dataset layer over symbolic labelled arrays', 'other', '')
prop('P17', 'Invalid grids and fields are rejected',
     'Descending latitudes, ascending pressure levels, fields whose shape does not match the coordinates, more levels '
     'than the data reach, latitude grids of odd size without a unique equator row or of even size that contain the '
     'equator, and unknown variables are rejected with an error before any result is computed. Valid input is never '
     'rejected.',
     ['inputs', 'configurations'], 'all coordinate and field shapes and values',
     SAMPLE + 'each rejection is tried with one bad value.',
     [OOP, XR], [('checks', OOP + ' __init__, _check_valid_plev, _check_and_flip_ylat, _check_dimension_of_fields')],
     'abstract interpretation: exit conditions of the constructors', 'other', '')
prop('P18', 'Every documented entry point works and reports arrays on the documented axes',
     'Every documented stage and accessor returns normally for valid input in every combination of scheme, '
     'hemisphere option, latitude grid, level setting and forcing. Each reported array is ordered (height, latitude, '
     'longitude) without absent axes, and its latitude axis has the length of the latitude coordinate reported with '
     'it.',
     ['configurations', 'histories'], 'all option combinations and stage orders allowed by the documentation',
     SAMPLE + 'they cover a few combinations.',
     [OOP, STO, XR], [('accessors', OOP), ('axis swaps', STO + ' fortran_to_python')],
     'abstract interpretation: shapes and exits of every accessor', 'proof', '')
prop('P19', 'Budget integration closes and hemisphere mirroring is exact',
     'The integrated wave-activity budget reports the change of wave activity, the time integrals of each term in '
     'seconds over the whole period, and a residual such that the terms add up exactly. Mirroring a hemisphere to the '
     'globe keeps the given hemisphere, adds its reflection without doubling the equator and changes the sign of the '
     'meridional wind only.',
     ['inputs'], 'all datasets, orientations and variable names',
     SAMPLE + 'they run on one small dataset each.',
     [XR], [('budget', XR + ' integrate_budget'), ('mirroring', XR + ' hemisphere_to_globe')],
     'abstract interpretation of the dataset layer over symbolic labelled arrays', 'other', '')
prop('P20', 'Barotropic equivalent latitude and wave activity follow the definitions',
     'For vorticity on the sphere the equivalent-latitude profile, the finite-amplitude wave activity and the local '
     'wave activity equal their documented definitions, and the northern and southern hemispheric variants treat the '
     'two hemispheres as mirror images. All public variants agree where their options coincide.',
     ['inputs', 'configurations'], 'all vorticity fields, areas, partition numbers and options',
     SAMPLE + 'one field each, and several variants are never called.',
     [BA, WR, BF], [('equivalent latitude', BA + ' eqvlat_fawa, eqvlat_vgrad'), ('wave activity', BA + ' lwa'),
                    ('variants', WR + ', ' + BF)],
     AI + '; comparison with reference terms and between sibling functions', 'translation_validation', '')
prop('P21', 'Grid operators compute the documented finite differences',
     'The zonal convergence, meridional divergence, curl, static stability, potential-vorticity and vertical '
     'derivative helpers and the covariance map return the documented centred or one-sided differences and averages '
     'at every grid point, including the date line, the poles and the end levels.',
     ['inputs'], 'all fields and grids',
     SAMPLE + 'interior points of one field.',
     [UT, 'src/falwa/stat_utils.py'], [('operators', UT)],
     AI + '; comparison with reference terms', 'translation_validation', '')
prop('P25', 'Plotting, gap-filling and file helpers show, keep and save the data they are given',
     'The field-comparison plots draw the two fields on one common colour scale spanning both and their absolute '
     'difference on the scale set by diff_factor (automatic when it is None), each at its true longitude and latitude '
     'with its title and colour bar, and honour the colour map and file name given; the file plot shows the requested '
     'variable and time step against the named coordinates; the map and height plotters draw the variable on their '
     'grids with the labels, ticks, masked points, equator band, levels and file name of their options, anew on every '
     'call. Gap filling returns a complete field unchanged and otherwise fills exactly the missing values with '
     'longitude treated as cyclic. Time-slice extraction writes all variables, coordinates and attributes at exactly '
     'the requested times. No helper modifies its input.',
     ['inputs', 'configurations'], 'all fields, grids and documented options',
     'no test covers these helpers; their effect is in calls of other libraries.',
     [PU, 'src/falwa/preprocessing.py', 'src/falwa/netcdf_utils.py'],
     [('plots', PU), ('gap filling', 'src/falwa/preprocessing.py gridfill_each_level'),
      ('time slices', 'src/falwa/netcdf_utils.py extract_one_timeslice')],
     AI + '; recorded library calls compared with reference terms', 'other', '')
prop('P22', 'The reference-state iteration converges to the balanced state',
     'The iterative reference-state solver reaches, within the allowed number of iterations, a wind and temperature '
     'that satisfy the discretised balance equations to the requested tolerance, and the reference potential '
     'vorticity increases monotonically from the equator to the pole.',
     ['inputs'], 'all fields', SAMPLE + 'convergence on one data set says nothing about others.',
     [REF, OOP], [('iteration', REF)], na='Convergence, accuracy and monotonicity depend on the spectrum of a '
     'data-dependent operator and on histogram values at run time; no static argument over the source bounds them. '
     'What the source fixes (the coefficients, the update, the stopping test, the refusal after non-convergence) is '
     'decided under P04 and P07.')
prop('P23', 'The zonal mean of local wave activity equals finite-amplitude wave activity',
     'Averaged over longitude, the local wave activity reported for a field equals the finite-amplitude wave activity '
     'obtained from the area and circulation enclosed by the same equivalent latitude.',
     ['inputs'], 'all fields', SAMPLE + 'the identity is exact only in the continuum.',
     [BA, QREF], [('area analysis', BA)], na='The identity is exact only in the limit of vanishing grid spacing; on a '
     'grid it holds up to a discretisation error whose bound is a numerical-analysis argument about run-time fields, '
     'not a fact of the source.')
prop('P24', 'Results are reproducible to rounding across compilers and platforms',
     'Building the kernels with another compiler or optimisation level changes results only by rounding error that '
     'stays small relative to the reported values.',
     ['configurations'], 'all compilers and optimisation levels', SAMPLE + 'one build is tested.',
     KERN, [('single-precision kernels', ', '.join(KERN))], na='Rounding error growth depends on run-time values and '
     'on compiler choices; the analysis here works over the reals.')

DONE = sorted(os.path.basename(f)[:-3].upper() for f in os.listdir(os.path.join(ROOT, 'checks'))
              if f.startswith('p') and f[1:3].isdigit())


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
        for i in sorted(P):
            p = P[i]
            fh.write(json.dumps({
                'id': i, 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'hook_needed': None}}) + '\n')
    checks, na = [], []
    for i in sorted(P):
        p = P[i]
        if p['na'] is not None:
            na.append({'property': i, 'reason': p['na']})
        elif i not in DONE:
            na.append({'property': i, 'reason': 'No check has been built for it yet.'})
        else:
            checks.append({
                'property': i, 'quick_cmd': 'python3 check.py %s' % i,
                'thorough_cmd': 'python3 check.py %s --tier thorough' % i, 'technique': 'static analysis: ' + p['tech'],
                'level': p['level'],
                'level_note': p['note'] or ('Decided from the sources by the abstract interpreter in sa/; assumes its '
                                            'transfer functions for Python, numpy, scipy and Fortran, exact real '
                                            'arithmetic, and grids of at least 6 latitudes per hemisphere, 4 '
                                            'longitudes and 5 levels.')})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
        json.dump({'version': 1, 'setup_cmd': 'python3 -c "import sa.world, sa.oop; sa.world.kernels()"',
                   'checks': checks, 'not_applicable': na,
                   'notes': 'All checks read the current sources under /repo/src/falwa (HN_REPO overrides the path); '
                            'nothing of the package is built, imported or run.'}, fh, indent=1)
        fh.write('\n')


main()
