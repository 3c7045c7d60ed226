#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts live here once)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = 'The existing tests compare a handful of tabulated verification points (about 30 states of the IAPWS releases) at 1e-6 or so; '
P = []


def prop(id, title, statement, qtext, why, files, mech, observe=('public pair functions',), over=('inputs',), claim=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe)),
                  _claim=claim, _reason=reason))


prop('C01', 'Region 1 properties equal the IAPWS-IF97 region 1 equation',
     'For every pressure and temperature in the range of region 1, every thermodynamic property that the (p,t) function returns for region 1 equals the value '
     'that follows from the IAPWS-IF97 region 1 Gibbs equation and its exact derivatives, in the documented unit. This covers volume, density, enthalpy, '
     'entropy, internal energy, exergy, both heat capacities, speed of sound, isentropic exponent, Helmholtz and Gibbs energy, compressibility factor, '
     'expansion and compressibility coefficients, the partial derivatives, throttling coefficients, fugacity and relative pressure and stress coefficients.',
     'all real p in [0.0006, 100] MPa and T in [273.15, 623.15] K, all 25 thermodynamic property ids',
     TESTS + 'three states for region 1, and for most derived ids none, so a wrong term that is small at those states, or in an untested id, passes.',
     ['src/r1/region1_pT.rs', 'src/r1/region1_gfe.rs', 'src/r1/region1_pT_ext.rs', 'src/algo/polynomial_steps.rs', 'src/algo/polynomial.rs'],
     [('basic equation and derivatives', 'src/r1/region1_gfe.rs'), ('properties', 'src/r1/region1_pT.rs, region1_pT_ext.rs')])
prop('C02', 'Region 2 properties equal the IAPWS-IF97 region 2 equation',
     'For every pressure and temperature in the range of region 2, every thermodynamic property that the (p,t) function returns for region 2 equals the value '
     'that follows from the IAPWS-IF97 region 2 ideal-gas and residual Gibbs equation and its exact derivatives, in the documented unit.',
     'all real p in [1e-5, 100] MPa and T in [273.15, 1073.15] K, all 25 thermodynamic property ids',
     TESTS + 'three states for region 2; a coefficient or exponent whose term is negligible at those states can be wrong unnoticed.',
     ['src/r2/region2_pT.rs', 'src/r2/region2_gfe.rs', 'src/r2/region2_pT_ext.rs', 'src/algo/polynomial_steps.rs'],
     [('basic equation and derivatives', 'src/r2/region2_gfe.rs'), ('properties', 'src/r2/region2_pT.rs, region2_pT_ext.rs')])
prop('C03', 'Region 3 properties equal the IAPWS-IF97 region 3 equation',
     'For every temperature and specific volume in the range of region 3, the pressure and every thermodynamic property that the (t,v) function returns for '
     'region 3 equal the values that follow from the IAPWS-IF97 region 3 Helmholtz equation at density 1/v and its exact derivatives, in the documented unit.',
     'all real density in [80, 780] kg/m3 and T in [623.15, 863.15] K, pressure and all 25 thermodynamic property ids',
     TESTS + 'three states for region 3.',
     ['src/r3/region3_Td.rs', 'src/r3/region3_hfe.rs', 'src/r3/region3_Td_ext.rs'],
     [('basic equation and derivatives', 'src/r3/region3_hfe.rs'), ('properties', 'src/r3/region3_Td.rs, region3_Td_ext.rs')])
prop('C04', 'Region 5 properties equal the IAPWS-IF97 region 5 equation',
     'For every pressure and temperature in the range of region 5, every thermodynamic property that the (p,t) function returns for region 5 equals the value '
     'that follows from the IAPWS-IF97 region 5 ideal-gas and residual Gibbs equation and its exact derivatives, in the documented unit.',
     'all real p in [1e-5, 50] MPa and T in [1073.15, 2273.15] K, all 25 thermodynamic property ids',
     TESTS + 'three states for region 5.',
     ['src/r5/region5_pT.rs', 'src/r5/region5_gfe.rs', 'src/r5/region5_pT_ext.rs'],
     [('basic equation and derivatives', 'src/r5/region5_gfe.rs'), ('properties', 'src/r5/region5_pT.rs, region5_pT_ext.rs')])
prop('C05', 'Region 3 volume at (p,T) is the IF97 supplementary backward equation',
     'For every pressure and temperature of region 3, the specific volume (and its reciprocal, the density) of the (p,t) function is that of the subregion '
     '3a-3z backward equation which the IAPWS supplementary release on v(p,T) assigns to the point by its subregion boundary equations. All other properties '
     'of the (p,t) function in region 3 are those of the region 3 basic equation at that volume.',
     'all real p in [16.5291642526045, 100] MPa and T in [623.15, 863.15] K (auxiliary equations near the critical point included)',
     TESTS + 'two points per subregion equation, called directly; which subregion an arbitrary point belongs to is not tested along the 20+ boundaries.',
     ['src/r3/region3_v_pT.rs', 'src/r3/region3_v_subregion_pT.rs', 'src/r3/region3.rs'],
     [('subregion boundaries', 'src/r3'), ('26 subregion equations', 'src/r3')])
prop('C06', 'The saturation line is the IAPWS-IF97 region 4 equation',
     'For every temperature from 273.15 K to the critical temperature the saturation pressure returned by (t,x), and for every pressure from the saturation '
     'pressure at 273.15 K to the critical pressure the saturation temperature returned by (p,x), satisfy the IAPWS-IF97 region 4 equation, whatever the '
     'quality in [0,1]. Both functions return their own inputs unchanged. Outside that range, or with a quality outside [0,1], they return the documented '
     'error value -9999.',
     'all real T in [273.15, 647.096] K, p in [0.000611212677444, 22.064] MPa, x in [0,1]; out-of-range inputs up to 1e6 in magnitude',
     TESTS + 'three saturation temperatures and pressures.',
     ['src/r4/region4_sat_pT.rs', 'src/r4/region4_pTx.rs', 'src/r4/region4.rs'],
     [('region 4 equation', 'src/r4/region4_sat_pT.rs'), ('domain checks', 'src/r4/region4_pTx.rs')])
prop('C07', 'Backward equations T(p,h), T(p,s), v(p,h), v(p,s) are those of IF97',
     'For a (p,h) or (p,s) pair of regions 1, 2 or 3, the temperature (and in region 3 the specific volume) returned equals the published IAPWS-IF97 backward '
     'equation of the subregion (2a/2b/2c, 3a/3b) that the published subregion boundaries assign to the point.',
     'all real (p,h) and (p,s) in boxes enclosing regions 1, 2 and 3, both sides of every subregion boundary (region given explicitly)',
     TESTS + 'three points per backward equation, mostly away from the subregion boundaries.',
     ['src/r1/region1_T_phps.rs', 'src/r2/region2_T_ph.rs', 'src/r2/region2_T_ps.rs', 'src/r3/region3_Tv_phps.rs'],
     [('backward equations', 'src/r1, src/r2, src/r3'), ('subregion selection', 'src/r2/region2_T_ph.rs, region2_T_ps.rs, src/r3/region3_Tv_phps.rs')])
prop('C08', 'Backward equation p(h,s) is that of IF97',
     'For an (h,s) pair of regions 1, 2 or 3 the pressure returned equals the published IAPWS supplementary backward equation p(h,s) of the subregion '
     '(2a/2b/2c, 3a/3b) that the published subregion boundaries assign to the point.',
     'all real (h,s) in boxes enclosing regions 1, 2 and 3 (region given explicitly)',
     TESTS + 'three points per equation.',
     ['src/r1/region1_p_hs.rs', 'src/r2/region2_p_hs.rs', 'src/r3/region3_p_hs.rs'], [('backward equations', 'src/r1, src/r2, src/r3')])
prop('C09', 'Transport and further properties follow the IAPWS formulations',
     'For every state of regions 1, 2, 3 and 5 the dynamic and kinematic viscosity, thermal conductivity, thermal diffusivity, Prandtl number, surface tension '
     'and static dielectric constant returned follow from the IAPWS formulations used (industrial viscosity without critical enhancement, the thermal '
     'conductivity equation of the library, surface tension and dielectric constant releases) evaluated at the temperature and the density of that state. '
     'Kinematic viscosity, diffusivity and Prandtl number are consistent with density and heat capacity of the same state.',
     'the whole (p,T) or (T,density) ranges of regions 1, 2, 3 and 5; seven property ids',
     TESTS + 'a few viscosity, conductivity, tension and dielectric points through the underlying functions, and none through the pair functions.',
     ['src/common/transport_further.rs', 'src/r1/region1_pT_ext.rs', 'src/r3/region3_Td_ext.rs', 'src/common/propertry_pairs.rs'],
     [('formulations', 'src/common/transport_further.rs'), ('pairing with the state', 'src/common/propertry_pairs.rs')])
prop('C10', 'Region of a (p,t) pair is the one IAPWS-IF97 defines',
     'For every pressure and temperature the region reported by (p,t) is 1, 2, 3 or 5 as the IF97 boundaries (623.15 K, 1073.15 K, saturation line, 2-3 boundary, '
     'pressure and temperature limits) define, 4 only on the saturation line, and a negative code outside the range of validity: a pressure code when '
     'the pressure is outside, otherwise a temperature code.',
     'all real p in [-1000, 1e6] MPa and T in [1, 1e5] K, except a band of relative width between 1e-7 and 1e-5 around the saturation line; the edge isobars, isotherms and the critical point',
     TESTS + 'about one interior point per region; the boundaries themselves are not sampled.',
     ['src/common/region.rs', 'src/common/boundaries.rs'], [('region of (p,T)', 'src/common/region.rs'), ('2-3 boundary', 'src/common/boundaries.rs')])
prop('C11', 'Region of (p,h) and (p,s) pairs is consistent with the equations',
     'For every (p,h) and (p,s) pair the region reported is the one whose enthalpy or entropy interval on that isobar contains the value: liquid up to '
     'saturated liquid or 623.15 K, wet steam between the saturated states, region 3 up to the 2-3 boundary, steam up to 1073.15 K, region 5 up to '
     '2273.15 K (50 MPa); outside these, a negative code.',
     'all real p in [-10, 1e4] MPa, h in [-50, 9000] kJ/kg, s in [-0.2, 20] kJ/(kg K)',
     TESTS + 'about one interior point per region.',
     ['src/common/region.rs', 'src/common/boundaries.rs'], [('region of (p,h), (p,s)', 'src/common/region.rs')])
prop('C12', 'Region of an (h,s) pair follows the IF97 (h,s) boundary equations',
     'For every (h,s) pair the region reported is the one that the published boundary equations (saturated liquid and vapour h(s), the 1-3 and 2-3 '
     'boundaries, the 273.15 K line through the dome, the 100 MPa isobar and the 1073.15 K isotherm) assign to it; states beyond them get a negative code.',
     's in [-1, 9.3], h in [-20, 3700] kJ/kg; 2 kJ/kg around the 100 MPa isobar and the 1073.15 K isotherm, the compressed-liquid edge 272.6-273.15 K, '
     'and the (h,s) rectangle of region 5 are left out',
     TESTS + 'about one interior point per region.',
     ['src/common/region.rs', 'src/common/boundaries.rs'], [('region of (h,s)', 'src/common/region.rs'), ('h(s) boundary equations', 'src/common/boundaries.rs')])
prop('C13', 'Region of (p,v), (t,v), (t,h), (t,s) pairs is consistent with the equations',
     'For every (p,v), (t,v), (t,h) and (t,s) pair the region reported is the one whose volume, enthalpy or entropy interval on that isobar or isotherm '
     'contains the value (isotherms from 100 MPa, or 50 MPa in region 5, down to the low-pressure limit); outside these, a negative code.',
     'p in [-10, 1e4] MPa, T in [10, 1e4] K, any positive v, h, s; left out: p < 0.00064 MPa for (p,v), T < 278.15 K for (t,s), compressed liquid between '
     '523.15 K and 623.15 K for (t,h), 1e-4 MPa around the pressures where the saturated-volume equations change',
     TESTS + 'about one interior point per region.',
     ['src/common/region.rs', 'src/common/boundaries.rs', 'src/r3/region3_v_pT.rs'], [('regions of (p,v), (t,v), (t,h), (t,s)', 'src/common/region.rs')])
prop('C14', 'Saturated liquid and steam have the properties of the adjoining region',
     'For quality 0 and 1, every property that (p,x) and (t,x) return equals the property of the adjoining single-phase region equation (region 1 or 2 below '
     '623.15 K, region 3 with the published saturated-volume equations above) at the saturation temperature or pressure the same function reports.',
     'all real p from 0.000611212677444 to 22.06399 MPa and T from 273.15 to 647.09599 K; all 32 property ids; narrow strips around the pressures where the '
     'published saturated-volume equations change left out',
     TESTS + 'a few saturated states.',
     ['src/r4/region4_pTx.rs', 'src/r4/region4.rs', 'src/r3/region3_v_pT.rs'], [('saturated states', 'src/r4')])
prop('C15', 'Wet steam obeys the lever rule between the saturated states',
     'For a quality strictly between 0 and 1, enthalpy, entropy, volume, internal energy, exergy, Helmholtz and Gibbs energy returned by any pair function '
     'in region 4 are the quality-weighted mean of the saturated liquid and vapour values, density is the reciprocal of the volume, and the quality itself is '
     'recovered from h, s or v by the inverse relation. Temperature and pressure are those of the saturation line, for (h,s) those of the published equation. '
     'Properties that are undefined inside the dome are reported with the documented code.',
     'all real p or T of the saturation line (1e-6 MPa around 16.529164 MPa left out), x in [1e-9, 1-1e-9]; (p,x), (t,x), (p,h), (p,s), (p,v), (t,h), (t,s), (t,v); '
     '(h,s) for s in [5.2109, 9.1557]',
     TESTS + 'a few wet states, and no check of the rule between pair functions.',
     ['src/r4/region4_pTx.rs', 'src/r4/region4_pair_ext.rs', 'src/r4/region4_T_hs.rs', 'src/r4/region4.rs'], [('mixing rule', 'src/r4')])
prop('C16', 'Output selection: echoed inputs, region and quality ids, unknown ids, no region',
     'Asking any pair function for one of its own inputs returns that input unchanged, whatever the region. An output id that is not documented yields the '
     'documented code -1000; the region id yields the region used and the quality id 0 for liquid and 1 for steam or supercritical states. Omitting the region '
     'is the same as passing the region that the function itself reports for the pair, and outside the range of validity every output is the code reported.',
     'all 32-bit output ids; all real inputs in boxes enclosing the domain of each function, out-of-range inputs included; (t,h) from 250 to 350 degrees C left out of the last sentence',
     'The tests use documented ids at interior points, almost always without comparing calls with and without a region.',
     ['src/rust_if97.rs', 'src/common/propertry_pairs.rs', 'src/common/propertry_id.rs', 'src/common/region.rs'],
     [('dispatch', 'src/rust_if97.rs'), ('pair properties', 'src/common/propertry_pairs.rs')])
prop('C17', 'All properties of one input pair describe one thermodynamic state',
     'For any input pair in a single-phase region, every property returned equals the property of the basic equation at the pressure and temperature (region 3: '
     'temperature and volume) that the same function reports for that pair and region. For (h,s) the temperature and volume are those of (p,h) at the pressure reported; '
     'for (h,x) and (s,x) every property is the one of the saturated or wet state at the temperature reported.',
     'boxes inside regions 1, 2, 3 and 5 for (p,h), (p,s), (h,s), (p,v), (t,v), (t,h), (t,s) with the region given, all 32 property ids; (h,x), (s,x) at x = 0, x = 1 and in between',
     TESTS + 'mostly T, v, h, s only; derived and transport properties of the other pairs are not compared with the state at all.',
     ['src/r1/region1_pair_ext.rs', 'src/r2/region2_pair_ext.rs', 'src/r3/region3_pair_ext.rs', 'src/r5/region5_pair_ext.rs', 'src/r5/region5_ph_ps_hs.rs', 'src/common/propertry_pairs.rs'],
     [('pair functions', 'src/r*/region*_pair_ext.rs'), ('common dispatch', 'src/common/propertry_pairs.rs')])
prop('C18', 'Iterative pair functions return a state that has the given inputs',
     'Where a pair is inverted by iteration, the state found has the given inputs: take any state of a region, compute the pair with the basic equation (region given '
     'explicitly), invert it, and the basic equation at the temperature, pressure or specific volume returned gives the input back within 1e-5 relative. This covers '
     '(p,v), (t,v), (t,h), (t,s) in regions 1, 2 and 5, (p,v), (t,h), (t,s) in region 3, and (p,h), (p,s), (h,s) in region 5. For (h,x) and (s,x) the temperature returned '
     'has the given enthalpy or entropy at that quality within 1e-5 of the latent difference; for (h,s) wet steam the temperature and quality returned have the given entropy.',
     'regions 1: T >= 278 K, (t,h) up to 235 degrees C; 2: p >= 0.0007 MPa; 3: v 0.00135..0.0087 m3/kg, p >= 16.6 MPa; 5: p >= 0.0007 MPa; (h,s) with entropy below 5.2 kJ/(kg K)',
     'The tests invert about thirty states; which branch of the search, which starting interval and which exit is taken varies over the whole domain.',
     ['src/algo/root.rs', 'src/r1/region1_pair_ext.rs', 'src/r2/region2_pair_ext.rs', 'src/r3/region3_pair_ext.rs', 'src/r5/region5_pair_ext.rs',
      'src/r5/region5_ph_ps_hs.rs', 'src/r4/region4.rs', 'src/r4/region4_T_hs.rs'],
     [('secant method', 'src/algo/root.rs'), ('inversions', 'src/r*/region*_pair_ext.rs'), ('bisection', 'src/r4/region4.rs')])
prop('C19', 'The C interfaces return exactly what the Rust interface returns',
     'Every function exported with the C calling convention, and every function exported with the stdcall convention, returns for all inputs and all output ids '
     'the value of the Rust function of the same name without a region.',
     'all real inputs in boxes enclosing the domain (out-of-range inputs included) and all 32-bit output ids, 12 functions x 2 builds',
     'No test builds the library with these features.',
     ['src/cdecl_c_if97.rs', 'src/stdcall_c_if97.rs', 'src/lib.rs'], [('exported functions', 'src/cdecl_c_if97.rs, src/stdcall_c_if97.rs')],
     over=('inputs', 'configurations'), observe=('exported C symbols',), claim='C19')
prop('C20', 'The Python module returns exactly what the Rust interface returns',
     'Every function of the Python extension module returns for all inputs and all output ids the value of the Rust function of the same name without a region, '
     'and the module exports all twelve functions.',
     'all real inputs in boxes enclosing the domain (out-of-range inputs included) and all 32-bit output ids, 12 functions',
     'No test builds the library with this feature.',
     ['src/python_if97.rs', 'src/lib.rs'], [('exported functions', 'src/python_if97.rs')], over=('inputs', 'configurations'), observe=('Python module',), claim='C20')

NOTES = dict(
    _default='Bounded model checking over real arithmetic: LLVM IR of the current tree executed symbolically on every run, one path at a time, final equality with '
    'the reference decided by Z3 and by exact rational normal forms (interval refutation only to rule out paths). Trusts rustc, the IR interpreter, the hand-written '
    'reference tables of the IAPWS releases. f64 rounding is outside the claim; obligations listed as undischarged in the evidence are not shown.')
EXTRA = {
    'C18': ' Here the property functions handed to the root finders are uninterpreted, constrained by one Lipschitz constant and monotonicity at the visited points '
           '(assumed, not shown), and loops are unrolled 3 times (quick); what needs more steps is only replayed. Exit tolerance: 3e-8 of the Lipschitz constant.',
    'C11': ' Part of the boundary decisions near saturation can stay undischarged within the time limit; then only replayed counterexamples are reported.',
    'C12': ' Two of the fifteen cases can stay undischarged within the time limit; there only replayed counterexamples are reported.',
    'C13': ' A large part of the near-critical boxes stays undischarged within the time limit; there only replayed counterexamples are reported.'}
TECH = 'symbolic execution of the compiled code (LLVM IR) with Z3, differential against the IAPWS equations; counterexamples replayed natively'
have = set()
try:
    import sys
    sys.path.insert(0, HERE)
    from svc import props
    have = set(props.PROPS)
except Exception as x:
    raise
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
checks, na = [], []
for p in P:
    i = p['id']
    if p['_claim'] and i in have:
        checks.append(dict(property=i, quick_cmd='python3-vt check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + i,
                           evidence_file='evidence/%s.json' % i, technique=TECH, level='model_checking', level_note=NOTES['_default'] + EXTRA.get(i, '')))
    else:
        na.append(dict(property=i, reason=p['_reason'] or 'the check is being built'))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, mpmath, numpy, scipy"', checks=checks, not_applicable=na,
               notes='Each check builds /repo in a scratch directory of its own and removes it.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
