"""C19: physical constants match the published CODATA values."""
import importlib, json, math, os, pkgutil, re, subprocess, sys
import numpy as np
from ..core import Family, Violation, REPO, VERIF
from .. import model as M
from ..lib import *
from ..codata import T, ROWS, expected, parse_unit
import quantities.constants as C

PROP = 'C19'
QUICK_SCALE = 4
RULE = ('a case is one constant object, one entry of the NIST table, one relation between constants or one fresh interpreter; value, unit and names are compared with an independent fixed-column parse of a pinned copy '
        'of the NIST table, conversions to SI with the exact reference table of units, symbols that are formulas with the value of the formula; distinct by (constant, path)')


def constant_case(rng, mon, i):
    row = ROWS[i % len(ROWS)]
    name, sym, attrs, entry = row
    v, p, ex = expected(row)
    objs = [getattr(C, a) for a in attrs]
    o = objs[0]
    for a, x in zip(attrs, objs):
        mon.check(isinstance(x, UnitQuantity) and x is o, 'constants.%s is not the object constants.%s', a, attrs[0])
        mon.check(x.name == name, 'constants.%s is the constant %s, by its name %s', a, x.name, name)
        mon.ev('attribute', a)
    d = o.definition
    mon.check(float(d.magnitude) == v, 'the constant %s has the value %r, published %r', name, float(d.magnitude), v)
    mon.check(same_dims(d, ex), 'the constant %s has the unit %s, published %s', name, d.dimensionality, M.show(ex))
    mon.check(float(o.magnitude) == 1.0 and dims(o) == {name: 1}, 'the constant %s is %s %s of itself', name, o.magnitude, dims(o))
    mon.ev('value', name, (name, v, p))
    # in SI
    si = M.si_expr(M.dim_of(ex))
    f = M.fl(M.factor(ex))
    want = v * f
    for what, s in (('simplified', o.simplified), ('(1 c).simplified', (1.0 * o).simplified), ('rescaled', (1.0 * o).rescale(as_units(si, 'dim') if si else pq.dimensionless)),
                    ('3 c', (3.0 * o).simplified / 3.0), ('c*c/c', (1.0 * o * o / o).simplified)):
        mon.check(same_dims(s, si) and abs(float(s.magnitude) / want - 1) < 2e-12, '%s of the constant %s is %s, published %r %s', what, name, s, want, M.show(si))
        mon.ev('SI', (name, what))
    # against any compatible unit
    alt = gen_compatible(rng, ex)
    r = o.rescale(as_units(alt, 'dim') if alt else pq.dimensionless)
    wf = M.ratio(ex, alt)
    mon.check(same_dims(r, alt) and abs(float(r.magnitude) / (v * M.fl(wf)) - 1) < 2e-12, 'the constant %s in %s is %s, published %r', name, M.show(alt), r, v * M.fl(wf))
    mon.ev('converted', (name, tuple(sorted(alt))))
    # a published uncertainty keeps its proportion to the value through conversion
    if p:
        q = UQ(v, as_units(ex, 'dim') if ex else pq.dimensionless, p)
        for what, s in (('rescaled', q.rescale(as_units(alt, 'dim') if alt else pq.dimensionless)), ('simplified', q.simplified)):
            rel = float(s.uncertainty.magnitude) / abs(float(s.magnitude))
            mon.check(abs(rel / (p / abs(v)) - 1) < 1e-9 or M.fl(wf) < 0, 'the uncertainty of %s %s is %r of its value, published %r', name, what, rel, p / abs(v))
        mon.ev('uncertainty', name)


def entry_case(rng, mon, i):
    """the table the constants are made from"""
    try:
        from quantities.constants._codata import physical_constants as P
    except ImportError:      # an internal table; the constants made from it are checked by name
        mon.ev('table entry', None)
        return
    names = sorted(T)
    n = names[i % len(names)]
    mon.check(n in P, 'the table of constants lacks %r', n)
    v, p, u = T[n]
    e = P[n]
    mon.check(e['value'] == v, 'the entry %r has the value %r, published %r', n, e['value'], v)
    mon.check(e['precision'] == p, 'the entry %r has the uncertainty %r, published %r', n, e['precision'], p)
    if 'C_90' not in u:
        ex = parse_unit(u)
        q = Quantity(e['value'], e['units'])
        mon.check(same_dims(q, ex), 'the entry %r has the unit %r, published %r', n, e['units'], u)
        try:
            from quantities.constants._utils import _cd
        except ImportError:      # an internal helper
            _cd = None
        if _cd:
            q = _cd(n)
            mon.check(float(q.magnitude) == v and same_dims(q, ex), 'looking up %r gives %s', n, q)
    mon.check(set(P) == set(T), 'the table of constants has the entries %s', sorted(set(P) ^ set(T))[:5])
    mon.ev('table entry', n, (n, v, p, u))


GREEK = {'α': 'alpha', 'γ': 'gamma', 'μ': 'mu', 'λ': 'lambda', 'ƛ': 'lambdabar', 'π': 'pi', 'ε': 'epsilon', 'σ': 'sigma', 'τ': 'tau', 'Φ': 'Phi', 'ħ': 'hbar', '∞': 'infinity', '·': '*', '′': 'prime', 'ϕ': 'golden_ratio',
         'ₑ': '_e', 'ᵤ': '_u'}
SUB, SUP = '₀₁₂₃₄₅₆₇₈₉', '⁰¹²³⁴⁵⁶⁷⁸⁹'


def ascii_symbol(s):
    s = re.sub('(⁻?)([%s]+)' % SUP, lambda m: '**' + ('-' if m.group(1) else '') + ''.join(str(SUP.index(c)) for c in m.group(2)), s)
    s = re.sub('[%s]+' % SUB, lambda m: '_' + ''.join(str(SUB.index(c)) for c in m.group()), s)
    return ''.join(GREEK.get(c, c) for c in s)


def symbol_case(rng, mon, i):
    """names, symbols and formulas denote the value they are attached to"""
    env = {'c': (299792458.0, 0.0), 'pi': (math.pi, 0.0), 'hbar': None}
    for row in ROWS:
        name, sym, attrs, entry = row
        v, p, ex = expected(row)
        f = M.fl(M.factor(ex))
        for n in attrs:
            if n in env and env[n] is not None:
                mon.check(abs(env[n][0] - v * f) <= 1e-8 * abs(v * f), 'the name %s is given to two values', n)
            env[n] = (v * f, abs(p * f))
        o = getattr(C, attrs[0])
        for s in {o.symbol, ascii_symbol(o.u_symbol)}:
            if s.isidentifier() and s != name:
                if env.get(s) is None:
                    env[s] = (v * f, abs(p * f))
                s2 = 2e-8 * abs(v * f) if s not in attrs else 0
                if s not in ('a', 'u', 'L'):
                    mon.check(abs(env[s][0] - v * f) <= s2 + 1e-12 * abs(v * f), 'the symbol %s of the constant %s denotes another value (%r, not %r)', s, name, env[s][0], v * f)
                mon.ev('symbol', (s, name))
    vals = {k: x[0] for k, x in env.items() if x is not None}
    for row in ROWS:
        name, sym, attrs, entry = row
        o = getattr(C, attrs[0])
        v, p, ex = expected(row)
        v *= M.fl(M.factor(ex))
        for s in {o.symbol, ascii_symbol(o.u_symbol)}:
            if s.isidentifier() or s == 'A*' or 'Å' in s or '¹²' in o.u_symbol or 'G_F' in s:
                continue
            try:
                w = eval(s, {'__builtins__': {}}, dict(vals))
            except Exception as e:
                raise Violation('the symbol %r of the constant %s is no formula of other symbols: %r' % (s, name, e))
            tol = max(1e-5, 20 * abs(p / expected(row)[0]))
            mon.check(abs(w / v - 1) < tol, 'the symbol %r of the constant %s means %r, its value is %r', s, name, w, v)
            mon.ev('formula', (s, name), (name, s))


# name = expression in other constants, evaluated by the library itself
RELATIONS = [
    ('hbar', 'h/(2*pi)'), ('molar_gas_constant', 'Boltzmann_constant*Avogadro_constant'), ('Faraday_constant', 'elementary_charge*Avogadro_constant'), ('fine_structure_constant', 'e**2/(4*pi*epsilon_0*hbar*c)'),
    ('inverse_fine_structure_constant', '1/alpha'), ('Bohr_radius', 'hbar/(m_e*c*alpha)'), ('Hartree_energy', 'alpha**2*m_e*c**2'), ('Rydberg_constant', 'alpha**2*m_e*c/(2*h)'), ('Bohr_magneton', 'e*hbar/(2*m_e)'),
    ('nuclear_magneton', 'e*hbar/(2*m_p)'), ('classical_electron_radius', 'alpha**2*a_0'), ('Compton_wavelength', 'h/(m_e*c)'), ('Compton_wavelength_over_2_pi', 'hbar/(m_e*c)'), ('Thomson_cross_section', '8*pi/3*r_e**2'),
    ('magnetic_flux_quantum', 'h/(2*e)'), ('Josephson_constant', '2*e/h'), ('von_Klitzing_constant', 'h/e**2'), ('conductance_quantum', '2*e**2/h'), ('inverse_of_conductance_quantum', '1/G_0'), ('quantum_of_circulation', 'h/(2*m_e)'),
    ('Stefan_Boltzmann_constant', 'pi**2*k**4/(60*hbar**3*c**2)'), ('first_radiation_constant', '2*pi*h*c**2'), ('second_radiation_constant', 'h*c/k'), ('first_radiation_constant_for_spectral_radiance', '2*h*c**2'),
    ('electric_constant', '1/(mu_0*c**2)'), ('characteristic_impedance_of_vacuum', 'mu_0*c'), ('electron_mass_energy_equivalent', 'm_e*c**2'), ('proton_mass_energy_equivalent', 'm_p*c**2'), ('neutron_mass_energy_equivalent', 'm_n*c**2'),
    ('muon_mass_energy_equivalent', 'm_mu*c**2'), ('tau_mass_energy_equivalent', 'm_tau*c**2'), ('deuteron_mass_energy_equivalent', 'm_d*c**2'), ('triton_mass_energy_equivalent', 'm_t*c**2'), ('helion_mass_energy_equivalent', 'm_h*c**2'),
    ('alpha_particle_mass_energy_equivalent', 'm_alpha*c**2'), ('atomic_mass_constant_energy_equivalent', 'amu*c**2'), ('electron_mass_in_u', 'm_e/amu*u1'), ('proton_mass_in_u', 'm_p/amu*u1'), ('neutron_mass_in_u', 'm_n/amu*u1'),
    ('electron_molar_mass', 'm_e*N_A'), ('proton_molar_mass', 'm_p*N_A'), ('neutron_molar_mass', 'm_n*N_A'), ('muon_molar_mass', 'm_mu*N_A'), ('tau_molar_mass', 'm_tau*N_A'), ('deuteron_molar_mass', 'm_d*N_A'), ('alpha_particle_molar_mass', 'm_alpha*N_A'),
    ('proton_electron_mass_ratio', 'm_p/m_e'), ('electron_proton_mass_ratio', 'm_e/m_p'), ('neutron_proton_mass_ratio', 'm_n/m_p'), ('muon_electron_mass_ratio', 'm_mu/m_e'), ('proton_charge_to_mass_quotient', 'e/m_p'),
    ('electron_charge_to_mass_quotient', '-e/m_e'), ('elementary_charge_over_h', 'e/h'), ('Planck_mass', '(hbar*c/G)**.5'), ('Planck_length', '(hbar*G/c**3)**.5'), ('Planck_time', '(hbar*G/c**5)**.5'), ('Planck_temperature', '(hbar*c**5/G)**.5/k'),
    ('atomic_unit_of_velocity', 'alpha*c'), ('atomic_unit_of_force', 'E_h/a_0'), ('atomic_unit_of_time', 'hbar/E_h'), ('atomic_unit_of_electric_dipole_moment', 'e*a_0'), ('atomic_unit_of_momentum', 'hbar/a_0'), ('atomic_unit_of_current', 'e*E_h/hbar'),
    ('atomic_unit_of_magnetic_flux_density', 'hbar/(e*a_0**2)'), ('atomic_unit_of_electric_field', 'E_h/(e*a_0)'), ('molar_Planck_constant', 'N_A*h'), ('molar_Planck_constant_times_c', 'N_A*h*c'), ('molar_volume_of_ideal_gas_STP', 'R*t0/p0'),
    ('Loschmidt_constant', 'p0/(k*t0)'), ('joule_kelvin_relationship', 'joule1/k'), ('kilogram_joule_relationship', 'kg1*c**2'), ('electron_volt_joule_relationship', 'e*volt1'), ('joule_hertz_relationship', 'joule1/h'), ('hertz_joule_relationship', 'h*hertz1'),
    ('kelvin_joule_relationship', 'k*kelvin1'), ('inverse_meter_joule_relationship', 'h*c/meter1'), ('electron_magnetic_moment_to_Bohr_magneton_ratio', 'mu_e/mu_B'), ('proton_magnetic_moment_to_nuclear_magneton_ratio', 'mu_p/mu_N'),
    ('electron_gyromagnetic_ratio', '-2*mu_e/hbar'), ('proton_gyromagnetic_ratio', '2*mu_p/hbar'), ('electron_magnetic_moment_anomaly', '-g_e/2-1'), ('Planck_constant_in_eV_s', 'h'), ('Boltzmann_constant_in_eV_per_K', 'k'), ('natural_unit_of_velocity', 'c'),
    ('Wien_wavelength_displacement_law_constant', 'c_2/4.965114231744276'), ('muon_Compton_wavelength', 'h/(m_mu*c)'), ('tau_Compton_wavelength', 'h/(m_tau*c)'), ('tau_Compton_wavelength_over_2_pi', 'hbar/(m_tau*c)'), ('proton_Compton_wavelength', 'h/(m_p*c)'),
    ('neutron_Compton_wavelength', 'h/(m_n*c)'),
]
BYNAME = {}
for _r in ROWS:
    for _a in _r[2]:
        BYNAME[_a] = _r


def relation_case(rng, mon, i):
    name, expr = RELATIONS[i % len(RELATIONS)]
    if not hasattr(C, name):
        raise Violation('constants.%s is missing' % name)
    env = {'c': 299792458.0 * pq.m / pq.s, 'u1': uobj('atomic_mass_unit') if 'atomic_mass_unit' in M.BY_NAME else C.amu, 't0': 273.15 * pq.K, 'p0': 101325 * pq.Pa, 'joule1': 1.0 * pq.J, 'kg1': 1.0 * pq.kg, 'volt1': 1.0 * pq.V, 'hertz1': 1.0 * pq.Hz,
           'kelvin1': 1.0 * pq.K, 'meter1': 1.0 * pq.m}
    used = set(re.findall(r'[A-Za-z_]\w*', expr))
    rel = 0.0
    for n in used:
        if n not in env:
            env[n] = 1.0 * getattr(C, n)
            v, p, ex = expected(BYNAME[n])
            rel += 5 * abs(p / v) + 1e-9
    v, p, ex = expected(BYNAME[name])
    rel += abs(p / v) * 2 + 2e-8
    if '-g_e/2-1' in expr:
        rel = 1e-6
    want = eval(expr, {'__builtins__': {}}, env)
    got = 1.0 * getattr(C, name)
    if name == 'joule_kelvin_relationship' or name.endswith('_relationship') or name.endswith('_in_u'):
        a, b = float(got.simplified.magnitude), float(want.simplified.magnitude)
        mon.check(abs(a / b - 1) < rel, 'the constant %s is %r, from %s %r', name, a, expr, b)
    else:
        r = want.rescale(got.definition.dimensionality if isinstance(got, UnitQuantity) else getattr(C, name).definition.dimensionality)
        mon.check(abs(float(r.magnitude) / v - 1) < rel, 'the constant %s is %r, from %s %r', name, v, expr, r)
        d = got - want.rescale(got.units)
        mon.check(abs(float(d.magnitude)) < rel, '%s - %s is %s', name, expr, d)
    mon.ev('relation', (name, expr), (name, expr))


def module_case(rng, mon, i):
    """the same constant in every module that offers it; nothing offered that the table does not know"""
    known = {}
    for name, sym, attrs, entry in ROWS:
        known[name] = (name, entry)
    mods = {'quantities.constants': C}
    for m in pkgutil.iter_modules(C.__path__):
        mods['quantities.constants.' + m.name] = importlib.import_module('quantities.constants.' + m.name)
    for mn, m in mods.items():
        for a, o in vars(m).items():
            if not isinstance(o, pq.UnitQuantity) or type(o).__name__ != 'UnitConstant':
                continue
            if o.name not in known:
                continue
            v, p, ex = expected([r for r in ROWS if r[0] == o.name][0])
            mon.check(float(o.definition.magnitude) == v and same_dims(o.definition, ex), '%s.%s has the value %s, published %r', mn, a, o.definition, v)
            if mn != 'quantities.constants':
                top = getattr(C, a, None)
                if top is not None and not a.startswith('_'):
                    f1, f2 = float(top.simplified.magnitude), float(o.simplified.magnitude)
                    mon.check(abs(f1 / f2 - 1) < 1e-12, '%s.%s and quantities.constants.%s have different values', mn, a, a)
            mon.ev('module variable', (mn, a))
    have = {o.name for o in vars(C).values() if isinstance(o, pq.UnitQuantity)}
    for n in known:
        mon.check(n in have, 'the constant %s is not offered', n)


CHILD = r'''
import sys, random, json, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, sys.argv[1]); rng = random.Random(sys.argv[2])
import importlib
mods = json.loads(sys.argv[3]); rng.shuffle(mods)
for m in mods[:5]:
    importlib.import_module('quantities.constants.' + m)
import quantities as pq
import quantities.constants as C
names = json.loads(sys.stdin.read()); rng.shuffle(names)
out = {}
for n in names:
    o = getattr(C, n)
    s = o.simplified
    out[n] = [o.name, float(o.definition.magnitude), float(s.magnitude), sorted((u.name, float(e)) for u, e in s.dimensionality.items())]
json.dump(out, sys.stdout)
'''


def fresh_case(rng, mon, i):
    mods = [m.name for m in pkgutil.iter_modules(C.__path__) if not m.name.startswith('_')]
    names = sorted(BYNAME)
    p = subprocess.run([sys.executable, '-B', '-s', '-X', 'pycache_prefix=/nonexistent-qmon', '-c', CHILD, REPO, str(rng.random()), json.dumps(mods)], input=json.dumps(names), capture_output=True, text=True, timeout=200,
                       env=dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1000))))
    mon.check(p.returncode == 0, 'reading the constants in a fresh interpreter failed: %s', p.stderr[-600:])
    out = json.loads(p.stdout)
    for n in names:
        row = BYNAME[n]
        v, u, ex = expected(row)
        name, val, si, d = out[n]
        want = v * M.fl(M.factor(ex))
        mon.check(name == row[0] and val == v and abs(si / want - 1) < 2e-12, 'in a fresh interpreter constants.%s is %s = %r (%r in SI), published %r', n, name, val, si, v)
        mon.check({k: M.as_frac(e) for k, e in d if k != 'dimensionless'} == M.si_expr(M.dim_of(ex)), 'in a fresh interpreter constants.%s has the dimension %s', n, d)
        mon.ev('fresh interpreter', n)


FAMILIES = [Family('constant', constant_case, len(ROWS) * 2, len(ROWS) * 30), Family('entry', entry_case, len(T), len(T), seeded=False), Family('symbol', symbol_case, 1, 1, seeded=False), Family('relation', relation_case, len(RELATIONS), len(RELATIONS), seeded=False),
            Family('module', module_case, 1, 1, seeded=False), Family('fresh', fresh_case, 3, 40)]
REQUIRED_OPS = ['attribute', 'value', 'SI', 'converted', 'uncertainty', 'table entry', 'symbol', 'formula', 'relation', 'module variable', 'fresh interpreter']
