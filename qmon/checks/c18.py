"""C18: the unit catalogue has the internationally defined values."""
import importlib, os, pkgutil, subprocess, sys
import numpy as np
from ..core import Family, Violation, REPO
from .. import model as M
from ..lib import *

PROP = 'C18'
RULE = ('a case is one unit of the reference table, one label, one attribute, one prefix, one relation between units or one fresh interpreter; the value and dimension in SI base units is read along many public paths '
        '(simplified, rescale, conversion by string, products, powers, sums, other default units) and compared with an independently written table; distinct by (unit, path)')
TOL = 1e-12
UNITS = M.UNITS


def si_units(dim):
    q = pq.dimensionless
    for b, e in zip(M.BASE, dim):
        if e:
            q = q * uobj(M.SI_NAMES[b]) ** pexp(e)
    return Quantity(1.0, q.dimensionality)


def near(x, y, tol=TOL):
    x, y = float(x), float(y)
    return abs(x - y) <= tol * abs(y)


def value_of(mon, what, q, dim, val, tol=TOL):
    mon.check(same_dims(q, M.si_expr(dim)), '%s: dimension is %s, by definition %s', what, q.dimensionality, M.show(M.si_expr(dim)))
    mon.check(near(q.magnitude, val, tol), '%s: SI value is %r, by definition %r', what, float(q.magnitude), val)


def unit_case(rng, mon, i):
    u = UNITS[i % len(UNITS)]
    if u.name == 'dimensionless':
        mon.check(str((1 * pq.dimensionless).dimensionality) == 'dimensionless' and not dims(1.0 * pq.dimensionless), 'dimensionless is %s', pq.dimensionless)
        return
    if u.name.startswith('('):
        o = getattr(pq, u.attrs[0])
    else:
        o = uobj(u.name)
    val, dim = u.fval, u.dim
    si1 = si_units(dim)
    what = u.name
    mon.check(o.name == u.name, 'the unit offered as %s is called %s', u.name, o.name)
    if not u.name.startswith('('):
        mon.check(o.symbol in u.labels, '%s has the symbol %r', u.name, o.symbol)
    mon.check(float(o.magnitude) == 1.0 and o.shape == (), '%s has the magnitude %r', u.name, o.magnitude)
    mon.check(isinstance(o.units, Quantity) and o.units.dimensionality == o.dimensionality and float(o.units.magnitude) == 1.0, '%s.units is %r', what, o.units)
    value_of(mon, what + '.simplified', o.simplified, dim, val)
    value_of(mon, '(1 %s).simplified' % what, (1.0 * o).simplified, dim, val)
    mon.ev('simplified', u.name, (u.name, val))
    r = (1.0 * o).rescale(si1)
    mon.check(near(r.magnitude, val), '1 %s rescales to %r, by definition %r', what, r, val)
    r = o.rescale(si1)
    mon.check(near(r.magnitude, val), '%s rescales to %r, by definition %r', what, r, val)
    r = si1.rescale(o)
    mon.check(near(r.magnitude, 1 / val), 'one SI unit rescales to %r, by definition %r', r, 1 / val)
    mon.ev('rescale', u.name)
    x = gen_value(rng, lo=1e-3, hi=1e6) or 3.0
    q = Quantity(np.array([x, 1.0]), o)
    mon.check(close(mag(q.rescale(si1)), np.array([x, 1.0]) * val, TOL), '%r rescales to %r', q, q.rescale(si1))
    q.units = si1
    mon.check(close(mag(q), np.array([x, 1.0]) * val, TOL), 'assigning SI units to %s %s gives %r', x, what, q)
    z = 0.0 * si1 + x * o
    mon.check(near(z.magnitude, x * val), '0 SI + %s %s is %r', x, what, z)
    mon.ev('sum', u.name)
    # powers and products keep the definition
    for p in (2, -1, -2, .5):
        if 1e-90 < val ** p < 1e90:
            s = (o ** p).simplified
            value_of(mon, '%s**%s' % (what, p), s, tuple(e * M.as_frac(p) for e in dim), val ** p, 1e-11)
            mon.ev('power', (u.name, p))
    v = rng.choice([w for w in M.ORD if 1e-60 < w.val * u.val < 1e60 and 1e-60 < w.val / u.val < 1e60])
    s = (uobj(v.name) * o).simplified
    value_of(mon, '%s*%s' % (v.name, what), s, tuple(a + b for a, b in zip(v.dim, dim)), v.fval * val, 1e-11)
    s = (3.0 * uobj(v.name) / o).simplified
    value_of(mon, '%s/%s' % (v.name, what), s, tuple(a - b for a, b in zip(v.dim, dim)), 3.0 * v.fval / val, 1e-11)
    mon.ev('product', (u.name, v.name))
    # against another unit of the same dimension
    g = [w for w in M.GROUPS.get(dim, []) if w.name != u.name]
    if g:
        w = rng.choice(g)
        r = (1.0 * o).rescale(uobj(w.name))
        mon.check(near(r.magnitude, M.fl(u.val / w.val)), '1 %s is %r, by definition %r %s', what, r, M.fl(u.val / w.val), w.name)
        mon.check(w.name in dims(r), '1 %s rescaled to %s has the units %s', what, w.name, r.dimensionality)
        mon.ev('pair', (u.name, w.name))
    # the definition does not depend on the default units
    sysname = rng.choice(['cgs', 'SI'])
    try:
        pq.set_default_units(sysname)
        s = o.simplified
        mon.check(near(s.rescale(si1).magnitude, val), 'with %s defaults %s simplifies to %s', sysname, what, s)
        r = (1.0 * o).rescale(si1)
        mon.check(near(r.magnitude, val), 'with %s defaults 1 %s rescales to %r, by definition %r', sysname, what, r, val)
    finally:
        pq.set_default_units('SI')
    mon.ev('other defaults', (u.name, sysname))


def label_case(rng, mon, i):
    """every label, wherever a unit can be named"""
    labs = sorted(M.BY_LABEL)
    l = labs[i % len(labs)]
    u = M.BY_LABEL[l]
    o = unit_registry[l]
    mon.check(o.name == u.name, 'the label %r denotes %s, by definition %s', l, o.name, u.name)
    mon.check(o is unit_registry[u.labels[0]], 'the label %r is bound to another object than %r', l, u.labels[0])
    if u.attrs:
        mon.check(o is getattr(pq, u.attrs[0]), 'the label %r is bound to another object than the attribute %s', l, u.attrs[0])
    mon.ev('label', l)
    if u.name == 'dimensionless':
        return
    q = Quantity(2.5, l)
    mon.check(same_dims(q, {u.name: 1}), 'Quantity(2.5, %r) has the units %s', l, q.dimensionality)
    value_of(mon, '2.5 %r' % l, q.simplified, u.dim, 2.5 * u.fval)
    r = Quantity(1.0, si_units(u.dim)).rescale(l)
    mon.check(near(r.magnitude, 1 / u.fval), 'one SI unit rescaled to %r is %r, by definition %r', l, r, 1 / u.fval)
    if l.isidentifier() and l not in ('in', 'as', 'is', 'if'):
        q = Quantity(1.0, '%s**2/s' % l)
        value_of(mon, '%s**2/s' % l, q.simplified, tuple(2 * e - (b == 's') for b, e in zip(M.BASE, u.dim)), u.fval ** 2, 1e-11)
    mon.ev('string', l)


_mods = None


def modules():
    global _mods
    if _mods is None:
        import quantities.units as QU
        _mods = {'quantities': pq, 'quantities.units': QU}
        for m in pkgutil.iter_modules(QU.__path__):
            _mods['quantities.units.' + m.name] = importlib.import_module('quantities.units.' + m.name)
    return _mods


def attr_case(rng, mon, i):
    """every attribute of the package and of its unit modules"""
    u = UNITS[i % len(UNITS)]
    for a in u.attrs:
        o = getattr(pq, a, None)
        mon.check(isinstance(o, pq.UnitQuantity), 'the package offers no unit %s', a)
        mon.check(o.name == u.name, '%s.%s is %s, by definition %s', 'quantities', a, o.name, u.name)
        import quantities.units as QU
        mon.check(getattr(QU, a, None) is o, 'quantities.units.%s is not quantities.%s', a, a)
        mon.ev('attribute', a)
    o = getattr(pq, u.attrs[0]) if u.attrs else uobj(u.name)
    for mn, m in modules().items():
        for a, v in vars(m).items():
            if not isinstance(v, pq.UnitQuantity):
                continue
            if v is o:
                if mn.count('.') == 2 and not a.startswith('_'):
                    mon.check(a in u.attrs or (a, u.name) in EXTRA_ATTRS or a in u.labels, '%s.%s denotes %s', mn, a, u.name)
                mon.ev('module attribute', (mn, a))
            elif v.name == u.name and type(v).__name__ != 'UnitConstant':
                mon.fail('%s.%s is a second unit called %s' % (mn, a, u.name))
            elif v.dimensionality == o.dimensionality:
                mon.fail('%s.%s (%s) has the same dimensionality as %s' % (mn, a, v.name, u.name))


EXTRA_ATTRS = {('force', 'standard_gravity'), ('pt', 'printers_point')}

PREFIXES = dict(yotta=10 ** 24, zetta=10 ** 21, exa=10 ** 18, peta=10 ** 15, tera=10 ** 12, giga=10 ** 9, mega=10 ** 6, kilo=1000, hecto=100, deka=10,
                deci=.1, centi=.01, milli=1e-3, micro=1e-6, nano=1e-9, pico=1e-12, femto=1e-15, atto=1e-18, zepto=1e-21,
                kibi=2 ** 10, mebi=2 ** 20, gibi=2 ** 30, tebi=2 ** 40, pebi=2 ** 50, exbi=2 ** 60, zebi=2 ** 70, yobi=2 ** 80)
# prefixed names and their stems
SI_STEMS = {'second', 'meter', 'metre', 'gram', 'ampere', 'mole', 'molar', 'volt', 'farad', 'ohm', 'siemens', 'coulomb', 'watt', 'joule', 'hertz', 'pascal', 'liter', 'litre', 'radian', 'newton',
            'electron_volt', 'bar', 'kelvin', 'Kelvin', 'byte', 'bit', 'tesla', 'henry', 'weber', 'darcy', 'calorie', 'sievert', 'gray', 'cubic_centimeter'}


def prefix_case(rng, mon, i):
    for p, v in PREFIXES.items():
        mon.check(near(getattr(pq, p), v, 1e-15), 'the prefix %s is %r', p, getattr(pq, p))
        from quantities.units import prefixes
        mon.check(getattr(prefixes, p) == getattr(pq, p), 'the prefix %s differs in quantities.units.prefixes', p)
        mon.ev('prefix', p)
    stems = {}
    for u in M.ORD:
        for l in u.labels:
            stems[l] = u
    for u in M.ORD:
        for l in u.labels:
            for p, v in PREFIXES.items():
                st = l[len(p):]
                if l.startswith(p) and (st in stems and st in SI_STEMS):
                    s = stems[st]
                    r = (1.0 * unit_registry[l]).rescale(unit_registry[st])
                    mon.check(near(r.magnitude, v), '1 %s is %r', l, r)
                    mon.ev('prefixed unit', l)


# relations as the standards state them: (left, factor, right)
RELATIONS = [
    ('foot', 12, 'inch'), ('yard', 3, 'foot'), ('mile', 1760, 'yard'), ('mile', 63360, 'inch'), ('inch', 2.54, 'cm'), ('inch', 1000, 'mil'), ('nautical_mile', 1852, 'm'), ('angstrom', .1, 'nm'),
    ('US_survey_yard', 3, 'US_survey_foot'), ('US_survey_mile', 5280, 'US_survey_foot'), ('fathom', 6, 'US_survey_foot'), ('chain', 66, 'US_survey_foot'), ('chain', 4, 'rod'), ('furlong', 10, 'chain'),
    ('pica', 12, 'printers_point'), ('inch', 72, 'printers_point'), ('acre', 4840, 'yd**2'), ('US_survey_acre', 10, 'chain**2'), ('hectare', 100, 'are'), ('barn', 100, 'fm**2'),
    ('minute', 60, 's'), ('hour', 60, 'minute'), ('day', 24, 'hour'), ('week', 7, 'day'), ('fortnight', 14, 'day'), ('common_year', 365, 'day'), ('leap_year', 366, 'day'), ('Julian_year', 365.25, 'day'),
    ('Gregorian_year', 365.2425, 'day'), ('year', 12, 'month'), ('millenium', 1000, 'year'), ('eon', 1e9, 'year'), ('sidereal_day', 24, 'sidereal_hour'), ('sidereal_hour', 60, 'sidereal_minute'),
    ('sidereal_minute', 60, 'sidereal_second'), ('work_year', 12, 'work_month'), ('shake', 10, 'ns'), ('light_year', 299792458, 'Julian_year*m/s'),
    ('pound', 16, 'ounce'), ('pound', 7000, 'grain'), ('stone', 14, 'pound'), ('short_ton', 2000, 'pound'), ('long_ton', 2240, 'pound'), ('tonne', 1000, 'kg'), ('carat', 200, 'mg'), ('troy_ounce', 480, 'grain'),
    ('troy_pound', 12, 'troy_ounce'), ('pennyweight', 24, 'grain'), ('troy_ounce', 20, 'pennyweight'), ('scruple', 20, 'grain'), ('drachm', 3, 'scruple'),
    ('turn', 360, 'arcdegree'), ('arcdegree', 60, 'arcminute'), ('arcminute', 60, 'arcsecond'), ('turn', 400, 'grad'), ('radian', 1000, 'milliradian'),
    ('US_liquid_gallon', 231, 'inch**3'), ('US_liquid_gallon', 4, 'US_liquid_quart'), ('US_liquid_quart', 2, 'US_liquid_pint'), ('US_liquid_pint', 2, 'cup'), ('cup', 2, 'US_liquid_gill'), ('cup', 8, 'US_fluid_ounce'),
    ('US_fluid_ounce', 2, 'tablespoon'), ('tablespoon', 3, 'teaspoon'), ('US_fluid_ounce', 8, 'fluid_dram'), ('barrel', 42, 'US_liquid_gallon'), ('UK_liquid_gallon', 4.54609, 'liter'), ('UK_liquid_gallon', 4, 'UK_liquid_quart'),
    ('UK_liquid_quart', 2, 'UK_liquid_pint'), ('UK_liquid_pint', 20, 'UK_fluid_ounce'), ('UK_liquid_gill', 5, 'UK_fluid_ounce'), ('Imperial_bushel', 8, 'UK_liquid_gallon'), ('US_bushel', 4, 'peck'), ('US_bushel', 8, 'US_dry_gallon'),
    ('US_dry_gallon', 4, 'US_dry_quart'), ('US_dry_quart', 2, 'US_dry_pint'), ('acre_foot', 43560, 'ft**3'), ('board_foot', 144, 'inch**3'), ('gross_register_ton', 100, 'ft**3'), ('stere', 1, 'm**3'), ('liter', 1000, 'cc'),
    ('newton', 1e5, 'dyne'), ('kilogram_force', 1, 'kg*g_0'), ('pound_force', 1, 'lb*g_0'), ('kip', 1000, 'pound_force'), ('poundal', 1, 'lb*ft/s**2'), ('pound_force', 16, 'ounce_force'),
    ('joule', 1e7, 'erg'), ('watt_hour', 3600, 'J'), ('calorie', 4.184, 'J'), ('BTU', 1055.05585262, 'J'), ('horsepower', 550, 'ft*lbf/s'),
    ('bar', 1e5, 'Pa'), ('atmosphere', 101325, 'Pa'), ('torr', 101325 / 760, 'Pa'), ('psi', 1, 'lbf/inch**2'), ('ksi', 1000, 'psi'), ('barye', .1, 'Pa'),
    ('hertz', 1, '1/s'), ('knot', 1, 'nmi/h'), ('poise', .1, 'Pa*s'), ('stokes', 1, 'cm**2/s'),
    ('byte', 8, 'bit'), ('kibibyte', 1024, 'byte'), ('kilobyte', 1000, 'byte'), ('mebibyte', 1024, 'kibibyte'), ('gibibyte', 1024, 'mebibyte'), ('tebibyte', 1024, 'gibibyte'), ('megabyte', 1000, 'kilobyte'), ('gigabyte', 1000, 'megabyte'),
    ('curie', 3.7e10, 'becquerel'), ('rutherford', 1e6, 'becquerel'), ('gray', 1, 'J/kg'), ('sievert', 100, 'rem'), ('roentgen', 2.58e-4, 'C/kg'),
    ('Kelvin', 1.8, 'Rankine'), ('Celsius', 1.8, 'Fahrenheit'), ('Celsius', 1, 'Kelvin'), ('Kelvin', 1000, 'millikelvin'),
    ('coulomb', 1, 'A*s'), ('volt', 1, 'J/C'), ('ohm', 1, 'V/A'), ('farad', 1, 'C/V'), ('siemens', 1, 'A/V'), ('weber', 1, 'V*s'), ('tesla', 1e4, 'gauss'), ('henry', 1, 'Wb/A'), ('maxwell', 1e-8, 'Wb'), ('abampere', 10, 'A'),
    ('newton', 1, 'kg*m/s**2'), ('pascal', 1, 'N/m**2'), ('joule', 1, 'N*m'), ('watt', 1, 'J/s'), ('molar', 1, 'mol/L'), ('micromolar', 1e-6, 'mol/L'), ('percent', .01, ''),
]


def relation_case(rng, mon, i):
    l, f, r = RELATIONS[i % len(RELATIONS)]
    if l not in M.BY_NAME and l not in M.BY_LABEL:
        return
    a = unit_registry[l]
    b = Quantity(1.0, r) if r else 1.0 * pq.dimensionless
    q = (1.0 * a).rescale(b)
    mon.check(near(q.magnitude, f), '1 %s is %s, by the standard %s %s', l, q, f, r)
    d = (1.0 * a) - f * b
    mon.check(abs(float(d.magnitude)) <= 1e-12 and dims(d) == dims(1.0 * a), '1 %s - %s %s is %s', l, f, r, d)
    mon.ev('relation', (l, r), (l, f, r))


# units that the standards keep apart
DISTINCT = [('foot', 'US_survey_foot'), ('mile', 'US_survey_mile'), ('mile', 'nautical_mile'), ('yard', 'US_survey_yard'), ('acre', 'US_survey_acre'), ('short_ton', 'long_ton'), ('long_ton', 'tonne'), ('ounce', 'troy_ounce'),
            ('pound', 'troy_pound'), ('pound', 'pound_force'), ('US_liquid_gallon', 'UK_liquid_gallon'), ('US_liquid_gallon', 'US_dry_gallon'), ('US_fluid_ounce', 'UK_fluid_ounce'), ('US_bushel', 'Imperial_bushel'),
            ('year', 'Julian_year'), ('year', 'Gregorian_year'), ('year', 'common_year'), ('year', 'sidereal_year'), ('day', 'sidereal_day'), ('synodic_month', 'tropical_month'), ('sidereal_month', 'tropical_month'),
            ('kilobyte', 'kibibyte'), ('megabyte', 'mebibyte'), ('gigabyte', 'gibibyte'), ('byte', 'bit'), ('Celsius', 'Fahrenheit'), ('Kelvin', 'Rankine'), ('ampere', 'statampere'), ('ampere', 'abampere'), ('coulomb', 'statcoulomb'),
            ('gram', 'grain'), ('meter', 'mile'), ('minute', 'arcminute'), ('second', 'arcsecond'), ('printers_point', 'US_liquid_pint')]


def distinct_case(rng, mon, i):
    a, b = DISTINCT[i % len(DISTINCT)]
    if a not in M.BY_NAME or b not in M.BY_NAME:
        return
    x, y = uobj(a), uobj(b)
    mon.check(x is not y and x.name != y.name and x.symbol != y.symbol and not set(M.BY_NAME[a].labels) & set(M.BY_NAME[b].labels), '%s and %s are not kept apart', a, b)
    mon.check(not bool(1.0 * x == 1.0 * y) and bool(1.0 * x != 1.0 * y), '1 %s equals 1 %s', a, b)
    mon.ev('distinct', (a, b))


CHILD = r'''
import sys, random, json, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, sys.argv[1]); seed = sys.argv[2]
rng = random.Random(seed)
import importlib
mods = json.loads(sys.argv[3])
rng.shuffle(mods)
for m in mods[:6]:
    importlib.import_module(m)
import quantities as pq
from quantities.registry import unit_registry
labels = json.loads(sys.stdin.read())
rng.shuffle(labels)
out = {}
for l in labels:
    o = unit_registry[l]
    s = o.simplified
    out[l] = [o.name, o.symbol, float(s.magnitude), sorted((u.name, float(e)) for u, e in s.dimensionality.items())]
json.dump(out, sys.stdout)
'''


def fresh_case(rng, mon, i):
    """a fresh interpreter, modules imported and labels looked up in another order"""
    import json
    labs = [l for l in M.BY_LABEL if l != 'dimensionless']
    mods = [m for m in modules() if m.startswith('quantities.')] + ['quantities.constants', 'quantities.umath', 'quantities.markup', 'quantities.uncertainquantity']
    p = subprocess.run([sys.executable, '-B', '-s', '-X', 'pycache_prefix=/nonexistent-qmon', '-c', CHILD, REPO, str(rng.random()), json.dumps(mods)], input=json.dumps(labs), capture_output=True, text=True, timeout=200,
                       env=dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1000))))
    mon.check(p.returncode == 0, 'reading the catalogue in a fresh interpreter failed: %s', p.stderr[-600:])
    out = json.loads(p.stdout)
    for l in labs:
        u = M.BY_LABEL[l]
        name, sym, v, d = out[l]
        mon.check(name == u.name and sym in u.labels, 'in a fresh interpreter the label %r denotes %s (%s)', l, name, sym)
        mon.check(near(v, u.fval), 'in a fresh interpreter %r has the SI value %r, by definition %r', l, v, u.fval)
        mon.check({k: M.as_frac(e) for k, e in d if k != 'dimensionless'} == M.si_expr(u.dim), 'in a fresh interpreter %r has the dimension %s', l, d)
        mon.ev('fresh interpreter', l)


FAMILIES = [Family('unit', unit_case, len(UNITS) * 2, len(UNITS) * 40), Family('label', label_case, len(M.BY_LABEL), len(M.BY_LABEL), seeded=False), Family('attribute', attr_case, len(UNITS), len(UNITS), seeded=False),
            Family('prefix', prefix_case, 1, 1, seeded=False), Family('relation', relation_case, len(RELATIONS), len(RELATIONS), seeded=False), Family('distinct', distinct_case, len(DISTINCT), len(DISTINCT), seeded=False),
            Family('fresh', fresh_case, 3, 40)]
REQUIRED_OPS = ['simplified', 'rescale', 'sum', 'power', 'product', 'pair', 'other defaults', 'label', 'string', 'attribute', 'module attribute', 'prefix', 'prefixed unit', 'relation', 'distinct', 'fresh interpreter']
