"""C21: preferred units and dimensionless magnitudes."""
import numpy as np
from fractions import Fraction as F
from ..core import Family, Violation
from .. import model as M
from ..lib import *
from quantities import quantity as Qmod

PROP = 'C21'
RULE = ('a case installs a random ordered list of preferred units (overlapping, compound, custom, constants) under random default units and asks for preferred rescaling of random quantities; the reference table says which entry is the first of '
        'the same physical dimension and what the value must be; without one the call must raise and change nothing; results must be bit-identical under other default units; dimensionless magnitudes are compared with the exact '
        'product of prefixes; distinct by (position of the match, its kind, units, dtype, source kind, defaults)')
CONFIGS = [{}, {'length': 'mm', 'time': 'h', 'mass': 'pound', 'current': 'uA', 'information': 'kB'}, {'length': 'ft', 'time': 'ms', 'substance': 'mmol', 'temperature': 'mK'}, {'system': 'cgs'},
           {'system': 'cgs', 'current': 'abampere', 'information': 'byte'}, {'length': 'parsec', 'mass': 'amu', 'time': 'day'}]
POPULAR = None


def set_config(kw):
    pq.set_default_units('SI', information='bit')
    if kw:
        pq.set_default_units(**kw)


def popular():
    """dimensions that several catalogue units share"""
    global POPULAR
    if POPULAR is None:
        POPULAR = [g for d, g in sorted(M.GROUPS.items()) if len(g) > 2]
    return POPULAR


_user = {}


def user_unit(rng, ex):
    """custom unit worth k times the expression"""
    k = rng.choice([2, 5, 8, 10, 1000])
    key = (tuple(sorted((n, str(e)) for n, e in ex.items())), k)
    if key not in _user:
        n = 'qmon21_%d' % len(_user)
        _user[key] = (pq.UnitQuantity(n, k * as_units(ex), symbol='q21%s' % 'abcdefghij'[len(_user) % 10] * (1 + len(_user) // 10)), k)
    return _user[key]


COMPOUND = {'m**2/s': {'meter': 2, 'second': -1}, 'pc/cm**3': {'parsec': 1, 'centimeter': -3}, 'V/h': {'volt': 1, 'hour': -1}, 'N*m': {'newton': 1, 'meter': 1}, 'kg*m/s': {'kilogram': 1, 'meter': 1, 'second': -1},
            'km/h': {'kilometer': 1, 'hour': -1}}
COMPOUND = {k: v for k, v in COMPOUND.items() if all(n in M.BY_NAME for n in v)}


def entry(rng, ex):
    """(entry for the preferred list, dimension, SI value, reads)"""
    k = rng.random()
    if k < .1 and ex:
        u, f = user_unit(rng, ex)
        return u, M.dim_of(ex), f * M.factor(ex), {u.name: 1}, 'user'
    if k < .16:
        s = rng.choice(sorted(COMPOUND))
        o = pq.CompoundUnit(s)
        e = COMPOUND[s]
        return o, M.dim_of(e), M.factor(e), {o.name: 1}, 'compound'
    if len(ex) == 1 and list(ex.values()) == [1] and rng.random() < .8:
        return uobj(list(ex)[0]), M.dim_of(ex), M.factor(ex), ex, 'unit'
    form = rng.choice([1.0, 1, np.array([1.0]), np.float32(1)])
    return Quantity(form, as_units(ex, 'dim')), M.dim_of(ex), M.factor(ex), ex, 'expression'


def source(rng, ex):
    k = rng.random()
    if k < .1 and len(ex) == 1 and list(ex.values()) == [1]:
        return uobj(list(ex)[0]), np.array(1.0), 'unit'
    if k < .25:
        a = gen_array(rng, 'd')
        return UQ(a.copy(), as_units(ex), np.abs(gen_array(rng, 'd', a.shape))), a, 'uncertain'
    a = gen_array(rng, rng.choice(['d', 'd', 'd', 'f', 'l', 'i', 'D', '?']))
    return Quantity(a.copy(), as_units(ex, rng.choice(['dim', 'quantity']))), a, 'quantity'


def ok_range(f, dt):
    return (1e-30 < f < 1e30) and (dt != 'f' or 1e-12 < f < 1e12)


def preferred_case(rng, mon, i):
    cfg = rng.choice(CONFIGS)
    old = Qmod.PREFERRED
    try:
        set_config(cfg)
        base = gen_expr(rng) if rng.random() < .4 else {rng.choice(rng.choice(popular())).name: 1}
        entries = []
        n = rng.choice([0, 1, 2, 2, 3, 3, 4, 4, 6, 8, 12, 24])
        for k in range(n):
            # in a long list the match comes late
            c = rng.random() if n < 12 else .5 if k < n - 2 else 0
            ex = gen_compatible(rng, base) if c < .35 else gen_incompatible(rng, base) if c < .6 else gen_expr(rng) if c < .8 else {rng.choice(rng.choice(popular())).name: 1}
            entries.append(entry(rng, ex))
        pref = [e[0] for e in entries]
        if rng.random() < .3:
            pref = tuple(pref)
        Qmod.PREFERRED = pref
        targets = [base] + [gen_compatible(rng, base) for _ in range(2)] + [gen_incompatible(rng, base)]
        if rng.random() < .4:
            targets.append({n.name: 1 for n in [rng.choice([u for u in M.GROUPS[M.ZERO]])]})
        for ex in targets:
            q, a, kind = source(rng, ex)
            d, fac = M.dim_of(ex), M.factor(ex)
            match = next((j for j, e in enumerate(entries) if e[1] == d), None)
            w = Watch(q, *pref)
            plist = list(pref)
            fp = [c.get_default_unit().name for c in CLASSES]
            for how in ('rescale_preferred', 'rescale'):
                r, err = attempt(getattr(q, how))
                what = '%s() of %r with PREFERRED=%s' % (how, q, [str(p.dimensionality) for p in pref])
                if match is None:
                    mon.check(err is not None, '%s gave %r although no entry has its dimension', what, r)
                    mon.ev('refused', (how, len(pref), d, kind), what)
                    continue
                mon.check(err is None, '%s raised %r', what, err)
                o, _, f2, reads, ek = entries[match]
                f = M.fl(fac / f2)
                mon.check(same_dims(r, reads), '%s has the units %s, expected entry %d', what, r.dimensionality, match)
                if ok_range(f, a.dtype.char):
                    rt = rtol_for(a.dtype) * 10
                    mon.check(close(mag(r), a * f, rt), '%s is %r, expected %s', what, r, a * f)
                    if kind == 'uncertain':
                        mon.check(isinstance(r, UQ) and close(mag(r.uncertainty), mag(q.uncertainty) * f, rt) and same_dims(r.uncertainty, reads), '%s has the uncertainty %r', what, getattr(r, 'uncertainty', None))
                # the same as converting to that entry directly
                direct = q.rescale(o)
                mon.check(snap(direct) == snap(r), '%s is %r, converting to the entry gives %r', what, r, direct)
                mon.check(not np.shares_memory(np.asarray(r), np.asarray(q)), '%s shares its data', what)
                # and independent of the default units
                other = rng.choice(CONFIGS)
                set_config(other)
                r2 = getattr(q, how)()
                set_config(cfg)
                mon.check(snap(r2) == snap(r), '%s is %r with the defaults %s but %r with %s', what, r, cfg, r2, other)
                mon.ev('preferred', (how, match, ek, M.show(ex), a.dtype.char, kind, CONFIGS.index(cfg)), (what, str(r)))
            w.verify('preferred rescaling')
            mon.check(len(plist) == len(Qmod.PREFERRED) and all(x is y for x, y in zip(plist, Qmod.PREFERRED)), 'preferred rescaling changed PREFERRED')
            mon.check([c.get_default_unit().name for c in CLASSES] == fp, 'preferred rescaling changed the default units')
    finally:
        Qmod.PREFERRED = old
        set_config({})


CLASSES = []


def setup(mon):
    from quantities import unitquantity as U
    CLASSES[:] = [U.UnitMass, U.UnitLength, U.UnitTime, U.UnitCurrent, U.UnitTemperature, U.UnitSubstance, U.UnitLuminousIntensity, U.UnitInformation]


def nothing_preferred(rng, mon, i):
    """the list the library comes with is empty"""
    ex = gen_expr(rng)
    q, a, kind = source(rng, ex)
    w = Watch(q)
    for how in ('rescale_preferred', 'rescale'):
        r, err = attempt(getattr(q, how))
        mon.check(err is not None, '%s() of %r with no preferred units is %r', how, q, r)
    w.verify('refused preferred rescaling')
    # an explicit target never looks at the preferred units
    to = gen_compatible(rng, ex)
    r1 = q.rescale(as_units(to))
    old = Qmod.PREFERRED
    try:
        Qmod.PREFERRED = [as_units(gen_compatible(rng, ex)) for _ in range(3)]
        r2 = q.rescale(as_units(to))
    finally:
        Qmod.PREFERRED = old
    mon.check(snap(r1) == snap(r2), 'converting %r to %s is %r, with preferred units %r', q, M.show(to), r1, r2)
    mon.ev('none preferred', (M.show(ex), kind))


def dimless_expr(rng):
    """expression that reduces to a pure number"""
    c = rng.random()
    if c < .1:
        return {}
    if c < .25:
        return {rng.choice(M.GROUPS[M.ZERO]).name: rng.choice([1, 1, 2, -1])}
    ex = {}
    for _ in range(rng.choice([1, 1, 2])):
        g = rng.choice(popular())
        a, b = rng.choice(g), rng.choice(g)
        p = rng.choice([1, 1, -1, 2, F(1, 2)])
        ex = M.ex_mul(M.ex_mul(ex, {a.name: p}), {b.name: -p})
    if rng.random() < .3:
        # through another dimension: J = N m, V A = W ...
        a = gen_expr(rng)
        ex = M.ex_mul(ex, M.ex_mul(a, gen_compatible(rng, a), -1))
    return ex


def dimless_case(rng, mon, i):
    cfg = rng.choice(CONFIGS)
    try:
        set_config(cfg)
        if rng.random() < .3:
            ex = gen_expr(rng)
            if not M.is_dimless(ex):
                q, a, kind = source(rng, ex)
                w = Watch(q)
                r, err = attempt(lambda: q.dimensionless_magnitude)
                mon.check(isinstance(err, ValueError), 'dimensionless_magnitude of %r is %r', q, r if err is None else err)
                w.verify('refused dimensionless_magnitude')
                mon.ev('not dimensionless', (M.dim_of(ex), kind), str(q.dimensionality))
                return
        ex = dimless_expr(rng)
        f = M.fl(M.factor(ex))
        q, a, kind = source(rng, ex)
        if not ok_range(f, a.dtype.char):
            return
        w = Watch(q)
        r = q.dimensionless_magnitude
        mon.check(not isinstance(r, Quantity) and np.shape(r) == a.shape, 'dimensionless_magnitude of %r is %r', q, r)
        mon.check(close(r, a * f, rtol_for(a.dtype) * 10), 'dimensionless_magnitude of %r is %r, expected %s', q, r, a * f)
        set_config(rng.choice(CONFIGS))
        r2 = q.dimensionless_magnitude
        mon.check(identical(r2, r), 'dimensionless_magnitude of %r is %r, %r under other default units', q, r, r2)
        w.verify('dimensionless_magnitude')
        if kind != 'unit' and a.ndim:
            # the result is a value of its own
            with np.errstate(all='ignore'):
                r[...] = 77
            w.verify('writing into a dimensionless magnitude') if ex else None
        mon.ev('dimensionless', (M.show(ex), a.dtype.char, kind, CONFIGS.index(cfg)), (str(q.dimensionality), f))
    finally:
        set_config({})


def product_case(rng, mon, i):
    """quantities whose units cancel only after arithmetic"""
    g = rng.choice(popular())
    a, b = rng.choice(g), rng.choice(g)
    x, y = gen_value(rng), gen_value(rng) or 1.0
    q = Quantity(x, uobj(a.name)) / Quantity(y, uobj(b.name))
    f = M.fl(a.val / b.val)
    if not 1e-30 < f < 1e30:
        return
    mon.check(close(q.dimensionless_magnitude, x / y * f, 1e-11), '(%r %s)/(%r %s) has the dimensionless magnitude %r, expected %r', x, a.name, y, b.name, q.dimensionless_magnitude, x / y * f)
    old = Qmod.PREFERRED
    try:
        Qmod.PREFERRED = [pq.m, pq.percent, pq.dimensionless]
        r = q.rescale_preferred()
        mon.check(dims(r) == {'percent': 1} and close(mag(r), x / y * f * 100, 1e-11), '%r in preferred units is %r', q, r)
    finally:
        Qmod.PREFERRED = old
    mon.ev('cancelling', (a.name, b.name), str(q.dimensionality))


def cleanup():
    Qmod.PREFERRED = []
    set_config({})


FAMILIES = [Family('preferred', preferred_case, 1200, 35000), Family('none', nothing_preferred, 500, 8000), Family('dimensionless', dimless_case, 3000, 80000), Family('product', product_case, 800, 30000)]
REQUIRED_OPS = ['preferred', 'refused', 'none preferred', 'dimensionless', 'not dimensionless', 'cancelling']
