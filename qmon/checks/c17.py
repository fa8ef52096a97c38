"""C17: simplification follows the configured default units."""
import copy, operator
import numpy as np
from ..core import Family, Violation
from .. import model as M
from ..lib import *
from quantities import unitquantity as U

PROP = 'C17'
RULE = ('a case is a random sequence of default-unit changes (valid and invalid, by system, keyword and class); a reference state machine predicts the default of every base dimension; after every step the simplified form of '
        'random quantities, units, constants, uncertain quantities and dimensionalities is compared with the reference table, and a panel of conversions, comparisons and arithmetic results must stay bit-identical; '
        'distinct by (defaults in force, dimension simplified, kind)')
KW = {'kg': 'mass', 'm': 'length', 's': 'time', 'A': 'current', 'K': 'temperature', 'mol': 'substance', 'cd': 'luminous_intensity', 'bit': 'information'}
CLS = {'kg': U.UnitMass, 'm': U.UnitLength, 's': U.UnitTime, 'A': U.UnitCurrent, 'K': U.UnitTemperature, 'mol': U.UnitSubstance, 'cd': U.UnitLuminousIntensity, 'bit': U.UnitInformation}
SI = {'kg': 'kilogram', 'm': 'meter', 's': 'second', 'A': 'ampere', 'K': 'Kelvin', 'mol': 'mole', 'cd': 'candela', 'bit': 'bit'}
CGS = {'kg': 'gram', 'm': 'centimeter', 's': 'second', 'K': 'Kelvin', 'mol': 'mole', 'cd': 'candela'}
BASEDIM = {b: tuple(M.F(int(b == x)) for x in M.BASE) for b in M.BASE}
# units that can be a default: of the base dimension and not far away from it
CHOICES = {b: [u for u in M.GROUPS[BASEDIM[b]] if 1e-9 < u.val < 1e12] for b in M.BASE}


def default_expr(dim, cfg):
    return {cfg[b]: e for b, e in zip(M.BASE, dim) if e}


def read(mon, cfg, what):
    for b, c in CLS.items():
        got = c.get_default_unit()
        mon.check(got.name == cfg[b], '%s: default %s unit is %s, expected %s', what, KW[b], got.name, cfg[b])


def reset():
    pq.set_default_units('SI', information='bit')


def far(ex, cfg, lo=1e-60, hi=1e60):
    d = M.dim_of(ex)
    try:
        f = M.ratio(ex, default_expr(d, cfg))
    except OverflowError:
        return True
    g = M.factor(default_expr(d, cfg))
    return not (lo < f < hi and lo < g < hi)


def simplified_ok(mon, what, q, s, ex, cfg, rt):
    """s must be q in the default units"""
    d = M.dim_of(ex)
    want = default_expr(d, cfg)
    mon.check(same_dims(s, want), '%s: simplified units are %s, expected %s', what, dims(s), M.show(want))
    f = M.fl(M.ratio(ex, want))
    mon.check(close(mag(s), mag(q) * f, rt), '%s: simplified value is %s, expected %s', what, s, mag(q) * f)


def spoil(rng, mon, what, q, *simplified):
    """modifying a simplified form in place does not change what q simplifies to"""
    first = snap(q.simplified)
    for s in simplified:
        if isinstance(s, UnitQuantity) or not isinstance(s, Quantity):
            continue
        for f in rng.sample([lambda: operator.imul(s, 3), lambda: operator.imul(s, pq.second), lambda: s.fill(7), lambda: s.__setitem__((), 5 * s.units), lambda: setattr(s, 'units', s.units * pq.radian), lambda: s.dimensionality.clear(), lambda: operator.iadd(s, s)], 2):
            attempt(f)
    again = snap(q.simplified)
    mon.check(again == first, '%s: %s simplifies to %s after an earlier simplified form was modified, before to %s', what, q, again, first)
    mon.extra['simplified forms modified'] += 1


def probe(rng, mon, cfg, trace):
    kind = rng.choice(['quantity', 'quantity', 'quantity', 'unit', 'unit', 'dim', 'uq', 'base', 'user', 'compound'])
    sig = tuple(sorted(cfg.items()))
    what = 'after %s, %s' % (trace[-4:], kind)
    if kind in ('quantity', 'dim', 'uq'):
        ex = gen_expr(rng, exps=ALL_EXPS)
        if far(ex, cfg, 1e-40, 1e40):
            return
        if kind == 'dim':
            d = as_units(ex, 'dim')
            before = snap(d)
            s = d.simplified
            mon.check(same_dims(s, default_expr(M.dim_of(ex), cfg)), '%s: %s simplifies to %s, expected %s', what, d, s, M.show(default_expr(M.dim_of(ex), cfg)))
            mon.check(s.simplified == s, '%s: simplifying %s twice changes it', what, d)
            mon.check(snap(d) == before, '%s: simplifying changed the dimensionality', what)
            mon.ev('dimensionality', (sig, M.dim_of(ex)), (d, s))
            return
        dt = rng.choice(['d', 'd', 'd', 'f', 'l', 'D'])
        if kind == 'uq':
            a = gen_array(rng, 'd')
            q = UQ(a, as_units(ex), np.abs(gen_array(rng, 'd', a.shape)))
            dt = 'd'
        else:
            q = Quantity(gen_array(rng, dt), as_units(ex, 'dim'))
            if dt == 'f' and far(ex, cfg, 1e-25, 1e25):
                return
        w = Watch(q)
        s = q.simplified
        simplified_ok(mon, what, q, s, ex, cfg, rtol_for(dt) * 200)
        if kind == 'uq':
            mon.check(isinstance(s, UQ), '%s: a %s', what, type(s).__name__)
            simplified_ok(mon, what + ' uncertainty', q.uncertainty, s.uncertainty, ex, cfg, 1e-9)
        t = s.simplified
        mon.check(snap(t)[1:5] == snap(s)[1:5] and t.dimensionality == s.dimensionality, '%s: simplifying %r twice gives %r then %r', what, q, s, t)
        w.verify('simplifying')
        if dt == 'd' and q.size and not far(ex, cfg, 1e-12, 1e12):
            back = s.rescale(q.units)
            mon.check(close(mag(back), mag(q), 1e-9), '%s: simplified and back is %r instead of %r', what, back, q)
        mon.ev(kind, (sig, M.dim_of(ex), dt), (q, s))
        spoil(rng, mon, what, q, s, t)
        return
    if kind == 'unit':
        u = rng.choice(M.ORD)
        o = uobj(u.name)
    elif kind == 'base':
        b = rng.choice(M.BASE)
        u = rng.choice(CHOICES[b])
        o = uobj(u.name)
    elif kind == 'user':
        b = rng.choice(M.BASE)
        k = rng.choice(M.GROUPS[BASEDIM[b]])
        n = rng.randrange(8)
        u = k
        o = pq.UnitQuantity('qmon17_%s_%d' % (k.name, n), (n + 2) * uobj(k.name))
        s = (o * 3.0).simplified
        if far({k.name: 1}, cfg):
            return
        simplified_ok(mon, what, Quantity(3.0 * (n + 2), uobj(k.name)), s, {k.name: 1}, cfg, 1e-9)
        s = o.simplified
        simplified_ok(mon, what, Quantity(1.0 * (n + 2), uobj(k.name)), s, {k.name: 1}, cfg, 1e-9)
        spoil(rng, mon, what, o, s)
        mon.ev('user unit', (sig, k.name), s)
        return
    else:
        ex, s_ = rng.choice([({'meter': 2, 'second': -1}, 'm**2/s'), ({'parsec': 1, 'centimeter': -3}, 'pc/cm**3'), ({'volt': 1, 'hour': -1}, 'V/h')])
        o = pq.CompoundUnit(s_)
        if far(ex, cfg):
            return
        s = o.simplified
        simplified_ok(mon, what, Quantity(1.0, 'm'), s, ex, cfg, 1e-9)
        spoil(rng, mon, what, o, s)
        simplified_ok(mon, what, Quantity([2.0, 3.0], 'm'), ([2.0, 3.0] * o).simplified, ex, cfg, 1e-9)
        mon.ev('compound unit', (sig, s_), s_)
        return
    ex = {u.name: 1}
    if far(ex, cfg):
        return
    s = o.simplified
    simplified_ok(mon, '%s %s' % (what, u.name), Quantity(1.0, 'm'), s, ex, cfg, 1e-9)
    spoil(rng, mon, what, o, s)
    s = (2.5 * o).simplified
    simplified_ok(mon, '%s %s' % (what, u.name), Quantity(2.5, 'm'), s, ex, cfg, 1e-9)
    mon.ev('unit', (sig, u.name), (u.name, s))


class Panel:
    """results that may not depend on the default units"""

    def __init__(self, rng):
        self.items = []
        for _ in range(6):
            ex = gen_expr(rng)
            ex2 = gen_compatible(rng, ex)
            if not (mild(ex, -12, 12) and 1e-9 < M.ratio(ex, ex2) < 1e9):
                continue
            a = Quantity(gen_array(rng, 'd', (3,), nonzero=True), as_units(ex))
            b = Quantity(gen_array(rng, 'd', (3,), nonzero=True), as_units(ex2))
            self.items.append((a, b, UQ(a.magnitude.copy(), a.units, [.1, .2, .3])))
        self.ref = self.compute()

    def compute(self):
        out = []
        for a, b, u in self.items:
            out.append([snap(x) for x in (a, b, u, a.rescale(b.units), a + b, b - a, a * b, a / b, a == b, a < b, a ** 2, u.rescale(b.units), u + b, u * b, np.maximum(a, a), a.sum(), a.units, u.copy())]
                       + [str(a), repr(u), str(a.dimensionality), hash(a.dimensionality), a.dimensionality == b.dimensionality])
        return out

    def verify(self, mon, what):
        now = self.compute()
        mon.check(now == self.ref, '%s changed results: %s', what, [(x, y) for p, q in zip(self.ref, now) for x, y in zip(p, q) if x != y][:2])


def valid_unit(rng, b):
    u = rng.choice(CHOICES[b])
    lab = [l for l in u.labels if l.isidentifier()]
    return u.name, rng.choice([uobj(u.name), rng.choice(lab), u.name if u.name in lab else lab[0], rng.choice(lab)])


def step(rng, mon, cfg, trace):
    """one configuration change; returns the predicted configuration"""
    new = dict(cfg)
    c = rng.random()
    if c < .25:
        sysname = rng.choice(['SI', 'si', 'cgs', 'CGS', 'Cgs', 'SI'])
        kw = {}
        for b in rng.sample(list(M.BASE), rng.choice([0, 0, 1, 2])):
            n, v = valid_unit(rng, b)
            kw[KW[b]] = v
            new_b = (b, n)
            trace_b = new_b
            kw.setdefault('_', []).append(new_b)
        forced = kw.pop('_', [])
        if sysname.lower() == 'si':
            new.update({k: v for k, v in SI.items() if k != 'bit'})
        else:
            new.update(CGS)
        for b, n in forced:
            new[b] = n
        pq.set_default_units(sysname, **kw)
        trace.append('%s %s' % (sysname, {k: str(v) for k, v in kw.items()}))
        mon.ev('set system', (sysname.lower(), len(kw)))
    elif c < .55:
        kw = {}
        for b in rng.sample(list(M.BASE), rng.choice([1, 1, 2, 3, 8])):
            n, v = valid_unit(rng, b)
            kw[KW[b]] = v
            new[b] = n
        pq.set_default_units(**kw)
        trace.append(str({k: str(v) for k, v in kw.items()}))
        mon.ev('set units', tuple(sorted(kw)))
    elif c < .65:
        b = rng.choice(M.BASE)
        n, v = valid_unit(rng, b)
        new[b] = n
        CLS[b].set_default_unit(v)
        trace.append('%s.set_default_unit(%s)' % (CLS[b].__name__, v))
        mon.ev('set by class', b)
    elif c < .7:
        pq.set_default_units()
        rng.choice(list(CLS.values())).set_default_unit(None)
        trace.append('nothing')
    else:
        b = rng.choice(M.BASE)
        k = rng.randrange(7)
        if k == 0:
            wrong = rng.choice([u for u in M.ORD if u.dim != BASEDIM[b]])
            v = rng.choice([uobj(wrong.name), wrong.name if wrong.name.isidentifier() else 's**7'])
        elif k == 1:
            v = rng.choice(['nosuchunit', 'm**', 'kg kg', '', 'UnitLength', 'm()', '%%'])
        elif k == 2:
            v = rng.choice([5, 2.5, [1], object(), uobj(CHOICES[b][0].name).dimensionality, b'm', True])
        elif k == 3:
            v = rng.choice([2, .5, -1]) * uobj(rng.choice(CHOICES[b]).name)
        elif k == 4:
            v = uobj(rng.choice(CHOICES[b]).name) ** rng.choice([2, -1, .5])
        elif k == 5:
            v = Quantity([1.0, 1.0], uobj(CHOICES[b][0].name))
        else:
            v = None
        if v is None:
            s = rng.choice(['mks', 'imperial', 'S', 'SI ', '', 'cgs-esu', 'natural', 5, b'SI', ['SI']])
            f = lambda: pq.set_default_units(s, **({KW[b]: valid_unit(rng, b)[1]} if rng.random() < .4 else {}))
            trace.append('refused system %r' % (s,))
        elif rng.random() < .3:
            f = lambda: CLS[b].set_default_unit(v)
            trace.append('refused %s.set_default_unit(%r)' % (CLS[b].__name__, v))
        else:
            f = lambda: pq.set_default_units(**{KW[b]: v})
            trace.append('refused %s=%r' % (KW[b], v))
        _, err = attempt(f)
        mon.check(err is not None, '%s was accepted', trace[-1])
        mon.ev('refused', (b, k, type(err).__name__), trace[-1])
    return new


def history_case(rng, mon, i):
    reset()
    cfg = dict(SI)
    read(mon, cfg, 'initially')
    panel = Panel(rng)
    keep = [(o, snap(o)) for o in (Quantity([1.0, 2.0], 'km/h'), UQ([1.0], 'ft', [.1]))]
    trace = []
    saved = []
    try:
        for _ in range(rng.choice([2, 4, 6, 10])):
            cfg = step(rng, mon, cfg, trace)
            read(mon, cfg, 'after %s' % trace[-3:])
            for _ in range(4):
                probe(rng, mon, cfg, trace)
            if rng.random() < .5:
                panel.verify(mon, 'after %s the change of defaults' % trace)
                mon.ev('panel', len(panel.items))
            for o, s in keep:
                mon.check(snap(o) == s, 'after %s: an existing quantity changed', trace)
            # results under this configuration, to be found again when it returns
            q = Quantity([1.5, -2.0], as_units(gen_expr(rng), 'dim'))
            saved.append((dict(cfg), q, snap(q.simplified)))
        c0, q, st = rng.choice(saved)
        pq.set_default_units(**{KW[b]: c0[b] if c0[b].isidentifier() else uobj(c0[b]) for b in M.BASE})
        mon.check(snap(q.simplified) == st, 'returning to the defaults %s gives another simplified form of %r: %s, before %s', c0, q, q.simplified, st)
        mon.ev('returned', tuple(sorted(c0.items())))
        reset()
        panel.verify(mon, 'the history %s' % trace)
        read(mon, SI, 'after returning to SI')
    finally:
        reset()
    for n, (o, st) in _panel.items():
        s = o.simplified
        mon.check(snap(s) == st, 'after the history %s and returning to SI %s simplifies to %s', trace, n, s)
    mon.ev('history', tuple(t.split(' ')[0] for t in trace), trace[:3])


_panel = {}


def setup(mon):
    reset()
    for n in ('newton', 'joule', 'volt', 'byte', 'mole', 'lumen', 'mile', 'pound', 'hour', 'liter', 'weber', 'BTU', 'psi'):
        if n in M.BY_NAME:
            o = uobj(n)
            _panel[n] = (o, snap(o.simplified))
    for n in ('speed_of_light', 'electron_mass', 'standard_atmosphere', 'molar_gas_constant'):
        if n in constants():
            _panel['constant ' + n] = (constants()[n], snap(constants()[n].simplified))


CONFIGS = [dict(), dict(system='cgs'), dict(length='ft', mass='lb', time='h'), dict(length='mile', mass='short_ton', time='d', current='mA', temperature='degR', substance='mmol', information='B'),
           dict(system='cgs', current='uA')]


def sweep_case(rng, mon, i):
    """every unit and constant under several configurations"""
    reset()
    k = i % len(CONFIGS)
    kw = dict(CONFIGS[k])
    cs = sorted(constants())
    try:
        si_c = {n: ((1.0 * constants()[n]).simplified) for n in cs[i // len(CONFIGS)::20]}
        pq.set_default_units(**kw)
        cfg = {b: CLS[b].get_default_unit().name for b in M.BASE}
        for n in M.ORD[i // len(CONFIGS)::20]:
            s = uobj(n.name).simplified
            simplified_ok(mon, '%s with %s' % (n.name, kw), Quantity(1.0, 'm'), s, {n.name: 1}, cfg, 1e-9)
            d = uobj(n.name).dimensionality
            mon.check(same_dims(d.simplified, default_expr(n.dim, cfg)), 'dimensionality of %s with %s simplifies to %s', n.name, kw, d.simplified)
            mon.check(close(mag(s.rescale(uobj(n.name))), 1.0, 1e-9), '%s with %s: simplified and back is %s', n.name, kw, s.rescale(uobj(n.name)))
            mon.ev('unit sweep', (n.name, k))
        for n, s0 in si_c.items():
            s = constants()[n].simplified
            ex0 = fdims(s0)
            simplified_ok(mon, 'constant %s with %s' % (n, kw), s0, s, ex0, cfg, 1e-9)
            t = (1.0 * constants()[n]).simplified
            simplified_ok(mon, 'constant %s with %s' % (n, kw), s0, t, ex0, cfg, 1e-9)
            mon.ev('constant sweep', (n, k))
    finally:
        reset()


def currency_case(rng, mon, i):
    """currencies have no unit of their own in the catalogue: the first one defined is the default"""
    usd = pq.UnitCurrency('qmon_usd', symbol='qusd')
    eur = pq.UnitCurrency('qmon_eur', 1.25 * usd, symbol='qeur')
    jpy = pq.UnitCurrency('qmon_jpy', usd / 128, symbol='qjpy')
    val = {'qmon_usd': 1.0, 'qmon_eur': 1.25, 'qmon_jpy': 1 / 128}
    try:
        for d in rng.sample([usd, eur, jpy, 'qeur', 'qmon_jpy'], 3):
            pq.set_default_units(currency=d)
            dn = U.UnitCurrency.get_default_unit().name
            for u in (usd, eur, jpy):
                s = (3.0 * u / pq.km).simplified
                mon.check(dims(s) == {dn: 1, 'meter': -1} and abs(float(s.magnitude) / (3 * val[u.name] / val[dn] / 1000) - 1) < 1e-12, '3 %s/km simplifies to %s', u.name, s)
            for bad in ('m', pq.kg, 'nocurrency', usd ** 2):
                _, err = attempt(lambda: pq.set_default_units(currency=bad))
                mon.check(err is not None and U.UnitCurrency.get_default_unit().name == dn, 'currency default %r accepted', bad)
            mon.ev('currency', dn)
    finally:
        pq.set_default_units(currency=usd)


FAMILIES = [Family('history', history_case, 450, 16000), Family('sweep', sweep_case, 100, 100, seeded=False), Family('currency', currency_case, 8, 100)]
REQUIRED_OPS = ['quantity', 'unit', 'dimensionality', 'uq', 'user unit', 'compound unit', 'panel', 'returned', 'history', 'set system', 'set units', 'set by class', 'refused', 'unit sweep', 'constant sweep', 'currency']
