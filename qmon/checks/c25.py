"""C25: construction."""
import copy
from fractions import Fraction as F
import numpy as np
from ..core import Family, Violation
from .. import model as M
from ..lib import *

PROP = 'C25'
QUICK_SCALE = 2
RULE = ('a case builds a quantity in one way from random data (numbers, nested sequences, arrays of every type and layout, quantities, uncertain quantities, units) and one way of giving the unit; values, shape and element type are compared '
        'with what numpy makes of the same data, the units with the stated expression, converted data with the exact ratio; every other way of giving the same unit must give the same quantity; refused arguments must leave everything alone; '
        'distinct by (way, data kind, dtype, shape, unit form, requested type)')
DTS = ['d', 'd', 'd', 'f', 'l', 'i', 'h', 'b', 'B', 'H', 'I', 'L', 'D', 'F', 'e', 'g', '?', '>f8', '>i4', '<f4', '>c16']
REQ = [None] * 6 + ['d', 'f', 'l', 'i', 'D', float, int, np.float32, np.dtype('>f8'), 'e', complex, '?']


def plain_data(rng):
    """(kind, data)"""
    k = rng.random()
    if k < .12:
        return 'number', rng.choice([3, -7, 0, 2.5, 1e-30, -0.0, float('nan'), float('inf'), True, False, 2 + 3j, 10 ** 15, -1.5e300])
    if k < .2:
        return 'numpy scalar', rng.choice([np.float64(2.5), np.float32(.1), np.int8(-3), np.uint16(7), np.complex64(1 + 2j), np.bool_(True), np.int64(2 ** 53 + 1), np.float16(.5), np.longdouble(.1)])
    if k < .4:
        sh = rng.choice([(0,), (1,), (3,), (2, 3), (1, 1), (2, 2, 2), (2, 0), (rng.randrange(4, 40),), (rng.choice([9, 33, 100, 257, 1025]),), (rng.randrange(4, 20), 2), (2, rng.randrange(4, 20))])
        a = gen_array(rng, rng.choice(['d', 'l', 'D', '?']), sh, hostile=True)
        d = a.tolist()
        if rng.random() < .3:
            d = totuple(d)
        return 'sequence', d
    if k < .45:
        return 'other', rng.choice([lambda: range(rng.randrange(5)), lambda: [np.float32(1.5), 2, 3.5], lambda: [True, 2, 3.0], lambda: [np.arange(3), np.arange(3)], lambda: [(1, 2), [3.0, 4]], lambda: np.matrix([[1.0, 2.0]]), lambda: memoryview(np.arange(3.0)),
                                    lambda: [1, 2 + 1j], lambda: np.array([[1.5]]), lambda: [np.array(1.0), 2.0]])()
    dt = rng.choice(DTS)
    a = gen_array(rng, np.dtype(dt).newbyteorder('=').char, hostile=dt in 'df').astype(dt, order='K')
    if rng.random() < .1:
        a = np.ascontiguousarray(a).view()
        a.flags.writeable = False
    if rng.random() < .1 and a.ndim:
        a = np.broadcast_to(a, (2,) + a.shape)
    return 'array', a


def totuple(x):
    return tuple(totuple(i) for i in x) if isinstance(x, list) else x


_user = {}


def unit_forms(rng, ex):
    """ways to say the same unit"""
    q = as_units(ex)
    forms = [('quantity', q), ('dim', q.dimensionality), ('string', as_units(ex, 'string', rng)), ('string', as_units(ex, 'string', rng).replace('**', '^')), ('int quantity', Quantity(1, q.dimensionality)), ('float32 quantity', Quantity(np.float32(1), q.dimensionality, dtype='f')),
             ('one-element quantity', Quantity([1.0], q.dimensionality)), ('uncertain', UQ(1.0, q.dimensionality, .25)), ('rendered', str(q.dimensionality)), ('numpy string', np.str_(as_units(ex, 'string', rng))), ('units of a quantity', Quantity(np.arange(3.), q.dimensionality).units),
             ('product', mul([uobj(k) ** pexp(e) for k, e in ex.items()]))]
    if len(ex) == 1:
        (k, e), = ex.items()
        if e == 1:
            forms += [('unit', uobj(k))] * 3
            forms += [('label', l) for l in M.BY_NAME[k].labels if l.isidentifier() and l not in ('as',)]
            forms.append(('unit dim', uobj(k).dimensionality))
    if not ex:
        forms += [('empty', ''), ('unit', pq.dimensionless), ('empty dim', Dimensionality())]
    if any(not u.labels[0].isidentifier() for u in (M.BY_NAME[k] for k in ex)) or any(lab_bad(k) for k in ex):
        forms = [f for f in forms if f[0] not in ('rendered',)]
    return forms


def lab_bad(k):
    s = uobj(k).symbol
    return not (s.isidentifier() or s == '%')


def mul(l):
    r = pq.dimensionless * 1
    for x in l:
        r = r * x
    return Quantity(1.0, r.dimensionality)


def check_q(mon, what, r, a, ex, cls=Quantity):
    mon.check(type(r) is cls, '%s is a %s', what, type(r).__name__)
    mon.check(same_dims(r, ex), '%s has the units %s, expected %s', what, r.dimensionality, M.show(ex))
    mon.check(r.shape == a.shape and mag(r).shape == a.shape, '%s has the shape %s, expected %s', what, r.shape, a.shape)
    mon.check(same_type(r.dtype, a.dtype), '%s has the element type %s, expected %s', what, r.dtype, a.dtype)
    mon.check(identical(mag(r), a), '%s has the values %s, expected %s', what, mag(r), a)
    invariant(r, what)


def reshow(x):
    s = repr(x)
    return s if len(s) < 200 else s[:200] + '...'


def construct_case(rng, mon, i):
    kind, data = plain_data(rng)
    ex = gen_expr(rng, exps=ALL_EXPS) if rng.random() < .85 else {}
    forms = unit_forms(rng, ex)
    fname, u = rng.choice(forms)
    req = rng.choice(REQ)
    with np.errstate(all='ignore'):
        a, aerr = attempt(lambda: np.asarray(data, dtype=req).copy())
    w = Watch(data if isinstance(data, (np.ndarray, list, tuple)) else 0, u)
    how = rng.randrange(4)
    f = [lambda: Quantity(data, u, req), lambda: Quantity(data, units=u, dtype=req), lambda: Quantity(data, u, dtype=req), lambda: Quantity(data, u) if req is None else Quantity(dtype=req, units=u, data=data)][how]
    if fname == 'empty' and rng.random() < .5:
        f = lambda: Quantity(data, dtype=req)
    if rng.random() < .05:
        # the argument is documented to have no effect
        c = rng.choice([True, False])
        f = lambda: Quantity(data, u, req, copy=c)
        mon.ev('copy argument', (kind, c))
    what = 'Quantity(%s, %s, %s)' % (reshow(data), reshow(u), req)
    with np.errstate(all='ignore'):
        r, err = attempt(f)
    if aerr is not None:
        mon.check(err is not None, '%s is %r, numpy refuses the data: %r', what, r, aerr)
        mon.ev('unusable data', (kind, type(aerr).__name__))
        return
    mon.check(err is None, '%s raised %r', what, err)
    if isinstance(data, np.matrix):
        a = np.asarray(a)
    check_q(mon, what, r, a, ex)
    w.verify('construction')
    # accessors
    m = r.magnitude
    mon.check(type(m) is np.ndarray and identical(m, a), '%s.magnitude is %r', what, m)
    un = r.units
    mon.check(isinstance(un, Quantity) and same_dims(un, ex) and un.shape == () and float(un.magnitude) == 1.0, '%s.units is %r', what, un)
    mon.check(isinstance(r.dimensionality, Dimensionality) and r.dimensionality == un.dimensionality == as_units(ex).dimensionality, '%s.dimensionality is %s', what, r.dimensionality)
    mon.check(r.size == a.size and r.ndim == a.ndim and (a.ndim == 0 or len(r) == len(a)), '%s has size %d', what, r.size)
    if a.dtype.kind in 'fiu' and a.dtype.char != 'g' and (a.dtype.kind == 'f' or not a.size or np.abs(a.astype('d')).max() < 2 ** 53):
        for back in (r.magnitude * un, un * r.magnitude):
            mon.check(same_dims(back, ex) and identical(mag(back).astype('d'), a.astype('d')), '%s: magnitude times units is %r', what, back)
            if not np.isnan(a.astype('d')).any():
                mon.check(bool(np.all(back == r)), '%s: magnitude times units differs', what)
    mon.ev('construct', (kind, a.dtype.str, a.shape, fname, str(req)), what)
    # every other way of giving the unit means the same
    for fn2, u2 in rng.sample(forms, min(3, len(forms))):
        r2, err = attempt(lambda: Quantity(data, u2, req))
        mon.check(err is None, 'Quantity(%s, %s) raised %r, it works with %s', reshow(data), reshow(u2), err, reshow(u))
        check_q(mon, 'Quantity(%s, %s)' % (reshow(data), reshow(u2)), r2, a, ex)
        mon.check(r2.dimensionality == r.dimensionality and dims(r2 / un) == {}, 'units %s and %s differ', reshow(u), reshow(u2))
        mon.ev('unit forms', (fname, fn2, len(ex)), (reshow(u), reshow(u2)))


def multiply_case(rng, mon, i):
    """data times unit"""
    kind, data = plain_data(rng)
    if isinstance(data, (range, memoryview, np.matrix)) or kind == 'other':
        kind, data = 'sequence', [1.0, 2.0]
    ex = gen_expr(rng, allow_empty=False) or {'meter': 1}
    single = len(ex) == 1 and list(ex.values()) == [1]
    u = uobj(list(ex)[0]) if single and rng.random() < .8 else as_units(ex)
    a = np.asarray(data)
    # a plain Python number takes part with its own type, everything else as numpy multiplies with a double
    want = np.multiply(a, np.array(1.0))
    ops = [('data*unit', lambda: data * u), ('unit*data', lambda: u * data)]
    if rng.random() < .3:
        ops.append(('np.multiply', lambda: np.multiply(a, u)))
    for name, f in ops:
        what = '%s of %s and %s' % (name, reshow(data), u)
        with np.errstate(all='ignore'):
            r, err = attempt(f)
        mon.check(err is None, '%s raised %r', what, err)
        mon.check(type(r) is Quantity and same_dims(r, ex), '%s is %r', what, r)
        mon.check(mag(r).shape == a.shape and identical(mag(r).astype(want.dtype), want.astype(want.dtype)), '%s has the values %s, expected %s', what, mag(r), want)
        mon.check(np.can_cast(a.dtype, r.dtype, 'safe') or a.dtype.kind in 'iu', '%s has the element type %s, data %s', what, r.dtype, a.dtype)
        mon.check(not np.shares_memory(np.asarray(r), a), '%s shares the data', what)
        mon.ev('multiply', (name, kind, a.dtype.str, a.shape, single), what)
    # division builds the inverse unit
    with np.errstate(all='ignore'):
        r = data / u if not isinstance(data, (list, tuple)) else a / u
    mon.check(same_dims(r, M.ex_pow(ex, -1)) and identical(mag(r).astype(want.dtype), want), '%s / %s is %r', reshow(data), u, r)
    # the same as the constructor, and through several factors
    c = Quantity(data, u)
    r = data * u
    if a.dtype.kind in 'fi' and a.dtype.char != 'g' and a.size and (a.dtype.kind == 'f' or np.abs(a.astype('d')).max() < 2 ** 53):
        mon.check(bool(np.all((r == c) | np.isnan(a.astype('d')))), '%s times %s is %r, the constructor gives %r', reshow(data), u, r, c)
    o = uobj(pick_unit(rng).name)
    r = data * (u * o) if rng.random() < .5 else (data * u) * o
    mon.check(same_dims(r, M.ex_mul(ex, {o.name: 1})) and identical(mag(r).astype(want.dtype), want), '%s times %s times %s is %r', reshow(data), u, o, r)
    mon.ev('factors', (kind, a.dtype.str, M.show(ex)))


def from_quantity_case(rng, mon, i):
    """from a quantity, an uncertain quantity or a unit"""
    ex = gen_expr(rng, exps=ALL_EXPS)
    k = rng.random()
    u0 = None
    if k < .2 and len(ex) == 1 and list(ex.values()) == [1]:
        src, a, kind = uobj(list(ex)[0]), np.array(1.0), 'unit'
    elif k < .4:
        a = gen_array(rng, 'd')
        u0 = np.abs(gen_array(rng, 'd', a.shape))
        src, kind = UQ(a.copy(), as_units(ex), u0.copy()), 'uncertain'
    else:
        a = gen_array(rng, rng.choice(['d', 'd', 'f', 'l', 'i', 'D', 'B', '?']))
        src, kind = Quantity(a.copy(), as_units(ex, 'dim')), 'quantity'
        if rng.random() < .2 and src.ndim:
            src = src[::-1]
            a = a[::-1]
    cls = rng.choice([Quantity, Quantity, UQ])
    req = rng.choice([None, None, None, None, 'd', 'f', 'D', float, np.float32, np.dtype('f8'), 'l', int, np.int32, complex, 'float64', '?'])
    if a.dtype.kind == 'c':
        # making complex data real is numpy's affair
        cls, req = Quantity, rng.choice([None, 'D', complex])
    whole = req is not None and np.dtype(req).kind not in 'fc'
    if cls is UQ and (whole or req in ('D', complex)):
        req, whole = None, False
    w = Watch(src)
    c = rng.random() if not whole else 0
    if c < .25:
        # no units given: the units of the source
        r = cls(src, dtype=req) if req else cls(src)
        want = a.astype(req) if req else a.astype('d') if cls is UQ else a
        f = 1.0
        to = ex
        what = '%s(%r, dtype=%s)' % (cls.__name__, src, req)
        tol = 0
        form = 'none'
    elif c < .8:
        to = gen_compatible(rng, ex) if rng.random() < .8 else ex
        f = M.fl(M.ratio(ex, to))
        if not 1e-30 < f < 1e30 or ((a.dtype.char == 'f' or req in ('f', np.float32)) and not 1e-15 < f < 1e15):
            return
        form, u = rng.choice(unit_forms(rng, to))
        if form in ('empty',):
            # an empty string is the default: units are kept
            return
        what = '%s(%r, %s, dtype=%s)' % (cls.__name__, src, reshow(u), req)
        r, err = attempt(lambda: cls(src, u, dtype=req) if req else cls(src, u))
        mon.check(err is None, '%s raised %r', what, err)
        want = a * f
        tol = rtol_for(a.dtype, req or 'd') * 20
    else:
        to = gen_incompatible(rng, ex)
        form, u = rng.choice(unit_forms(rng, to))
        if form == 'empty':
            return
        what = '%s(%r, %s)' % (cls.__name__, src, reshow(u))
        r, err = attempt(lambda: cls(src, u))
        mon.check(isinstance(err, ValueError), '%s is %r', what, r if err is None else err)
        w.verify('refused construction')
        mon.ev('incompatible source', (kind, form, M.dim_of(ex), M.dim_of(to)), what)
        return
    mon.check(type(r) is cls, '%s is a %s', what, type(r).__name__)
    mon.check(same_dims(r, to), '%s has the units %s', what, r.dimensionality)
    mon.check(r.shape == a.shape, '%s has the shape %s', what, r.shape)
    if req:
        mon.check(same_type(r.dtype, req), '%s has the element type %s', what, r.dtype)
    elif form == 'none' or to == ex:
        mon.check(same_type(r.dtype, a.dtype if cls is Quantity else 'd'), '%s has the element type %s', what, r.dtype)
    with np.errstate(all='ignore'):
        mon.check(close(mag(r), want, tol if tol else (0 if not req else 2e-7)), '%s is %r, expected %s', what, r, want)
    if cls is UQ:
        wu = u0 if u0 is not None else np.zeros(a.shape)
        mon.check(same_dims(r.uncertainty, to) and close(mag(r.uncertainty), wu * f, max(tol, 2e-7 if req in ('f', np.float32) else 1e-14)), '%s has the uncertainty %r, expected %s', what, r.uncertainty, wu * f)
    w.verify('construction from a quantity')
    mon.ev('from quantity', (kind, cls.__name__, form, str(req), a.dtype.str, a.shape, to == ex), what)


def uncertain_case(rng, mon, i):
    """uncertain quantities from values and uncertainties"""
    a = gen_array(rng, rng.choice(['d', 'd', 'f', 'l', 'i', 'B']))
    ex = gen_expr(rng)
    b = np.abs(gen_array(rng, rng.choice(['d', 'd', 'f']), a.shape))
    fname, u = rng.choice(unit_forms(rng, ex))
    data = a if rng.random() < .6 else a.tolist()
    k = rng.choice(['none', 'plain', 'list', 'same', 'other', 'bad units', 'bad shape', 'dtype'])
    unc, f, ok, kw = None, 1.0, True, {}
    if k == 'plain' or k == 'dtype':
        unc = b
    elif k == 'list':
        unc = b.tolist()
    elif k == 'same':
        unc = Quantity(b.copy(), as_units(ex))
    elif k == 'other':
        to = gen_compatible(rng, ex)
        f = M.fl(M.ratio(to, ex))
        if not 1e-20 < f < 1e20:
            return
        unc = Quantity(b.copy(), as_units(to), dtype='d')
    elif k == 'bad units':
        unc, ok = Quantity(b.copy(), as_units(gen_incompatible(rng, ex))), False
    elif k == 'bad shape':
        unc, ok = np.ones(a.shape + (2,)) * .5, False
    if k == 'dtype':
        kw = {'dtype': rng.choice(['f', 'd', 'g'])}
    if rng.random() < .06:
        kw = dict(kw, copy=rng.choice([True, False]))
        mon.ev('copy argument', ('uncertain', k))
    w = Watch(a, b, u, *([unc] if isinstance(unc, np.ndarray) else []))
    r, err = attempt(lambda: UQ(data, u, unc, **kw) if rng.random() < .5 else UQ(data, units=u, uncertainty=unc, **kw))
    what = 'UncertainQuantity(%s, %s, %s, %s)' % (reshow(data), reshow(u), reshow(unc), kw)
    w.verify('construction')
    if not ok:
        mon.check(isinstance(err, ValueError), '%s is %r', what, r if err is None else err)
        mon.ev('uncertain refused', (k, a.shape, fname))
        return
    mon.check(err is None, '%s raised %r', what, err)
    check_q(mon, what, r, np.asarray(data, dtype=kw.get('dtype', 'd')), ex, UQ)
    mon.check(same_dims(r.uncertainty, ex) and r.uncertainty.shape == a.shape, '%s has the uncertainty %r', what, r.uncertainty)
    want = np.zeros(a.shape) if unc is None else b.astype('d') * f
    mon.check(close(mag(r.uncertainty), want, 2e-12 if b.dtype == 'd' and kw.get('dtype') != 'f' else 4e-7), '%s has the uncertainty %r, expected %s', what, r.uncertainty, want)
    mon.ev('uncertain', (k, a.dtype.str, a.shape, fname, str(kw)), what)


BADUNITS = [3, 2.5, [], ['m'], {}, {'m': 1}, (), b'm', object(), lambda: 0, int, pq.UnitQuantity, np.array('m'), np.array(1.0), 1j, True, False, 0, 'nosuch', 'm+', 'm**', '2*m', '0*m', 'm m', 'm()', 'm+m', 'm-s', 'UnitQuantity', '1', 'None', 'm**s', '\x00', ' ' * 3 + 'nosuch',
            np.nan, frozenset(), Ellipsis, NotImplemented, type, {'m'}]


def invalid_case(rng, mon, i):
    kind, data = plain_data(rng)
    if kind == 'other':
        data = 1.0
    ex = gen_expr(rng, allow_empty=False) or {'meter': 1}
    c = rng.random()
    if c < .45:
        u = BADUNITS[i % len(BADUNITS)]
        what = 'bad'
    elif c < .8:
        k = rng.choice([2.0, 0.0, -1.0, 1.0000001, float('nan'), float('inf'), 1 + 1j, 0, 7])
        u = Quantity(k, as_units(ex))
        what = 'scaled'
    else:
        u = Quantity(rng.choice([np.ones(2), np.ones((1, 1)), np.ones(0), np.array([1.0, 2.0]), np.ones((2, 3))]), as_units(ex))
        what = 'array'
    srcs = [('plain', lambda: data)]
    q = Quantity([1.0, 2.0], as_units(ex))
    q2 = UQ([1.0, 2.0], as_units(ex), [.1, .2])
    srcs += [('quantity', lambda: q), ('uncertain', lambda: q2), ('unit', lambda: uobj(list(ex)[0]))]
    w = Watch(q, q2)
    for sname, src in srcs:
        for cls in (Quantity, UQ):
            if cls is UQ and sname == 'plain' and not np.can_cast(np.asarray(data).dtype, 'd', 'same_kind'):
                continue
            r, err = attempt(lambda: cls(src(), u))
            mon.check(err is not None, '%s(%s, %s) is accepted: %r', cls.__name__, reshow(src()), reshow(u), r)
    for name, f in (('rescale', lambda: q.rescale(u)), ('units', lambda: setattr(q.copy(), 'units', u)), ('uncertain rescale', lambda: q2.rescale(u)), ('unit rescale', lambda: uobj(list(ex)[0]).rescale(u))):
        r, err = attempt(f)
        mon.check(err is not None, '%s to %s is accepted: %r', name, reshow(u), r)
    w.verify('refused units')
    mon.ev('invalid', (what, repr(u)[:60]), reshow(u))


def listed_case(rng, mon, i):
    """sequences of quantities"""
    a, b = Quantity(1.0, 'km'), Quantity(2.0, 'm')
    r, err = attempt(lambda: Quantity([a, b], 'm'))
    if err is None and not close(mag(r), [1000.0, 2.0], 1e-12):
        mon.finding('list-of-quantities', 'Quantity([1 km, 2 m], "m") is %r' % (r,))
    # the same units throughout keep their values
    r, err = attempt(lambda: Quantity([Quantity(3.0, 'm'), Quantity(4.0, 'm')], 'm'))
    if err is None:
        mon.check(close(mag(r), [3.0, 4.0], 0) and dims(r) == {'meter': 1}, 'Quantity([3 m, 4 m], "m") is %r', r)
    mon.ev('sequence of quantities', 1)


FAMILIES = [Family('construct', construct_case, 5000, 200000), Family('multiply', multiply_case, 2500, 100000), Family('from quantity', from_quantity_case, 4000, 150000), Family('uncertain', uncertain_case, 1500, 60000),
            Family('invalid', invalid_case, 500, 12000), Family('listed', listed_case, 1, 1, seeded=False)]
REQUIRED_OPS = ['construct', 'unit forms', 'multiply', 'factors', 'from quantity', 'incompatible source', 'uncertain', 'uncertain refused', 'invalid', 'sequence of quantities']
