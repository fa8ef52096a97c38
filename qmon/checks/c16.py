"""C16: value and uncertainty stay together under conversion, indexing and reduction."""
import numpy as np
from ..core import Family, Violation
from .. import model as M
from ..lib import *

PROP = 'C16'
QUICK_SCALE = 3
RULE = ('a case drives an uncertain quantity through a random sequence of conversions, unit assignments, indexing, copies, arithmetic by exact numbers and reductions next to a paired reference (plain arrays of value and '
        'uncertainty, unit expression) and compares both after every step; or attempts to set an ill-shaped or incompatible uncertainty; distinct by (operation sequence, shape, axis, index kind, NaN pattern)')


class Pair:
    """reference: value, sigma in units ex"""

    def __init__(self, v, s, ex):
        self.v, self.s, self.ex = v, s, dict(ex)


def gen(rng, shape=None, nan=False, dt='d', owned=True):
    ex = gen_expr(rng)
    if not mild(ex, -12, 12):
        ex = {'kilometer': 1}
    sh = shape if shape is not None else some_shape(rng, [(), (1,), (3,), (4,), (5,), (2, 3), (3, 2), (2, 2, 2), (1, 3), (0,), (3, 1, 2)])
    v = gen_array(rng, dt, sh, layout=rng.random() < .3, nonzero=rng.random() < .6)
    if nan and v.size:
        v = np.array(v)
        m = np.array([rng.random() < .3 for _ in range(v.size)]).reshape(v.shape)
        v[m] = np.nan
    s = np.abs(gen_array(rng, dt, sh, layout=False)) * 0.1
    if s.size and rng.random() < .2:
        s = np.array(s)
        s.flat[rng.randrange(s.size)] = 0
    # distinct uncertainties, so that none can stand for another one
    s = np.asarray(s + np.arange(s.size).reshape(s.shape) * .001, dt)
    if dt == 'd' and rng.random() < .06:
        s = whole_sigma(rng, sh)
        q = UQ(np.array(v), as_units(ex, rng.choice(['dim', 'string', 'quantity'])), s)
        return q.copy(), Pair(np.array(v), s.astype('d'), ex)
    q = UQ(np.array(v), as_units(ex, rng.choice(['dim', 'string', 'quantity'])), np.array(s), dtype=np.dtype(dt)).copy()
    return q, Pair(np.array(v), s, ex)


def verify(mon, what, q, p, rt=1e-9):
    mon.check(isinstance(q, UQ), '%s: result is a %s', what, type(q).__name__)
    invariant(q, what)
    mon.check(same_dims(q, p.ex), '%s: units are %s, expected %s', what, dims(q), M.show(p.ex))
    mon.check(close(q.magnitude, p.v, rt), '%s: value is %s, expected %s', what, q.magnitude, p.v)
    mon.check(close(q.uncertainty.magnitude, p.s, rt), '%s: uncertainty is %s, expected %s (value %s)', what, q.uncertainty.magnitude, p.s, p.v)
    with np.errstate(all='ignore'):
        mon.check(close(q.relative_uncertainty, p.s / p.v, 10 * rt), '%s: relative uncertainty is %s, expected %s', what, q.relative_uncertainty, p.s / p.v)


def gen_index(rng, shape):
    """an index for this shape"""
    nd = len(shape)
    if nd == 0:
        return rng.choice([(), Ellipsis, None, (None,)]), 'zero-d'
    c = rng.random()

    def one(n):
        k = rng.randrange(4)
        if k == 0 and n:
            return rng.randrange(-n, n)
        if k == 1:
            return slice(rng.choice([None, 0, 1, -2]), rng.choice([None, n, -1]), rng.choice([None, 1, 2, -1]))
        return slice(None)
    if c < .25:
        return one(shape[0]), 'one'
    if c < .45:
        return tuple(one(n) for n in shape[:rng.randint(1, nd)]), 'tuple'
    if c < .55:
        return (Ellipsis, one(shape[-1])), 'ellipsis'
    if c < .65:
        return (None, one(shape[0])), 'newaxis'
    if c < .8:
        m = np.array([rng.random() < .5 for _ in range(int(np.prod(shape)))], bool).reshape(shape)
        if rng.random() < .5:
            m = np.array([rng.random() < .5 for _ in range(shape[0])], bool)
        return m, 'mask'
    if shape[0]:
        k = [rng.randrange(-shape[0], shape[0]) for _ in range(rng.randint(1, 4))]
        if nd > 1 and shape[1] and rng.random() < .4:
            return (np.array(k), np.array([rng.randrange(shape[1]) for _ in k])), 'fancy2'
        return rng.choice([k, np.array(k), np.array(k).reshape(-1, 1)]), 'fancy'
    return slice(None), 'one'


CLOSE = {'d': 1e-9, 'f': 2e-5}


def sequence_case(rng, mon, i):
    dt = rng.choice(['d', 'd', 'd', 'f'])
    q, p = gen(rng, nan=rng.random() < .2, dt=dt)
    rt = CLOSE[dt]
    trace = []
    verify(mon, 'construction', q, p, rt)
    others = []
    for step in range(rng.choice([1, 2, 3, 5, 8])):
        op = rng.choice(['rescale', 'rescale', 'simplified', 'units', 'index', 'index', 'copy', 'scale', 'uncertainty', 'uncertainty quantity', 'iterate', 'astype', 'own', 'UQ', 'units same', 'inplace'])
        before = snap(q)
        old = q
        what = None
        if op in ('rescale', 'units', 'UQ'):
            ex = gen_compatible(rng, p.ex)
            f = M.ratio(p.ex, ex)
            if not (1e-12 < f < 1e12 and mild(ex, -20, 20)):
                continue
            f = M.fl(f)
            form = as_units(ex, rng.choice(['dim', 'quantity', 'unit', 'string']))
            what = '%s to %s' % (op, M.show(ex))
            if op == 'rescale':
                q = q.rescale(form)
            elif op == 'UQ':
                q = UQ(q, form)
                dt, rt = 'd', rt
            else:
                if isinstance(q.base, Quantity):
                    _, err = attempt(setattr, q, 'units', form)
                    if err is not None:
                        mon.check(snap(q) == before, 'a refused unit assignment changed the uncertain quantity')
                        continue
                else:
                    q.units = form
            p = Pair(p.v * f, p.s * f, ex)
        elif op == 'units same':
            if isinstance(q.base, Quantity):
                continue
            q.units = as_units(p.ex)
        elif op == 'simplified':
            ex = M.si_expr(M.dim_of(p.ex))
            f = M.fl(M.ratio(p.ex, ex))
            if not 1e-12 < f < 1e12:
                continue
            q = q.simplified
            p = Pair(p.v * f, p.s * f, ex)
        elif op == 'index':
            k, kind = gen_index(rng, q.shape)
            what = 'index %r' % (k,)
            q = q[k]
            p = Pair(p.v[k], p.s[k], p.ex)
        elif op == 'copy':
            q = rng.choice([lambda: q.copy(), lambda: __import__('copy').deepcopy(q), lambda: __import__('copy').copy(q)])()
        elif op == 'own':
            q = q * 1
            old = None
        elif op == 'astype':
            if dt == 'f':
                q = q.astype('d')
                dt = 'd'
            else:
                q = q.astype('d')
        elif op == 'scale':
            k = rng.choice([2, -3, .5, 10, -1])
            what = 'times %r' % k
            q = q * k if rng.random() < .5 else k * q
            p = Pair(p.v * k, p.s * abs(k), p.ex)
        elif op == 'inplace':
            k = rng.choice([2, -3, .5])
            q *= k
            p = Pair(p.v * k, p.s * abs(k), p.ex)
            if old is not None:
                old = None
            others = []
        elif op == 'uncertainty':
            s = np.abs(gen_array(rng, 'd', q.shape, layout=False)) + np.arange(q.size).reshape(q.shape) * .01
            given = Quantity(s, as_units(p.ex, 'dim'))
            q.uncertainty = given
            p = Pair(p.v, s, p.ex)
            old = None
            others = []
        elif op == 'uncertainty quantity':
            ex = gen_compatible(rng, p.ex)
            f = M.ratio(ex, p.ex)
            if not 1e-9 < f < 1e9:
                continue
            s = np.abs(gen_array(rng, 'd', q.shape, layout=False)) + np.arange(q.size).reshape(q.shape) * .01
            g = Quantity(s, as_units(ex, 'dim'))
            w = Watch(g)
            what = 'uncertainty in %s' % M.show(ex)
            q.uncertainty = g
            w.verify('setting the uncertainty')
            p = Pair(p.v, s * M.fl(f), p.ex)
            old = None
            others = []
        elif op == 'iterate':
            if q.ndim == 0:
                continue
            items = list(q)
            mon.check(len(items) == len(p.v), 'iteration gives %d items', len(items))
            for n, x in enumerate(items):
                verify(mon, 'item %d of iteration' % n, x, Pair(p.v[n], p.s[n], p.ex), rt)
        trace.append(what or op)
        name = ' -> '.join(trace)
        verify(mon, name, q, p, rt)
        if old is not None and op not in ('units', 'units same'):
            mon.check(snap(old) == before, '%s: changed its operand', name)
        # earlier results keep their state
        for o, st, n in others:
            if o is not q:
                mon.check(snap(o) == st, '%s: changed the earlier result of %s', name, n)
        if op not in ('index', 'units', 'units same', 'UQ'):
            others.append((q, snap(q), name))
        else:
            others = []
        mon.ev(op, (tuple(t.split(' ')[0] for t in trace[-2:]), q.shape, bool(np.isnan(p.v).any()), dt, what and what[:5]), what)
    mon.ev('sequence', tuple(t.split(' ')[0] for t in trace), trace)


def axis_of(rng, nd):
    return rng.choice([None] + list(range(-nd, nd)))


REDUCE = ['sum', 'mean', 'nansum', 'nanmean', 'max', 'min', 'nanmax', 'nanmin', 'argmax', 'argmin', 'nanargmax', 'nanargmin']


def reduce_case(rng, mon, i):
    op = REDUCE[i % len(REDUCE)]
    dt = rng.choice(['d', 'd', 'd', 'f'])
    shape = rng.choice([(1,), (3,), (5,), (2, 3), (3, 2), (2, 2, 2), (1, 3), (3, 1), (2, 3, 4), ()])
    if shape == () and not op in ('sum', 'mean', 'max', 'min'):
        shape = (2,)
    q, p = gen(rng, shape, nan=rng.random() < (.7 if 'nan' in op else .2), dt=dt)
    ax = axis_of(rng, len(shape)) if shape else None
    if rng.random() < .2 and p.v.size:
        # ties
        v = np.array(p.v)
        v.flat[rng.randrange(v.size)] = v.flat[0]
        q = UQ(v, q.units, p.s, dtype=np.dtype(dt))
        p = Pair(v, p.s, p.ex)
    if rng.random() < .2 and len(shape) > 1:
        q, p = q[:, ::-1], Pair(p.v[:, ::-1], p.s[:, ::-1], p.ex)
    w = Watch(q)
    rt = 1e-9 if dt == 'd' else 1e-4
    v, s = p.v, p.s
    nan = np.isnan(v)
    what = '%s(axis=%s) of %r' % (op, ax, q)
    form = rng.randrange(3)
    f = getattr(q, op)
    call = lambda: f() if ax is None and form == 0 else f(axis=ax) if form == 1 else f(ax)
    if op in ('sum', 'mean', 'max', 'min', 'argmax', 'argmin') and rng.random() < .3:
        call = lambda: getattr(np, op)(q, axis=ax)
        what = 'np.' + what
    if 'nan' in op and op not in ('nansum',) and (nan.all(axis=ax)).any():
        return
    r, err = attempt(call)
    mon.check(err is None, '%s raised %r', what, err)
    w.verify(what)
    if 'arg' in op:
        want = getattr(np, op)(v, axis=ax)
        mon.check(np.array_equal(r, want) and not isinstance(r, Quantity), '%s is %r, expected %r', what, r, want)
    else:
        if op in ('sum', 'mean'):
            n = v.size if ax is None else v.shape[ax]
            val = getattr(np, op)(v, axis=ax)
            u = np.sqrt(np.sum(s.astype('g') ** 2, axis=ax)) / (n if op == 'mean' else 1)
        elif op in ('nansum', 'nanmean'):
            n = np.sum(~nan, axis=ax)
            val = getattr(np, op)(v, axis=ax)
            u = np.sqrt(np.sum(np.where(nan, 0, s).astype('g') ** 2, axis=ax)) / (n if op == 'nanmean' else 1)
        else:
            val = getattr(np, op)(v, axis=ax)
            arg = getattr(np, op.replace('max', 'argmax').replace('min', 'argmin'))(v, axis=ax)
            if ax is None:
                u = s[np.unravel_index(arg, v.shape)] if v.ndim else s
            else:
                u = np.take_along_axis(s, np.expand_dims(arg, ax), ax).squeeze(ax)
        mon.check(isinstance(r, UQ), '%s is a %s', what, type(r).__name__)
        invariant(r, what)
        mon.check(r.shape == np.shape(val), '%s has shape %s, expected %s', what, r.shape, np.shape(val))
        sc = np.nanmax(np.abs(v)) if v.size and not nan.all() else 0
        mon.check(close(r.magnitude, val, rt, rt * sc), '%s is %s, expected %s', what, r.magnitude, val)
        mon.check(close(r.uncertainty.magnitude, u, rt), '%s has uncertainty %s, expected %s', what, r.uncertainty.magnitude, u)
        mon.check(same_dims(r, p.ex), '%s has units %s', what, dims(r))
        # in other units the same
        ex = gen_compatible(rng, p.ex)
        f_ = M.ratio(p.ex, ex)
        if 1e-6 < f_ < 1e6 and dt == 'd' and op not in ('max', 'min', 'nanmax', 'nanmin'):
            r2 = getattr(q.rescale(as_units(ex)), op)(axis=ax)
            k = M.fl(f_)
            mon.check(close(r2.uncertainty.magnitude, u * k, 1e-8) and close(r2.magnitude, val * k, 1e-8, 1e-8 * sc * k), '%s after rescaling is %r, expected %s +- %s', what, r2, val * k, u * k)
    mon.ev(op, (ax, shape, dt, int(nan.sum()), form), what)


def refused_case(rng, mon, i):
    q, p = gen(rng)
    sh = q.shape
    before = snap(q)
    c = i % 5
    if c == 0:
        bad = rng.choice([s for s in [(), (1,), (2,), (3,), (2, 3), (3, 2), (1, 3), (7,), (0,)] if s != sh])
        g = Quantity(np.ones(bad), as_units(p.ex, 'dim'))
        f = lambda: setattr(q, 'uncertainty', g)
    elif c == 1:
        g = Quantity(np.ones(sh), as_units(gen_incompatible(rng, p.ex), 'dim'))
        f = lambda: setattr(q, 'uncertainty', g)
    elif c == 2:
        bad = rng.choice([s for s in [(), (1,), (2,), (3,), (2, 3), (3, 2), (7,)] if s != sh])
        g = np.ones(bad)
        f = lambda: UQ(np.ones(sh), as_units(p.ex), g)
    elif c == 3:
        g = Quantity(np.ones(sh), as_units(gen_incompatible(rng, p.ex), 'dim'))
        f = lambda: UQ(np.ones(sh), as_units(p.ex), g)
    else:
        ex = gen_incompatible(rng, p.ex)
        g = as_units(ex, rng.choice(['dim', 'quantity', 'string']))
        k = rng.randrange(3)
        f = [lambda: q.rescale(g), lambda: setattr(q, 'units', g), lambda: UQ(q, g)][k]
    w = Watch(g) if isinstance(g, (np.ndarray, Dimensionality)) else Watch()
    r, err = attempt(f)
    mon.check(isinstance(err, ValueError), 'case %d: %r with %r gives %r', c, q, g, err or r)
    mon.check(snap(q) == before, 'case %d: a refused operation changed the uncertain quantity: %s became %s', c, before, snap(q))
    w.verify('a refused operation')
    verify(mon, 'after refusal', q, p)
    mon.ev('refused', (c, sh, getattr(g, 'shape', None)))


def plain_uncertainty_case(rng, mon, i):
    """uncertainties given as plain numbers: in the constructor they have the units of the value, in the setter plain numbers only suit a pure number"""
    q, p = gen(rng)
    s = np.abs(gen_array(rng, 'd', q.shape, layout=False))
    given = s.tolist() if rng.random() < .5 else s
    u = UQ(p.v, as_units(p.ex), given)
    verify(mon, 'plain uncertainty', u, Pair(p.v, s, p.ex))
    z = UQ(p.v, as_units(p.ex))
    verify(mon, 'no uncertainty', z, Pair(p.v, np.zeros(q.shape), p.ex))
    before = snap(u)
    r, err = attempt(setattr, u, 'uncertainty', given)
    if M.is_dimless(p.ex):
        mon.check(err is None, 'plain uncertainty of a pure number refused: %r', err)
    else:
        mon.check(isinstance(err, ValueError) and snap(u) == before, 'plain uncertainty for units %s: %r', M.show(p.ex), err)
    mon.ev('plain uncertainty', (q.shape, M.is_dimless(p.ex)))


def sharing_case(rng, mon, i):
    """results own their uncertainty: changing it does not reach the source"""
    q, p = gen(rng, some_shape(rng, [(), (3,), (2, 2)]))
    ex = gen_compatible(rng, p.ex)
    if not 1e-9 < M.ratio(p.ex, ex) < 1e9:
        ex = p.ex
    ops = [('rescale', lambda: q.rescale(as_units(ex))), ('rescale same', lambda: q.rescale(q.units)), ('simplified', lambda: q.simplified), ('copy', lambda: q.copy()), ('times', lambda: q * 2), ('neg', lambda: -q),
           ('astype', lambda: q.astype('d')), ('plus', lambda: q + 0 * q), ('power', lambda: q ** 1), ('deepcopy', lambda: __import__('copy').deepcopy(q))]
    if q.ndim and q.size:
        ops += [('mask', lambda: q[np.ones(q.shape, bool)]), ('sum', lambda: q.sum()), ('max', lambda: q.max(0)), ('fancy', lambda: q[[0, -1]])]
    n, f = ops[i % len(ops)]
    before = snap(q)
    r = f()
    st = snap(r)
    mon.check(snap(q) == before, '%s changed its operand', n)
    r.uncertainty *= 3
    if n not in ('rescale same',) or not np.shares_memory(r.magnitude, q.magnitude):
        mon.check(snap(q) == before, 'changing the uncertainty of the result of %s changed the operand', n)
    else:
        mon.extra['result shares data'] += 1
    mon.ev('own uncertainty', (n, q.shape))


def out_case(rng, mon, i):
    """reductions into an output quantity"""
    op = ['sum', 'nansum', 'mean', 'nanmean', 'max', 'nanmax', 'min', 'nanmin', 'sqrt'][i % 9]
    shape = some_shape(rng, [(), (3,), (2, 3), (1, 4), (2, 2, 2)])
    q, p = gen(rng, shape, 'd') if shape else gen(rng, shape)
    if 'nan' in op and q.size > 2 and rng.random() < .4:
        v = np.array(p.v, 'd')
        v.flat[rng.randrange(v.size)] = np.nan
        q, p = UQ(v, as_units(p.ex), p.s), Pair(v, p.s, p.ex)
    ax = rng.choice([None] + list(range(-len(shape), len(shape))))
    ka = {'axis': ax}
    ex = p.ex
    if op == 'sqrt':
        q = UQ(np.abs(mag(q)) + .5, as_units(p.ex), p.s)
        ka, ex = {}, M.ex_pow(p.ex, 0.5)
    want, err = attempt(lambda: getattr(q, op)(**ka))
    if err is not None or np.isnan(mag(want)).any():
        return
    eo = rng.choice([ex, gen_compatible(rng, ex), gen_incompatible(rng, ex)])
    kind = rng.choice(['plain', 'uncertain', 'uncertain', 'view', 'shape', 'array'])
    z = np.full(want.shape, 7.0)
    what = '%s(axis=%s, out=%s in %s) of %r' % (op, ax, kind, M.show(eo), q)
    w = Watch(q)
    f = getattr(q, op)
    if kind == 'shape':
        out = rng.choice([Quantity, UQ])(np.full((2,) + want.shape, 7.0), as_units(eo))
        before = snap(out)
        r, err = attempt(lambda: f(out=out, **ka))
        mon.check(isinstance(err, ValueError), '%s: an output of another shape gives %r', what, r if err is None else err)
        mon.check(same_dims(out, eo), '%s: a refused output has the units %s', what, out.dimensionality)
    elif kind == 'array':
        out = z
        r, err = attempt(lambda: f(out=out, **ka))
        if err is None:
            mon.check(isinstance(r, Quantity) and same_dims(r, ex) and close(mag(r), mag(want), 1e-12), '%s is %r', what, r)
    else:
        cls = UQ if kind == 'uncertain' else Quantity
        if kind == 'view':
            owner = Quantity(np.full((2,) + want.shape, 7.0), as_units(eo))
            out = owner[1, ...]
            if not np.shares_memory(mag(out), mag(owner)):
                return
            before = snap(owner)
        else:
            out = cls(z.copy(), as_units(eo)) if cls is Quantity else UQ(z.copy(), as_units(eo), z + 1)
        r, err = attempt(lambda: f(out=out, **ka))
        if kind == 'view' and M.ex_norm(eo) != M.ex_norm(ex):
            mon.check(isinstance(err, ValueError) and snap(owner) == before, '%s: an output view with other units gives %r, its owner is %r', what, r if err is None else err, owner)
        else:
            mon.check(err is None, '%s raised %r', what, err)
            mon.check(r is out, '%s did not return the output', what)
            mon.check(same_dims(out, ex) and close(mag(out), mag(want), 1e-12), '%s stored %r, expected %r', what, out, want)
            if cls is UQ:
                invariant(out, what)
                mon.check(same_dims(out.uncertainty, ex) and close(mag(out.uncertainty), mag(want.uncertainty), 1e-12), '%s stored the uncertainty %r, expected %r', what, out.uncertainty, want.uncertainty)
            if kind == 'view':
                mon.check(close(mag(owner[1, ...]), mag(want), 1e-12) and bool(np.all(mag(owner)[0] == 7)), '%s: the owner of the output is %r', what, owner)
    w.verify(what)
    mon.ev('output', (op, ax, shape, kind, M.ex_norm(eo) == M.ex_norm(ex)))


FAMILIES = [Family('output', out_case, 1600, 40000), Family('sequence', sequence_case, 3500, 150000), Family('reduce', reduce_case, 3600, 150000), Family('refused', refused_case, 1200, 30000), Family('plain', plain_uncertainty_case, 400, 10000), Family('sharing', sharing_case, 500, 5000)]
REQUIRED_OPS = ['rescale', 'simplified', 'units', 'index', 'copy', 'uncertainty', 'uncertainty quantity', 'iterate', 'sequence', 'refused', 'plain uncertainty', 'own uncertainty', 'output'] + REDUCE
