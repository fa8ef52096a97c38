"""C20: mathematical functions account for units."""
import contextlib
import math
import sys
import types
import numpy as np
from ..core import Family, Violation
from .. import model as M
from ..lib import *
from quantities import umath
from quantities.decorators import quantitizer

PROP = 'C20'
QUICK_SCALE = 4
RULE = ('a case calls one of the library\'s own mathematical functions on arguments written in random units of the right (or a wrong) dimension; numpy or an explicit formula on magnitudes converted with exact '
        'reference factors is the oracle, the same physical arguments in other units must give the same physical result, arguments are snapshot; distinct by (function, units, shapes, dtypes, arguments, outcome)')
DIMLESS = [u for u in M.GROUPS[M.ZERO]]
ANGLES = [M.BY_NAME[n] for n in ('radian', 'arcdegree', 'milliradian', 'arcminute', 'arcsecond', 'turn', 'grad', 'microradian', 'degrees_north') if n in M.BY_NAME]
SH = [(), (1,), (3,), (4,), (2, 3), (2, 1), (2, 2, 2), (0,), (1, 4)]


def dimless_expr(rng):
    c = rng.random()
    if c < .25:
        return {}
    if c < .55:
        return {rng.choice(DIMLESS).name: 1}
    if c < .6:
        return {rng.choice(DIMLESS).name: rng.choice([2, -1])}
    for _ in range(20):
        g = rng.choice([x for x in M.GROUPS.values() if len(x) > 2])
        a, b = rng.sample(g, 2)
        e = M.ex_mul({a.name: 1}, {b.name: -1})
        if 1e-9 < M.factor(e) < 1e9:
            return e
    return {}


def angle_expr(rng):
    return {rng.choice(ANGLES).name: 1} if rng.random() < .8 else dimless_expr(rng)


def data_for(rng, f, lo, hi, sh=None, dt=None):
    """array whose values times f lie in [lo, hi]"""
    sh = some_shape(rng, SH) if sh is None else sh
    dt = dt or rng.choice(['d', 'd', 'd', 'f', 'l'])
    n = int(np.prod(sh, dtype=int))
    vals = []
    for _ in range(n):
        x = rng.choice([lo, hi, 0.0, 1.0, -1.0]) if rng.random() < .15 else rng.uniform(lo, hi)
        vals.append(min(max(x, lo), hi) / f)
    a = np.array(vals, dtype='d').reshape(sh)
    if dt == 'l':
        a = np.trunc(a)
        if not (abs(a) < 1e15).all():
            dt = 'd'
    a = a.astype(dt)
    if a.dtype.kind == 'f' and a.size and rng.random() < .1:
        a = a.copy()
        a.flat[rng.randrange(a.size)] = rng.choice([np.nan, np.nan, np.inf])
    return a


def quant(rng, a, ex):
    k = rng.random()
    if k < .1 and a.dtype.kind == 'f':
        return UQ(a.copy(), as_units(ex), np.abs(a) * .01 + .01)
    if k < .25 and a.ndim:
        b = np.empty((2,) + a.shape, a.dtype)
        b[...] = a
        return Quantity(b, as_units(ex))[1]
    return Quantity(a.copy(), as_units(ex, rng.choice(['dim', 'quantity'])))


def eps(dt):
    return {'f': 1.2e-7, 'e': 1e-3}.get(np.dtype(dt).char, 2.3e-16)


UNARY = {
    # name: (argument kind, result units, domain, derivative bound given x and y)
    'sin': ('angle', {}, -20, 20, lambda x, y: np.abs(x)), 'cos': ('angle', {}, -20, 20, lambda x, y: np.abs(x)), 'tan': ('angle', {}, -20, 20, lambda x, y: np.abs(x) * (1 + y * y)),
    'arcsin': ('num', {'radian': 1}, -1, 1, None), 'arccos': ('num', {'radian': 1}, -1, 1, None), 'arctan': ('num', {'radian': 1}, -50, 50, lambda x, y: 1 + 0 * x),
    'sinh': ('num', {}, -20, 20, lambda x, y: np.abs(x) * np.cosh(x)), 'cosh': ('num', {}, -20, 20, lambda x, y: np.abs(x) * np.cosh(x)), 'tanh': ('num', {}, -20, 20, lambda x, y: 1 + 0 * x),
    'arcsinh': ('num', {}, -50, 50, lambda x, y: 1 + 0 * x), 'arccosh': ('num', {}, 1, 50, None), 'arctanh': ('num', {}, -.999, .999, lambda x, y: 1 + 1 / (1 - x * x)),
}
NAMES = sorted(UNARY)


def unary_case(rng, mon, i):
    name = NAMES[i % len(NAMES)]
    kind, rex, lo, hi, bound = UNARY[name]
    fn = getattr(pq, name)
    npf = getattr(np, name)
    c = rng.random()
    if c < .15:
        # plain arguments behave as numpy's function
        a = data_for(rng, 1.0, lo, hi)
        x = rng.choice([a, a.tolist() if a.ndim else float(a)])
        got, want = fn(x), npf(x)
        mon.check(type(got) is type(want) and identical(got, want), '%s(%r) of plain numbers is %r, numpy gives %r', name, x, got, want)
        if a.ndim:
            o = np.full(a.shape, -7.0)
            got = fn(x, o)
            mon.check(got is o and identical(o, npf(x, np.full(a.shape, -7.0))), '%s(%r, out) of plain numbers is %r and leaves %r in out, numpy gives %r', name, x, got, o, want)
            mon.ev('out', ('plain', name))
        mon.ev('plain', (name, np.asarray(a).dtype.str, a.shape))
        return
    if c < .3:
        ex = gen_expr(rng)
        if M.is_dimless(ex):
            return
        q = quant(rng, gen_array(rng, 'd'), ex)
        w = Watch(q)
        r, err = attempt(fn, q)
        mon.check(isinstance(err, ValueError), '%s(%r) gives %r', name, q, r if err is None else err)
        w.verify(name)
        mon.ev('refused', (name, M.dim_of(ex)), (name, M.show(ex)))
        return
    ex = angle_expr(rng) if kind == 'angle' else dimless_expr(rng)
    f = M.fl(M.factor(ex))
    a = data_for(rng, f, lo, hi)
    q = quant(rng, a, ex)
    if isinstance(q, UQ):
        a = np.asarray(q.magnitude)
    uo = None
    if rng.random() < .06 and len(ex) == 1 and list(ex.values()) == [1] and lo <= f <= hi:
        q = uo = uobj(list(ex)[0])
        a = np.array(1.0)
    w = Watch(q)
    out = None
    if rng.random() < .15 and a.dtype == 'd' and not isinstance(q, UQ):
        out = np.full(a.shape, -7.0)
        r = fn(q, out)
    else:
        r = fn(q)
    w.verify(name)
    x = a.astype('g') * np.longdouble(f)
    with np.errstate(all='ignore'):
        y = npf(x)
    mon.check(isinstance(r, Quantity) and not isinstance(r, UnitQuantity), '%s(%r) is a %s', name, q, type(r).__name__)
    mon.check(same_dims(r, rex), '%s(%r) has the units %s', name, q, r.dimensionality)
    e = max(eps(a.dtype), eps(r.dtype) if r.dtype.kind == 'f' else 0) * 8
    g = mag(r).astype('g')
    mon.check(g.shape == y.shape, '%s(%r) has the shape %s', name, q, g.shape)
    if bound is None:
        # ill-conditioned at the end of the domain: the argument may be off by its rounding
        with np.errstate(all='ignore'):
            d = np.abs(x) * e
            clip = (lambda v: np.clip(v, -1, 1)) if name != 'arccosh' else (lambda v: np.maximum(v, 1))
            lo_, hi_ = npf(clip(x - d)), npf(clip(x + d))
            inside = (x - d >= lo) & ((x + d <= hi) | (name == 'arccosh'))
        mn, mx = np.minimum(lo_, hi_), np.maximum(lo_, hi_)
        ok = np.isnan(x) | ~inside | ((g >= mn - e * 4) & (g <= mx + np.abs(mx) * e + e * 4))
        ok &= ~(inside & np.isnan(g))
    else:
        tol = e * (bound(x, y) + np.abs(y) + 1e-300)
        ok = (np.abs(g - y) <= tol) | (np.isnan(g) & np.isnan(y)) | (g == y) | (np.isinf(x))
    mon.check(bool(np.all(ok)), '%s(%r) is %r, by definition %s', name, q, r, y)
    if out is not None:
        mon.check(np.array_equal(out, mag(r), equal_nan=True), '%s(%r, out) left %s in out, returned %r', name, q, out, r)
        mon.ev('out', name)
    mon.check(uo is not None or not np.shares_memory(np.asarray(r), np.asarray(q)), '%s(%r) shares memory with its argument', name, q)
    mon.ev(name, (tuple(sorted(ex.items())), a.shape, a.dtype.str, type(q).__name__), (name, q, r) if a.size < 3 else None)


def two_case(rng, mon, i):
    """arctan2 and hypot"""
    name = ['arctan2', 'hypot'][i % 2]
    fn, npf = getattr(pq, name), getattr(np, name)
    ex = gen_expr(rng, exps=ALL_EXPS)
    if not mild(ex):
        return
    c = rng.random()
    ex2 = gen_compatible(rng, ex) if c < .5 else dict(ex) if c < .75 else gen_incompatible(rng, ex)
    if not mild(ex2) or (M.compatible(ex, ex2) and not 1e-9 < M.ratio(ex2, ex) < 1e9):
        return
    sh = some_shape(rng, SH)
    dt = rng.choice(['d', 'd', 'f', 'l'])
    a = gen_array(rng, dt, sh)
    b = gen_array(rng, rng.choice([dt, 'd']), bcast_shape(rng, sh))
    p, q = Quantity(a, as_units(ex)), Quantity(b, as_units(ex2))
    if rng.random() < .12:
        # plain
        got, want = fn(a, b), npf(a, b)
        mon.check(type(got) is type(want) and identical(got, want), '%s of plain arrays is %r, numpy gives %r', name, got, want)
        if np.ndim(want):
            o = np.full(want.shape, -7.0)
            got = fn(a, b, o)
            mon.check(got is o and identical(o, npf(a, b, np.full(want.shape, -7.0))), '%s(a, b, out) of plain arrays is %r and leaves %r in out, numpy gives %r', name, got, o, want)
            mon.ev('out', ('plain', name))
        mon.ev('plain', (name, a.shape, b.shape, dt))
        return
    w = Watch(p, q)
    osh = np.broadcast_shapes(a.shape, b.shape)
    out = np.full(osh, -7.0) if osh and rng.random() < .2 else None
    r, err = attempt(fn, p, q, *(() if out is None else (out,)))
    w.verify(name)
    what = '%s(%r, %r)' % (name, p, q)
    if out is not None and err is None:
        mon.check(np.array_equal(out, mag(r), equal_nan=True), '%s with an output leaves %s in it, returned %r', what, out, r)
        mon.ev('out', name)
    if not M.compatible(ex, ex2):
        mon.check(isinstance(err, ValueError), '%s gives %r', what, r if err is None else err)
        mon.ev('refused', (name, M.dim_of(ex), M.dim_of(ex2)))
        return
    if name == 'hypot' and err is not None:
        mon.check(isinstance(err, ValueError) and ex != ex2, '%s raises %r', what, err)
        mon.ev('hypot refused', (tuple(ex), tuple(ex2)))
        return
    mon.check(err is None, '%s raises %r', what, err)
    k = M.fl(M.ratio(ex2, ex))
    want = npf(a.astype('g'), b.astype('g') * np.longdouble(k))
    e = max(eps(x.dtype) for x in (a, b, r) if x.dtype.kind == 'f') * 40 if any(x.dtype.kind == 'f' for x in (a, b)) else 1e-14
    mon.check(same_dims(r, {'radian': 1} if name == 'arctan2' else ex), '%s has the units %s', what, r.dimensionality)
    mon.check(mag(r).shape == want.shape and close(mag(r), want, e, 1e-300), '%s is %r, by definition %s', what, r, want)
    mon.ev(name, (tuple(sorted(ex)), tuple(sorted(ex2)), a.shape, b.shape, dt), (what, r) if a.size < 3 else None)


def cross_case(rng, mon, i):
    ex1, ex2 = gen_expr(rng, 2), gen_expr(rng, 2)
    n = rng.choice([3, 3, 3, 2])
    pre = rng.choice([(), (2,), (4,), (2, 2)])
    a, b = gen_array(rng, rng.choice(['d', 'f', 'l']), pre + (n,)), gen_array(rng, 'd', (pre if rng.random() < .7 else ()) + (n,))
    kw = {}
    if len(pre) and a.shape == b.shape and rng.random() < .4:
        ax = rng.randrange(a.ndim)
        a, b = np.moveaxis(a, -1, ax), np.moveaxis(b, -1, ax)
        kw = {'axis': ax} if rng.random() < .5 or n == 2 else {'axisa': ax, 'axisb': ax, 'axisc': rng.choice([ax, 0, -1])}
    elif len(pre) and rng.random() < .5:
        # the vectors lie along another axis of each
        k = [rng.randrange(-x.ndim, x.ndim) for x in (a, b)]
        a, b = np.moveaxis(a, -1, k[0]), np.moveaxis(b, -1, k[1])
        kw = {'axisa': k[0], 'axisb': k[1]}
        if n == 3:
            kw['axisc'] = rng.randrange(-len(pre) - 1, len(pre) + 1)
    want = np.cross(a, b, **kw)
    c = rng.random()
    if c < .15:
        got = pq.cross(a, b, **kw)
        mon.check(not isinstance(got, Quantity) and identical(got, want), 'cross of plain arrays is %r, numpy gives %r', got, want)
        mon.ev('plain', ('cross', a.shape))
        return
    p = a if c < .25 else Quantity(a, as_units(ex1))
    q = b if .25 <= c < .35 else Quantity(b, as_units(ex2))
    ex = M.ex_mul(ex1 if isinstance(p, Quantity) else {}, ex2 if isinstance(q, Quantity) else {})
    w = Watch(p, q)
    r = pq.cross(p, q, **kw)
    w.verify('cross')
    mon.check(isinstance(r, Quantity) and same_dims(r, ex), 'cross(%r, %r) has the units %s, by definition %s', p, q, getattr(r, 'dimensionality', None), M.show(ex))
    # the library may convert one of them: compare in any case to rounding
    scale = np.max(np.abs(a)) * np.max(np.abs(b)) if a.size else 0
    mon.check(close(mag(r), want, 1e-6 if a.dtype == 'f' else 1e-12, scale * (1e-6 if a.dtype == 'f' else 1e-14)), 'cross(%r, %r) is %r, numpy on magnitudes gives %s', p, q, r, want)
    mon.ev('cross', (tuple(sorted(ex.items())), a.shape, tuple(kw), type(p).__name__, type(q).__name__))


def trapezoid(y, x, dx, axis):
    y = np.moveaxis(y.astype('g'), axis, -1)
    if x is None:
        d = np.asarray(dx, 'g')
        if d.ndim:
            d = d
        s = d * (y[..., 1:] + y[..., :-1]) / 2
    else:
        x = x.astype('g')
        if x.ndim > 1:
            x = np.moveaxis(x, axis, -1)
        s = (x[..., 1:] - x[..., :-1]) * (y[..., 1:] + y[..., :-1]) / 2
    return s.sum(-1)


@contextlib.contextmanager
def scipy_stand_in(on):
    """a module with the documented interface of scipy.integrate.trapezoid, which is not installed here"""
    if not on:
        yield
        return

    def stub(y, x=None, dx=1.0, axis=-1):
        y = np.asarray(y)
        return np.asarray(trapezoid(y, None if x is None else np.asarray(x), dx, axis), 'd')[()]
    top, sub = types.ModuleType('scipy'), types.ModuleType('scipy.integrate')
    top.__path__, top.integrate, sub.trapezoid = [], sub, stub
    sys.modules['scipy'], sys.modules['scipy.integrate'] = top, sub
    try:
        yield
    finally:
        del sys.modules['scipy'], sys.modules['scipy.integrate']


def trapz_case(rng, mon, i):
    ey, ed = gen_expr(rng, 2), gen_expr(rng, 2)
    sh = rng.choice([(2,), (3,), (5,), (2, 3), (3, 4), (2, 3, 4), (1,)])
    axis = rng.randrange(-len(sh), len(sh))
    y = gen_array(rng, rng.choice(['d', 'd', 'f', 'l']), sh)
    n = sh[axis]
    mode = rng.choice(['x', 'x', 'xnd', 'dx', 'dx', 'none'])
    x = dx = None
    kw = {}
    if mode == 'x':
        x = gen_array(rng, rng.choice(['d', 'l']), (n,))
        if rng.random() < .3:
            x = np.sort(x)[::rng.choice([1, -1])]
    elif mode == 'xnd':
        x = gen_array(rng, 'd', sh)
    elif mode == 'dx':
        dx = rng.choice([.5, 2.0, 3, rng.uniform(.1, 10), -.5, -3, rng.uniform(-10, -.1)])
    if axis != -1 or rng.random() < .3:
        kw['axis'] = axis
    else:
        axis = -1
    want = trapezoid(y, x, 1.0 if dx is None else dx, axis)
    scale = float(trapezoid(np.abs(y), None if x is None else np.cumsum(np.abs(x), axis=axis if x.ndim > 1 else 0) * 2, 1.0 if dx is None else abs(dx), axis).max()) if y.size else 0
    c = rng.random()
    py = y if c < .2 else Quantity(y, as_units(ey))
    px = x if x is None or .2 < c < .35 or c < .1 else Quantity(x, as_units(ed))
    pdx = dx if dx is None or .2 < c < .35 or c < .1 else Quantity(dx, as_units(ed))
    if px is not None:
        kw['x'] = px
    if pdx is not None:
        kw['dx'] = pdx
    w = Watch(*[o for o in (py, px, pdx) if o is not None])
    # the library leaves the sum to scipy if there is one
    stand_in = rng.random() < .3 and 'scipy' not in sys.modules
    with scipy_stand_in(stand_in):
        r = pq.trapz(py, **kw)
    w.verify('trapz')
    anyq = any(isinstance(o, Quantity) for o in (py, px, pdx))
    ex = M.ex_mul(ey if isinstance(py, Quantity) else {}, ed if isinstance(px, Quantity) or isinstance(pdx, Quantity) else {})
    what = 'trapz(%r, %r)' % (py, kw)
    tol = 1e-6 if y.dtype == 'f' else 1e-12
    if anyq:
        mon.check(isinstance(r, Quantity) and same_dims(r, ex), '%s has the units %s, by definition %s', what, getattr(r, 'dimensionality', None), M.show(ex))
        mon.check(close(mag(r), want, tol, tol * scale), '%s is %r, by definition %s', what, r, want)
        # the same curve in other units
        ey2, ed2 = gen_compatible(rng, ey), gen_compatible(rng, ed)
        if isinstance(py, Quantity) and all(1e-9 < v < 1e9 for v in (M.ratio(ey, ey2), M.ratio(ed, ed2))):
            kw2 = dict(kw)
            for k in ('x', 'dx'):
                if isinstance(kw.get(k), Quantity):
                    kw2[k] = kw[k].rescale(as_units(ed2))
            r2 = pq.trapz(py.rescale(as_units(ey2)), **kw2).rescale(r.units)
            mon.check(close(mag(r2), mag(r), 1e-5 if y.dtype == 'f' else 1e-10, (1e-5 if y.dtype == 'f' else 1e-10) * scale), '%s is %r, written in other units %r', what, r, r2)
            mon.ev('other units', ('trapz', M.dim_of(ey), M.dim_of(ed)))
    else:
        mon.check(not isinstance(r, Quantity) and close(r, want, tol, tol * scale), '%s of plain arrays is %r, by definition %s', what, r, want)
        mon.ev('plain', ('trapz', sh))
    mon.ev('trapz', (mode, sh, axis, tuple(sorted(ex.items())), type(py).__name__, type(px).__name__, type(pdx).__name__, stand_in))
    if stand_in:
        mon.ev('trapz with scipy', (mode, sh, axis, type(py).__name__, type(px).__name__, type(pdx).__name__))


def gradient_case(rng, mon, i):
    ef = gen_expr(rng, 2)
    sh = rng.choice([(3,), (5,), (2, 3), (3, 3), (2, 3, 4)])
    f = gen_array(rng, rng.choice(['d', 'd', 'f']), sh)
    mode = rng.choice(['one', 'one', 'each', 'coords', 'plain one', 'none'])
    eds = []
    if mode in ('one', 'plain one'):
        sp = [rng.uniform(.1, 10) * rng.choice([1, 1, -1])]
    elif mode == 'each':
        sp = [rng.uniform(.1, 10) * rng.choice([1, 1, -1]) for _ in sh]
    elif mode == 'coords':
        sp = [np.cumsum(np.abs(gen_array(rng, 'd', (n,), nonzero=True)) + .1) * rng.choice([1, 1, -1]) for n in sh]
    else:
        sp = []
    want = np.gradient(f, *sp)
    if isinstance(want, np.ndarray):
        want = [want]
    c = rng.random()
    qf = f if c < .1 else Quantity(f, as_units(ef))
    args, exs = [], []
    for s in sp:
        e = gen_expr(rng, 1) if not mode.startswith('plain') and rng.random() < .85 else None
        exs.append(e or {})
        args.append(s if e is None else Quantity(s, as_units(e)))
    if mode == 'one':
        exs = exs * len(sh)
    if not sp or len(exs) < len(sh):
        exs = (exs or [{}]) * len(sh)
        exs = exs[:len(sh)]
    w = Watch(qf, *args)
    r = pq.gradient(qf, *args)
    w.verify('gradient')
    what = 'gradient(%r, %s)' % (qf, args)
    anyq = any(isinstance(o, Quantity) for o in [qf] + args)
    rs = [r] if isinstance(r, np.ndarray) else list(r)
    mon.check(len(rs) == len(want), '%s gives %d arrays, numpy %d', what, len(rs), len(want))
    for g, wn, e in zip(rs, want, exs):
        if anyq:
            ex = M.ex_div(ef if isinstance(qf, Quantity) else {}, e)
            mon.check(isinstance(g, Quantity) and same_dims(g, ex), '%s has the units %s, by definition %s', what, getattr(g, 'dimensionality', None), M.show(ex))
            mon.check(close(mag(g), wn, 1e-6 if f.dtype == 'f' else 1e-12, 1e-300), '%s is %r, numpy on magnitudes gives %s', what, g, wn)
        else:
            mon.check(not isinstance(g, Quantity) and identical(g, wn), '%s of plain arrays is %r, numpy gives %s', what, g, wn)
    mon.ev('gradient' if anyq else 'plain', ('gradient', mode, sh, tuple(sorted(ef.items())), tuple(tuple(e) for e in exs)))


def diff_case(rng, mon, i):
    ex = gen_expr(rng, 2)
    if i % 2:
        sh = rng.choice([(4,), (2, 3), (3, 4, 2)])
        a = gen_array(rng, rng.choice(['d', 'f', 'l', 'D']), sh)
        n = rng.choice([1, 1, 2, 0])
        ax = rng.randrange(-len(sh), len(sh))
        q = a if rng.random() < .1 else Quantity(a, as_units(ex))
        w = Watch(q)
        r = pq.diff(q, n, axis=ax) if rng.random() < .7 else pq.diff(q, n=n, axis=ax)
        w.verify('diff')
        want = np.diff(a, n, axis=ax)
        mon.check(identical(mag(r) if isinstance(r, Quantity) else r, want), 'diff(%r, %d, %d) is %r, numpy gives %s', q, n, ax, r, want)
        if isinstance(q, Quantity):
            mon.check(isinstance(r, Quantity) and same_dims(r, ex), 'diff of %s has the units %s', M.show(ex), getattr(r, 'dimensionality', None))
        mon.ev('diff', (sh, n, ax, tuple(sorted(ex.items())), a.dtype.str))
        return
    a = gen_array(rng, 'd', rng.choice([(4,), (2, 3), (1,), (0,)]))
    q = a if rng.random() < .1 else Quantity(a, as_units(ex))
    kw, mags = {}, {}
    for k in ('to_end', 'to_begin'):
        if rng.random() < .5:
            v = gen_array(rng, 'd', rng.choice([(), (1,), (2,)]))
            if isinstance(q, Quantity):
                e2 = gen_compatible(rng, ex)
                if not 1e-9 < M.ratio(e2, ex) < 1e9:
                    return
                kw[k] = Quantity(v, as_units(e2))
                mags[k] = v * M.fl(M.ratio(e2, ex))
            else:
                kw[k] = mags[k] = v
    w = Watch(q, *kw.values())
    r = pq.ediff1d(q, **kw)
    w.verify('ediff1d')
    want = np.ediff1d(a, **mags)
    if isinstance(q, Quantity):
        mon.check(isinstance(r, Quantity) and same_dims(r, ex), 'ediff1d(%r) has the units %s', q, getattr(r, 'dimensionality', None))
        bad = gen_incompatible(rng, ex)
        x, err = attempt(pq.ediff1d, q, to_end=Quantity(1.0, as_units(bad)))
        mon.check(err is not None, 'ediff1d(%r, to_end=1 %s) gives %r', q, M.show(bad), x)
        end = rng.choice(['to_end', 'to_begin'])
        plain = rng.choice([2.0, 3, np.array([1.0, 0.0]), [0, 5]])
        if not M.is_dimless(ex):
            x, err = attempt(lambda: pq.ediff1d(q, **{end: plain}))
            mon.check(err is not None, 'ediff1d(%r, %s=%r) gives %r', q, end, plain, x)
            x, err = attempt(lambda: pq.ediff1d(a, **{end: Quantity(plain, as_units(ex))}))
            mon.check(err is not None, 'ediff1d(%r, %s=%r %s) gives %r', a, end, plain, M.show(ex), x)
            x, err = attempt(lambda: pq.ediff1d(q, **{end: 0.0}))
            mon.check(err is None and same_dims(x, ex) and close(mag(x), np.ediff1d(a, **{end: 0.0}), 1e-12), 'ediff1d(%r, %s=0.0) is %r (%r)', q, end, x, err)
            mon.ev('refused', ('ediff1d plain', end, repr(plain), M.dim_of(ex)))
    mon.check(close(np.asarray(r), want, 1e-12), 'ediff1d(%r, %s) is %r, numpy on magnitudes gives %s', q, kw, r, want)
    mon.ev('ediff1d', (a.shape, tuple(sorted(kw)), tuple(sorted(ex.items())), type(q).__name__))


def unwrap_case(rng, mon, i):
    sh = rng.choice([(6,), (12,), (3, 5), (4, 4), (4, 3, 2), (2, 2, 5), (3, 4, 1)])
    ax = rng.randrange(-len(sh), len(sh))
    rad = np.cumsum(np.array([rng.uniform(-9, 9) if rng.random() < .4 else rng.uniform(-.5, .5) for _ in range(int(np.prod(sh)))]).reshape(sh), axis=ax)
    disc = rng.choice([None, None, math.pi, 3.5, 5.0, 1.0])
    d = np.diff(rad, axis=ax)
    m = np.abs((d % (2 * np.pi)) - np.pi)
    if (m < 1e-6).any() or (np.abs(np.abs(d) - (disc or np.pi)) < 1e-6).any():
        return
    kw = {'axis': ax} if ax != -1 or rng.random() < .3 else {}
    if not kw:
        ax = -1
        d = np.diff(rad, axis=ax)
        if (np.abs((d % (2 * np.pi)) - np.pi) < 1e-6).any() or (np.abs(np.abs(d) - (disc or np.pi)) < 1e-6).any():
            return
    want = np.unwrap(rad, axis=ax) if disc is None else np.unwrap(rad, disc, axis=ax)
    c = rng.random()
    if c < .12:
        got = pq.unwrap(rad, **kw) if disc is None else pq.unwrap(rad, disc, **kw)
        mon.check(not isinstance(got, Quantity) and identical(got, want), 'unwrap of a plain array is %r, numpy gives %s', got, want)
        mon.ev('plain', ('unwrap', sh))
        return
    u = rng.choice(ANGLES)
    q = Quantity(rad / u.fval, uobj(u.name))
    if disc is not None:
        if rng.random() < .7:
            v = rng.choice(ANGLES)
            kw['discont'] = Quantity(disc / v.fval, uobj(v.name))
        else:
            kw['discont'] = disc
    w = Watch(q)
    r = pq.unwrap(q, **kw)
    w.verify('unwrap')
    what = 'unwrap(%r, %s)' % (q, kw)
    mon.check(isinstance(r, Quantity) and same_dims(r, {u.name: 1}), '%s has the units %s', what, getattr(r, 'dimensionality', None))
    mon.check(close(mag(r) * u.fval, want, 1e-11, 1e-11), '%s is %r, by definition %s %s', what, r, want / u.fval, u.name)
    bad = gen_expr(rng)
    if not M.is_dimless(bad):
        x, err = attempt(pq.unwrap, Quantity(rad, as_units(bad)))
        mon.check(err is not None, 'unwrap of %s gives %r', M.show(bad), x)
        x, err = attempt(pq.unwrap, q, Quantity(3.0, as_units(bad)))
        mon.check(err is not None, 'unwrap with a discontinuity of 3 %s gives %r', M.show(bad), x)
        mon.ev('refused', ('unwrap', M.dim_of(bad)))
    mon.ev('unwrap', (u.name, sh, ax, disc, str(kw.get('discont', ''))[-12:]))


def reduce_case(rng, mon, i):
    """sum, prod, cumsum, cumprod, nansum as functions"""
    name = ['sum', 'prod', 'cumsum', 'cumprod', 'nansum'][i % 5]
    sh = rng.choice([(3,), (4,), (2, 3), (2, 2, 2), (0,)])
    a = gen_array(rng, rng.choice(['d', 'd', 'f', 'l']), sh)
    if name == 'nansum' and a.dtype.kind == 'f' and a.size:
        a = a.copy()
        a.flat[rng.randrange(a.size)] = np.nan
    ex = dimless_expr(rng) if name == 'cumprod' and rng.random() < .7 else gen_expr(rng, 2)
    ax = rng.choice([None, None] + list(range(-len(sh), len(sh))))
    fn = getattr(pq, name)
    npf = {'sum': lambda x: x.sum(ax), 'prod': lambda x: x.prod(ax), 'cumsum': lambda x: x.cumsum(ax), 'cumprod': lambda x: x.cumprod(ax), 'nansum': lambda x: np.nansum(x, ax)}[name]
    call = (lambda x: fn(x, ax)) if rng.random() < .5 else (lambda x: fn(x, axis=ax))
    if rng.random() < .12:
        got, want = call(a), npf(a)
        mon.check(not isinstance(got, Quantity) and identical(got, want), '%s of a plain array is %r, numpy gives %s', name, got, want)
        if name != 'nansum' and np.ndim(want):
            dt = rng.choice([None, 'd', 'f'])
            o, o2 = np.full(want.shape, -7.0), np.full(want.shape, -7.0)
            got, want = fn(a, ax, dt, o), getattr(a, name)(ax, dt, o2)
            mon.check(got is o and identical(o, o2), 'pq.%s(%r, %s, %s, out) is %r and leaves %r in out, numpy %r', name, a, ax, dt, got, o, o2)
            mon.ev('out', ('plain', name))
        mon.ev('plain', (name, sh, ax))
        return
    q = Quantity(a, as_units(ex))
    w = Watch(q)
    r, err = attempt(call, q)
    w.verify(name)
    what = 'pq.%s(%r, %s)' % (name, q, ax)
    if name == 'cumprod':
        if not M.is_dimless(ex):
            mon.check(isinstance(err, ValueError), '%s gives %r', what, r if err is None else err)
            mon.ev('refused', (name, M.dim_of(ex)))
            return
        if err is not None and ex:
            # only what carries no unit at all is accepted
            mon.check(isinstance(err, ValueError), '%s raises %r', what, err)
            mon.ev('refused', (name, tuple(sorted(ex))))
            return
        mon.check(err is None, '%s raises %r', what, err)
        f = M.fl(M.factor(ex))
        want = npf(a * f)
        got = mag(r) * (M.fl(M.factor(fdims(r))))
        mon.check(close(got, want, 1e-5 if a.dtype == 'f' else 1e-11), '%s is %r, by definition %s', what, r, want)
    else:
        mon.check(err is None, '%s raises %r', what, err)
        n = 1 if name != 'prod' else (a.size if ax is None else a.shape[ax])
        rex = M.ex_pow(ex, n)
        mon.check(isinstance(r, Quantity) and same_dims(r, rex), '%s has the units %s, by definition %s', what, getattr(r, 'dimensionality', None), M.show(rex))
        mon.check(close(mag(r), npf(a), 1e-6 if a.dtype == 'f' else 1e-13), '%s is %r, numpy on magnitudes gives %s', what, r, npf(a))
        if name != 'nansum' and rng.random() < .3:
            dt = rng.choice([None, 'd', 'f', 'l' if a.dtype.kind in 'iu' else 'd'])
            wd = getattr(a, name)(ax, dt)
            g = fn(q, ax, dt)
            mon.check(identical(mag(g), np.asarray(wd)) and same_dims(g, rex), 'pq.%s(%r, %s, %r) is %r, numpy on magnitudes gives %r', name, q, ax, dt, g, wd)
            o = Quantity(np.full(np.shape(wd), -7.0), rng.choice(['s', as_units(rex)]))
            g = fn(q, ax, dt, o)
            want = getattr(a, name)(ax, dt, np.full(np.shape(wd), -7.0))
            mon.check(g is o and same_dims(o, rex) and identical(mag(o), np.asarray(want)), 'pq.%s(%r, %s, %r, out) leaves %r in out, numpy on magnitudes gives %r', name, q, ax, dt, o, want)
            mon.ev('out', name)
    mon.ev(name, (sh, ax, tuple(sorted(ex.items())), a.dtype.str))


def prepend_case(rng, mon, i):
    """diff with values put before or after (joined by numpy's concatenate, which drops units)"""
    q = Quantity([1.0, 3.0, 7.0], 'm')
    for kw in ({'prepend': 1.0 * pq.km}, {'append': 1.0 * pq.km}, {'prepend': 1.0 * pq.s}):
        r, err = attempt(pq.diff, q, **kw)
        good = err is not None if pq.s in kw.values() else err is None and same_dims(r, {'meter': 1}) and close(mag(r), np.diff(mag(q), **{k: 1000.0 for k in kw}))
        if err is None and not good:
            mon.finding('diff-prepend', 'diff(%r, %s) is %r' % (q, kw, r))
        else:
            mon.check(err is not None or good, 'diff(%r, %s) is %r', q, kw, r)
        mon.ev('diff with prepended values', tuple(kw))


def wrap_case(rng, mon, i):
    """functions made unit-aware with quantitizer: they see values in base units, their results are given in the units asked for"""
    n = rng.choice([1, 2, 2, 3])
    sh = some_shape(rng, SH)
    exs, pos, kw, plain = [], [], {}, []
    for k in range(n):
        ex = gen_expr(rng, 2)
        if not mild(ex, -9, 9):
            return
        a = gen_array(rng, rng.choice(['d', 'd', 'f', 'l']), sh if rng.random() < .8 else ())
        raw = rng.random() < .2
        plain.append(a)
        x = a if raw else Quantity(a, as_units(ex)) if rng.random() < .8 else None
        if x is None:
            u = pick_unit(rng)
            ex, x = {u.name: 1}, uobj(u.name)
            plain[-1] = np.array(1.0)
            if not mild(ex, -9, 9):
                return
        exs.append({} if raw else ex)
        if not kw and rng.random() < .6:
            pos.append((k, x))
        else:
            kw['k%d' % k] = x
    m = rng.choice([1, 2, 3])
    powers = [[rng.choice([0, 1, 1, 2]) for _ in range(n)] for _ in range(m)]
    seen = []

    def function(*args, **kwargs):
        """the function"""
        vals = list(args) + [kwargs[k] for k in sorted(kwargs)]
        seen.append(vals)
        res = []
        for row in powers:
            y = 1.0
            for v, e in zip(vals, row):
                y = y * np.asarray(v, 'd') ** e
            res.append(y)
        return tuple(res)
    rexs, answer = [], []
    for row in powers:
        ex = {}
        for e, x in zip(row, exs):
            ex = M.ex_mul(ex, M.ex_pow(x, e))
        if not mild(ex, -25, 25):
            return
        want = gen_compatible(rng, ex) if rng.random() < .7 else ex
        if not 1e-12 < M.ratio(want, ex) < 1e12:
            want = ex
        rexs.append((ex, want))
        answer.append(Quantity(rng.choice([1.0, 7.0]), as_units(want)))
    # an answer which is not a quantity, or none, leaves the result alone
    bare = rng.randrange(m) if m > 1 and rng.random() < .25 else None
    if bare is not None:
        answer[bare] = 1.0
    short_ = m > 1 and rng.random() < .2
    told = answer[:m - 1] if short_ else answer
    asked = []

    def handler(*args, **kwargs):
        asked.append((args, kwargs))
        return tuple(told)
    wrapped = quantitizer(function, handler)
    mon.check('the function' in wrapped.__doc__ and wrapped.__name__.startswith('function'), 'quantitizer lost the name or the documentation: %s, %r', wrapped.__name__, wrapped.__doc__)
    args = tuple(x for _, x in pos)
    w = Watch(*args, *kw.values(), *[t for t in told if isinstance(t, Quantity)])
    cgs = rng.random() < .25
    try:
        if cgs:
            pq.set_default_units('cgs')
        r = wrapped(*args, **kw)
    finally:
        if cgs:
            pq.set_default_units('SI')
    w.verify('a wrapped function')
    what = 'function wrapped with quantitizer of %r, %r%s' % (args, kw, ' with cgs units as the default' if cgs else '')
    mon.check(type(r) is tuple and len(r) == m, '%s returns %r', what, r)
    mon.check(len(seen) == 1 and len(asked) == 1, '%s calls the function %s times and the handler %s times', what, len(seen), len(asked))
    mon.check(len(asked[0][0]) == len(args), '%s gave the handler %r', what, asked[0])
    for x in seen[0]:
        mon.check(not isinstance(x, Quantity), '%s hands a quantity to the function: %r', what, x)
    order = [k for k, _ in pos] + [int(k[1:]) for k in sorted(kw)]
    for k, x in zip(order, seen[0]):
        e = exs[k]
        f = M.fl(M.factor(e))
        if cgs:
            d = dict(M.si_expr(M.dim_of(e)))
            f *= 100.0 ** float(d.get('meter', 0)) * 1000.0 ** float(d.get('kilogram', 0))
        mon.check(close(np.asarray(x, 'd'), plain[k].astype('d') * f, 2e-6 if plain[k].dtype == 'f' else 1e-11), '%s hands %r to the function for %r of %s, by definition %r', what, x, plain[k], M.show(e), plain[k].astype('d') * f)
    for j, (row, (ex, want)) in enumerate(zip(powers, rexs)):
        tol = 1e-5 if any(a.dtype == 'f' for a in plain) else 1e-10
        y = 1.0
        for k, e in zip(order, [row[t] for t in range(len(order))]):
            y = y * plain[k].astype('d') ** e
        # exponents belong to the positions in which the function sees its arguments
        ex = {}
        for k, e in zip(order, row):
            ex = M.ex_mul(ex, M.ex_pow(exs[k], e))
        if j == bare or j >= len(told):
            mon.check(not isinstance(r[j], Quantity), '%s makes a quantity of result %d which has no units: %r', what, j, r[j])
            continue
        mon.check(isinstance(r[j], Quantity) and same_dims(r[j], want), '%s: result %d is %r, the units asked for are %s', what, j, r[j], M.show(want))
        mon.check(close(mag(r[j]), y * M.fl(M.ratio(ex, want)), tol), '%s: result %d is %r, by definition %s %s', what, j, r[j], y * M.fl(M.ratio(ex, want)), M.show(want))
    mon.ev('quantitizer', (n, m, tuple(sorted(kw)), cgs, bare is not None, short_, tuple(tuple(sorted(e.items())) for e in exs)))


FAMILIES = [Family('prepend', prepend_case, 1, 1, seeded=False), Family('unary', unary_case, 5000, 200000), Family('two', two_case, 1600, 60000), Family('cross', cross_case, 900, 40000), Family('trapz', trapz_case, 1000, 40000), Family('gradient', gradient_case, 700, 30000),
            Family('diff', diff_case, 900, 40000), Family('unwrap', unwrap_case, 600, 30000), Family('reduce', reduce_case, 1200, 50000), Family('wrap', wrap_case, 500, 20000)]
REQUIRED_OPS = NAMES + ['plain', 'refused', 'out', 'arctan2', 'hypot', 'cross', 'trapz', 'gradient', 'diff', 'ediff1d', 'trapz with scipy', 'unwrap', 'sum', 'prod', 'cumsum', 'cumprod', 'nansum', 'other units', 'quantitizer']
