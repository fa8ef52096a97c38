"""C15: first-order propagation of uncertainties through arithmetic."""
from fractions import Fraction as F
import operator
import numpy as np
from ..core import Family, Violation
from .. import model as M
from ..lib import *

PROP = 'C15'
RULE = ('a case combines uncertain quantities with distinct uncertain, exact, unit, constant or plain operands through an operator or a chain of operators and compares value and uncertainty, both converted to SI by '
        'the reference table, with first-order propagation in extended precision; distinct by (operation, operand kinds and sides, dtypes, shapes, signs)')
LD = np.longdouble


class Ref:
    """value, uncertainty (extended precision, SI) and dimension"""

    def __init__(self, v, s, ex):
        self.v, self.s, self.ex = np.asarray(v, LD), np.asarray(s, LD), ex
        self.dim = M.dim_of(ex) if isinstance(ex, dict) else ex

    def bin(self, o, op):
        x, sx, y, sy = self.v, self.s, o.v, o.s
        if op in '+-':
            return Ref(x + y if op == '+' else x - y, np.hypot(sx, sy) * np.ones(np.broadcast_shapes(x.shape, y.shape)), self.dim)
        if op == '*':
            return Ref(x * y, np.hypot(sx * y, x * sy), tuple(a + b for a, b in zip(self.dim, o.dim)))
        return Ref(x / y, np.hypot(sx / y, x * sy / y ** 2), tuple(a - b for a, b in zip(self.dim, o.dim)))

    def pow(self, p):
        with np.errstate(all='ignore'):
            v = self.v ** LD(p)
            s = np.zeros(v.shape, LD) if p == 0 else np.abs(LD(p) * self.v ** LD(p - 1)) * self.s
        return Ref(v, s, tuple(a * M.as_frac(p) for a in self.dim))

    def neg(self):
        return Ref(-self.v, self.s, self.dim)


def fsi(ex):
    f = M.factor(ex)
    return LD(f.numerator) / LD(f.denominator) if max(abs(f.numerator), f.denominator) < 10 ** 300 else LD(M.fl(f))


def si_of(x, dims_):
    return np.asarray(x, LD) * LD(M.fl(M.factor(dims_)))


def value(rng, dt, shape):
    """values of both signs and zero, moderate size"""
    a = gen_array(rng, dt, shape, layout=False)
    return a


def sigma(rng, shape, dt='d', scale=1.0):
    n = int(np.prod(shape, dtype=int))
    out = np.array([0.0 if rng.random() < .15 else abs(gen_value(rng)) * 10 ** rng.uniform(-4, 0) for _ in range(n)]).reshape(shape)
    if np.dtype(dt).kind in 'iu':
        out = np.array([rng.randint(0, 9) for _ in range(n)]).reshape(shape)
    return (out * scale if np.dtype(dt).kind == 'f' else out).astype(dt)


UDT = ['d'] * 8 + ['f', 'f', 'l']


def gen_uq(rng, ex, shape, dt=None, nonzero=False):
    dt = dt or rng.choice(UDT)
    a = gen_array(rng, dt, shape, nonzero=nonzero, layout=rng.random() < .3)
    s = sigma(rng, shape, dt if rng.random() < .7 else 'd')
    if rng.random() < .06:
        s = whole_sigma(rng, shape)
    form = rng.randrange(4)
    u = as_units(ex, rng.choice(['dim', 'quantity', 'string', 'unit']))
    kw = {} if dt == 'd' and rng.random() < .7 else {'dtype': np.dtype(dt)}
    if form == 0:
        q = UQ(a, u, s, **kw)
    elif form == 1:
        # uncertainty given in other units
        ex2 = gen_compatible(rng, ex)
        f = M.fl(M.ratio(ex, ex2))
        if 1e-6 < f < 1e6:
            s = s.astype('d')
            q = UQ(a, u, Quantity(s * f, as_units(ex2)), **kw)
            return q, Ref(si_of(a, ex), si_of(s, ex), ex)
        q = UQ(a, u, s, **kw)
    elif form == 2:
        q = UQ(Quantity(a, u), uncertainty=s, **kw)
    else:
        q = UQ(a, u, **kw)
        q.uncertainty = Quantity(s, as_units(ex, 'dim'))
    return q, Ref(si_of(a, ex), si_of(s, ex), ex)


def gen_exact(rng, ex, shape, nonzero=False):
    dt = rng.choice(['d'] * 6 + ['f', 'l', 'i', 'h', 'b', 'B', 'H'])
    a = gen_array(rng, dt, shape, nonzero=nonzero)
    if np.dtype(dt).kind in 'iu' and rng.random() < .5:
        a = np.asarray(a * rng.choice([1, 3, 5])).astype(dt)
        if nonzero:
            a = np.where(a == 0, np.array(1, dt), a)
    return Quantity(a, as_units(ex, 'dim')), Ref(si_of(a, ex), np.zeros(a.shape), ex)


def gen_plain(rng, shape, nonzero=False):
    c = rng.random()
    if c < .5:
        v = gen_value(rng)
        if nonzero and not v:
            v = 2.5
        v = rng.choice([v, v, int(v) or 3, np.float64(v), np.int64(int(v) or 2), np.float32(v), np.array(v), np.int16(250), np.int8(-100), 300])
        return v, Ref(v, 0, {})
    if c < .6 and shape:
        v = [gen_value(rng) or 1.0 for _ in range(shape[-1])]
        if v:
            return v, Ref(v, np.zeros(len(v)), {})
    dt = rng.choice(['d', 'd', 'f', 'l', 'h', 'B', 'b', 'H', 'i'])
    a = gen_array(rng, dt, shape, nonzero=nonzero, layout=False)
    if np.dtype(dt).kind in 'iu' and rng.random() < .5:
        a = (a * 5).astype(dt)
        if nonzero:
            a = np.where(a == 0, np.array(1, dt), a)
    return a, Ref(a, np.zeros(a.shape), {})


def gen_unit(rng, ex=None):
    if ex is None:
        u = pick_unit(rng)
        return uobj(u.name), Ref(si_of(1, {u.name: 1}), 0, {u.name: 1})
    return as_units(ex, 'quantity'), Ref(si_of(1, ex), 0, ex)


def tol(*ops):
    r = 1e-9
    for o in ops:
        for x in (o, getattr(o, 'uncertainty', None)):
            d = getattr(x, 'dtype', None)
            if d is not None and (d.kind == 'f' and d.itemsize < 8):
                r = max(r, 2e-5)
            elif d is not None and d.kind in 'iu' and d.itemsize < 4:
                # numpy computes square roots of narrow integers in half or single precision
                r = max(r, 2e-3 if d.itemsize == 1 else 2e-5)
    return r


def judge(mon, what, res, ref, rt, kinds=True):
    mon.check(isinstance(res, UQ), '%s is a %s, not an uncertain quantity', what, type(res).__name__)
    invariant(res, what)
    mon.check(M.dim_of(fdims(res)) == ref.dim, '%s has dimension %s', what, dims(res))
    f = LD(M.fl(M.factor(fdims(res))))
    v, s = np.asarray(res.magnitude, LD) * f, np.asarray(res.uncertainty.magnitude, LD) * f
    mon.check(v.shape == np.broadcast_shapes(ref.v.shape, ref.s.shape), '%s has shape %s, expected %s', what, v.shape, ref.v.shape)
    scale = np.max(np.abs(ref.scale)) if hasattr(ref, 'scale') and np.size(ref.scale) else 0
    mon.check(close(v, ref.v, rt, rt * scale), '%s has SI value %s, expected %s', what, v, ref.v)
    mon.check(np.all((s >= 0) | np.isnan(s)), '%s has a negative uncertainty %s', what, s)
    mon.check(close(s, np.broadcast_to(ref.s, v.shape), rt, rt * rt * scale + 1e-300), '%s has SI uncertainty %s, first-order propagation gives %s', what, s, ref.s)


def sign(ref):
    a = np.asarray(ref.v)
    return ('-' if (a < 0).any() else '') + ('0' if (a == 0).any() else '') + ('+' if (a > 0).any() else '')


OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv}
IOPS = {'+': operator.iadd, '-': operator.isub, '*': operator.imul, '/': operator.itruediv}


def pick(rng, kind, ex, shape, nonzero):
    if kind == 'uq':
        return gen_uq(rng, ex, shape, nonzero=nonzero)
    if kind == 'exact':
        return gen_exact(rng, ex, shape, nonzero)
    if kind == 'unit':
        return gen_unit(rng, ex)
    if kind == 'unitobj':
        return gen_unit(rng)
    return gen_plain(rng, shape, nonzero)


def narrow_ints(*ops):
    """integer arithmetic that wraps in the value itself"""
    ds = [o.dtype for o in ops if hasattr(o, 'dtype')]
    return all(d.kind in 'iu' for d in ds) or any(not hasattr(o, 'dtype') for o in ops) and all(d.kind in 'iu' for d in ds)


def binary_case(rng, mon, i):
    op = rng.choice('++--**//')
    shape = pick_shape(rng)
    other_shape = bcast_shape(rng, shape)
    ex = gen_expr(rng)
    if not mild(ex, -15, 15):
        return
    kind = rng.choice(['uq'] * 4 + ['exact'] * 3 + ['unit', 'unitobj', 'plain', 'plain'])
    left = rng.random() < .5 or kind == 'uq'
    if op in '+-':
        if kind == 'plain':
            ex = {}
        if kind == 'unitobj':
            kind = 'unit'
        ex2 = gen_compatible(rng, ex)
        f = M.fl(M.ratio(ex, ex2))
        if not 1e-6 < f < 1e6:
            ex2 = ex
    else:
        ex2 = gen_expr(rng)
        if not mild(ex2, -15, 15):
            return
    a, ra = gen_uq(rng, ex, shape, nonzero=op == '/' and not left)
    b, rb = pick(rng, kind, ex2, other_shape, op == '/')
    if a.dtype.kind in 'iu' and getattr(b, 'dtype', np.dtype('d')).kind in 'iu' and (a.dtype.itemsize < 8 or kind == 'plain' or isinstance(b, int)):
        # the value itself wraps around
        a, ra = gen_uq(rng, ex, shape, 'd', nonzero=op == '/' and not left)
    w = Watch(a, b)
    x, y, rx, ry = (a, b, ra, rb) if left else (b, a, rb, ra)
    what = '%r %s %r' % (x, op, y)
    if kind == 'plain' and op in '+-' and isinstance(x, np.generic):
        return
    res, err = attempt(OPS[op], x, y)
    mon.check(err is None, '%s raised %r', what, err)
    w.verify(what)
    ref = rx.bin(ry, op)
    if op in '+-':
        ref.scale = np.abs(rx.v) + np.abs(ry.v)
    judge(mon, what, res, ref, tol(a, b))
    for o in (a, b):
        if isinstance(o, UQ):
            mon.check(not np.shares_memory(np.asarray(o.uncertainty.magnitude), np.asarray(res.uncertainty.magnitude)), '%s: the uncertainty of the result is that of an operand', what)
    mon.ev('binary ' + op, (kind, type(b).__name__, left, a.dtype.char, getattr(getattr(b, 'dtype', None), 'char', ''), shape, other_shape, sign(ra), sign(rb)), what)


POWERS = [2, 3, -1, -2, 0.5, -0.5, 1, 0, 1.5, -1.5, 4, 2.0, -3, 0.25, 1 / 3, np.float64(2), np.int64(3), np.int16(2), np.float32(.5), np.int8(-1)]


def power_case(rng, mon, i):
    p = rng.choice(POWERS)
    ex = gen_expr(rng)
    shape = pick_shape(rng)
    if not mild(ex, -8, 8):
        return
    dt = rng.choice(['d'] * 6 + ['f', 'l'])
    a, ra = gen_uq(rng, ex, shape, dt, nonzero=p < 1 or rng.random() < .7)
    if a.dtype.kind in 'iu' and p < 0:
        return
    if rng.random() < .2 and 0 not in shape:
        pp = rng.choice([np.full(shape, p), Quantity(p, 'dimensionless')])
    else:
        pp = p
    w = Watch(a)
    what = '%r ** %r' % (a, pp)
    res, err = attempt(lambda: a ** pp)
    mon.check(err is None, '%s raised %r', what, err)
    w.verify(what)
    ref = ra.pow(float(p))
    # a negative base with a fractional exponent is no number
    judge(mon, what, res, ref, tol(a, np.float32(1)) if isinstance(p, np.float32) else tol(a))
    mon.ev('power', (float(p), type(pp).__name__, a.dtype.char, shape, sign(ra)), what)
    if rng.random() < .2:
        res = attempt(lambda: a.sqrt())[0] if hasattr(a, 'sqrt') else None
        if res is not None and dt == 'd':
            judge(mon, 'sqrt of %r' % a, res, ra.pow(.5), tol(a))
            mon.ev('sqrt', shape)


def neg_case(rng, mon, i):
    ex = gen_expr(rng)
    shape = pick_shape(rng)
    a, ra = gen_uq(rng, ex, shape)
    w = Watch(a)
    res, err = attempt(lambda: -a)
    mon.check(err is None, '-(%r) raised %r', a, err)
    w.verify('negation')
    judge(mon, '-(%r)' % a, res, ra.neg(), tol(a))
    mon.check(same_dims(res, fdims(a)), 'negation changed the units')
    mon.ev('negation', (a.dtype.char, shape, sign(ra)), a)


def inplace_case(rng, mon, i):
    op = rng.choice('+-*/p')
    shape = pick_shape(rng)
    ex = gen_expr(rng)
    if not mild(ex, -8, 8):
        return
    a, ra = gen_uq(rng, ex, shape, rng.choice(['d', 'd', 'f']), nonzero=op == 'p')
    if op == 'p':
        p = rng.choice([2, 3, -1, .5, -.5, 1, -2])
        a = a.copy()
        w = Watch()
        res, err = attempt(operator.ipow, a, p)
        ref, b, kind = ra.pow(float(p)), None, 'power'
        what = '**= %r' % p
    else:
        kind = rng.choice(['uq', 'uq', 'exact', 'unit', 'plain', 'unitobj'])
        if op in '+-':
            if kind == 'plain':
                a, ra = gen_uq(rng, {}, shape, 'd')
                ex = {}
            if kind == 'unitobj':
                kind = 'unit'
            ex2 = gen_compatible(rng, ex)
            if not 1e-6 < M.fl(M.ratio(ex, ex2)) < 1e6:
                ex2 = ex
        else:
            ex2 = gen_expr(rng)
            if not mild(ex2, -15, 15):
                return
        sh = rng.choice([shape, ()])
        b, rb = pick(rng, kind, ex2, sh, op == '/')
        if getattr(b, 'dtype', np.dtype('f')).itemsize > a.dtype.itemsize and a.dtype.char == 'f':
            a, ra = gen_uq(rng, ex, shape, 'd')
        a = a.copy()
        w = Watch(b)
        ref = ra.bin(rb, op)
        if op in '+-':
            ref.scale = np.abs(ra.v) + np.abs(rb.v)
        what = '%r %s= %r' % (a, op, b)
        res, err = attempt(IOPS[op], a, b)
    mon.check(err is None, '%s raised %r', what, err)
    mon.check(res is a, '%s gives another object', what)
    w.verify(what)
    judge(mon, what, a, ref, max(tol(a, b), 1e-9))
    mon.ev('in place ' + op, (kind, shape, sign(ra), a.dtype.char), what)


def chain_case(rng, mon, i):
    """a random expression tree with every operand used once"""
    shape = some_shape(rng, [(), (3,), (2, 2)])

    def leaf(ex, nonzero):
        k = rng.choice(['uq'] * 4 + ['exact', 'unit'])
        if k == 'uq':
            q, r = gen_uq(rng, ex, rng.choice([shape, ()]), 'd', nonzero=True)
        elif k == 'exact':
            a = gen_array(rng, 'd', rng.choice([shape, ()]), nonzero=True)
            q, r = Quantity(a, as_units(ex, 'dim')), Ref(si_of(a, ex), np.zeros(a.shape), ex)
        else:
            q, r = gen_unit(rng, ex)
        leaves.append(q)
        r.unc = k == 'uq'
        return q, r, ex

    def tree(depth, dim=None):
        """(quantity, reference, has uncertain operand)"""
        if depth == 0:
            ex = gen_expr(rng, 2) if dim is None else gen_compatible(rng, dim)
            if not mild(ex, -6, 6):
                ex = {'meter': 1} if dim is None else dim
            q, r, ex = leaf(ex, True)
            return q, r, r.unc
        op = rng.choice('++-**/^n')
        q, r, u = tree(depth - 1, dim)
        if op == 'n':
            return -q, r.neg(), u
        if op == '^':
            p = rng.choice([2, -1, 3])
            return q ** p, r.pow(p), u
        ex = gen_expr(rng, 1)
        if op in '+-':
            ex = M.si_expr(r.dim)
        if not mild(ex, -6, 6):
            ex = {'meter': 1} if op in '*/' else ex
        ex3 = gen_compatible(rng, ex) if rng.random() < .5 else ex
        q2, r2, ex2 = leaf(ex3 if mild(ex3, -12, 12) and max([abs(e) for e in ex3.values()] or [0]) < 7 else ex, True)
        u2 = r2.unc
        if rng.random() < .5:
            q, r, q2, r2 = q2, r2, q, r
        out = r.bin(r2, op)
        # cancellation in sums makes relative comparison meaningless
        if op in '+-' and np.any(np.abs(out.v) < .01 * np.maximum(np.abs(r.v), np.abs(r2.v))):
            raise ZeroDivisionError
        return OPS[op](q, q2), out, u or u2
    leaves = []
    try:
        q, r, u = tree(rng.choice([2, 3, 4]))
    except (OverflowError, ZeroDivisionError):
        return
    if not u:
        return
    if not (np.all(np.isfinite(r.v)) and np.all(np.isfinite(r.s)) and np.all(np.abs(r.v) < 1e100) and np.all(np.abs(r.v) > 1e-100)):
        return
    judge(mon, 'chain over %s' % (leaves,), q, r, 1e-5)
    mon.ev('chain', (len(leaves), shape, tuple(type(x).__name__ for x in leaves)), leaves)


def incompatible_case(rng, mon, i):
    ex = gen_expr(rng)
    ex2 = gen_incompatible(rng, ex)
    shape = some_shape(rng, [(), (3,)])
    a, _ = gen_uq(rng, ex, shape)
    b, _ = rng.choice([lambda: gen_uq(rng, ex2, shape), lambda: gen_exact(rng, ex2, shape), lambda: gen_unit(rng, ex2)])()
    w = Watch(a, b)
    op = rng.choice('+-')
    f = rng.choice([lambda: OPS[op](a, b), lambda: OPS[op](b, a), lambda: IOPS[op](a, b)])
    r, err = attempt(f)
    mon.check(isinstance(err, ValueError), '%r %s %r gives %s', a, op, b, err or r)
    w.verify('a refused operation')
    mon.ev('refused', (op, shape, type(b).__name__))


def constant_case(rng, mon, i):
    """constants and unit objects on the left"""
    cs = constants()
    # in terms of a negative constant the sign of an uncertainty has no meaning
    c = cs[rng.choice(sorted(k for k in cs if cs[k].simplified.magnitude > 0))]
    ex = gen_expr(rng, 1)
    if not mild(ex, -8, 8):
        return
    a, ra = gen_uq(rng, ex, rng.choice([(), (3,)]), 'd', nonzero=True)
    s = (1.0 * c).simplified
    rc = Ref(si(s), 0, fdims(s))
    for op in '*/':
        for x, y, rx, ry in ((c, a, rc, ra), (a, c, ra, rc)):
            res, err = attempt(OPS[op], x, y)
            what = '%r %s %r' % (x, op, y)
            mon.check(err is None, '%s raised %r', what, err)
            mon.check(isinstance(res, UQ), '%s is a %s', what, type(res).__name__)
            r = res.simplified
            judge(mon, what, r, rx.bin(ry, op), 1e-8)
    mon.ev('constant operand', (c.name, a.shape))


def size_case(rng, mon, i):
    """very small and large magnitudes: squares leave the range of the element type"""
    dt = rng.choice(['d', 'd', 'f'])
    k = rng.choice([200, 180, -180, -200, 160, -170]) if dt == 'd' else rng.choice([-25, -30, 22, 25, -22])
    sc = 10.0 ** k
    sh = rng.choice([(), (3,)])
    ex = {rng.choice(['meter', 'kilometer', 'second', 'volt']): 1}

    def mk(scale):
        v = np.asarray(gen_array(rng, 'd', sh, nonzero=True) * scale, dt)
        s = np.asarray((np.abs(gen_array(rng, 'd', sh)) + .1) * scale * .01, dt)
        return UQ(v, as_units(ex), s), Ref(si_of(v, ex), si_of(s, ex), ex)
    op = rng.choice('+-*/')
    a, ra = mk(sc)
    b, rb = mk(sc if op in '+-/' else 10.0 ** -k if dt == 'd' and abs(k) < 200 else 1 / sc)
    if op == '*' and rng.random() < .5:
        v = rng.choice([2.5, 3, np.float64(7), np.int16(200)])
        b, rb = v, Ref(v, 0, {})
    if op == '/' and rng.random() < .4:
        # reflected
        v = rng.choice([1, 2.5, np.float64(3)]) if dt == 'd' or abs(k) < 25 else 1.0
        a, ra = v, Ref(v, 0, {})
    elif op != '*' and rng.random() < .3:
        x = UQ.view(b, Quantity) if isinstance(b, UQ) else b
        b, rb = Quantity(x.magnitude.copy(), x.dimensionality), Ref(rb.v, np.zeros(np.shape(rb.v)), rb.dim)
        if rng.random() < .5:
            a, ra, b, rb = b, rb, a, ra
    with np.errstate(all='ignore'):
        res = OPS[op](a, b)
    ref = ra.bin(rb, op)
    if op in '+-':
        ref.scale = np.abs(ra.v) + np.abs(rb.v)
    judge(mon, '%r %s %r' % (a, op, b), res, ref, tol(a, b))
    mon.ev('range ' + op, (dt, k, sh))


def exponent_case(rng, mon, i):
    """an uncertain (or exact) exponent over every kind of base"""
    sh = some_shape(rng, [(), (), (3,), (2, 2)])
    # no physical dimension, but not always the unit one
    ex = rng.choice([{}, {}, {}, {'percent': 1}, {'radian': 1}, {'kilometer': 1, 'meter': -1}, {'percent': -1}])
    ev = rng.choice([2, 3, .5, -1, 1, 1.5, -2, 2.5, 0])
    kb = rng.choice(['uq', 'uq', 'quantity', 'number', 'npscalar', 'array', 'list', 'unit', 'dimension'])
    plain = kb in ('number', 'npscalar', 'array', 'list')
    esh = rng.choice([(), sh]) if plain or not ex else ()
    E = np.full(esh, float(ev))
    exact = rng.random() < .2
    se = np.zeros(esh) if exact else np.abs(gen_array(rng, 'd', esh)) * .01 + .001
    e = UQ(E, rng.choice(['', 'dimensionless']), se)
    if kb == 'uq':
        v = np.abs(gen_array(rng, 'd', sh, nonzero=True))
        s = sigma(rng, sh)
        b, rb = UQ(v, as_units(ex), s), Ref(si_of(v, ex), si_of(s, ex), ex)
    elif kb == 'quantity':
        v = np.abs(gen_array(rng, rng.choice('dfl'), sh, nonzero=True))
        b, rb = Quantity(v, as_units(ex)), Ref(si_of(v, ex), np.zeros(sh), ex)
    elif kb == 'number':
        v = rng.choice([2, 2.5, 1, .5, 10])
        b, rb = v, Ref(v, 0, {})
    elif kb == 'npscalar':
        v = rng.choice([np.float64(2.5), np.float32(2), np.int64(3), np.int32(7)])
        b, rb = v, Ref(v, 0, {})
    elif kb == 'array':
        v = np.abs(gen_array(rng, rng.choice('dl'), sh, nonzero=True))
        b, rb = v, Ref(v, np.zeros(sh), {})
    elif kb == 'list':
        v = ([1.5, 2.0, .25] * 2000)[:sh[-1] if sh else 3]
        b, rb = v, Ref(v, np.zeros(len(v)), {})
    elif kb == 'unit':
        n = rng.choice(['dimensionless', 'radian', 'percent', 'arcdegree'])
        b, rb = uobj(n), Ref(si_of(1, {n: 1}), 0, {n: 1})
        ex = {n: 1}
    else:
        d = gen_expr(rng, allow_empty=False)
        if M.is_dimless(d) or not mild(d, -6, 6):
            return
        v = np.abs(gen_array(rng, 'd', sh, nonzero=True)) + .5
        b = rng.choice([lambda: UQ(v, as_units(d), np.abs(v) * .01), lambda: Quantity(v, as_units(d)), lambda: as_units(d)])()
        if np.shape(b) != ():
            e = UQ(float(ev), '', float(np.max(se, initial=.1)))
        if esh and np.ptp(E):
            return
        w = Watch(b, e)
        ue = e.uncertainty.magnitude
        if ue.any():
            res, err = attempt(lambda: b ** e)
            mon.check(isinstance(err, ValueError), '%r ** %r, an uncertain dimension, gives %s', b, e, err or res)
            w.verify('a refused power')
            if isinstance(b, UQ):
                c = b.copy()
                wc = Watch(c, e)
                res, err = attempt(operator.ipow, c, e)
                mon.check(isinstance(err, ValueError), '%r **= %r, an uncertain dimension, gives %s', b, e, err or res)
                wc.verify('a refused power')
        mon.ev('refused exponent', (type(b).__name__, sh, ev))
        return
    p = E
    w = Watch(b, e) if not plain or hasattr(b, 'dtype') else Watch(e)
    what = '%r ** %r' % (b, e)
    in_place = kb == 'uq' and rng.random() < .25
    if in_place:
        c = b.copy()
        if not np.shape(c) and esh:
            return
        res, err = attempt(operator.ipow, c, e)
    elif rng.random() < .25 and kb not in ('list', 'uq', 'quantity', 'unit'):
        what = 'np.power(%r, %r)' % (b, e)
        res, err = attempt(np.power, b, e)
    else:
        res, err = attempt(lambda: b ** e)
    mon.check(err is None, '%s raised %r', what, err)
    if in_place:
        mon.check(res is c, '%s in place is another object', what)
    w.verify(what)
    with np.errstate(all='ignore'):
        P, S = np.asarray(p, LD), np.asarray(se, LD)
        # every unit here has no dimension: SI values are plain numbers
        val = rb.v ** P
        s = np.hypot(np.abs(P * rb.v ** (P - 1)) * rb.s, np.abs(val * np.log(rb.v)) * S)
    ref = Ref(val, s, M.dim_of({}))
    judge(mon, what, res, ref, 2e-5 if any(getattr(x, 'dtype', np.dtype('d')) == np.dtype('f') for x in (b,)) else 1e-9)
    mon.ev('uncertain exponent', (kb, sh, esh, ev, exact, in_place, str(sorted(ex)) if not plain else ''), what)


def function_case(rng, mon, i):
    """abs and the functions equal to a power or a sign"""
    ex = gen_expr(rng)
    if not mild(ex, -8, 8):
        return
    sh = pick_shape(rng)
    name = rng.choice(['abs', 'absolute', 'fabs', 'negative', 'conjugate', 'square', 'sqrt', 'reciprocal'])
    a, ra = gen_uq(rng, ex, sh, rng.choice(['d', 'd', 'd', 'f', 'l']) if name not in ('reciprocal', 'sqrt') else rng.choice('ddf'), nonzero=name in ('sqrt', 'reciprocal'))
    f = abs if name == 'abs' else getattr(np, name)
    w = Watch(a)
    with np.errstate(all='ignore'):
        res, err = attempt(f, a)
    what = '%s(%r)' % (name, a)
    mon.check(err is None, '%s raised %r', what, err)
    w.verify(what)
    if name in ('abs', 'absolute', 'fabs'):
        ref = Ref(np.abs(ra.v), ra.s, ra.dim)
    elif name == 'negative':
        ref = ra.neg()
    elif name == 'conjugate':
        ref = ra
    else:
        ref = ra.pow({'square': 2, 'sqrt': .5, 'reciprocal': -1}[name])
    judge(mon, what, res, ref, tol(a))
    mon.check(not np.shares_memory(np.asarray(a.uncertainty.magnitude), np.asarray(res.uncertainty.magnitude)) , '%s: the uncertainty of the result is that of the operand', what)
    mon.ev('function', (name, a.dtype.char, sh, sign(ra)), what)


FAMILIES = [Family('exponent', exponent_case, 2000, 60000), Family('function', function_case, 1000, 30000), Family('binary', binary_case, 6000, 500000), Family('power', power_case, 2500, 100000), Family('neg', neg_case, 400, 10000), Family('inplace', inplace_case, 1500, 100000), Family('chain', chain_case, 2500, 100000),
            Family('incompatible', incompatible_case, 600, 15000), Family('constant', constant_case, 500, 10000), Family('range', size_case, 600, 10000)]
REQUIRED_OPS = ['binary +', 'binary -', 'binary *', 'binary /', 'power', 'negation', 'in place +', 'in place -', 'in place *', 'in place /', 'in place p', 'chain', 'refused', 'constant operand', 'uncertain exponent', 'refused exponent', 'function']
