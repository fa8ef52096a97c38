"""C03: arithmetic gives the physically correct value and units."""
import operator
from fractions import Fraction as F
from ..core import Family
from .. import model as M
from ..lib import *
from .. import zoo

PROP = 'C03'
QUICK_SCALE = 3
RULE = ('a case is one operator applied to two operands of random kind (array, scalar, unit object, plain number, list) with '
        'random compatible scaled units; oracle: numpy on bare magnitudes with exact rational unit factors; distinct by '
        '(operator, kinds, dtypes, shapes, unit sets)')

FORMS = ['unit', 'quantity', 'dim', 'string']


def operand(rng, kind, ex, shape=None, dt=None, **kw):
    """(library operand, bare numpy value, expression or None for plain)"""
    if kind == 'unit':
        u = pick_unit(rng)
        return uobj(u.name), np.array(1.0), {u.name: 1}
    sh = pick_shape(rng) if shape is None else shape
    if kind == 'plain':
        c = rng.random()
        if c < 0.25:
            p = rng.choice([0, 1, 2, -3, 2.5, -0.5, True])
            return p, p, None
        if c < 0.4:
            p = rng.choice([np.float64(2.5), np.int64(3), np.float32(0.5)])
            return p, p, None
        a = gen_array(rng, dt, sh, **kw)
        if c < 0.55 and a.ndim and a.size and a.dtype.kind in 'fil':
            l = a.tolist()
            return l, np.array(l), None
        return a, a, None
    if kind == 'scalar':
        v = rng.choice([1, 2, 2.5, -4.0, 0.125])
        q = v * as_units(ex) if rng.random() < 0.5 else Quantity(v, as_units(ex))
        return q, np.array(mag(q)), ex
    a = gen_array(rng, dt, sh, **kw)
    return Quantity(np.array(a, order='K') if a.flags.forc else a, as_units(ex, rng.choice(FORMS), rng)), a, ex


KINDS = ['q', 'q', 'q', 'q', 'scalar', 'unit']


def strong(x):
    return x


def tol(*xs):
    return 4 * rtol_for(*[np.asarray(x).dtype for x in xs])


def result_checks(mon, what, got, want, ex, rt, atol=0.0, watch=None, operands=()):
    invariant(got, what)
    mon.check(type(got) is Quantity, '%s: result type %s', what, type(got))
    mon.check(same_dims(got, ex), '%s: units %s, expected %s', what, dims(got), M.show(ex))
    mon.check(close(mag(got), want, rt, atol), '%s: value %s, reference %s', what, short(mag(got)), short(want))
    for o in operands:
        if isinstance(o, np.ndarray):
            mon.check(not np.shares_memory(np.asarray(o), np.asarray(got)), '%s: the result shares memory with an operand', what)
    if watch is not None:
        watch.verify(what)


def muldiv_case(rng, mon, i):
    name = rng.choice(['*', '/', '//'])
    ka = rng.choice(KINDS + ['plain'])
    kb = rng.choice(KINDS + (['plain', 'plain'] if ka != 'plain' else []))
    ex = gen_expr(rng, exps=ALL_EXPS)
    dts = 'dddddfflihb?DF' if name != '//' else 'ddddfflih'
    a, av, ea = operand(rng, ka, ex, dt=rng.choice(dts), hostile=rng.random() < 0.3)
    # the same units with slightly different exponents
    nudged = {k: v + rng.choice([F(1, 16), F(-1, 16), F(1, 1024), F(-1, 1024)]) for k, v in (ea or {}).items()}
    eb0 = rng.choice([gen_expr(rng, exps=ALL_EXPS), gen_compatible(rng, ea or {}), M.ex_pow(ea or {}, -1), dict(ea or {}), nudged, M.ex_pow(nudged, -1)])
    b, bv, eb = operand(rng, kb, eb0, shape=bcast_shape(rng, np.shape(av)), dt=rng.choice(dts), hostile=rng.random() < 0.3)
    op = {'*': operator.mul, '/': operator.truediv, '//': operator.floordiv}[name]
    want, werr = attempt(op, np.asarray(av) if ka != 'plain' or isinstance(a, list) else av,
                         np.asarray(bv) if kb != 'plain' or isinstance(b, list) else bv)
    what = '(%s %s %s) %s (%s %s %s)' % (ka, np.shape(av), M.show(ea or {}), name, kb, np.shape(bv), M.show(eb or {}))
    w = Watch(a, b)
    got, err = attempt(op, a, b)
    if werr is not None:
        mon.check(err is not None, '%s accepted although numpy refuses: %r', what, werr)
        w.verify(what)
        return
    if err is not None:
        mon.fail('%s refused: %r' % (what, err))
    if name == '*':
        er = M.ex_mul(ea or {}, eb or {})
    else:
        er = M.ex_div(ea or {}, eb or {})
    want = np.asarray(want)
    result_checks(mon, what, got, want, er, tol(av, bv, want), 0.0, w, (a, b))
    mon.check(same_type(got.dtype, want.dtype), '%s: dtype %s, numpy gives %s', what, got.dtype, want.dtype)
    mon.ev(name, (ka, kb, np.asarray(av).dtype.char, np.asarray(bv).dtype.char, np.shape(av), np.shape(bv), tuple(sorted(er))))


def addsub_case(rng, mon, i):
    name = rng.choice(['+', '-'])
    ka, kb = rng.choice(KINDS), rng.choice(KINDS)
    ex = gen_expr(rng, exps=ALL_EXPS)
    hostile = rng.random() < 0.3
    a, av, ea = operand(rng, ka, ex, dt=rng.choice('dddddfflihD'), hostile=hostile)
    b, bv, eb = operand(rng, kb if kb != 'unit' else 'q', gen_compatible(rng, ea), shape=bcast_shape(rng, np.shape(av)),
                        dt=rng.choice('dddddfflih'), hostile=hostile)
    if kb == 'unit':
        g = M.GROUPS.get(M.dim_of(ea))
        if g:
            u = rng.choice(g)
            b, bv, eb = uobj(u.name), np.array(1.0), {u.name: 1}
    r = M.ratio(eb, ea)
    if not (F(10) ** -20 < r < F(10) ** 20):
        return
    same = M.ex_norm(ea) == M.ex_norm(eb)
    op = operator.add if name == '+' else operator.sub
    bare = np.asarray(bv)
    if not same:
        bare = bare.astype(np.result_type(bare.dtype, np.asarray(av).dtype))
        if bare.dtype.kind not in 'fc':
            bare = bare.astype('d')
        bare = bare * np.array(M.fl(r), dtype=bare.dtype)
    want, werr = attempt(op, np.asarray(av), bare)
    what = '(%s %s %s) %s (%s %s %s)' % (ka, np.shape(av), M.show(ea), name, kb, np.shape(bv), M.show(eb))
    w = Watch(a, b)
    got, err = attempt(op, a, b)
    if werr is not None:
        mon.check(err is not None, '%s accepted although numpy refuses: %r', what, werr)
        w.verify(what)
        return
    if err is not None:
        mon.fail('%s refused: %r' % (what, err))
    if ka == 'unit' and kb == 'unit':
        pass
    want = np.asarray(want)
    sc = np.max(np.abs(np.asarray(av)[np.isfinite(av)]), initial=0.0) + np.max(np.abs(bare[np.isfinite(bare)]), initial=0.0)
    rt = tol(av, bare)
    result_checks(mon, what, got, want, ea, rt, rt * float(sc), w, (a, b))
    if same:
        mon.check(same_type(got.dtype, want.dtype), '%s: dtype %s, numpy gives %s', what, got.dtype, want.dtype)
    elif np.asarray(av).dtype.char == 'f' and np.asarray(bv).dtype.char == 'f' and 'unit' not in (ka, kb):
        mon.check(got.dtype == np.dtype('f'), '%s: single precision operands gave %s', what, got.dtype)
    mon.ev(name, (ka, kb, np.asarray(av).dtype.char, np.asarray(bv).dtype.char, np.shape(av), np.shape(bv), tuple(sorted(ea)), tuple(sorted(eb))))


def mod_case(rng, mon, i):
    ka, kb = rng.choice(KINDS), rng.choice(KINDS)
    ex = gen_expr(rng)
    a, av, ea = operand(rng, ka, ex, dt=rng.choice('dddddfl'), nonzero=True)
    b, bv, eb = operand(rng, kb if kb != 'unit' else 'q', gen_compatible(rng, ea), shape=bcast_shape(rng, np.shape(av)),
                        dt=rng.choice('ddddfl'), nonzero=True)
    if kb == 'unit':
        g = M.GROUPS.get(M.dim_of(ea))
        if g:
            u = rng.choice(g)
            b, bv, eb = uobj(u.name), np.array(1.0), {u.name: 1}
    r = M.ratio(eb, ea)
    if not (F(10) ** -4 < r < F(10) ** 8):
        return
    bare = np.asarray(bv).astype('d') * M.fl(r) if M.ex_norm(ea) != M.ex_norm(eb) else np.asarray(bv)
    want, werr = attempt(operator.mod, np.asarray(av), bare)
    what = '(%s %s %s) %% (%s %s %s)' % (ka, np.shape(av), M.show(ea), kb, np.shape(bv), M.show(eb))
    w = Watch(a, b)
    got, err = attempt(operator.mod, a, b)
    if werr is not None:
        mon.check(err is not None, '%s accepted although numpy refuses: %r', what, werr)
        return
    if err is not None:
        mon.fail('%s refused: %r' % (what, err))
    invariant(got, what)
    mon.check(same_dims(got, ea), '%s: units %s, expected %s', what, dims(got), M.show(ea))
    want = np.asarray(want, 'd')
    g = mag(got).astype('d')
    mon.check(g.shape == want.shape, '%s: shape %s, expected %s', what, g.shape, want.shape)
    bb = np.broadcast_to(np.asarray(bare, 'd'), want.shape)
    aa = np.broadcast_to(np.asarray(av, 'd'), want.shape)
    t = (np.abs(aa) + np.abs(bb)) * tol(av, bare, np.float32(0) if 'f' in (np.asarray(av).dtype.char, np.asarray(bv).dtype.char) else av)
    d = np.abs(g - want)
    ok = (d <= t) | (np.abs(d - np.abs(bb)) <= t)      # the two sides of the wrap
    mon.check(bool(np.all(ok)), '%s: value %s, reference %s', what, short(g), short(want))
    w.verify(what)
    mon.ev('%', (ka, kb, np.asarray(av).dtype.char, np.shape(av), np.shape(bv), tuple(sorted(ea)), tuple(sorted(eb))))


def pow_case(rng, mon, i):
    ka = rng.choice(KINDS)
    ex = gen_expr(rng, maxterms=3, exps=ALL_EXPS)
    a, av, ea = operand(rng, ka, ex, dt=rng.choice('dddddfflDibBheF'), nonzero=True)
    c = rng.random()
    p = rng.choice([0, 1, 2, 3, -1, -2, 4, 0.5, -0.5, 1.5, F(1, 4), 2.0, -3.0])
    if rng.random() < .15:
        p = rng.choice([7, -9, 12, 20, 100, 100.25, -37.125, 250.625, 1001.5, 0.0078125, -0.001953125, 2.015625, 1000, -128, 255])
    pe = M.as_frac(p)
    p = float(p) if isinstance(p, F) else p
    if c < 0.6:
        pp = p
    elif c < 0.75:
        pp = rng.choice([np.float64, np.float32] + ([np.int64, np.int32, np.int8 if abs(p) < 100 else np.int16] if isinstance(p, int) else []))(p)
    elif c < 0.9:
        pp = np.full(bcast_shape(rng, np.shape(av)), p)
        if pp.size == 0:
            return
    else:
        pp = Quantity(p, 'dimensionless')
    want, werr = attempt(np.power, np.asarray(av), np.asarray(pp) if np.ndim(pp) or isinstance(pp, Quantity) else pp)
    what = '(%s %s %s %s) ** %r' % (ka, np.asarray(av).dtype, np.shape(av), M.show(ea), pp)
    w = Watch(a, pp)
    got, err = attempt(operator.pow, a, pp)
    if werr is not None:
        mon.check(err is not None, '%s accepted although numpy refuses: %r', what, werr)
        w.verify(what)
        return
    if err is not None:
        mon.fail('%s refused: %r' % (what, err))
    want = np.asarray(want)
    result_checks(mon, what, got, want, M.ex_pow(ea, pe), max(1e-11, 20 * tol(av, want)), 0.0, w, (a,))
    mon.check(same_type(got.dtype, want.dtype), '%s: dtype %s, numpy gives %s', what, got.dtype, want.dtype)
    mon.ev('**', (ka, type(pp).__name__, np.shape(pp), repr(p), np.asarray(av).dtype.char, np.shape(av), tuple(sorted(ea))))
    # refused exponents
    if ea and rng.random() < 0.5:
        bad = np.array([1.0, 2.0])
        sh = np.ones((2,))
        for nm, base, e in (('non-uniform', Quantity(sh, as_units(ea)), bad), ('dimensional', a, Quantity(2.0, 'm')),
                            ('unit', a, pq.s)):
            _, err = attempt(operator.pow, base, e)
            mon.check(err is not None, '%s exponent accepted for %s', nm, M.show(ea))
        # a dimensional exponent on a plain base
        _, err = attempt(operator.pow, 2.0, a)
        if not M.is_dimless(ea):
            mon.check(err is not None, '2 ** %s accepted', M.show(ea))
        mon.ev('**bad', (tuple(sorted(ea)),))


def exponent_case(rng, mon, i):
    """a dimensionless quantity or the dimensionless unit as the exponent of everything"""
    kb = rng.choice(['number', 'npscalar', 'array', 'list', 'quantity', 'unit'])
    sh = some_shape(rng, [(), (3,), (2, 2), (0,)])
    ea = {}
    if kb == 'number':
        b = av = rng.choice([2, 2.5, 1, 10, .5])
    elif kb == 'npscalar':
        b = av = rng.choice([np.float64(2.5), np.float32(1.5), np.int64(3), np.int16(7)])
    elif kb == 'array':
        b = av = np.abs(gen_array(rng, rng.choice('dfl'), sh, nonzero=True))
    elif kb == 'list':
        b = av = [1.5, 2.0, 3.0]
    elif kb == 'quantity':
        ea = gen_expr(rng)
        av = np.abs(gen_array(rng, rng.choice('dfl'), sh, nonzero=True))
        b = Quantity(np.array(av), as_units(ea))
    else:
        u = pick_unit(rng)
        b, av, ea = uobj(u.name), 1.0, {u.name: 1}
    v = rng.choice([1, 2, 3, 0, -1, .5, 1.5, 2.0, 1.0])
    ke = rng.choice(['unit', 'scalar', 'one', 'array'])
    if ke == 'unit':
        v, e = 1, pq.dimensionless
    elif ke == 'scalar':
        e = Quantity(v, rng.choice(['', 'dimensionless', pq.dimensionless]))
    else:
        e = Quantity(np.full((1,) if ke == 'one' else np.shape(av) or (2,), v), '')
    if e.size == 0:
        return
    E = np.asarray(e.magnitude) if e.shape else np.asarray(e.magnitude)[()]
    f = rng.choice([operator.pow, operator.pow, np.power])
    with np.errstate(all='ignore'):
        want, werr = attempt(np.power, np.asarray(av) if not np.isscalar(av) else av, E)
        w = Watch(*[o for o in (b, e) if isinstance(o, np.ndarray)])
        got, err = attempt(f, b, e)
    what = '%r ** %r (%s)' % (b, e, f.__name__)
    if werr is not None:
        mon.check(err is not None, '%s accepted although numpy refuses: %r', what, werr)
        return
    if err is not None:
        mon.fail('%s refused: %r' % (what, err))
    want = np.asarray(want)
    result_checks(mon, what, got, want, M.ex_pow(ea, M.as_frac(v)), max(1e-11, 20 * tol(np.asarray(av), want)), 0.0, w, (b, e))
    mon.ev('** dimensionless', (kb, ke, v, sh, f.__name__))


def unary_case(rng, mon, i):
    ka = rng.choice(KINDS)
    ex = gen_expr(rng, exps=ALL_EXPS)
    a, av, ea = operand(rng, ka, ex, dt=rng.choice('dddfflihDF'), hostile=rng.random() < 0.4)
    for nm, op in (('neg', operator.neg), ('abs', operator.abs)):
        w = Watch(a)
        got = op(a)
        want = op(np.asarray(av))
        what = '%s(%s %s)' % (nm, ka, M.show(ea))
        result_checks(mon, what, got, np.asarray(want), ea, tol(av) if nm == 'abs' and np.asarray(av).dtype.kind == 'c' else 0, 0, w, (a,))
        mon.check(same_type(got.dtype, np.asarray(want).dtype), '%s: dtype %s', what, got.dtype)
        if nm == 'neg' and got.dtype.kind == 'f':
            mon.check(identical(mag(got), want), '%s: %s, expected %s', what, short(mag(got)), short(want))
        mon.ev(nm, (ka, np.asarray(av).dtype.char, np.shape(av), tuple(sorted(ea))))


def pure_case(rng, mon, i):
    """plain numbers added to quantities that reduce to a pure number are converted first"""
    u = rng.choice(M.GROUPS[M.ZERO])
    ka = rng.choice(['q', 'scalar', 'unit'])
    if ka == 'unit':
        a, av, ea = uobj(u.name), np.array(1.0), {u.name: 1}
        if rng.random() < .3:
            a, ea, u = pq.dimensionless, {}, M.BY_NAME['dimensionless'] if 'dimensionless' in M.BY_NAME else u
            if not ea and u.fval != 1:
                return
    else:
        a, av, ea = operand(rng, ka, {u.name: 1}, dt='d')
    p = rng.choice([1, 2.5, -3, np.float64(0.5)]) if rng.random() < 0.6 else gen_array(rng, 'd', bcast_shape(rng, np.shape(av)))
    r = 1 / u.fval
    for nm, f, g in (('q+n', lambda: a + p, lambda: av + np.asarray(p) * r), ('n+q', lambda: p + a, lambda: np.asarray(p) * r + av),
                     ('q-n', lambda: a - p, lambda: av - np.asarray(p) * r), ('n-q', lambda: p - a, lambda: np.asarray(p) * r - av),
                     ('q%n', lambda: a % p, lambda: np.mod(av, np.asarray(p) * r)), ('n%q', lambda: p % a, lambda: np.mod(np.asarray(p) * r, av))):
        if '%' in nm and np.any(np.asarray(p if nm == 'q%n' else av) == 0):
            continue
        want, werr = attempt(g)
        w = Watch(a, p)
        got, err = attempt(f)
        if werr is not None:
            mon.check(err is not None, '%s accepted', nm)
            continue
        if err is not None:
            if isinstance(err, ValueError) and nm == 'n%q' or isinstance(p, np.generic) and nm[0] == 'n':
                continue        # numpy scalars on the left go straight to the ufunc, which may refuse
            mon.fail('%s of %s and %r refused: %r' % (nm, u, p, err))
        want = np.asarray(want)
        sc = float(np.max(np.abs(av), initial=0.0) + np.max(np.abs(np.asarray(p)), initial=0) * r)
        mon.check(same_dims(got, ea) or M.compatible(fdims(got), ea), '%s: units %s', nm, dims(got))
        s = si(got)
        if '%' in nm:
            # equal but for a multiple of the divisor (rounding at the jumps)
            d = (np.asarray(p) + 0 * av * r if nm == 'q%n' else av * u.fval + 0 * np.asarray(p))
            k = (s - want * u.fval) / d
            mon.check(np.shape(s) == want.shape and bool(np.all(np.abs(k - np.rint(k)) <= 1e-9 * (1 + sc * u.fval / np.abs(d)))) and bool(np.all((s * np.sign(d) >= -1e-9 * np.abs(d)) & (np.abs(s) <= np.abs(d) * (1 + 1e-9)))), '%s of %s: %s, reference %s', nm, u, short(got), short(want))
            w.verify(nm)
            mon.ev('pure', (nm, ka, u.name, np.shape(av), np.shape(p)))
            continue
        mon.check(close(s, want * u.fval, 1e-11, 1e-11 * sc * u.fval), '%s of %s: %s, reference %s', nm, u, short(got), short(want))
        w.verify(nm)
        mon.ev('pure', (nm, ka, u.name, np.shape(av), np.shape(p)))


def assoc_case(rng, mon, i):
    """physical consistency over larger expressions: evaluate a random expression tree in the library and in SI floats"""
    terms = []

    def leaf():
        ex = gen_expr(rng, maxterms=2)
        a = gen_array(rng, 'd', shape_, positive=True, nonzero=True)
        return Quantity(np.array(a), as_units(ex)), np.asarray(a) * M.fl(M.factor(ex)), M.dim_of(ex)

    def tree(d):
        if d == 0:
            return leaf()
        op = rng.choice(['*', '/', '+', '**'])
        q, s, dm = tree(d - 1)
        if op == '**':
            p = rng.choice([2, -1, 0.5, 1])
            return q ** p, s ** p, tuple(x * M.as_frac(p) for x in dm)
        if op == '+':
            # q + k*q in other units
            ex = M.ex_norm(fdims(q))
            to = gen_compatible(rng, ex)
            k = rng.choice([0.5, 2.0, 3.25])
            return q + (k * q).rescale(as_units(to)), s * (1 + k), dm
        r, t, dn = tree(d - 1) if rng.random() < 0.4 else leaf()
        if op == '*':
            return q * r, s * t, tuple(x + y for x, y in zip(dm, dn))
        return q / r, s / t, tuple(x - y for x, y in zip(dm, dn))
    shape_ = some_shape(rng, [(), (3,), (2, 2)])
    q, s, dm = tree(rng.randint(2, 4))
    f = M.factor(fdims(q))
    if not np.all(np.isfinite(s)) or not F(10) ** -200 < f < F(10) ** 200 or np.any(np.abs(s) < 1e-200) or np.any(np.abs(s) > 1e200):
        return
    mon.check(M.dim_of(fdims(q)) == dm, 'expression tree: dimension %s, expected %s', dims(q), dm)
    mon.check(close(si(q), s, 1e-10), 'expression tree: %s, reference (SI) %s', short(si(q)), short(s))
    mon.ev('tree', (str(dm), shape_, len(fdims(q))))


FAMILIES = [
    Family('lookalike', zoo.arith_case, 800, 20000),
    Family('muldiv', muldiv_case, 6000, 150000),
    Family('addsub', addsub_case, 5000, 120000),
    Family('mod', mod_case, 2000, 40000),
    Family('pow', pow_case, 2500, 60000),
    Family('exponent', exponent_case, 800, 20000),
    Family('unary', unary_case, 1000, 20000),
    Family('pure', pure_case, 600, 15000),
    Family('tree', assoc_case, 800, 30000),
]
REQUIRED_OPS = ('lookalike', '*', '/', '//', '+', '-', '%', '**', 'neg', 'abs', 'pure', 'tree', '**bad', '** dimensionless')
