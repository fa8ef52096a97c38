"""C07: comparisons are physically meaningful."""
import operator
from fractions import Fraction as F
import numpy as np
from ..core import Family
from .. import model as M
from ..lib import *
from .. import zoo

PROP = 'C07'
RULE = ('a case compares two quantities with all six operators; the oracle compares exact rational SI values element by element '
        '(pairs closer than the rounding of the element type only take part in consistency monitors); distinct by (operator, operand '
        'kinds, dtypes, shapes, unit pair, relation)')
OPS = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}
NAMES = list(OPS)


def plain_bool(mon, r, shape, what):
    mon.check(isinstance(r, (bool, np.bool_)) or (type(r) is np.ndarray and r.dtype == bool), '%s returned a %s of %s', what, type(r).__name__, getattr(r, 'dtype', ''))
    r = np.asarray(r)
    mon.check(r.shape == shape, '%s has shape %s, expected %s', what, r.shape, shape)
    return r


def rel(x, y, fx, fy, tol, same=False):
    """'<' '=' '>' '~' (too close) 'n' (nan)"""
    if isinstance(x, complex) or isinstance(y, complex):
        raise ValueError
    if x != x or y != y:
        return 'n'
    ix, iy = x in (float('inf'), float('-inf')), y in (float('inf'), float('-inf'))
    if ix or iy:
        a = x if ix else 0
        b = y if iy else 0
        return '<' if a < b else '>' if a > b else '='
    a, b = F(x) * fx, F(y) * fy
    if a == b and (same or a == 0):
        return '='
    if abs(a - b) <= tol * max(abs(a), abs(b)):
        return '~'
    return '<' if a < b else '>'


WANT = {'==': {'<': False, '=': True, '>': False, 'n': False}, '!=': {'<': True, '=': False, '>': True, 'n': True},
        '<': {'<': True, '=': False, '>': False, 'n': False}, '<=': {'<': True, '=': True, '>': False, 'n': False},
        '>': {'<': False, '=': False, '>': True, 'n': False}, '>=': {'<': False, '=': True, '>': True, 'n': False}}


def tolfor(*dts):
    return F(1, 10 ** 5) if any(np.dtype(d).char == 'f' for d in dts) else F(1, 10 ** 11)


def operand(rng, expr, shape, dt):
    """(object, bare array, units) of a random kind"""
    c = rng.random()
    a = np.array(gen_array(rng, dt, shape, hostile=True))
    if c < .08 and len(expr) == 1 and list(expr.values()) == [1]:
        return 'unit', uobj(list(expr)[0]), np.array(1.0), expr
    if c < .2:
        f = a.astype('d')
        return 'uq', UQ(np.array(f), as_units(expr), np.abs(np.where(np.isfinite(f), f, 1)) * .1), f, expr
    if c < .3 and a.ndim:
        q = Quantity(np.repeat(a, 2, axis=0), as_units(expr))[::2]
        return 'view', q, a, expr
    return 'q', Quantity(np.array(a), as_units(expr)), a, expr


def judge(mon, qa, A, ea, qb, B, eb, label):
    w = Watch(qa, qb)
    fa, fb = M.factor(ea), M.factor(eb)
    tol = tolfor(A.dtype, B.dtype)
    shape = np.broadcast_shapes(A.shape, B.shape)
    xa, xb = np.broadcast_to(A, shape), np.broadcast_to(B, shape)
    same = M.ex_norm(ea) == M.ex_norm(eb)
    rels = [rel(x, y, fa, fb, tol, same) for x, y in zip(xa.ravel().tolist(), xb.ravel().tolist())]
    res = {}
    for nm, op in OPS.items():
        what = '%s %s %s [%s]' % (short(qa, 90), nm, short(qb, 90), label)
        r = plain_bool(mon, op(qa, qb), shape, what)
        res[nm] = r.ravel()
        for k, c in enumerate(rels):
            if c == '~':
                continue
            mon.check(bool(res[nm][k]) is WANT[nm][c], '%s: element %d is %s; exact comparison of %r %s and %r %s says %s', what, k, res[nm][k],
                      xa.ravel()[k].item(), M.show(ea), xb.ravel()[k].item(), M.show(eb), c)
        mon.ev(nm, (label, A.dtype.char, B.dtype.char, A.shape, B.shape, same, tuple(sorted(set(rels))), tuple(sorted(ea)), tuple(sorted(eb))))
    for k, c in enumerate(rels):
        e, n, l, le, g, ge = [bool(res[x][k]) for x in NAMES]
        mon.check(n is not e, '%s, %s: == is %s and != is %s', short(qa), short(qb), e, n)
        if c == '~' and A.dtype == B.dtype:
            mon.check([l, e, g].count(True) == 1, '%s, %s element %d: <, ==, > are %s', short(qa), short(qb), k, (l, e, g))
            mon.check(le == (l or e) and ge == (g or e), '%s, %s element %d: <=, >= inconsistent', short(qa), short(qb), k)
    w.verify('comparison')
    return rels


def compatible_case(rng, mon, i):
    ex = gen_expr(rng, maxterms=2)
    ey = gen_compatible(rng, ex) if rng.random() < .75 else dict(ex)
    da, db = rng.choice('dddddffli'), rng.choice('dddddffli')
    lim = F(10) ** (12 if 'f' in da + db else 60)
    if not 1 / lim < M.ratio(ex, ey) < lim:
        ey = dict(ex)
    sh = some_shape(rng, [(), (3,), (2, 3), (1,), (2, 1), (0,)], MID_SHAPES)
    ka, qa, A, _ = operand(rng, ex, sh, da)
    kb, qb, B, _ = operand(rng, ey, bcast_shape(rng, sh), db)
    r = rng.random()
    if kb == 'q' and r < .45 and A.dtype.kind == 'f' and B.size:
        # nearly or exactly the same physical values
        fac = M.fl(M.ratio(ex, ey))
        with np.errstate(all='ignore'):
            base = np.broadcast_to(A, np.broadcast_shapes(A.shape, B.shape)) * fac
        eps = rng.choice([0, 0, 1e-3, -1e-3, 1e-8, -1e-8, 1e-15])
        B = np.array(base * (1 + eps), db if db in 'df' else 'd')
        qb = Quantity(np.array(B), as_units(ey))
    judge(mon, qa, A, ex, qb, B, ey, ka + '-' + kb)
    judge(mon, qb, B, ey, qa, A, ex, kb + '-' + ka)


RATIOS = [('kilometer', 'meter', 1000), ('meter', 'centimeter', 100), ('hour', 'second', 3600), ('minute', 'second', 60), ('day', 'hour', 24), ('hour', 'minute', 60),
          ('foot', 'inch', 12), ('yard', 'foot', 3), ('kilogram', 'gram', 1000), ('week', 'day', 7), ('byte', 'bit', 8), ('kibibyte', 'byte', 1024),
          ('mile', 'foot', 5280), ('kilosecond', 'second', 1000), ('pound', 'ounce', 16), ('kilovolt', 'volt', 1000), ('mebibyte', 'kibibyte', 1024)]


def exact_case(rng, mon, i):
    """equal physical values whose conversion is exact in floating point"""
    big, small, k = RATIOS[i % len(RATIOS)]
    n = rng.choice([1, -1]) * rng.randint(1, 2 ** rng.randint(1, 30))
    dt = rng.choice(['d', 'd', 'l', 'i'])
    if dt == 'i':
        n = n % 1000 + 1
    sh = some_shape(rng, [(), (2,), (2, 2)], MID_SHAPES)
    A = np.full(sh, n, dt)
    B = np.full(sh, n * k, rng.choice(['d', 'l']))
    qa, qb = Quantity(A.copy(), uobj(big)), Quantity(B.copy(), uobj(small))
    # the factor from the larger to the smaller unit is an exact integer
    fac = (1 * uobj(big)).rescale(uobj(small)).magnitude
    mon.check(float(fac) == k, '1 %s is %r %s', big, float(fac), small)
    for nm, want in (('==', True), ('!=', False), ('<', False), ('<=', True), ('>', False), ('>=', True)):
        r = plain_bool(mon, OPS[nm](qb, qa), sh, nm)
        mon.check(bool(r.all()) == want and bool(r.any()) == want, '%s %s %s gave %s', short(qb), nm, short(qa), r)
        mon.ev('exact', (big, nm, dt, sh))
    for d in (1, -1):
        q2 = Quantity(B + d, uobj(small))
        for x, y, s in ((q2, qa, d), (qa, q2, -d)):
            mon.check(bool((x != y).all()) and not bool((x == y).any()), '%s vs %s are different but compare equal', short(x), short(y))
            mon.check(bool((x > y).all()) is (s > 0) and bool((x < y).all()) is (s < 0), '%s vs %s: wrong order', short(x), short(y))


def incompatible_case(rng, mon, i):
    ex = gen_expr(rng, maxterms=2)
    ey = gen_incompatible(rng, ex)
    sh = some_shape(rng, [(), (3,), (2, 3), (1,), (0,)], MID_SHAPES)
    ka, qa, A, _ = operand(rng, ex, sh, rng.choice('ddflD'))
    kb, qb, B, _ = operand(rng, ey, bcast_shape(rng, sh), rng.choice('ddfl'))
    if rng.random() < .2 and A.dtype == B.dtype and A.shape == B.shape:
        qb = Quantity(np.array(A), as_units(ey))
    shape = np.broadcast_shapes(A.shape, B.shape)
    w = Watch(qa, qb)
    for x, y, X, Y in ((qa, qb, ex, ey), (qb, qa, ey, ex)):
        what = '%s vs %s' % (short(x, 90), short(y, 90))
        r = plain_bool(mon, x == y, shape, what + ' ==')
        mon.check(not r.any(), '%s: == is True somewhere for different dimensions', what)
        r = plain_bool(mon, x != y, shape, what + ' !=')
        mon.check(r.all(), '%s: != is False somewhere for different dimensions', what)
        for nm in ('<', '<=', '>', '>='):
            got, err = attempt(OPS[nm], x, y)
            mon.check(err is not None, '%s: %s gave %s for different dimensions', what, nm, short(got))
            mon.check(isinstance(err, (ValueError, TypeError)), '%s: %s raised %r', what, nm, err)
        mon.ev('incompatible', (ka, kb, A.shape, B.shape, str(M.dim_of(X)), str(M.dim_of(Y))))
    w.verify('comparison of incompatible quantities')


def plain_case(rng, mon, i):
    """plain numbers compare with the magnitude, the result never carries units"""
    ex = gen_expr(rng, maxterms=2) if rng.random() < .6 else {}
    sh = some_shape(rng, [(), (3,), (2, 3)], MID_SHAPES)
    dt = rng.choice('dddfl')
    ka, qa, A, _ = operand(rng, ex, sh, dt)
    c = rng.randrange(5)
    if c == 0:
        p = rng.choice([0, 1, 2.5, -3, float('nan'), float('inf'), True, np.float32(2), np.int64(3), np.float64(0)])
    elif c == 1:
        p = gen_array(rng, 'd', A.shape).tolist()
    elif c == 2 and A.size:
        p = A.ravel()[0].item()
    else:
        p = np.array(gen_array(rng, rng.choice('dl'), bcast_shape(rng, A.shape), hostile=True))
    w = Watch(qa, p)
    shape = np.broadcast_shapes(A.shape, np.shape(p))
    for nm, op in OPS.items():
        for x, y, X, Y in ((qa, p, A, p), (p, qa, p, A)):
            if ex and isinstance(x, np.generic):
                continue   # numpy scalars on the left compare themselves first
            got, err = attempt(op, x, y)
            want = op(np.asarray(X), np.asarray(Y))
            what = '%s %s %s' % (short(x, 80), nm, short(y, 80))
            mon.check(err is None, '%s raised %r', what, err)
            if isinstance(x, np.generic):
                mon.check(np.array_equal(np.asarray(got), want), '%s gave %s, expected %s', what, short(got), want)
                continue
            r = plain_bool(mon, got, shape, what)
            mon.check(np.array_equal(r, want), '%s gave %s, expected %s', what, r, want)
            mon.ev('plain ' + nm, (ka, type(x).__name__, type(y).__name__, dt, tuple(sorted(ex)), np.shape(p)))
    for bad in (None, 'm', object()):
        e, err = attempt(lambda: qa == bad)
        if err is None and isinstance(e, (np.ndarray, bool, np.bool_)):
            mon.check(not np.any(np.asarray(e)), '%s == %r is True', short(qa), bad)
    w.verify('comparison with a plain operand')


def complex_case(rng, mon, i):
    ex = gen_expr(rng, maxterms=2)
    ey = gen_compatible(rng, ex)
    if not F(10) ** -20 < M.ratio(ex, ey) < F(10) ** 20:
        ey = dict(ex)
    A = np.array(gen_array(rng, 'D', (3,)))
    same = M.ex_norm(ex) == M.ex_norm(ey)
    B = A.copy() if same else A * M.fl(M.ratio(ex, ey))
    k = rng.randrange(3)
    B[k] = B[k] * (1 + rng.choice([.1, .1j])) + (1 if B[k] == 0 else 0)
    qa, qb = Quantity(A.copy(), as_units(ex)), Quantity(B.copy(), as_units(ey))
    e, n = plain_bool(mon, qa == qb, (3,), 'complex =='), plain_bool(mon, qa != qb, (3,), 'complex !=')
    mon.check(np.array_equal(e, ~n), 'complex == and != are not opposite')
    mon.check(not e[k], '%s == %s at %d', qa, qb, k)
    if same:
        mon.check(e.sum() == 2, '%s == %s gave %s', qa, qb, e)
    mon.ev('complex', (same, tuple(sorted(ex))))


def container_case(rng, mon, i):
    """sorting, min, max and membership built on the operators"""
    ex = gen_expr(rng, maxterms=2, allow_empty=False)
    items = []
    for v in rng.sample(range(1, 60), 7):
        ey = gen_compatible(rng, ex) if rng.random() < .7 else dict(ex)
        if not F(10) ** -12 < M.ratio(ex, ey) < F(10) ** 12:
            ey = dict(ex)
        items.append((v, Quantity(v * M.fl(M.ratio(ex, ey)), as_units(ey))))
    got = sorted([q for _, q in items])
    want = [q for _, q in sorted(items, key=lambda t: t[0])]
    mon.check([id(x) for x in got] == [id(x) for x in want], 'sorted() gave %s', got)
    mon.check(max(q for _, q in items) is want[-1] and min(q for _, q in items) is want[0], 'max/min wrong for %s', items)
    mon.ev('sorted', (tuple(sorted(ex)), tuple(v for v, _ in items)))


REQUIRED_OPS = NAMES + ['lookalike', 'exact', 'incompatible', 'plain ==', 'plain <', 'sorted', 'complex']
FAMILIES = [Family('lookalike', zoo.compare_case, 1000, 30000), Family('compatible', compatible_case, 2200, 60000), Family('exact', exact_case, 600, 10000), Family('incompatible', incompatible_case, 2000, 60000),
            Family('plain', plain_case, 800, 20000), Family('complex', complex_case, 300, 8000), Family('container', container_case, 200, 5000)]
