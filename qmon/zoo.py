"""Units and physical constants together, with special weight on lookalikes: different units which share a name
or a symbol (hour and Planck constant 'h', farad and Faraday constant 'F', ...). Case functions used by several checks.
Keys of expressions are the reference names, 'const:NAME' for constants; values come from the reference tables only."""
import operator, pickle
from fractions import Fraction as F
import numpy as np
from . import model as M
from .core import Violation
from .codata import ROWS, expected
from .lib import *
from quantities import constants as C

K = {}        # key -> (SI value, dimension)
OBJ = {}
LABELS = {}   # label -> keys


def _fill():
    for u in M.ORD:
        K[u.name] = (u.val, u.dim)
        OBJ[u.name] = lambda n=u.name: uobj(n)
        for l in set(u.labels) | {u.name}:
            LABELS.setdefault(l, set()).add(u.name)
    for row in ROWS:
        name, sym, attrs, entry = row
        v, p, ex = expected(row)
        k = 'const:' + name
        K[k] = (F(v) * M.factor(ex), M.dim_of(ex))
        OBJ[k] = lambda a=attrs[0]: getattr(C, a)
        for l in set(attrs) | {name, sym}:
            LABELS.setdefault(l, set()).add(k)


_fill()
LOOK = sorted(tuple(sorted(g)) for g in {frozenset(v) for v in LABELS.values() if len(v) > 1})
MATES = {}
for _g in LOOK:
    for _k in _g:
        MATES.setdefault(_k, set()).update(x for x in _g if x != _k)
MATES = {k: sorted(v) for k, v in MATES.items()}
FALSE = [k for k in sorted(MATES) if any(K[m][1] != K[k][1] for m in MATES[k])]   # lookalikes of another dimension
TWIN = [k for k in sorted(MATES) if any(K[m][1] == K[k][1] for m in MATES[k])]    # lookalikes of the same dimension
CONST = sorted(k for k in K if k.startswith('const:'))
BYDIM = {}
for _k in sorted(K):
    BYDIM.setdefault(K[_k][1], []).append(_k)


def obj(k):
    return OBJ[k]()


def zval(ex):
    r = F(1)
    for k, e in ex.items():
        r *= M._dpow(K[k][0], M.as_frac(e))
    return r


def zdim(ex):
    d = [F(0)] * len(M.BASE)
    for k, e in ex.items():
        for i, x in enumerate(K[k][1]):
            d[i] += x * M.as_frac(e)
    return tuple(d)


def zdims(x):
    """{key: exponent} of a library object"""
    d = x if isinstance(x, Dimensionality) else x.dimensionality
    out = {}
    for u, e in d.items():
        k = ('const:' if isinstance(u, pq.UnitConstant) else '') + u.name
        if k in out:
            raise Violation('%s occurs twice in %r' % (k, dict(d)))
        out[k] = e
    return out


def zsame(x, ex):
    a = zdims(x)
    b = {k: float(v) for k, v in ex.items() if v}
    return set(a) == set(b) and all(abs(float(a[k]) - b[k]) < 1e-9 for k in a)


def zunits(rng, ex):
    """a library unit specification, put together in random order"""
    q = 1 * pq.dimensionless
    ks = list(ex)
    rng.shuffle(ks)
    for k in ks:
        q = q * obj(k) ** pexp(ex[k])
    return Quantity(1.0, q.dimensionality)


def target(rng, ex):
    if len(ex) == 1 and list(ex.values()) == [1] and rng.random() < .6:
        return obj(list(ex)[0])
    q = zunits(rng, ex)
    return rng.choice([q, q.dimensionality])


def ok(ex, lim=60):
    return F(10) ** -lim < zval(ex) < F(10) ** lim


def zgen(rng, lim=60):
    for _ in range(60):
        ex = {}
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            c = rng.random()
            k = rng.choice(FALSE if c < .35 else TWIN) if c < .65 else rng.choice(CONST) if c < .8 else pick_unit(rng).name
            ex = M.ex_mul(ex, {k: rng.choice([1, 1, 1, -1, 2, -2])})
        if ex and ok(ex, lim):
            return ex
    return {'hour': 1}


def swap(rng, ex):
    """another expression of the same dimension"""
    for _ in range(20):
        new = {}
        for k, e in ex.items():
            c = rng.random()
            same = [m for m in MATES.get(k, []) if K[m][1] == K[k][1]]
            if same and c < .5:
                new = M.ex_mul(new, {rng.choice(same): e})
            elif c < .6:
                new = M.ex_mul(new, M.ex_pow(M.si_expr(K[k][1]), e))
            elif c < .85:
                new = M.ex_mul(new, {rng.choice(BYDIM[K[k][1]]): e})
            else:
                new = M.ex_mul(new, {k: e})
        if ok(new) and zdim(new) == zdim(ex):
            return new
    return dict(ex)


def lookalike(rng, ex):
    """the same text with another dimension, if there is one"""
    for _ in range(20):
        new, hit = {}, False
        for k, e in ex.items():
            m = MATES.get(k)
            if m and rng.random() < .7:
                k = rng.choice(m)
                hit = True
            new = M.ex_mul(new, {k: e})
        if hit and zdim(new) != zdim(ex) and ok(new):
            return new


def kinds(ex):
    return tuple(sorted(('c' if k.startswith('const:') else 'u') + ('l' if k in MATES else '') for k in ex))


def convert_case(rng, mon, i):
    """a burst of conversions among lookalikes"""
    ex = zgen(rng)
    others = [ex] + [x for x in (lookalike(rng, ex), lookalike(rng, ex)) if x]
    for _ in range(rng.choice([3, 5, 8])):
        a = rng.choice(others)
        b = swap(rng, a)
        f = zval(a) / zval(b)
        if not F(10) ** -50 < f < F(10) ** 50:
            continue
        v = gen_array(rng, 'd')
        q = Quantity(v.copy(), zunits(rng, a))
        mon.check(zsame(q, a), 'units of %s are %s', M.show(a), zdims(q))
        t = target(rng, b)
        got, err = attempt(q.rescale, t)
        mon.check(err is None and zsame(got, b) and close(mag(got), v * M.fl(f), 1e-11), '%s in %s converted to %s is %s, expected %s', short(v), M.show(a), M.show(b), got if err is None else err, v * M.fl(f))
        s, err = attempt(lambda: q.simplified)
        si = M.si_expr(zdim(a))
        mon.check(err is None and same_dims(s, si) and close(mag(s), v * M.fl(zval(a)), 1e-11), '%s %s simplifies to %s', short(v), M.show(a), s if err is None else err)
        c = lookalike(rng, a)
        if c:
            got, err = attempt(q.rescale, target(rng, c))
            mon.check(isinstance(err, ValueError), '%s in %s is converted to %s: %s', short(v), M.show(a), M.show(c), got if err is None else repr(err))
        mon.ev('lookalike' if c else 'constants', (tuple(sorted(a)), tuple(sorted(b))), (M.show(a), M.show(b)))


def refuse_case(rng, mon, i):
    """units which only look alike are not combined"""
    for _ in range(40):
        a = zgen(rng)
        b = lookalike(rng, a)
        if b:
            break
    else:
        return
    v = gen_array(rng, 'd', (3,), nonzero=True)
    p, q = Quantity(v.copy(), zunits(rng, a)), Quantity(np.abs(v) + 1, zunits(rng, b))
    if rng.random() < .3 and len(a) == 1 and list(a.values()) == [1]:
        p = obj(list(a)[0])
    w = Watch(p, q)
    calls = [('rescale', lambda: p.rescale(q.dimensionality)), ('rescale to units', lambda: p.rescale(q.units)), ('+', lambda: p + q), ('-', lambda: q - p), ('<', lambda: p < q), ('>=', lambda: q >= p), ('np.maximum', lambda: np.maximum(p, q)),
             ('np.hypot', lambda: np.hypot(q, p)), ('Quantity()', lambda: Quantity(p, q.dimensionality)), ('np.arctan2', lambda: np.arctan2(p, q)), ('%', lambda: p % q), ('dimensionalities +', lambda: p.dimensionality + q.dimensionality),
             ('dimensionalities -', lambda: p.dimensionality - q.dimensionality), ('uncertainty', lambda: UQ(q, uncertainty=Quantity(1.0, p.dimensionality)))]
    if not isinstance(p, UnitQuantity):
        calls += [('setitem', lambda: operator.setitem(p, 0, q[0])), ('+=', lambda: operator.iadd(p, q)), ('units=', lambda: setattr(p, 'units', q.units)), ('clip', lambda: p.clip(q[0], q[1])), ('put', lambda: p.put([0], q[0]))]
    for nm, f in rng.sample(calls, 8):
        if rng.random() < .5:
            # the harmless conversion just before
            x = rng.choice([a, b])
            attempt(Quantity(1.0, zunits(rng, x)).rescale, target(rng, swap(rng, x)))
        got, err = attempt(f)
        mon.check(err is not None, '%s of %s and %s, which look alike, is accepted: %s', nm, M.show(a), M.show(b), got)
        w.verify('the refused %s' % nm)
        mon.ev('lookalike', (nm, tuple(sorted(a)), tuple(sorted(b))))


def arith_case(rng, mon, i):
    """products and quotients keep lookalikes apart; sums convert"""
    a = zgen(rng, 30)
    b = rng.choice([lookalike(rng, a), swap(rng, a), zgen(rng, 30), {k: v for k, v in zip(MATES[list(a)[0]], [1])} if list(a)[0] in MATES else None]) or zgen(rng, 30)
    x, y = gen_array(rng, 'd'), None
    y = gen_array(rng, 'd', bcast_shape(rng, x.shape), nonzero=True)
    p, q = Quantity(x.copy(), zunits(rng, a)), Quantity(y.copy(), zunits(rng, b))
    w = Watch(p, q)
    for nm, f, want, ex in (('*', lambda: p * q, x * y, M.ex_mul(a, b)), ('/', lambda: p / q, x / y, M.ex_mul(a, b, -1)), ('reverse *', lambda: q * p, x * y, M.ex_mul(a, b)), ('*u', lambda: p * q.units, x, M.ex_mul(a, b)), ('**2', lambda: q ** 2, y ** 2, M.ex_pow(b, 2)),
                            ('*/', lambda: p * q / q.units, x * y, a), ('np.divide', lambda: np.divide(p, q), x / y, M.ex_mul(a, b, -1))):
        r = f()
        mon.check(zsame(r, ex), '%s %s %s has the units %s', M.show(a), nm, M.show(b), zdims(r))
        mon.check(np.shape(r) == np.shape(want) and close(mag(r), want, 1e-14), '%s %s %s is %s', p, nm, q, r)
    if len(a) == 1:
        k = list(a)[0]
        u = obj(k)
        for m in MATES.get(k, []):
            r = u / obj(m)
            mon.check(zsame(r, {k: 1, m: -1}) and float(r.magnitude) == 1, '%s / %s is %s', k, m, zdims(r))
            r = u * obj(m)
            mon.check(zsame(r, {k: 1, m: 1}), '%s * %s is %s', k, m, zdims(r))
    if zdim(a) == zdim(b):
        f = M.fl(zval(b) / zval(a))
        if 1e-30 < f < 1e30:
            for nm, r, want in (('+', abs(p) + abs(q), np.abs(x) + np.abs(y) * f), ('reverse +', (abs(q) + abs(p)).rescale(p.dimensionality), np.abs(x) + np.abs(y) * f)):
                mon.check(zsame(r, a) and close(mag(r), want, 1e-11), '%s %s %s is %s, expected %s', abs(p), nm, abs(q), r, want)
            mon.ev('lookalike sum', (tuple(sorted(a)), tuple(sorted(b))))
    w.verify('arithmetic')
    mon.ev('lookalike', (tuple(sorted(a)), tuple(sorted(b))), (M.show(a), M.show(b)))


def dims_case(rng, mon, i):
    """dimensionalities of lookalikes are different and follow the group laws"""
    a = zgen(rng)
    pool = [a, dict(a), M.ex_pow(a, -1)]
    for _ in range(3):
        pool.append(lookalike(rng, a) or swap(rng, a))
    ks = list(a)
    if any(k in MATES for k in ks):
        k = rng.choice([k for k in ks if k in MATES])
        m = rng.choice(MATES[k])
        pool.append({(m if x == k else x): e for x, e in a.items()} if m not in a else zgen(rng))
        pool.append(M.ex_mul(a, {m: -a[k]}))
    D = [zunits(rng, e).dimensionality for e in pool]
    for x, d in zip(pool, D):
        mon.check(zsame(d, x), 'dimensionality of %s is %s', M.show(x), zdims(d))
    for x, d in zip(pool, D):
        for y, e in zip(pool, D):
            same = x == y
            mon.check((d == e) is same and (d != e) is not same, '%s == %s is %s', M.show(x), M.show(y), d == e)
            mon.check(not same or hash(d) == hash(e), 'equal dimensionalities of %s have different hashes', M.show(x))
            mon.check((e in {d: 1}) is same, '%s found under %s: %s', M.show(y), M.show(x), e in {d: 1})
            mon.check(zsame(d * e, M.ex_mul(x, y)) and zsame(d / e, M.ex_mul(x, y, -1)), '%s and %s: product %s, quotient %s', M.show(x), M.show(y), zdims(d * e), zdims(d / e))
            mon.check((len(d / e) == 0) is same, 'quotient of %s and %s is %s', M.show(x), M.show(y), d / e)
            _, err = attempt(lambda: d + e)
            mon.check((err is None) is same, 'sum of dimensionalities %s and %s: %r', M.show(x), M.show(y), err)
        n = rng.choice([2, -1, 3, .5])
        mon.check(zsame(d ** n, M.ex_pow(x, n)), '%s ** %s is %s', M.show(x), n, zdims(d ** n))
        s = d.simplified
        mon.check(same_dims(s, M.si_expr(zdim(x))), '%s simplifies to %s', M.show(x), s)
        r = pickle.loads(pickle.dumps(d))
        mon.check(r == d and zsame(r, x), '%s pickles to %s', M.show(x), zdims(r))
        mon.ev('lookalike', tuple(sorted((k, str(v)) for k, v in x.items())), M.show(x))


def compare_case(rng, mon, i):
    """comparisons see the value, not the text"""
    a = zgen(rng)
    b = rng.choice([swap(rng, a), lookalike(rng, a), lookalike(rng, a)]) or swap(rng, a)
    v = rng.choice([1.0, 2.5, 7.0])
    if zdim(a) != zdim(b):
        p, q = Quantity([v, 2.0], zunits(rng, a)), Quantity([v, 2.0], zunits(rng, b))
        if rng.random() < .3:
            p = zunits(rng, a) if len(a) > 1 or list(a.values()) != [1] else obj(list(a)[0])
        for x, y in ((p, q), (q, p)):
            r, err = attempt(lambda: x == y)
            mon.check(err is None and not np.any(r), '%s == %s, which only look alike, is %s', M.show(a), M.show(b), r if err is None else err)
            r, err = attempt(lambda: x != y)
            mon.check(err is None and np.all(r), '%s != %s, which only look alike, is %s', M.show(a), M.show(b), r if err is None else err)
            r, err = attempt(rng.choice([operator.lt, operator.le, operator.gt, operator.ge]), x, y)
            mon.check(err is not None, 'ordering %s and %s, which only look alike, is accepted', M.show(a), M.show(b))
        mon.ev('lookalike', ('different', tuple(sorted(a)), tuple(sorted(b))))
        return
    f = M.fl(zval(a) / zval(b))
    if not 1e-50 < f < 1e50:
        return
    x = Quantity(v, zunits(rng, a))
    for w, rel in ((v * f * 1.0001, -1), (v * f * .9999, 1)):
        y = Quantity(w, zunits(rng, b))
        for op in (operator.lt, operator.le, operator.gt, operator.ge, operator.eq, operator.ne):
            mon.check(bool(op(x, y)) == op(rel, 0), '%s %s %s is %s', x, op.__name__, y, op(x, y))
            mon.check(bool(op(y, x)) == op(0, rel), '%s %s %s is %s', y, op.__name__, x, op(y, x))
    if len(a) == 1 and list(a.values()) == [1] and len(b) == 1 and list(b.values()) == [1]:
        u, t = obj(list(a)[0]), obj(list(b)[0])
        if abs(f - 1) > 1e-9:
            for op in (operator.lt, operator.le, operator.gt, operator.ge, operator.eq, operator.ne):
                mon.check(bool(op(u, t)) == op(f, 1.0), 'units %s %s %s is %s, their ratio is %r', u.name, op.__name__, t.name, op(u, t), f)
    mon.ev('lookalike', ('same', tuple(sorted(a)), tuple(sorted(b))))
