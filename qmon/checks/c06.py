"""C06: dimensionalities form an exact algebra."""
import copy, operator, pickle
from fractions import Fraction as F
import numpy as np
from ..core import Family
from .. import model as M
from ..lib import *
from .. import zoo

PROP = 'C06'
RULE = ('a case is a random walk of operations over a pool of dimensionalities shadowed by exact exponent tables, or a pair of '
        'dimensionalities built along different routes / differing in one detail; distinct by (operation, operand tables, exponent type)')
DY = [1, 2, 3, -1, -2, -3, 4, 10, 0.5, -0.5, 1.5, 2.5, -0.25, 0, 7, 12]


def key(ref):
    return tuple(sorted((k, F(v)) for k, v in ref.items() if v))


def exact(d):
    out = {}
    for u, e in dict.items(d):
        if e == 0:
            raise Violation('exponent zero remains for %s' % u.name)
        if u.name in out:
            raise Violation('unit %s occurs twice' % u.name)
        out[u.name] = F(e) if not isinstance(e, F) else e
    return out


def verify(mon, d, ref, what):
    mon.check(type(d) is Dimensionality, '%s gave a %s', what, type(d))
    got = exact(d)
    want = {k: F(v) for k, v in ref.items() if v}
    mon.check(got == want, '%s gave %s, expected %s', what, got, want)


def build(rng, ref):
    """the same dimensionality along one of several routes"""
    items = list(ref.items())
    rng.shuffle(items)
    c = rng.randrange(9)
    if c == 0:
        return 'dict', Dimensionality({uobj(k): pexp(F(v)) for k, v in items})
    if c == 1:
        d = Dimensionality()
        for k, v in items:
            d = d * uobj(k).dimensionality ** pexp(F(v))
        return 'product', d
    if c == 2:
        d = Dimensionality()
        for k, v in items:
            d = d / uobj(k).dimensionality ** pexp(-F(v))
        return 'quotient', d
    if c == 3:
        q = 1.0 * pq.dimensionless
        for k, v in items:
            q = q * uobj(k) ** pexp(F(v))
        return 'quantity', q.dimensionality
    if c == 4:
        d = Dimensionality({uobj(k): float(v) for k, v in items})
        x = rng.choice(M.ORD).name
        return 'detour', d * uobj(x).dimensionality ** 3 / uobj(x).dimensionality ** 3
    if c == 5:
        return 'pickled', pickle.loads(pickle.dumps(Dimensionality({uobj(k): pexp(F(v)) for k, v in items})))
    if c == 6:
        return 'deepcopy', copy.deepcopy(Dimensionality({uobj(k): pexp(F(v)) for k, v in items}))
    if c == 7:
        d = Dimensionality({uobj(k): pexp(F(v) * 2) for k, v in items})
        return 'root', d ** 0.5
    d = Dimensionality({uobj(k).copy(): pexp(F(v)) for k, v in items})
    return 'copied units', d


def walk_case(rng, mon, i):
    pool = []
    names = [pick_unit(rng).name for _ in range(4)]
    for n in names:
        pool.append((uobj(n).dimensionality, {n: F(1)}))
    pool.append((Dimensionality(), {}))
    for step in range(18):
        a, ra = rng.choice(pool)
        b, rb = rng.choice(pool)
        p = rng.choice(DY)
        fp = F(p)
        kind = 'py'
        if rng.random() < .35:
            if isinstance(p, int):
                t = rng.choice([np.int8, np.int16, np.int32, np.int64, np.float64, np.float32, np.uint8 if p >= 0 else np.int8, np.float16])
            else:
                t = rng.choice([np.float64, np.float32, np.float16])
            p = t(p)
            kind = t.__name__
        elif rng.random() < .1:
            p = F(p)
            kind = 'Fraction'
        w = Watch(a, b)
        op = rng.choice(['*', '/', '**', '*=', '/=', '**=', '+', '-', '+=', '-=', 'copy', 'inv'])
        what = '%s %s %s' % (M.show(ra), op, (M.show(rb) if '**' not in op else repr(p)))
        if op in ('*', '/', '**', 'inv', 'copy'):
            if op == '*':
                r, ref = a * b, M.ex_mul(ra, rb)
            elif op == '/':
                r, ref = a / b, M.ex_div(ra, rb)
            elif op == 'inv':
                r, ref = Dimensionality() / a, M.ex_pow(ra, -1)
            elif op == 'copy':
                r, ref = a.copy(), dict(ra)
                mon.check(r is not a, 'copy returned the same object')
            else:
                r, ref = a ** p, ({k: v * fp for k, v in ra.items()} if fp else {})
            w.verify(what)
            verify(mon, r, ref, what)
            mon.check(r is not a and r is not b, '%s returned an operand itself', what)
        elif op in ('+', '-'):
            r, err = attempt(operator.add if op == '+' else operator.sub, a, b)
            w.verify(what)
            mon.check((err is None) == (key(ra) == key(rb)), '%s: %r', what, err)
            if err is not None:
                mon.check(isinstance(err, ValueError), '%s raised %r', what, err)
                mon.ev(op, ('refused', key(ra), key(rb)))
                continue
            ref = ra
            verify(mon, r, ref, what)
            mon.check(r is not a and r is not b, '%s returned an operand itself', what)
        else:
            c = a.copy()
            if rng.random() < .15 and op in ('*=', '/='):
                b, rb = c, ra
                what = '%s %s itself' % (M.show(ra), op)
            if op in ('+=', '-='):
                r, err = attempt(operator.iadd if op == '+=' else operator.isub, c, b)
                mon.check((err is None) == (key(ra) == key(rb)), '%s: %r', what, err)
                verify(mon, c, ra, what)
                mon.ev(op, (err is None, key(ra), key(rb)))
                w.verify(what)
                continue
            f = {'*=': operator.imul, '/=': operator.itruediv, '**=': operator.ipow}[op]
            r = f(c, p if op == '**=' else b)
            mon.check(r is c, '%s returned another object', what)
            if b is not c:
                w.verify(what)
            ref = M.ex_mul(ra, rb) if op == '*=' else M.ex_div(ra, rb) if op == '/=' else ({k: v * fp for k, v in ra.items()} if fp else {})
            verify(mon, r, ref, what)
        mon.ev(op, (kind if '**' in op else '', key(ra), key(rb) if '**' not in op else fp))
        if any(abs(v) > 4096 or F(v).denominator > 256 for v in ref.values()):
            continue
        # equality against the whole pool
        for d, rd in pool:
            same = key(rd) == key(ref)
            mon.check((r == d) is same and (d == r) is same and (r != d) is (not same), '%s %s %s gave ==%s', M.show(ref), 'vs', M.show(rd), r == d)
            if same:
                mon.check(hash(r) == hash(d) and r in {d} and {d: 1}[r] == 1, 'equal dimensionalities hash differently')
            mon.ev('eq', (same, key(ref), key(rd)))
        pool.append((r, ref))
        if len(pool) > 12:
            pool.pop(rng.randrange(len(pool)))
    for d, rd in pool:
        verify(mon, d, rd, 'pool element after the walk')


def power_case(rng, mon, i):
    """the in-place power and the power are one operation, whatever number type the exponent has"""
    ref = {pick_unit(rng).name: F(rng.choice([1, -1, 2, 3, 0.5, -1.5, 40, 100, -300])) for _ in range(rng.randint(0, 3))}
    a = Dimensionality({uobj(k): pexp(v) for k, v in ref.items()})
    v = rng.choice([2, 3, -1, 1, 0, 0.5, -0.5, 7, 100, -128, 1.5, 0.25])
    if isinstance(v, int):
        t = rng.choice([int, float, F, np.int8, np.int16, np.int64, np.float64, np.float32, np.float16, np.uint8 if v >= 0 else np.int8, np.longdouble])
    else:
        t = rng.choice([float, F, np.float64, np.float32, np.float16, np.longdouble])
    e = t(v)
    want = {k: x * F(v) for k, x in ref.items()} if v else {}
    w = Watch(a)
    p = a ** e
    w.verify('power')
    c = a.copy()
    r = operator.ipow(c, e)
    what = '%s **= %r (%s)' % (M.show(ref), e, t.__name__)
    mon.check(r is c, '%s returned another object', what)
    verify(mon, p, want, what)
    verify(mon, r, want, what)
    mon.check(p == r and hash(p) == hash(r), '%s gives %s, the power %s', what, r, p)
    plain = Dimensionality({uobj(k): pexp(x) for k, x in want.items()})
    mon.check(p.string == r.string == plain.string, '%s reads %r, the power %r, written directly %r', what, r.string, p.string, plain.string)
    w.verify(what)
    mon.ev('in-place power', (t.__name__, v, tuple(sorted(map(str, ref.values())))))


def root_case(rng, mon, i):
    """exponents which are no binary fractions: the in-place power and the power agree to the last digit"""
    ref = {pick_unit(rng).name: rng.choice([1, -1, 2, 3, 0.5, -1.5, 40, 1 / 3, 0.1, -0.7]) for _ in range(rng.randint(1, 3))}
    a = Dimensionality({uobj(k): v for k, v in ref.items()})
    e = rng.choice([1 / 3, 2 / 3, -1 / 3, 0.1, 1 / 7, 1e-3, 1.1, -2.7, 3.3, 1e-7, rng.uniform(-3, 3)])
    w = Watch(a)
    p = a ** e
    c = a.copy()
    r = operator.ipow(c, e)
    w.verify('power')
    what = '%s **= %r' % (ref, e)
    mon.check(r is c, '%s returned another object', what)
    for d in (p, r):
        got = {u.name: float(x) for u, x in d.items()}
        mon.check(set(got) == set(ref) and all(abs(got[k] / (ref[k] * e) - 1) < 1e-14 for k in ref), '%s gives %s', what, got)
    mon.check(p == r and hash(p) == hash(r) and p.string == r.string, '%s gives %s, the power %s', what, r, p)
    q = (Quantity(2.0, a) ** e).dimensionality
    mon.check(p == q, 'a quantity to %r has the units %s, its dimensionality %s', e, q, p)
    mon.ev('root', (e, tuple(sorted(ref.values()))))


def laws_case(rng, mon, i):
    """group laws on random triples built along different routes"""
    def g():
        n = rng.randint(0, 4)
        ref = {}
        for _ in range(n):
            ref[pick_unit(rng).name] = F(rng.choice([x for x in DY if x]))
        return ref
    ra, rb, rc = g(), g(), g()
    (ka, a), (kb, b), (kc, c) = build(rng, ra), build(rng, rb), build(rng, rc)
    w = Watch(a, b, c)
    for k, d, r in ((ka, a, ra), (kb, b, rb), (kc, c, rc)):
        verify(mon, d, r, 'built by ' + k)
        k2, d2 = build(rng, r)
        mon.check(d == d2 and hash(d) == hash(d2) and not d != d2, '%s built as %s and as %s differ', M.show(r), k, k2)
        mon.ev('routes', (k, k2, key(r)))
        mon.check(d + d2 == d and d - d2 == d, 'sum of equal dimensionalities')
    p, s = rng.choice(DY), rng.choice(DY)
    E = Dimensionality()
    laws = [('assoc', (a * b) * c, a * (b * c)), ('comm', a * b, b * a), ('identity', a * E, a), ('inverse', a / a, E), ('inverse2', a * a ** -1, E),
            ('div', a / b, a * b ** -1), ('power sum', a ** p * a ** s, a ** (p + s)), ('power product', (a ** p) ** s, a ** (p * s)),
            ('power distributes', (a * b) ** p, a ** p * b ** p), ('zero', a ** 0, E), ('one', a ** 1, a), ('cancel', a * b / b, a), ('double', a * a, a ** 2)]
    for nm, x, y in laws:
        mon.check(x == y and exact(x) == exact(y), 'law %s fails for %s, %s, %s, p=%s s=%s: %s vs %s', nm, M.show(ra), M.show(rb), M.show(rc), p, s, x, y)
        mon.ev(nm, (key(ra), key(rb), p, s))
    w.verify('group laws')
    # refused exponents
    for bad in (np.array([1, 2]), [1, 2], None, (2,)):
        d = a.copy()
        _, e1 = attempt(operator.pow, a, bad)
        _, e2 = attempt(operator.ipow, d, bad)
        mon.check(e1 is not None and e2 is not None, 'non-scalar exponent %r accepted', bad)
        mon.check(exact(d) == exact(a), 'refused exponent changed the dimensionality')
    if len(a):
        # an exponent must be comparable to others
        for bad in (float('nan'), float('inf'), -float('inf'), np.float64('nan'), 1j, 2 + 0j, np.complex128(2), '2', b'2'):
            d = a.copy()
            x, e1 = attempt(operator.pow, a, bad)
            y, e2 = attempt(operator.ipow, d, bad)
            mon.check(e1 is not None and e2 is not None, 'exponent %r accepted: %s', bad, x if e1 is None else y)
            mon.check(exact(d) == exact(a), 'the refused exponent %r changed the dimensionality', bad)
    for bad in (pq.m, 2, 'm', None, {}):
        for op in (operator.mul, operator.truediv, operator.add, operator.sub):
            _, e1 = attempt(op, a, bad)
            mon.check(e1 is not None or isinstance(bad, Quantity), 'dimensionality %s %r accepted', op.__name__, bad)
    w.verify('refused operations')


def nearmiss_case(rng, mon, i):
    n = rng.randint(1, 4)
    ref = {}
    for _ in range(n):
        ref[pick_unit(rng).name] = F(rng.choice([1, -1, 2, -2, 3, -3, 0.5, -0.5, 1.5, -1.5, 4, -4]))
    other = dict(ref)
    k = rng.choice(list(ref))
    c = rng.randrange(9)
    if c == 0:
        other[k] = -other[k]
    elif c == 1:
        other[k] = other[k] - 1 or F(-7)
    elif c == 2:
        del other[k]
    elif c == 3:
        x = pick_unit(rng).name
        if x in other:
            return
        other[x] = F(rng.choice([1, -1, 2, -2]))
    elif c == 4:
        alts = [u for u in M.GROUPS[M.BY_NAME[k].dim] if u.name not in other]
        if not alts:
            return
        other[rng.choice(alts).name] = other.pop(k)
    elif c == 5 and n > 1:
        k2 = rng.choice([x for x in ref if x != k] or [k])
        other[k], other[k2] = ref[k2], ref[k]
    elif c == 6:
        other[k] = other[k] + F(1, 2 ** 30)
    elif c == 7:
        other = {kk: -v for kk, v in other.items()}
    else:
        other[k] = {F(-1): F(-2), F(-2): F(-1)}.get(other[k], other[k] * 2)
    other = {kk: v for kk, v in other.items() if v}
    same = key(ref) == key(other)
    _, a = build(rng, ref)
    _, b = build(rng, other)
    what = '%s vs %s' % (M.show(ref), M.show(other))
    mon.check((a == b) is same and (b == a) is same and (a != b) is not same and (b != a) is not same, '%s: ==%s !=%s', what, a == b, a != b)
    for op in (operator.add, operator.sub):
        _, err = attempt(op, a, b)
        mon.check((err is None) == same, '%s: %s %r', what, op.__name__, err)
        _, err = attempt(op, b, a)
        mon.check((err is None) == same, '%s: %s %r', what, op.__name__, err)
    for op in (operator.iadd, operator.isub):
        c2 = a.copy()
        _, err = attempt(op, c2, b)
        mon.check((err is None) == same and exact(c2) == exact(a), '%s: %s %r', what, op.__name__, err)
    s = {a, b}
    mon.check(len(s) == (1 if same else 2), '%s: as set elements %d', what, len(s))
    # the same difference seen through quantities
    qa, qb = Quantity(2.0, a), Quantity(2.0, b)
    mon.check((qa.dimensionality == qb.dimensionality) is same, '%s through quantities', what)
    mon.ev('near miss', (c, key(ref), key(other)))


_seen = None


def sweep_case(rng, mon, i):
    """no two one-unit dimensionalities of the catalogue coincide (unit i against all others and all exponents)"""
    global _seen
    exps = [-4, -3, -2, -1, -0.5, 0.5, 1, 1.5, 2, 3, 4]
    if _seen is None:
        _seen = {}
        for u in M.ORD:
            for e in exps:
                d = Dimensionality({uobj(u.name): e})
                _seen.setdefault(hash(d), []).append((u.name, e))
    u = M.ORD[i % len(M.ORD)]
    for e in exps:
        d = uobj(u.name).dimensionality ** e
        hits = _seen.get(hash(d))
        mon.check(hits == [(u.name, e)], '%s**%s is indistinguishable from %s', u.name, e, hits)
        if e == 1:
            for v in M.ORD:
                same = v.name == u.name
                mon.check((d == uobj(v.name).dimensionality) is same, '%s == %s', u.name, v.name)
        s = d.simplified
        verify_si(mon, s, {u.name: e}, u.name)
        mon.ev('sweep', (u.name, e))


def verify_si(mon, s, ref, what):
    want = M.si_expr(M.dim_of(ref))
    mon.check(same_dims(s, want), '%s: simplified gives %s, expected %s', what, s, M.show(want))


def simplify_case(rng, mon, i):
    ref = gen_expr(rng, maxterms=3, exps=ALL_EXPS)
    k, d = build(rng, ref)
    w = Watch(d)
    s = d.simplified
    w.verify('simplified')
    verify_si(mon, s, ref, M.show(ref))
    mon.check(s.simplified == s, 'simplifying twice differs for %s', M.show(ref))
    mon.check(type(s) is Dimensionality, 'simplified is a %s', type(s))
    o = gen_compatible(rng, ref)
    s2 = build(rng, o)[1].simplified
    if all(F(e).denominator in (1, 2, 4) for e in list(ref.values()) + list(o.values())):
        mon.check(s2 == s, '%s and %s simplify to %s and %s', M.show(ref), M.show(o), s, s2)
    n = d.ndims
    mon.check(abs(float(n) - float(sum(abs(e) for e in M.dim_of(ref)))) < 1e-9, 'ndims of %s is %s', M.show(ref), n)
    mon.ev('simplify', (k, key(ref)))


REQUIRED_OPS = ('lookalike', 'root', '*', '/', '**', '*=', '/=', '**=', '+', '-', 'eq', 'near miss', 'sweep', 'simplify', 'routes', 'in-place power')
FAMILIES = [Family('power', power_case, 1500, 60000), Family('root', root_case, 800, 30000), Family('lookalike', zoo.dims_case, 400, 10000), Family('walk', walk_case, 800, 30000), Family('laws', laws_case, 800, 30000), Family('nearmiss', nearmiss_case, 3000, 100000),
            Family('sweep', sweep_case, len(M.ORD), seeded=False), Family('simplify', simplify_case, 1000, 40000)]
