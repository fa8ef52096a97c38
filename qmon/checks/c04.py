"""C04: in-place operators agree with their out-of-place forms; views keep their units."""
import operator
from fractions import Fraction as F
from ..core import Family
from .. import model as M
from ..lib import *

PROP = 'C04'
QUICK_SCALE = 1.5
RULE = ('a case is a history of in-place operations on an array and on views of it (slices, transposes, reshapes, views of '
        'views); a shadow plain array with the same aliasing plus one unit expression is the oracle; distinct by '
        '(operation, alias kind, operand kind, dtype, accepted/refused)')
IOPS = {'+=': (operator.iadd, operator.add), '-=': (operator.isub, operator.sub), '*=': (operator.imul, operator.mul),
        '/=': (operator.itruediv, operator.truediv), '//=': (operator.ifloordiv, operator.floordiv),
        '%=': (operator.imod, operator.mod), '**=': (operator.ipow, operator.pow)}
NP = {'+=': np.add, '-=': np.subtract, '*=': np.multiply, '/=': np.true_divide, '//=': np.floor_divide, '%=': np.remainder,
      '**=': np.power}


def alias(rng, q, p):
    """one more view of (quantity, shadow); returns (name, view, shadow view)"""
    c = rng.randrange(9)
    n = p.ndim
    if c == 0 and n:
        k = rng.choice([slice(1, None), slice(None, None, 2), slice(None, None, -1), slice(0, 2)])
        return 'slice', q[k], p[k]
    if c == 1:
        return 'T', q.T, p.T
    if c == 2 and p.flags.c_contiguous:
        return 'reshape', q.reshape(-1), p.reshape(-1)
    if c == 3:
        return 'view', q.view(), p.view()
    if c == 4 and n > 1 and p.shape[0]:
        return 'row', q[0], p[0]
    if c == 5 and n > 1:
        return 'swapaxes', q.swapaxes(0, 1), p.swapaxes(0, 1)
    if c == 6:
        return 'newaxis', q[np.newaxis], p[np.newaxis]
    if c == 7 and n:
        return 'ellipsis', q[...], p[...]
    if c == 8:
        s = q.squeeze()
        return 'squeeze', s, p.squeeze()
    return 'view', q.view(), p.view()


def operand_for(rng, op, shape, ex):
    """(operand, bare array in operand units, expr or None)"""
    c = rng.random()
    if op == '**=':
        p = rng.choice([1, 2, 3, 2.0, 0.5, -1, 0, 1.0])
        if c < 0.15:
            return np.full(shape, float(p)), np.full(shape, float(p)), None
        if c < 0.25:
            return Quantity(float(p)), np.array(float(p)), {}
        if c < 0.35 and int(np.prod(shape)) > 1 and ex:
            # different exponents: refused, whichever container they come in
            a = np.array([rng.choice([1.0, 2.0, 3.0, 0.5]) for _ in range(int(np.prod(shape)))]).reshape(shape)
            a.flat[rng.choice([0, -1])] = 4.0
            b = rng.choice([a, a.astype('l') if (a == a.astype('l')).all() else a, a.tolist(), Quantity(a)])
            return b, a, None
        return p, p, None
    if op in ('+=', '-=', '%='):
        eb = gen_compatible(rng, ex) if rng.random() < 0.8 else gen_expr(rng)
        if not (F(10) ** -6 < M.ratio(eb, ex) < F(10) ** 6) and M.compatible(eb, ex):
            eb = dict(ex)
    else:
        eb = gen_expr(rng, maxterms=2) if rng.random() < 0.6 else None
    if eb is None:
        if c < 0.5:
            v = rng.choice([2, 2.5, -1.0, np.float64(3.0)])
            return v, v, None
        a = gen_array(rng, 'd', shape, nonzero=True)
        return a, a, None
    sh = shape if c < 0.5 else ()
    if c > 0.9:
        u = pick_unit(rng)
        return uobj(u.name), np.array(1.0), {u.name: 1}
    a = np.array(gen_array(rng, rng.choice('dddlbBHf'), sh, nonzero=True))
    return Quantity(np.array(a), as_units(eb)), a, eb


def outcome(op, p, b, bv, eb, ex, dt):
    """reference: ('ok', new bare value, new expression) or None if the operation must be refused"""
    cur = np.array(p)
    if op == '**=':
        if np.size(bv) and np.min(bv) != np.max(bv):
            return None
        e = bv if np.ndim(bv) == 0 else np.asarray(bv).flat[0] if np.size(bv) else 1
        with np.errstate(all='ignore'):
            r, er = attempt(np.power, cur, np.asarray(bv))
        if er is not None:
            return None
        if not np.can_cast(r.dtype, cur.dtype, 'same_kind'):
            return None
        return r, M.ex_pow(ex, M.as_frac(float(e)))
    if op in ('+=', '-=', '%='):
        eb2 = eb or {}
        if not M.compatible(eb2, ex):
            return None
        rr = M.ratio(eb2, ex)
        same = M.ex_norm(eb2) == M.ex_norm(ex)
        bare = np.asarray(bv)
        if not same:
            bare = bare.astype('d' if bare.dtype.kind != 'c' else bare.dtype) * M.fl(rr)
        r, er = attempt(NP[op], cur, bare)
        if er is not None or not np.can_cast(r.dtype, cur.dtype, 'same_kind') or r.shape != cur.shape:
            return None
        return r, ex
    r, er = attempt(NP[op], cur, np.asarray(bv))
    if er is not None or not np.can_cast(r.dtype, cur.dtype, 'same_kind') or r.shape != cur.shape:
        return None
    return r, (M.ex_mul if op == '*=' else M.ex_div)(ex, eb or {})


def history_case(rng, mon, i):
    dt = np.dtype(rng.choice('dddddfl'))
    sh = rng.choice([(4,), (2, 3), (3, 1), (), (1, 3), (2, 2, 2)])
    ex = gen_expr(rng, maxterms=2)
    base = np.array(gen_array(rng, dt, sh, nonzero=True, layout=False))
    own = rng.random() < 0.5
    if own:
        q = np.array(base) * as_units(ex) if dt != 'l' and rng.random() < 0.5 else Quantity(np.array(base), as_units(ex)).copy()
        if q.dtype != dt:
            q = Quantity(np.array(base), as_units(ex))
    else:
        q = Quantity(np.array(base), as_units(ex))
    p = np.array(base)
    pop = [('owner', q, p)]
    for _ in range(rng.randint(0, 3)):
        nm, v, s = alias(rng, *rng.choice(pop)[1:])
        if np.shares_memory(mag(v), mag(q)) or v.size == 0:
            pop.append((nm, v, s))
    ids = mag(q).__array_interface__['data'][0]
    for step in range(rng.randint(1, 7)):
        k = rng.randrange(len(pop))
        nm, v, s = pop[k]
        if rng.random() < 0.12:
            # assigning units
            to = gen_compatible(rng, ex) if rng.random() < 0.7 else gen_expr(rng)
            lim = F(10) ** (12 if dt == 'f' else 40)
            if M.compatible(to, ex) and not 1 / lim < M.ratio(ex, to) < lim:
                to = dict(ex)
            same = M.ex_norm(to) == M.ex_norm(ex)
            _, err = attempt(setattr, v, 'units', as_units(to))
            if nm != 'owner':
                if same:
                    pass
                mon.check(err is not None or same, 'a view (%s) accepted units %s instead of %s', nm, M.show(to), M.show(ex))
                mon.ev('units=', (nm, 'refused'))
            elif not M.compatible(to, ex):
                mon.check(err is not None, 'owner accepted incompatible units')
                mon.ev('units=', (nm, 'incompatible'))
            elif err is None:
                r = M.ratio(ex, to)
                if not same:
                    p[...] = p * M.fl(r)
                    mon.check(close(mag(v), p, 1e-5 if dt == 'f' else 1e-11), 'units= %s -> %s gave %s, expected %s',
                              M.show(ex), M.show(to), short(mag(v)), short(p))
                    p[...] = mag(v)
                    ex = to
                    pop = pop[:1]
                mon.ev('units=', (nm, 'done', tuple(sorted(to))))
                if not F(10) ** -30 < M.factor(ex) < F(10) ** 30 or (np.abs(p) > 1e30).any():
                    return
        else:
            op = rng.choice(list(IOPS))
            b, bv, eb = operand_for(rng, op, s.shape, ex)
            ref = outcome(op, s, b, bv, eb, ex, dt)
            w = Watch(b) if not isinstance(b, Quantity) or not np.shares_memory(np.asarray(b), mag(q)) else Watch()
            before = snap(v)
            # the out-of-place expression, computed by the library on an independent copy
            oop, oerr = attempt(IOPS[op][1], v.copy(), b)
            got, err = attempt(IOPS[op][0], v, b)
            what = '%s %s %s [%s]' % (M.show(ex), op, short(b, 120), nm)
            w.verify(what)
            if err is not None:
                mon.check(snap(v) == before, '%s was refused (%r) but changed the array: %s -> %s', what, err, short(before), short(snap(v)))
                must = ref is not None and (nm == 'owner' or M.ex_norm(ref[1]) == M.ex_norm(ex)
                                            and (eb is None or not M.ex_norm(eb) or op in ('+=', '-=', '%=')))
                if op == '**=' and nm != 'owner':
                    must = ref is not None and type(b) in (int, float) and b == 1
                mon.check(not must, '%s was refused: %r', what, err)
                mon.ev(op, (nm, 'refused', type(b).__name__, dt.char))
            else:
                mon.check(ref is not None, '%s was accepted, result %s', what, short(got))
                r, ne = ref
                changed = M.ex_norm(ne) != M.ex_norm(ex)
                mon.check(got is v, '%s returned another object', what)
                if nm != 'owner':
                    mon.check(not changed, '%s changed the units of a view', what)
                told = float(np.max(np.abs(np.where(np.isfinite(s), s, 0)), initial=0.0))
                s[...] = r.astype(dt)
                ex = ne
                if changed:
                    pop = pop[:1]
                if oerr is None:
                    mon.check(same_dims(v, ex) and fdims(oop) == fdims(v), '%s: in-place units %s, out-of-place %s, expected %s', what, dims(v), dims(oop), M.show(ex))
                    rt = max(4 * rtol_for(dt), 1e-11)
                    a1, a2 = mag(v).astype('D'), mag(oop).astype('D')
                    if dt.kind in 'fc':
                        at = float(np.max(np.abs(np.where(np.isfinite(base), base, 0)), initial=0)) if False else 0
                        mon.check(close(mag(v), mag(oop).astype(dt), rt, rt * float(np.nanmax(np.abs(np.where(np.isfinite(a2), a2, 0)), initial=0.0))),
                                  '%s: in-place value %s, out-of-place %s', what, short(mag(v)), short(mag(oop)))
                    else:
                        mon.check(np.array_equal(mag(v), mag(oop).astype(dt)), '%s: in-place value %s, out-of-place %s', what,
                                  short(mag(v)), short(mag(oop)))
                mon.ev(op, (nm, 'done', type(b).__name__, dt.char, changed, np.shape(b)))
                # contain float noise: shadow follows the observed values once they agreed with the reference
                sc = float(np.nanmax(np.abs(np.where(np.isfinite(s), s, 0)), initial=0.0)) if s.size else 0.0
                if op == '%=':
                    bb = np.asarray(bv) * (M.fl(M.ratio(eb or {}, ex)) if eb else 1)
                    sc += float(np.max(np.abs(bb), initial=0.0)) + told
                    tt = (2e-5 if dt == 'f' else 1e-9) * sc
                    d = np.abs(mag(v).astype('d') - s)
                    okm = (d <= tt) | (np.abs(d - np.abs(np.broadcast_to(bb, s.shape))) <= tt) | ~np.isfinite(s)
                    mon.check(bool(np.all(okm)), '%s: value %s, reference %s', what, short(mag(v)), short(s))
                elif op == '//=':
                    d = np.abs(mag(v).astype('d') - s)
                    mon.check(bool(np.all((d <= 1 + (1e-5 if dt == 'f' else 1e-9) * np.abs(s)) | ~np.isfinite(s))), '%s: value %s, reference %s', what, short(mag(v)), short(s))
                else:
                    mon.check(close(mag(v), s, 1e-5 if dt == 'f' else 1e-10, (1e-5 if dt == 'f' else 1e-10) * sc), '%s: value %s, reference %s', what, short(mag(v)), short(s))
                s[...] = mag(v)
        # structural monitors over every live alias
        mon.check(mag(q).__array_interface__['data'][0] == ids, 'the array moved to other memory')
        mon.check(q.dtype == dt and q.shape == sh, 'dtype or shape changed in place')
        for an, av, as_ in pop:
            invariant(av, an)
            mon.check(same_dims(av, ex), 'alias %s carries units %s while the array is in %s', an, dims(av), M.show(ex))
            mon.check(identical(mag(av), as_) or close(mag(av), as_, 1e-12), 'alias %s shows %s, expected %s', an, short(mag(av)), short(as_))
        f = M.factor(ex)
        if not F(10) ** -30 < f < F(10) ** 30 or len(ex) > 6 or any(abs(e) > 8 for e in ex.values()):
            return
        fin = np.isfinite(p) & (p != 0)
        if p.size and (not np.all(np.isfinite(p)) or (np.abs(p[fin]) > (1e12 if dt == 'f' else 1e30)).any() or (np.abs(p[fin]) < (1e-12 if dt == 'f' else 1e-30)).any()):
            return


def uq_case(rng, mon, i):
    """uncertain quantities: in place equals out of place, views protected"""
    ex = gen_expr(rng, maxterms=2)
    a = np.array(gen_array(rng, 'd', (3,), positive=True, nonzero=True))
    u = np.abs(np.array(gen_array(rng, 'd', (3,))))
    q = UQ(np.array(a), as_units(ex), np.array(u))
    op = rng.choice(['+=', '-=', '*=', '/=', '**='])
    if op in ('+=', '-='):
        eb = gen_compatible(rng, ex)
        if not (F(10) ** -6 < M.ratio(eb, ex) < F(10) ** 6):
            eb = dict(ex)
    else:
        eb = gen_expr(rng, maxterms=2)
    kb = rng.choice(['q', 'uq', 'n', 'unit'])
    b0 = np.abs(np.array(gen_array(rng, 'd', (3,), nonzero=True)))
    if op == '**=':
        b = rng.choice([2, 3, 1, 0.5])
    elif kb == 'n' and op in ('*=', '/='):
        b = rng.choice([2.0, 3, -1.5])
    elif kb == 'uq':
        b = UQ(b0, as_units(eb), b0 * 0.1)
    else:
        b = Quantity(b0, as_units(eb))
    exp_ = IOPS[op][1](q.copy(), b)
    w = Watch(b)
    got, err = attempt(IOPS[op][0], q, b)
    what = 'uncertain %s %s %s' % (M.show(ex), op, short(b, 100))
    w.verify(what)
    mon.check(err is None, '%s refused: %r', what, err)
    mon.check(got is q, '%s returned another object', what)
    invariant(q, what)
    mon.check(fdims(q) == fdims(exp_) and close(mag(q), mag(exp_), 1e-11), '%s: %s, out of place %s', what, short(q), short(exp_))
    mon.check(close(mag(q.uncertainty), mag(exp_.uncertainty), 1e-9), '%s: uncertainty %s, out of place %s', what,
              short(q.uncertainty), short(exp_.uncertainty))
    # views
    v = q[1:]
    before = snap(q)
    for nm, f in (('*=', lambda: operator.imul(v, 2 * pq.s)), ('/=', lambda: operator.itruediv(v, 2 * pq.s)),
                  ('**=', lambda: operator.ipow(v, 2)), ('units', lambda: setattr(v, 'units', as_units(ex) * 1000 * 0 + as_units(ex)) if False else
                   setattr(v, 'units', as_units(M.ex_mul(M.ex_mul(ex, {'kilometer': 1}), {'meter': -1}))))):
        if nm == '**=' and not M.ex_norm(fdims(q)):
            continue
        _, err = attempt(f)
        mon.check(err is not None, 'a view of an uncertain quantity accepted %s', nm)
        mon.check(snap(q) == before, 'refused %s on a view changed the array', nm)
    mon.ev('uq' + op, (kb, tuple(sorted(ex))))


def plain_target_case(rng, mon, i):
    """views whose owner is only reachable through the view, and read-only arrays"""
    ex = gen_expr(rng, allow_empty=False)
    q = Quantity(np.arange(1.0, 7.0).reshape(2, 3), as_units(ex))
    nm, v, s = alias(rng, q, np.array(mag(q)))
    nm2, v2, _ = alias(rng, v, s)
    for t in (v, v2):
        if not np.shares_memory(mag(t), mag(q)):
            continue
        before = snap(q)
        for opn, f in (('*=', lambda: operator.imul(t, pq.s)), ('/=', lambda: operator.itruediv(t, 3 * pq.m)),
                       ('//=', lambda: operator.ifloordiv(t, 3 * pq.m)), ('**=', lambda: operator.ipow(t, 2)),
                       ('**=0', lambda: operator.ipow(t, 0)), ('**=-1', lambda: operator.ipow(t, -1)),
                       ('units=', lambda: setattr(t, 'units', as_units(M.ex_mul(ex, {'percent': 1})))),
                       ('fill', lambda: t.fill(2 * as_units(M.ex_mul(ex, {'second': 1}))))):
            _, err = attempt(f)
            mon.check(err is not None, '%s of %s of an array was accepted by %s', opn, nm2 if t is v2 else nm, M.show(ex))
            mon.check(snap(q) == before, 'refused %s on a view changed the array: %s -> %s', opn, short(before), short(snap(q)))
            mon.ev('viewprotect', (opn, nm, nm2 if t is v2 else None, tuple(sorted(ex))))
    # a view given as the output of an operation whose result has other units
    src = Quantity(np.arange(2.0, 2.0 + 2 * max(1, v.size)).reshape((2,) + v.shape) if v.size else np.ones((2,) + v.shape), as_units(gen_expr(rng, allow_empty=False)))
    if np.shares_memory(mag(v), mag(q)) and v.ndim and not isinstance(v, UQ):
        one = src[0].copy()
        for opn, f, ud, late in [(n, (lambda n=n: getattr(src, n)(axis=0, out=v)), M.ex_pow(fdims(src), {'var': 2, 'prod': 2}.get(n, 1)), False) for n in ('sum', 'nansum', 'mean', 'nanmean', 'max', 'min', 'nanmax', 'nanmin', 'ptp', 'std', 'nanstd', 'var', 'prod')] + [
                ('cumsum', lambda: one.reshape(-1).cumsum(out=v), fdims(src), False), ('round', lambda: one.round(0, out=v), fdims(src), False), ('clip', lambda: one.clip(0 * src.units, src.units, out=v), fdims(src), False),
                ('np.add', lambda: np.add(one, one, out=v), fdims(src), True), ('np.multiply', lambda: np.multiply(one, one, out=v), M.ex_pow(fdims(src), 2), True), ('np.negative', lambda: np.negative(one, v), fdims(src), True),
                ('np.sqrt', lambda: np.sqrt(one, out=v), M.ex_pow(fdims(src), F(1, 2)), True), ('np.true_divide', lambda: np.true_divide(one, 2 * pq.second, out=v), M.ex_div(fdims(src), {'second': 1}), True)]:
            if M.ex_norm(ud) == M.ex_norm(ex):
                continue
            before = snap(q)
            r, err = attempt(f)
            mon.check(err is not None, '%s of %s stored in %s of an array of %s was accepted: %r, %r', opn, src.dimensionality, nm, M.show(ex), r, q)
            mon.check(same_dims(q, ex) and same_dims(v, ex), 'a refused output of %s changed units: %r, %r', opn, q, v)
            if not late:
                mon.check(snap(q) == before, 'refused output of %s changed the array: %s -> %s', opn, short(before), short(snap(q)))
            mon.ev('viewout', (opn, nm, tuple(sorted(ex))))
    r = Quantity(np.arange(1.0, 4.0), as_units(ex))
    r.flags.writeable = False
    before = snap(r)
    for opn, f in (('+=', lambda: operator.iadd(r, r * 1)), ('*=', lambda: operator.imul(r, pq.s)), ('/=', lambda: operator.itruediv(r, 2.0)),
                   ('**=', lambda: operator.ipow(r, 2)), ('units=', lambda: setattr(r, 'units', as_units(M.ex_mul(ex, {'percent': 1}))))):
        _, err = attempt(f)
        mon.check(err is not None and snap(r) == before, 'read-only array changed by %s: %s', opn, short(r))
        mon.ev('readonly', (opn,))


FAMILIES = [
    Family('history', history_case, 6000, 150000),
    Family('uncertain', uq_case, 800, 20000),
    Family('viewprotect', plain_target_case, 800, 15000),
]
REQUIRED_OPS = tuple(IOPS) + ('units=', 'viewprotect', 'viewout', 'readonly', 'uq+=', 'uq*=')
