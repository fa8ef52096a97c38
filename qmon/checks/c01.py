"""C01: unit conversion preserves the physical value."""
from fractions import Fraction as F
from ..core import Family, Violation
from .. import model as M
from ..lib import *
from .. import zoo

PROP = 'C01'
RULE = ('a case is one source quantity (unit pair x form of the target x shape x dtype x layout); non-trivial: source and '
        'target units differ; the factor is computed from the reference table with exact rationals')
REQUIRED_OPS = ('lookalike', 'rescale', 'assign', 'roundtrip', 'pair')
FORMS = ['unit', 'quantity', 'dim', 'string']


def lim(dt):
    c = np.dtype(dt).char
    return {'e': F(10) ** 2, 'f': F(10) ** 25, 'F': F(10) ** 25}.get(c, F(10) ** 60)


def in_range(r, dt):
    L = lim(dt)
    return 1 / L < r < L


def pair_case(rng, mon, i):
    u = M.ORD[i]
    for t in M.GROUPS[u.dim]:
        r = M.fl(M.ratio({u.name: 1}, {t.name: 1}))
        x = rng.choice([1.0, 3.0, -2.5, 1e-3, 123.456])
        q = x * uobj(u.name)
        form = rng.choice(FORMS)
        tgt = as_units({t.name: 1}, form, rng)
        w = Watch(q)
        got = q.rescale(tgt)
        invariant(got, 'rescale')
        mon.check(same_dims(got, {t.name: 1}), 'rescale(%s -> %s as %s) has units %s', u, t, form, dims(got))
        mon.check(close(mag(got), np.array(x * r)), 'rescale %r %s -> %s gave %r, reference %r', x, u, t,
                  mag(got), x * r)
        w.verify('rescale')
        q2 = x * uobj(u.name)
        q2.units = tgt
        mon.check(same_dims(q2, {t.name: 1}) and close(mag(q2), np.array(x * r)),
                  'units assignment %r %s -> %s gave %r, reference %r', x, u, t, q2, x * r)
        # a unit object converts like one of itself
        got = uobj(u.name).rescale(tgt)
        mon.check(same_dims(got, {t.name: 1}) and close(mag(got), np.array(r)),
                  'unit %s rescaled to %s gave %r, reference %r', u, t, got, r)
        mon.ev('pair', (u.name, t.name, form) if u is not t else None, '%s -> %s x%r' % (u, t, r))


def expected(a, r, tgt_dt):
    return a.astype(tgt_dt) * np.array(r).astype(tgt_dt)


def compound_case(rng, mon, i):
    ex = gen_expr(rng, exps=ALL_EXPS if rng.random() < 0.5 else INT_EXPS)
    to = gen_compatible(rng, ex)
    dt = np.dtype(rng.choice(DTYPES))
    r = M.ratio(ex, to)
    if not in_range(r, dt) or not in_range(M.factor(ex), 'd') or (dt.char in 'eFf' and not (
            in_range(M.factor(ex), dt) and in_range(M.factor(to), dt))):
        dt = np.dtype('d')
    if not (F(10) ** -60 < r < F(10) ** 60):
        return
    a = gen_array(rng, dt, hostile=dt.kind == 'f')
    q = Quantity(a, as_units(ex, rng.choice(FORMS), rng))
    mon.check(same_dims(q, ex), 'construction gave %s for %s', dims(q), M.show(ex))
    form = rng.choice(FORMS)
    tgt = as_units(to, form, rng)
    w = Watch(q, a)
    same = M.ex_norm(ex) == M.ex_norm(to)
    got = q.rescale(tgt)
    invariant(got, 'rescale')
    what = 'rescale %s %s%s -> %s (%s)' % (M.show(ex), dt, a.shape, M.show(to), form)
    mon.check(same_dims(got, to), '%s: units %s', what, dims(got))
    mon.check(not np.may_share_memory(got, a), '%s: result shares memory with the source', what)
    out_dt = dt if (same or dt.kind in 'fc') else np.dtype('d')
    mon.check(same_type(got.dtype, out_dt), '%s: dtype %s, expected %s', what, got.dtype, out_dt)
    rt = rtol_for(dt) * 4
    want = a if same else (a.astype(out_dt) * np.array(M.fl(r), dtype=out_dt))
    mon.check(close(mag(got), want, rt), '%s: got %s reference %s', what, short(mag(got)), short(want))
    if dt.kind == 'f' and a.size:
        z = np.asarray(a) == 0
        mon.check(np.array_equal(np.signbit(mag(got)[z]), np.signbit(a[z])), '%s: sign of zero lost', what)
    w.verify(what)
    mon.ev('rescale', None if same else (sorted(ex), sorted(to), dt.char, a.shape, form))
    # writing to the copy must not reach the original
    if got.size and got.dtype.kind in 'fc':
        got[...] = Quantity(1.0, got.dimensionality)
        w.verify('writing to the rescaled copy')
    # explicit dtype
    if rng.random() < 0.3 and in_range(r, 'f') and dt.kind in 'biuf' and in_range(M.factor(to), 'f') and in_range(M.factor(ex), 'f'):
        od = np.dtype(rng.choice(['f', 'd']))
        got = q.rescale(tgt, dtype=od)
        want = np.asarray(a).astype(np.result_type(od, a.dtype) if not same else od) * (1 if same else M.fl(r))
        mon.check(close(mag(got), want, 1e-5) if a.dtype.char != 'e' else True, '%s dtype=%s: %s reference %s', what, od, short(mag(got)), short(want))
        mon.check(same_dims(got, to), '%s dtype=%s: units %s', what, od, dims(got))
        mon.ev('dtype', (od.char, dt.char, same))
    # assignment of units to an owned array
    c = np.array(a, copy=True)
    qa = Quantity(c, as_units(ex))
    _, err = attempt(setattr, qa, 'units', tgt)
    if err is not None:
        mon.check(dt.kind in 'biu' and not same, '%s: units assignment refused: %r', what, err)
        mon.check(same_dims(qa, ex) and identical(mag(qa), np.asarray(a)), '%s: refused units assignment changed the array to %r',
                  what, qa)
    else:
        want = a if same else a.astype(out_dt) * np.array(M.fl(r), dtype=out_dt)
        mon.check(same_dims(qa, to) and close(mag(qa), want, rt), '%s: units assignment gave %s %s, reference %s', what,
                  short(mag(qa)), dims(qa), short(want))
        mon.check(same_type(qa.dtype, dt), '%s: units assignment changed dtype', what)
    mon.ev('assign', None if same else (sorted(ex), sorted(to), dt.char, a.shape))


def round_case(rng, mon, i):
    ex = gen_expr(rng, exps=ALL_EXPS if rng.random() < 0.3 else INT_EXPS)
    hops = [gen_compatible(rng, ex) for _ in range(rng.randint(1, 4))]
    for h in hops:
        if not in_range(M.factor(h), 'd'):
            return
    dt = rng.choice('ddddDg')
    a = gen_array(rng, dt, hostile=dt != 'D')
    q = Quantity(np.array(a), as_units(ex))
    cur = q
    for h in hops:
        cur = cur.rescale(as_units(h, rng.choice(FORMS), rng))
        want = np.asarray(a) * M.fl(M.ratio(ex, h))
        if np.dtype(dt).kind == 'f':
            mon.check(close(mag(cur), want, 1e-11), 'chain %s from %s: %s reference %s', [M.show(x) for x in hops], M.show(ex),
                      short(mag(cur)), short(want))
    back = cur.rescale(as_units(ex, rng.choice(FORMS), rng))
    mon.check(same_dims(back, ex) and close(mag(back), np.asarray(a), 1e-11), 'round trip %s via %s: %s instead of %s', M.show(ex),
              [M.show(x) for x in hops], short(back), short(a))
    mon.ev('roundtrip', (sorted(ex), len(hops), dt, a.shape))


def uq_unit_case(rng, mon, i):
    """conversion through other object kinds: views, uncertain quantities, constants, slices"""
    ex = gen_expr(rng, allow_empty=False)
    to = gen_compatible(rng, ex)
    if not in_range(M.ratio(ex, to), 'd'):
        return
    r = M.fl(M.ratio(ex, to))
    a = gen_array(rng, 'd', shape=rng.choice([(4,), (2, 3), (3, 2, 2)]))
    q = Quantity(np.array(a), as_units(ex))
    sl = rng.choice([slice(1, None), slice(None, None, 2), slice(None, None, -1), (Ellipsis, 0), 0])
    for nm, v, av in (('slice', q[sl], a[sl]), ('T', q.T, a.T), ('ravel', q.reshape(-1), np.asarray(a).reshape(-1))):
        w = Watch(q)
        got = v.rescale(as_units(to, rng.choice(FORMS), rng))
        mon.check(same_dims(got, to) and close(mag(got), np.asarray(av) * r), 'rescale of %s of %s to %s: %s reference %s', nm,
                  M.show(ex), M.show(to), short(got), short(np.asarray(av) * r))
        w.verify('rescale of a view')
        mon.ev('view', (nm, sorted(ex), sorted(to)))
    u = UQ(np.array(a), as_units(ex), np.abs(a) * 0.1)
    got = u.rescale(as_units(to))
    mon.check(same_dims(got, to) and close(mag(got), np.asarray(a) * r), 'rescale of uncertain quantity: %s', short(got))
    got = Quantity(q, as_units(to, rng.choice(FORMS), rng))
    mon.check(same_dims(got, to) and close(mag(got), np.asarray(a) * r), 'Quantity(q, %s): %s reference %s', M.show(to), short(got),
              short(np.asarray(a) * r))
    mon.ev('kinds', (sorted(ex), sorted(to)))


FAMILIES = [
    Family('lookalike', zoo.convert_case, 1000, 30000),
    Family('pairs', pair_case, len(M.ORD), len(M.ORD)),
    Family('compound', compound_case, 5000, 120000),
    Family('roundtrip', round_case, 1500, 30000),
    Family('kinds', uq_unit_case, 800, 20000),
]
