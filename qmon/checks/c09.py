"""C09: reductions and array methods keep numpy values with the right units."""
from fractions import Fraction as F
import numpy as np
from ..core import Family
from .. import model as M
from ..lib import *

PROP = 'C09'
QUICK_SCALE = 2
RULE = ('a case calls one array method (or the numpy function that delegates to it) on a quantity with a given shape, memory layout, element '
        'type, NaN pattern, axis, dtype and output argument; numpy on the bare magnitudes and a units rule are the oracle; distinct by '
        '(method, form, shape, dtype, layout, axis, out, dtype argument, units)')
SAMEU = ['sum', 'nansum', 'mean', 'nanmean', 'max', 'min', 'nanmax', 'nanmin', 'ptp', 'std', 'nanstd', 'cumsum', 'round', 'trace', 'squeeze']
METHODS = SAMEU + ['var', 'prod', 'cumprod', 'argmin', 'argmax', 'nanargmin', 'nanargmax', 'argsort', 'nonzero']
INDEX = {'argmin', 'argmax', 'nanargmin', 'nanargmax', 'argsort', 'nonzero'}
NPONLY = {'nansum', 'nanmean', 'nanmax', 'nanmin', 'nanstd', 'nanargmin', 'nanargmax', 'ptp'}
HASDTYPE = {'sum', 'nansum', 'mean', 'nanmean', 'std', 'nanstd', 'cumsum', 'var', 'prod', 'cumprod', 'trace'}
HASOUT = set(METHODS) - {'squeeze', 'argsort', 'nonzero', 'argmin', 'argmax', 'nanargmin', 'nanargmax'}
FUNCS = {'sum': np.sum, 'mean': np.mean, 'max': np.max, 'min': np.min, 'std': np.std, 'var': np.var, 'prod': np.prod, 'cumsum': np.cumsum,
         'cumprod': np.cumprod, 'round': np.round, 'trace': np.trace, 'squeeze': np.squeeze, 'argmin': np.argmin, 'argmax': np.argmax,
         'nonzero': np.nonzero, 'argsort': np.argsort, 'nansum': np.nansum, 'nanmax': np.nanmax, 'nanmin': np.nanmin}
SH = [(), (1,), (3,), (4,), (2, 3), (3, 3), (1, 3), (2, 1), (2, 2, 2), (2, 1, 3), (0,), (2, 0), (5,)]


def ref_call(name, a, args, kw):
    if name in NPONLY:
        return getattr(np, name)(a, *args, **kw)
    return getattr(a, name)(*args, **kw)


def gen_data(rng, dt, sh):
    a = gen_array(rng, dt, sh, hostile=rng.random() < .35)
    if a.dtype.kind in 'fc' and a.size and rng.random() < .35:
        a = np.array(a)
        for _ in range(rng.randint(1, max(1, a.size))):
            a.flat[rng.randrange(a.size)] = np.nan
    if a.size and rng.random() < .2:
        # ties
        a = np.array(a)
        a.flat[rng.randrange(a.size)] = a.flat[0]
    return a


def gen_axis(rng, name, nd):
    if name in ('round', 'nonzero'):
        return 'none'
    c = rng.random()
    if c < .35 or nd == 0:
        return 'none'
    if c < .45 and name != 'argsort':
        return None
    if c < .85 or name in INDEX | {'cumsum', 'cumprod', 'squeeze'} or nd < 2:
        return rng.randrange(-nd, nd)
    k = rng.randint(1, nd)
    return tuple(rng.sample(range(nd), k))


def method_case(rng, mon, i):
    name = METHODS[i % len(METHODS)]
    dt = np.dtype(rng.choice(DTYPES))
    sh = some_shape(rng, SH)
    if name == 'trace':
        sh = rng.choice([(2, 3), (3, 3), (2, 2, 2), (1, 3), (2, 0)])
    ex = gen_expr(rng, maxterms=2, exps=ALL_EXPS if rng.random() < .2 else INT_EXPS)
    kind = rng.choice(['q'] * 6 + ['view', 'unit'])
    if kind == 'unit':
        u = pick_unit(rng)
        q, ex = uobj(u.name), {u.name: 1}
    elif kind == 'view':
        a = gen_data(rng, dt, sh)
        big = np.stack([a, a * 0 + 1 if a.dtype != '?' else a]) if a.size else np.stack([a, a])
        q = Quantity(big, as_units(ex))[0]
        if not isinstance(q, Quantity):
            mon.fail('indexing lost the units')
    else:
        q = Quantity(gen_data(rng, dt, sh), as_units(ex))
    a = q.magnitude
    nd = a.ndim
    args, kw = [], {}
    ax = gen_axis(rng, name, nd)
    if ax != 'none':
        if rng.random() < .3 and name not in ('trace',):
            args.append(ax)
        else:
            if name != 'trace':
                kw['axis'] = ax
    if name == 'trace' and rng.random() < .6:
        kw['offset'] = rng.choice([0, 1, -1])
        if nd == 3 and rng.random() < .6:
            kw['axis1'], kw['axis2'] = rng.sample(range(3), 2)
    if name == 'round' and rng.random() < .7:
        args = [rng.choice([0, 1, 2, -1])]
    if name in ('std', 'var', 'nanstd') and rng.random() < .5:
        kw['ddof'] = rng.choice([0, 1, 2])
    if name in HASDTYPE and rng.random() < .25:
        kw['dtype'] = rng.choice(['d', 'f', 'D', 'l'])
    if name == 'argsort' and rng.random() < .5:
        kw['kind'] = rng.choice(['stable', 'quicksort', 'heapsort'])
    bare, nerr = attempt(ref_call, name, a, args, kw)
    form = 'method'
    if name in FUNCS and rng.random() < .35 and not (kind == 'unit' and name.startswith('nan')):
        form = 'np'
    if name == 'round' and not kw and rng.random() < .3:
        form = 'builtin'
    use_out = rng.choice(['', '', '', 'out']) if form != 'builtin' and name in HASOUT and nerr is None else ''
    out = None
    kw2 = dict(kw)
    if use_out:
        rs = np.shape(bare)
        odt = np.asarray(bare).dtype
        if rng.random() < .2 and odt.kind == 'f':
            odt = np.dtype('d')
        ou = as_units(gen_expr(rng))
        out = Quantity(np.full(rs, 77, odt), ou)
        kw2['out'] = out
        bo = np.full(rs, 77, odt)
        bare, nerr = attempt(ref_call, name, a, args, dict(kw, out=bo))
        if nerr is None:
            bare = bo
    what = '%s %s(%s, %s) on %s %s' % (form, name, args, {k: v for k, v in kw2.items() if k != 'out'}, short(q, 200), 'with out' if use_out else '')
    w = Watch(q)
    if form == 'np' and name.startswith('nan'):
        # numpy 2.0.2 itself mis-reduces reversed float32 arrays with fmin, depending on the code path
        q = q.copy()
        a = q.magnitude
        w = Watch(q)
        if not use_out:
            bare, nerr = attempt(ref_call, name, a, args, kw)
        else:
            bare = np.full(rs, 77, odt)
            ref_call(name, a, args, dict(kw, out=bare))
    if form == 'builtin':
        got, err = attempt(round, q, *args)
    elif form == 'np':
        got, err = attempt(FUNCS[name], q, *args, **kw2)
    else:
        got, err = attempt(getattr(q, name), *args, **kw2)
    w.verify(what)
    sig = (name, form, sh, dt.char, q.flags.c_contiguous, q.flags.f_contiguous, str(ax), use_out, str(kw.get('dtype')), kind, len(ex), err is None,
           tuple(sorted(map(str, ex.values()))))
    if nerr is not None:
        mon.check(err is not None, '%s gave %s where numpy raises %r', what, short(got), nerr)
        mon.ev('error', sig)
        return
    if name == 'cumprod' and M.ex_norm(ex):
        if not M.is_dimless(ex):
            mon.check(err is not None, '%s must be refused but gave %s', what, short(got))
        if err is not None:
            mon.ev('cumprod refused', sig)
            return
    mon.check(err is None, '%s raised %r, numpy gives %s', what, err, short(bare))
    if use_out:
        mon.check(got is out, '%s did not return the output argument', what)
    if name in INDEX:
        for g, b in zip(got if name == 'nonzero' else [got], bare if name == 'nonzero' else [bare]):
            mon.check(not isinstance(g, Quantity), '%s returned a quantity', what)
            mon.check(identical(np.asarray(g), np.asarray(b)), '%s gave indices %s, numpy %s', what, g, b)
        if name == 'nonzero':
            mon.check(len(got) == len(bare), '%s gave %d arrays', what, len(got))
        mon.ev(name, sig)
        return
    if name == 'var':
        ux = M.ex_pow(ex, 2)
    elif name == 'prod':
        n = a.size if ax in ('none', None) else int(np.prod([a.shape[k] for k in (ax if isinstance(ax, tuple) else (ax,))], dtype=int))
        ux = M.ex_pow(ex, n)
    else:
        ux = ex
    mon.check(isinstance(got, Quantity) and not isinstance(got, UnitQuantity), '%s returned %s', what, type(got))
    mon.check(same_dims(got, ux), '%s has units %s, expected %s', what, dims(got), M.show(ux))
    mon.check(mag(got).dtype == np.asarray(bare).dtype, '%s has element type %s, numpy %s', what, mag(got).dtype, np.asarray(bare).dtype)
    g, b = mag(got), np.asarray(bare)
    if name in ('max', 'min', 'nanmax', 'nanmin'):
        # which of two zeros is the larger one is not defined, and depends on numpy's code path
        g, b = g + 0, b + 0
    mon.check(identical(g, b), '%s gave %s, numpy %s', what, short(mag(got)), short(bare))
    invariant(got, what)
    if name not in ('squeeze', 'round') and not use_out:
        mon.check(not np.shares_memory(mag(got), a), '%s shares memory with its source', what)
    mon.ev(name, sig)


def clip_case(rng, mon, i):
    ex = gen_expr(rng, maxterms=2)
    dt = np.dtype(rng.choice('dddddflhi'))
    a = gen_array(rng, dt, some_shape(rng, SH), hostile=rng.random() < .2)
    q = Quantity(a, as_units(ex))
    a = q.magnitude
    how = rng.choice(['both', 'both', 'both', 'min', 'max', 'incompatible', 'plain', 'none'])
    big = dt.kind == 'f' and dt.itemsize == 4

    def bound():
        eb = gen_compatible(rng, ex) if rng.random() < .75 else dict(ex)
        r = M.ratio(eb, ex)
        if not F(10) ** -20 < r < F(10) ** 20:
            eb, r = dict(ex), F(1)
        sh = () if rng.random() < .7 else bcast_shape(rng, a.shape)
        if np.broadcast_shapes(sh, a.shape) != a.shape:
            sh = ()
        v = np.array(gen_array(rng, 'd', sh)) / M.fl(r)
        return Quantity(v, as_units(eb)), v * M.fl(r)
    lo, LO = bound()
    hi, HI = bound()
    if how == 'none':
        _, err = attempt(q.clip)
        mon.check(err is not None, 'clip without bounds was accepted')
        mon.ev('clip none', ())
        return
    if how == 'incompatible':
        eb = gen_incompatible(rng, ex)
        bad = Quantity(1.5, as_units(eb))
        kw = rng.choice([dict(min=bad, max=hi), dict(min=lo, max=bad), dict(min=bad), dict(max=bad), dict(min=bad, max=bad)])
        w = Watch(q, lo, hi, bad)
        got, err = attempt(q.clip, **kw)
        mon.check(err is not None, 'clip of %s with bounds in %s was accepted: %s', M.show(ex), M.show(eb), short(got))
        w.verify('clip')
        mon.ev('clip refused', (tuple(sorted(kw)), str(M.dim_of(ex)), str(M.dim_of(eb))))
        return
    if how == 'plain':
        kw = rng.choice([dict(min=-1.5, max=2.5), dict(min=lo, max=3.0), dict(min=0.5), dict(max=2.5)])
        w = Watch(q, lo)
        got, err = attempt(q.clip, **kw)
        w.verify('clip')
        if not M.is_dimless(ex):
            mon.check(err is not None, 'clip of %s with plain bounds %s was accepted', M.show(ex), kw)
            mon.ev('clip refused', ('plain', str(M.dim_of(ex))))
            return
        if err is not None:
            mon.check(bool(M.ex_norm(ex)), 'clip of a dimensionless quantity with plain bounds %s raised %r', kw, err)
            return
        f = 1 / M.fl(M.factor(ex))
        LOv = LO if kw.get('min') is lo else kw.get('min', -np.inf) * f
        want = np.clip(a, LOv, kw.get('max', np.inf) * f)
        kw['out'] = None
    else:
        kw = {'both': dict(min=lo, max=hi), 'min': dict(min=lo), 'max': dict(max=hi)}[how]
        if rng.random() < .25 and dt.kind == 'f' and dt.itemsize == 8:
            kw['out'] = Quantity(np.zeros(a.shape), as_units(gen_expr(rng)))
        w = Watch(q, lo, hi)
        form = rng.random() < .3
        if form:
            k2 = dict(kw)
            o = k2.pop('out', None)
            got, err = attempt(np.clip, q, k2.get('min'), k2.get('max'), out=o)
        else:
            got, err = attempt(q.clip, **kw)
        w.verify('clip')
        mon.check(err is None, 'clip of %s in %s with %s raised %r', q, M.show(ex), kw, err)
        want = np.clip(a, LO if 'min' in kw else -np.inf, HI if 'max' in kw else np.inf)
    mon.check(isinstance(got, Quantity) and same_dims(got, ex), 'clip of %s gave units %s', M.show(ex), got)
    mon.check(close(mag(got), want, 1e-5 if big else 1e-11, 1e-12), 'clip of %s with %s gave %s, expected %s', short(q), kw, short(mag(got)), short(want))
    if kw.get('out') is not None:
        mon.check(got is kw['out'], 'clip(out=) returned another object')
    mon.ev('clip', (how, dt.char, a.shape, np.shape(LO), np.shape(HI), 'out' in kw, len(ex)))


def search_case(rng, mon, i):
    ex = gen_expr(rng, maxterms=2)
    n = rng.choice([0, 1, 3, 5, 8])
    a = np.sort(np.array(gen_array(rng, rng.choice('ddfl'), (n,))))
    if n and rng.random() < .4:
        a[rng.randrange(n)] = a[0]
        a = np.sort(a)
    q = Quantity(a, as_units(ex))
    sorter = rng.random() < .2
    perm = list(range(n))
    rng.shuffle(perm)
    if sorter:
        q = q[np.array(perm, int)] if n else q
        a0 = q.magnitude
    how = rng.choice(['same', 'same', 'same', 'compatible', 'incompatible', 'plain'])
    sh = some_shape(rng, [(), (3,), (2, 2), (0,)])
    v = np.array(gen_array(rng, 'd', sh))
    if n and v.size and rng.random() < .5:
        v.flat[0] = a[rng.randrange(n)]
    side = rng.choice(['left', 'right'])
    ev = dict(ex)
    if how == 'compatible':
        ev = gen_compatible(rng, ex)
    elif how == 'incompatible':
        ev = gen_incompatible(rng, ex)
    vq = v if how == 'plain' else Quantity(v, as_units(ev))
    w = Watch(q, vq)
    form = rng.choice(['method', 'np'])
    kw = {'sorter': np.argsort(a0, kind='stable')} if sorter else {}
    got, err = attempt(q.searchsorted, vq, side, **kw) if form == 'method' else attempt(np.searchsorted, q, vq, side, **kw)
    w.verify('searchsorted')
    what = 'searchsorted(%s, %s, %s)' % (q, vq, side)
    if how == 'incompatible' or (how == 'plain' and not M.is_dimless(ex)):
        if v.any() or how == 'incompatible':
            mon.check(err is not None, '%s was accepted', what)
            mon.ev('searchsorted refused', (how, str(M.dim_of(ex)), str(M.dim_of(ev))))
        return
    if err is not None:
        mon.check(M.ex_norm(ev) != M.ex_norm(ex) or how == 'plain' and M.ex_norm(ex), '%s raised %r', what, err)
        mon.ev('searchsorted refused', (how,))
        return
    r = M.fl(M.ratio(ev if how != 'plain' else {}, ex))
    if M.ex_norm(ev) == M.ex_norm(ex) and how != 'plain' or r == 1:
        want = np.searchsorted(a, v, side)
        mon.check(not isinstance(got, Quantity) and np.array_equal(got, want) and np.shape(got) == np.shape(want), '%s gave %s, numpy %s', what, got, want)
    else:
        V = v * r
        lo = np.searchsorted(a, V - abs(V) * 1e-9, 'left')
        hi = np.searchsorted(a, V + abs(V) * 1e-9, 'right')
        mon.check(bool(np.all((lo <= got) & (got <= hi))), '%s gave %s', what, got)
    mon.ev('searchsorted', (how, n, sh, side, form, len(ex), sorter))


def out_view_case(rng, mon, i):
    """an output quantity that is itself an operand, and repeated use of one output with different functions"""
    ex, eo = gen_expr(rng), gen_expr(rng)
    a = np.array(gen_array(rng, 'd', (3, 4)))
    q = Quantity(a.copy(), as_units(ex))
    out = Quantity(np.zeros(4), as_units(eo))
    for _ in range(4):
        name = rng.choice(['sum', 'mean', 'max', 'min', 'ptp', 'std', 'var', 'prod', 'nansum', 'nanmax', 'nanmin', 'nanmean', 'nanstd'])
        got = getattr(q, name)(axis=0, out=out)
        want = ref_call(name, a, [], {'axis': 0})
        ux = M.ex_pow(ex, 2 if name == 'var' else 3 if name == 'prod' else 1)
        mon.check(got is out and same_dims(out, ux), '%s(axis=0, out) has units %s, expected %s', name, dims(out), M.show(ux))
        mon.check(identical(mag(out), want), '%s(axis=0, out) gave %s, expected %s', name, out, want)
        mon.check(same_dims(q, ex) and identical(mag(q), a), '%s(out=) changed its source', name)
        mon.ev('out sequence', (name, len(ex), len(eo)))
    # the units of the output are its own: converting it does not change the source
    _, err = attempt(setattr, out, 'units', as_units(gen_compatible(rng, ux)))
    mon.check(same_dims(q, ex), 'converting the output changed the source units')


REQUIRED_OPS = tuple(m for m in METHODS) + ('clip', 'clip refused', 'searchsorted', 'searchsorted refused', 'cumprod refused', 'out sequence', 'error')
FAMILIES = [Family('method', method_case, 24000, 400000), Family('clip', clip_case, 2500, 40000), Family('search', search_case, 2000, 30000),
            Family('outseq', out_view_case, 300, 5000)]
