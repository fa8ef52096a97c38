"""C10: reading and writing elements preserves units and physical values."""
from fractions import Fraction as F
import numpy as np
from ..core import Family
from .. import model as M
from ..lib import *

PROP = 'C10'
QUICK_SCALE = 1.5
RULE = ('a case is a history of reads and writes on one array and on live views of it, mirrored on a shadow plain array with the same aliasing '
        'and one unit expression; distinct by (operation, index kind, value kind, unit relation, dtype, shape, accepted)')


def gen_index(rng, sh):
    """(kind, index) valid for the shape most of the time"""
    nd = len(sh)
    if rng.random() < .05:
        return 'outofrange', rng.choice([99, -99, (0,) * (nd + 1), slice(None), 'x', 1.5])

    def dim(n):
        c = rng.random()
        if c < .4 and n:
            return rng.randrange(-n, n)
        if c < .75:
            return slice(rng.choice([None, 0, 1, -1, -2]), rng.choice([None, n, 1, 2, -1]), rng.choice([None, None, 1, 2, -1]))
        if c < .85:
            return slice(None)
        return slice(0, 0)
    c = rng.random()
    if nd == 0:
        return 'scalar', rng.choice([(), ..., None])
    if c < .25:
        return 'int', rng.randrange(-sh[0], sh[0]) if sh[0] else slice(None)
    if c < .4:
        return 'slice', slice(rng.choice([None, 0, 1, -2]), rng.choice([None, 2, -1]), rng.choice([None, 2, -1, 1]))
    if c < .55:
        k = rng.randint(1, nd)
        return 'tuple', tuple(dim(n) for n in sh[:k])
    if c < .65:
        m = np.array([rng.random() < .5 for _ in range(int(np.prod(sh)))], bool).reshape(sh)
        return 'mask', m
    if c < .72:
        return 'rowmask', np.array([rng.random() < .5 for _ in range(sh[0])], bool)
    if c < .85 and sh[0]:
        ks = [rng.randrange(-sh[0], sh[0]) for _ in range(rng.choice([0, 1, 2, 3]))]
        return 'fancy', rng.choice([ks, np.array(ks, int)])
    if c < .92:
        return 'newaxis', rng.choice([np.newaxis, (..., np.newaxis), (np.newaxis, ...)])
    if nd > 1 and sh[0] and sh[1]:
        k = rng.randint(1, 3)
        return 'fancy2', (np.array([rng.randrange(sh[0]) for _ in range(k)]), np.array([rng.randrange(sh[1]) for _ in range(k)]))
    return 'ellipsis', ...


def idx_read(rng, mon, q, p, ex):
    kind, k = gen_index(rng, p.shape)
    want, nerr = attempt(lambda: p[k])
    got, err = attempt(lambda: q[k])
    if nerr is not None:
        mon.check(err is not None, 'reading [%r] gave %s where numpy raises %r', k, short(got), nerr)
        mon.ev('read error', (kind, p.shape))
        return
    mon.check(err is None, 'reading [%r] of %s raised %r', k, short(q), err)
    mon.check(isinstance(got, Quantity) and same_dims(got, ex), 'reading [%r] gave %s', k, short(got))
    w = np.asarray(want)
    mon.check(identical(mag(got), w), 'reading [%r] gave %s, expected %s', k, short(mag(got)), short(w))
    mon.check(np.shares_memory(mag(got), mag(q)) == (isinstance(want, np.ndarray) and np.shares_memory(want, p)), 'view semantics of [%r] differ from numpy', k)
    mon.ev('read', (kind, p.shape, p.dtype.char, len(ex)))
    if isinstance(want, np.ndarray) and np.shares_memory(want, p):
        return got, want


def other_read(rng, mon, q, p, ex):
    c = rng.choice(['iter', 'tolist', 'flat', 'reshape', 'ravel', 'T', 'flatten', 'swapaxes', 'real', 'imag', 'take', 'squeeze', 'copy', 'diagonal', 'nested'])

    def same(g, w, what):
        mon.check(isinstance(g, Quantity) and same_dims(g, ex), '%s gave %s', what, short(g))
        mon.check(identical(mag(g), np.asarray(w)), '%s gave %s, expected %s', what, short(mag(g)), short(w))
    live = None
    if c == 'iter':
        if p.ndim == 0:
            _, err = attempt(list, q)
            mon.check(err is not None, 'a scalar quantity is iterable')
        else:
            g = list(q)
            mon.check(len(g) == len(p) == len(q), 'iteration gave %d of %d elements', len(g), len(p))
            for a, b in zip(g, p):
                same(a, b, 'iterating')
            if g and p.ndim > 1 and len(p):
                live = (g[-1], p[-1])
    elif c == 'tolist':
        def walk(a, b):
            if isinstance(b, list):
                mon.check(isinstance(a, list) and len(a) == len(b), 'tolist has another structure')
                for x, y in zip(a, b):
                    walk(x, y)
            else:
                mon.check(isinstance(a, Quantity) and a.shape == () and same_dims(a, ex), 'tolist holds %r', a)
                v = a.magnitude.item()
                mon.check(v == b or v != v and b != b, 'tolist holds %r, expected %r', a, b)
        walk(q.tolist(), p.tolist())
    elif c == 'flat':
        g = q.flat[:]
        same(g, p.flat[:], 'flat[:]')
        g = list(q.flat)
        mon.check(len(g) == p.size and all(float(np.real(x)) == float(np.real(y)) or x != x for x, y in zip(g, p.flat)), 'flat gave %s', g)
    elif c == 'reshape':
        s = rng.choice([(-1,), p.shape[::-1], (1,) + p.shape, p.shape + (1,)])
        if p.size == 0 and -1 in s:
            return
        g, w = q.reshape(s), p.reshape(s)
        same(g, w, 'reshape')
        if np.shares_memory(w, p):
            live = (g, w)
    elif c in ('ravel', 'flatten', 'copy'):
        g, w = getattr(q, c)(), getattr(p, c)()
        same(g, w, c)
        if np.shares_memory(w, p):
            live = (g, w)
        else:
            mon.check(not np.shares_memory(mag(g), mag(q)), '%s shares memory', c)
    elif c == 'T':
        same(q.T, p.T, 'T')
        same(q.transpose(), p.transpose(), 'transpose')
        live = (q.T, p.T)
    elif c == 'swapaxes' and p.ndim > 1:
        g, w = q.swapaxes(0, -1), p.swapaxes(0, -1)
        same(g, w, c)
        live = (g, w)
    elif c == 'real':
        same(q.real, p.real, 'real')
    elif c == 'imag':
        same(q.imag, p.imag, 'imag')
    elif c == 'take' and p.ndim and p.shape[0]:
        ks = [rng.randrange(-p.shape[0], p.shape[0]) for _ in range(rng.randint(0, 3))]
        same(q.take(np.array(ks, int), axis=0), p.take(np.array(ks, int), axis=0), 'take')
    elif c == 'squeeze':
        same(q.squeeze(), p.squeeze(), 'squeeze')
        live = (q.squeeze(), p.squeeze())
    elif c == 'diagonal' and p.ndim == 2:
        same(q.diagonal(), p.diagonal(), 'diagonal')
    elif c == 'nested' and p.ndim > 1 and 0 not in p.shape:
        same(q[0][-1], p[0][-1], 'q[0][-1]')
        mon.check(q[0, -1] is not None and np.shape(q[0, -1]) == np.shape(p[0, -1]), 'shape')
    mon.ev('read ' + c, (p.shape, p.dtype.char, len(ex)))
    if live is not None and live[1].size and live[1].flags.writeable:
        return live


def gen_written(rng, ex, shape, dt):
    """(kind, value object, plain array holding it in the target's units or None when it must be refused)"""
    c = rng.random()
    sh = shape if rng.random() < .45 else () if rng.random() < .7 else bcast_shape(rng, shape)
    if rng.random() < .04:
        sh = (7,)
    vd = rng.choice(['d', 'd', 'd', 'l', 'f'] + (['D'] if dt.kind == 'c' else []))
    v = np.array(gen_array(rng, vd, sh, hostile=rng.random() < .1 and dt.kind == 'f'))
    if dt.kind in 'iu':
        v = np.where(np.isfinite(v), v, 1)
        v = np.clip(np.abs(v), 0, 90)
    if c < .3:
        return 'same', Quantity(v, as_units(ex)), v
    if c < .6:
        e2 = gen_compatible(rng, ex)
        r = M.ratio(e2, ex)
        if not F(10) ** -9 < r < F(10) ** 9 or dt.kind in 'iu' and not F(1, 10) < r < 10 or dt.kind == 'b':
            return 'same', Quantity(v, as_units(ex)), v
        if M.ex_norm(e2) == M.ex_norm(ex):
            return 'same', Quantity(v, as_units(ex)), v
        if dt.kind in 'iu':
            # keep clear of rounding at integers
            v = (np.floor(v * M.fl(r)) + .5) / M.fl(r)
        V = v * M.fl(r)
        return 'compatible', Quantity(v, as_units(e2)), V
    if c < .7:
        e2 = gen_incompatible(rng, ex)
        return 'incompatible', Quantity(v, as_units(e2)), None
    if c < .76:
        u = pick_unit(rng)
        if M.compatible({u.name: 1}, ex):
            r = M.ratio({u.name: 1}, ex)
            if F(10) ** -9 < r < F(10) ** 9 and dt.kind not in 'iub':
                return 'unit', uobj(u.name), np.array(M.fl(r))
            return 'same', Quantity(v, as_units(ex)), v
        return 'incompatible', uobj(u.name), None
    if c < .82:
        u = UQ(np.abs(v.real) + 1.0, as_units(ex), np.full(v.shape, .1))
        return 'uq', u, np.abs(v.real) + 1.0
    # plain
    val = v
    if v.ndim == 0:
        val = v.item()
    elif rng.random() < .5 and v.size:
        val = v.tolist()
    if M.is_dimless(ex):
        r = 1 / M.factor(ex)
        if F(10) ** -9 < r < F(10) ** 9 and (r == 1 or dt.kind not in 'iub'):
            return 'plain', val, v.astype('D' if v.dtype.kind == 'c' else 'd') * M.fl(r)
        return 'same', Quantity(v, as_units(ex)), v
    return 'plain', val, None


def stores_close(mon, q, p, what, dt, vdt='d'):
    mon.check(close(mag(q), p, 1e-5 if dt.char in 'fF' or vdt in 'fF' else 4e-3 if dt.char == 'e' else 1e-11), '%s: array holds %s, expected %s', what, short(mag(q)), short(p))


def history_case(rng, mon, i):
    dt = np.dtype(rng.choice('ddddddflDhF'))
    sh = rng.choice([(4,), (3,), (2, 3), (2, 3), (3, 2, 2), (1, 3), (), (1,), (0,), (5,)])
    ex = gen_expr(rng, maxterms=2, exps=ALL_EXPS if rng.random() < .2 else INT_EXPS)
    if rng.random() < .12:
        ex = rng.choice([{}, {'percent': 1}, {'radian': 1}, {'meter': 1, 'millimeter': -1}])
    p = np.array(gen_array(rng, dt, sh, layout=False))
    if p.dtype.kind in 'iu':
        p = np.array(np.abs(p))
    q = Quantity(p.copy(), as_units(ex))
    live = [(q, p)]
    for step in range(rng.randint(2, 9)):
        v, s = rng.choice(live)
        c = rng.random()
        if c < .25:
            r = idx_read(rng, mon, v, s, ex)
            if r is not None and r[1].size:
                live.append(r)
        elif c < .4:
            r = other_read(rng, mon, v, s, ex)
            if r is not None and np.shares_memory(mag(r[0]), mag(q)) and np.shares_memory(r[1], p):
                live.append(r)
        elif c < .8:
            kind, k = gen_index(rng, s.shape)
            cell, nerr = attempt(lambda: s[k])
            tsh = np.shape(cell) if nerr is None else ()
            vk, val, bare = gen_written(rng, ex, tsh, dt)
            mode = 'setitem'
            if rng.random() < .25 and s.size:
                mode = 'put'
                n = rng.randint(1, 3)
                k = [rng.randrange(-s.size, s.size) for _ in range(n)]
                kind = rng.choice(['raise', 'wrap', 'clip'])
                if kind != 'raise' and rng.random() < .5:
                    k[0] += s.size * 2
                elif rng.random() < .07:
                    k[0] = s.size + 5
                if np.size(val) == 0:
                    continue
            before = s.copy()
            if isinstance(val, Quantity) and np.shares_memory(mag(val), mag(q)):
                continue
            w = Watch(val)
            what = '%s[%r] = %s on %s' % (mode, k, short(val, 150), short(v, 150))
            if mode == 'setitem':
                _, err = attempt(v.__setitem__, k, val)
            else:
                _, err = attempt(v.put, k, val, mode=kind)
            w.verify(what)
            if bare is None:
                mon.check(err is not None, '%s was accepted', what)
                mon.check(identical(mag(v), before) and same_dims(v, ex), 'the refused %s changed the array', what)
                mon.ev('write refused', (mode, kind, vk, str(M.dim_of(ex)), len(ex)))
                continue
            sb = s.copy()
            if mode == 'setitem':
                _, nerr = attempt(s.__setitem__, k, bare)
            else:
                _, nerr = attempt(s.put, k, bare, mode=kind)
            if nerr is not None:
                mon.check(err is not None, '%s was accepted where numpy raises %r', what, nerr)
                mon.check(identical(mag(v), before), 'the refused %s changed the array', what) if mode == 'setitem' else None
                s[...] = before
                v.magnitude[...] = before
                mon.ev('write error', (mode, kind, vk))
                continue
            mon.check(err is None, '%s raised %r', what, err)
            stores_close(mon, v, s, what, dt, np.asarray(val).dtype.char)
            ch = ~((sb == s) | ((sb != sb) & (s != s)))
            un = ~ch
            g = mag(v)
            if g.size:
                mon.check(identical(g[un & (g == s)], s[un & (g == s)]) and bool(np.all((g[un] == sb[un]) | (g[un] != g[un]) | np.isclose(g[un], sb[un], rtol=1e-5 if dt.char in 'fF' else 1e-11))),
                          '%s changed other elements', what)
            # keep shadow and array bit-identical from here on
            s[...] = g
            mon.ev('write', (mode, kind, vk, dt.char, s.shape, np.shape(val), len(ex)))
        elif c < .9:
            part = rng.choice(['real', 'imag'])
            if part == 'imag' and dt.kind != 'c':
                continue
            vk, val, bare = gen_written(rng, ex, s.shape, np.dtype('d') if dt.kind not in 'iub' else dt)
            if vk in ('plain', 'unit') or np.iscomplexobj(np.asarray(val)):
                continue
            before = s.copy()
            _, err = attempt(setattr, v, part, val)
            what = '%s.%s = %s' % (short(v, 100), part, short(val, 100))
            if bare is None:
                mon.check(err is not None, '%s was accepted', what)
                mon.check(identical(mag(v), before), 'the refused %s changed the array', what)
                mon.ev('write refused', (part, vk, str(M.dim_of(ex))))
                continue
            _, nerr = attempt(setattr, s, part, bare)
            if nerr is not None:
                mon.check(err is not None, '%s was accepted where numpy raises %r', what, nerr)
                continue
            mon.check(err is None, '%s raised %r', what, err)
            stores_close(mon, v, s, what, dt, np.asarray(val).dtype.char)
            s[...] = mag(v)
            mon.ev('write ' + part, (vk, dt.char, s.shape))
        else:
            vk, val, bare = gen_written(rng, ex, (), dt)
            if np.ndim(val) or isinstance(val, Quantity) and vk == 'uq':
                continue
            x = np.asarray(val)
            if dt.kind != 'c' and x.dtype.kind == 'c':
                continue
            view = v is not q
            if isinstance(val, Quantity):
                e2 = fdims(val)
                vv = mag(val)
            else:
                e2, vv = M.ex_norm(ex), val
            _, nerr = attempt(s.copy().fill, vv)
            before = s.copy()
            _, err = attempt(v.fill, val)
            what = '%s.fill(%s)' % (short(v, 100), short(val, 100))
            if nerr is not None or (view and e2 != M.ex_norm(ex)):
                mon.check(err is not None, '%s was accepted', what)
                mon.check(identical(mag(v), before) and same_dims(v, ex), 'the refused %s changed the array', what)
                mon.ev('fill refused', (vk, view))
                continue
            mon.check(err is None, '%s raised %r', what, err)
            s.fill(vv)
            mon.check(identical(mag(v), s) and same_dims(v, e2), '%s gave %s', what, short(v))
            mon.ev('fill', (vk, dt.char, s.shape, len(e2)))
            if e2 != M.ex_norm(ex):
                # the owner now has other units: older views are no longer described by the shadow
                ex = dict(e2)
                live = [(q, p)]
        # every live alias still agrees
        for a, b in live:
            mon.check(same_dims(a, ex), 'a view has units %s, its parent %s', dims(a), M.show(ex))
            mon.check(identical(mag(a), b), 'a view reads %s, expected %s', short(mag(a)), short(b))
        mon.ev('aliases', (len(live), dt.char))


def overlap_case(rng, mon, i):
    """assignments whose source overlaps the destination, and sources in other units"""
    ex = gen_expr(rng)
    n = rng.choice([4, 5, 6])
    p = np.array(gen_array(rng, 'd', (n,), layout=False))
    q = Quantity(p.copy(), as_units(ex))
    k = rng.randint(1, n - 1)
    f = rng.choice(['shift', 'unshift', 'reverse', 'self'])
    if f == 'shift':
        q[k:] = q[:-k]
        p[k:] = p[:-k].copy()
    elif f == 'unshift':
        q[:-k] = q[k:]
        p[:-k] = p[k:].copy()
    elif f == 'reverse':
        q[:] = q[::-1]
        p[:] = p[::-1].copy()
    else:
        q[...] = q
    mon.check(same_dims(q, ex) and identical(mag(q), p), 'overlapping assignment %s gave %s, expected %s', f, q, p)
    mon.ev('overlap', (f, n, k, len(ex)))


def extreme_case(rng, mon, i):
    """the largest and smallest values of every element type are read and stored exactly"""
    dt = np.dtype('bBhHiIqQlLefdgFDG?'[i % 18])
    if dt.kind == 'b':
        vals = [True, False]
    elif dt.kind in 'iu':
        n = np.iinfo(dt)
        vals = [n.max, n.min, n.max - 1, n.min + 1, n.max // 2 + 1, 0, 1]
    else:
        n = np.finfo(dt)
        vals = [n.max, -n.max, n.tiny, n.smallest_subnormal, -0.0, 0.0, np.nan, np.inf, -np.inf, 1 + n.eps, 1]
    sh = some_shape(rng, [(3,), (1,), (4,), (2, 3), ()])
    size = int(np.prod(sh, dtype=int))
    ex = gen_expr(rng)

    def fresh():
        a = np.array([vals[rng.randrange(len(vals))] for _ in range(size)], dtype=dt).reshape(sh)
        if dt.kind == 'c' and size:
            a.imag = a.real.ravel()[::-1].reshape(sh)
        return a
    with np.errstate(all='ignore'):
        p = fresh()
        q = Quantity(p.copy(), as_units(ex))
        for _ in range(3):
            other_read(rng, mon, q, p, ex)
            idx_read(rng, mon, q, p, ex)
        # the same units: stored as it is
        w = fresh()
        u = Quantity(w.copy(), as_units(ex))
        if sh:
            k = rng.randrange(sh[0])
            form = rng.choice(['item', 'slice', 'all', 'mask'])
            key = {'item': k, 'slice': slice(k, None), 'all': Ellipsis, 'mask': np.arange(sh[0]) >= k}[form]
            q[key] = u[key]
            p[key] = w[key]
        else:
            form, key = 'scalar', ()
            q[()] = u
            p[()] = w
        mon.check(same_dims(q, ex) and identical(mag(q), p), 'storing [%r] of %r gives %r, expected %r', key, u, q, p)
    mon.ev('extremes', (dt.char, sh, form))


REQUIRED_OPS = ('extremes', 'read', 'read error', 'write', 'write refused', 'write error', 'write real', 'write imag', 'fill', 'fill refused', 'aliases', 'overlap',
                'read iter', 'read tolist', 'read T', 'read reshape', 'read ravel')
FAMILIES = [Family('history', history_case, 7000, 150000), Family('overlap', overlap_case, 200, 2000), Family('extremes', extreme_case, 1800, 40000)]
