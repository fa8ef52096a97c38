"""Bridge to the library under test: building inputs, reading results at the public boundary,
snapshots, structural invariants and input generators."""
import math, copy
from fractions import Fraction as F
from . import core
from .core import Violation
import numpy as np
import quantities as pq
from quantities.dimensionality import Dimensionality
from quantities.registry import unit_registry
from . import model as M

Quantity = pq.Quantity
UnitQuantity = pq.UnitQuantity
UQ = pq.UncertainQuantity

_uobj = {}


def uobj(name):
    """library unit object for a reference unit name"""
    try:
        return _uobj[name]
    except KeyError:
        pass
    r = M.BY_NAME[name]
    if r.attrs:
        o = getattr(pq, r.attrs[0])
    else:
        o = unit_registry[r.labels[0]]
    _uobj[name] = o
    return o


def pexp(e):
    """python exponent for a Fraction"""
    if isinstance(e, F):
        return int(e) if e.denominator == 1 else float(e)
    return e


def as_units(expr, form='quantity', rng=None):
    """library unit specification for a reference expression, in one of several forms"""
    if form == 'unit':
        if len(expr) == 1:
            (k, e), = expr.items()
            if e == 1:
                return uobj(k)
        form = 'quantity'
    if form == 'quantity':
        q = 1 * pq.dimensionless
        for k, e in expr.items():
            q = q * uobj(k) ** pexp(e)
        if not expr:
            return pq.dimensionless
        # normalise the magnitude: only units matter
        return Quantity(1.0, q.dimensionality)
    if form == 'dim':
        return as_units(expr, 'quantity').dimensionality
    if form == 'string':
        return unit_string(expr, rng)
    raise ValueError(form)


def unit_string(expr, rng=None):
    parts = []
    for k, e in expr.items():
        labs = [l for l in M.BY_NAME[k].labels if l.isidentifier()]
        l = rng.choice(labs) if rng and labs else (labs[0] if labs else 'esu/s')
        e = pexp(e)
        if l == 'esu/s':
            l = '(esu/s)'
        parts.append(l if e == 1 else '%s**%s' % (l, e if not isinstance(e, float) else repr(e)))
    return '*'.join(parts) if parts else 'dimensionless'


def dims(x):
    """{unit name: exponent} carried by a library object, read through the public interface"""
    d = x if isinstance(x, Dimensionality) else x.dimensionality
    return {u.name: e for u, e in d.items()}


def fdims(x):
    return M.ex_norm(dims(x))


def same_dims(x, expr):
    a = dims(x)
    b = {k: v for k, v in expr.items() if v != 0}
    if set(a) != set(b):
        return False
    return all(abs(float(a[k]) - float(b[k])) <= 1e-9 * max(1.0, abs(float(b[k]))) for k in a)


def mag(q):
    return np.asarray(q.magnitude)


def si(q, extra=None):
    """SI value of a library quantity through the reference table only"""
    f = M.factor(fdims(q), extra)
    return mag(q) * M.fl(f)


def snap(o):
    """full observable state of an object"""
    if isinstance(o, Dimensionality):
        return ('dim', tuple(sorted((u.name, repr(float(e))) for u, e in o.items())))
    if isinstance(o, UnitQuantity):
        return ('unit', type(o).__name__, o.name, o.symbol, o.u_symbol, float(o.magnitude), o.shape, o.dtype.str,
                o.flags.writeable, tuple(sorted((u.name, repr(float(e))) for u, e in o.dimensionality.items())))
    if isinstance(o, UQ):
        m = np.asarray(o.magnitude)
        u = o.uncertainty
        return ('uq', m.dtype.str, m.shape, m.tobytes(), o.flags.writeable,
                tuple(sorted((u_.name, repr(float(e))) for u_, e in o.dimensionality.items())),
                None if u is None else snap(u))
    if isinstance(o, Quantity):
        m = np.asarray(o.magnitude)
        return ('q', type(o).__name__, m.dtype.str, m.shape, m.tobytes(), o.flags.writeable,
                tuple(sorted((u.name, repr(float(e))) for u, e in o.dimensionality.items())))
    if isinstance(o, np.ndarray):
        return ('nd', o.dtype.str, o.shape, o.tobytes(), o.flags.writeable)
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(snap(x) for x in o)
    if isinstance(o, dict):
        return ('dict',) + tuple((k, snap(v)) for k, v in o.items())
    return ('py', type(o).__name__, repr(o))


class Watch:
    """purity monitor: operands must look the same after the operation as before"""

    def __init__(self, *objs):
        self.objs = objs
        self.before = [snap(o) for o in objs]

    def verify(self, what):
        for o, b in zip(self.objs, self.before):
            a = snap(o)
            if a != b:
                raise Violation('%s changed an operand: before %s after %s' % (what, short(b), short(a)))


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def invariant(q, what=''):
    """structural invariant of every quantity that reaches the client"""
    if not isinstance(q, Quantity):
        raise Violation('%s: not a Quantity: %r' % (what, type(q)))
    d = q.dimensionality
    if not isinstance(d, Dimensionality):
        raise Violation('%s: dimensionality is %r' % (what, type(d)))
    for u, e in d.items():
        if not isinstance(u, UnitQuantity):
            raise Violation('%s: non-unit %r in dimensionality' % (what, u))
        if e == 0:
            raise Violation('%s: zero exponent for %s' % (what, u.name))
    if not isinstance(q, UnitQuantity) and isinstance(q, UQ):
        u = q.uncertainty
        if u.shape != q.shape:
            raise Violation('%s: uncertainty has shape %s, value %s' % (what, u.shape, q.shape))
        if u.dimensionality != d:
            raise Violation('%s: uncertainty has units %s, value %s' % (what, u.dimensionality, d))
    return q


RTOL = {'e': 4e-3, 'f': 4e-6, 'd': 2e-12, 'g': 2e-12, 'F': 4e-6, 'D': 2e-12, 'G': 2e-12}


def rtol_for(*dts):
    r = 2e-12
    for d in dts:
        d = np.dtype(d)
        r = max(r, RTOL.get(d.char, 2e-12))
    return r


def close(got, want, rtol=2e-12, atol=0.0):
    """elementwise closeness with exact agreement on NaN and infinities"""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return False
    if got.size == 0:
        return True
    if got.dtype.kind == 'c' or want.dtype.kind == 'c':
        g, w = got.astype('G'), want.astype('G')
        fin = np.isfinite(w)
        if not np.array_equal(np.isfinite(g), fin):
            return False
        return bool(np.all(np.abs(g - w)[fin] <= rtol * np.abs(w)[fin] + atol))
    if got.dtype.kind in 'bSUO' and want.dtype.kind in 'bSUO':
        return bool(np.array_equal(got, want))
    g, w = got.astype('g'), want.astype('g')
    nan = np.isnan(w)
    if not np.array_equal(np.isnan(g), nan):
        return False
    inf = np.isinf(w)
    if not np.array_equal(np.isinf(g), inf):
        return False
    if inf.any() and not np.array_equal(np.sign(g[inf]), np.sign(w[inf])):
        return False
    ok = ~(nan | inf)
    return bool(np.all(np.abs(g - w)[ok] <= rtol * np.abs(w)[ok] + atol))


def same_type(a, b):
    """the same element type, in whichever byte order"""
    return np.dtype(a).newbyteorder('=') == np.dtype(b).newbyteorder('=')


def identical(got, want):
    """same shape, same values (NaN equal), same sign of zero"""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape or not same_type(got.dtype, want.dtype):
        return False
    if got.dtype.kind in 'fc':
        if got.dtype.kind == 'c':
            return identical(got.real.copy(), want.real.copy()) and identical(got.imag.copy(), want.imag.copy())
        a = np.isnan(got)
        return bool(np.array_equal(a, np.isnan(want)) and np.array_equal(got[~a], want[~a])
                    and np.array_equal(np.signbit(got[~a]), np.signbit(want[~a])))
    return bool(np.array_equal(got, want))


def attempt(f, *a, **k):
    """(result, None) or (None, exception)"""
    try:
        return f(*a, **k), None
    except Exception as e:
        return None, e


# ------------------------------------------------------------------ generators

def pick_unit(rng):
    return rng.choice(M.COMMON if rng.random() < 0.5 else M.ORD)


INT_EXPS = [1, 1, 1, 1, -1, -1, 2, -2, 3, -3]
ALL_EXPS = INT_EXPS + [F(1, 2), F(-1, 2), F(3, 2), 4, -4]
# exact in binary, but with many digits, close to one or zero, or large
ODD_EXPS = [F(1, 16), F(-9, 16), F(17, 16), F(33, 32), F(1025, 1024), F(1, 1024), F(-1, 1024), F(2047, 1024), F(5, 2), F(-7, 4), 6, 7, -8, 11]


def pick_exp(rng, exps=ALL_EXPS):
    return rng.choice(ODD_EXPS) if exps is ALL_EXPS and rng.random() < .12 else rng.choice(exps)


def gen_expr(rng, maxterms=3, exps=INT_EXPS, allow_empty=True):
    n = rng.choice([0] + [1] * 6 + [2] * 4 + [3] * 2) if allow_empty else rng.choice([1] * 6 + [2] * 4 + [3] * 2)
    n = min(n, maxterms)
    if n == 3 and rng.random() < .08:
        # many units at once
        n = rng.choice([4, 5, 6, 8, 10])
    for _ in range(50):
        e = {}
        for _ in range(n):
            u = pick_unit(rng).name
            x = e.get(u, 0) + pick_exp(rng, exps)
            if x:
                e[u] = x
            else:
                e.pop(u, None)
        f = M.factor(e)
        if F(10) ** -40 < f < F(10) ** 40:
            return e
    return {'meter': 1}


def mild(expr, lo=-30, hi=30):
    f = M.factor(expr)
    return F(10) ** lo < f < F(10) ** hi


def gen_compatible(rng, expr, exps_ok=True):
    """another expression of the same physical dimension"""
    for _ in range(30):
        how = rng.random()
        new = dict(expr)
        if how < 0.5 and expr:
            new = {}
            for k, e in expr.items():
                alts = M.GROUPS[M.BY_NAME[k].dim]
                a = rng.choice(alts) if rng.random() < 0.8 else M.BY_NAME[k]
                new = M.ex_mul(new, {a.name: e})
        elif how < 0.65:
            new = M.si_expr(M.dim_of(expr))
        elif how < 0.8:
            g = M.GROUPS.get(M.dim_of(expr))
            if not g:
                continue
            new = {rng.choice(g).name: 1}
        elif how < 0.9:
            new = M.ex_mul(expr, {rng.choice(['radian', 'percent', 'arcdegree', 'count', 'turn', 'milliradian']):
                                  rng.choice([1, -1])})
        else:
            g = rng.choice([x for x in M.GROUPS.values() if len(x) > 2])
            a, b = rng.sample(g, 2)
            new = M.ex_mul(M.ex_mul(expr, {a.name: 1}), {b.name: -1})
        r = M.ratio(expr, new)
        if F(10) ** -40 < r < F(10) ** 40 and M.compatible(expr, new):
            return new
    return dict(expr)


def gen_incompatible(rng, expr):
    for _ in range(60):
        how = rng.random()
        if how < 0.25 and expr:
            k = rng.choice(list(expr))
            new = dict(expr)
            new[k] = new[k] + rng.choice([1, -1, F(1, 2)])
            if new[k] == 0:
                del new[k]
        elif how < 0.4:
            new = {k: -v for k, v in expr.items()}
        elif how < 0.55 and expr:
            new = dict(expr)
            del new[rng.choice(list(expr))]
        elif how < 0.7:
            new = M.ex_mul(expr, {pick_unit(rng).name: rng.choice([1, -1])})
        else:
            new = gen_expr(rng)
        if not M.compatible(expr, new):
            return new
    return {'second': 7}


SHAPES = [(), (), (1,), (3,), (3,), (4,), (2, 3), (2, 3), (2, 1), (1, 3), (2, 2, 2), (0,), (2, 0)]
BIG_SHAPES = [(130,), (33, 40), (1200,), (2, 3, 2, 2), (5000,), (2, 1, 600), (1, 1, 1, 1, 1)]


def pick_shape(rng):
    return some_shape(rng, SHAPES)


MID_SHAPES = [(130,), (33, 4), (1100,), (2, 3, 2, 2), (1, 1, 1, 1, 1)]


def some_shape(rng, shapes, big=BIG_SHAPES):
    """one of the shapes, or now and then one with many elements or many axes"""
    return rng.choice(big) if rng.random() < .025 else rng.choice(shapes)


FLOATS = ['d'] * 8 + ['f'] * 3
DTYPES = ['d'] * 8 + ['f'] * 3 + ['l', 'i', 'h', 'b', 'B', 'I', 'D', 'F', 'e', 'g', '?']


def gen_value(rng, kind='f', hostile=False, lo=0.01, hi=100.0):
    if kind == 'b':
        return rng.random() < 0.5
    if kind == 'i':
        return rng.randint(-20, 20)
    if kind == 'u':
        return rng.randint(0, 20)
    if hostile and rng.random() < 0.25:
        return rng.choice([float('nan'), float('inf'), float('-inf'), 0.0, -0.0])
    c = rng.random()
    if c < 0.3:
        v = float(rng.randint(-9, 9))
    elif c < 0.4:
        v = 0.0
    else:
        v = math.exp(rng.uniform(math.log(lo), math.log(hi))) * rng.choice([1, 1, -1])
    return v


def gen_array(rng, dtype=None, shape=None, hostile=False, positive=False, layout=True, nonzero=False):
    dt = np.dtype(dtype if dtype is not None else rng.choice(DTYPES))
    sh = pick_shape(rng) if shape is None else shape
    n = int(np.prod(sh, dtype=int))

    # now and then all values far from one
    far = 10.0 ** rng.choice([-13, -10, -7, 7, 10, 13]) if dt.char == 'd' and rng.random() < .04 else None

    def one():
        for _ in range(30):
            if dt.kind == 'c':
                v = complex(gen_value(rng), gen_value(rng))
            else:
                v = gen_value(rng, dt.kind, hostile)
            if positive and dt.kind != 'c':
                v = abs(v)
            if far:
                v *= far
            if nonzero and not v:
                continue
            return v
        return 1
    if n <= 64:
        a = np.array([one() for _ in range(n)], dtype=dt).reshape(sh)
        if n > 1 and rng.random() < .06:
            # equal elements, all of them or neighbours
            v = [one() if nonzero or rng.random() < .7 else 0, one()]
            a = np.array(sorted((v[rng.random() < rng.choice([0, .3])] for _ in range(n)), key=lambda x: x is v[0]), dtype=dt).reshape(sh)
    else:
        # some values, many times, in any order
        pool = np.array([one() for _ in range(48)], dtype=dt)
        a = pool[np.random.default_rng(rng.randrange(1 << 30)).integers(0, 48, n)].reshape(sh)
    if layout and rng.random() < 0.02 and dt.char in 'dDlih':
        if rng.random() < .5:
            # the other byte order
            return a.astype(dt.newbyteorder())
        # not aligned
        b = np.zeros(a.size * dt.itemsize + 1, 'u1')[1:].view(dt).reshape(sh)
        b[...] = a
        return b
    if layout and a.ndim >= 1 and rng.random() < 0.4:
        how = rng.randrange(4)
        if how == 0:
            a = np.asfortranarray(a)
        elif how == 1:
            b = np.zeros(tuple(2 * s for s in a.shape), dtype=dt)
            b[tuple(slice(None, None, 2) for _ in a.shape)] = a
            a = b[tuple(slice(None, None, 2) for _ in a.shape)]
        elif how == 2:
            a = a[::-1].copy()[::-1]
        else:
            a = a.T.copy().T
    return a


def bcast_shape(rng, shape):
    """a shape that broadcasts with `shape`"""
    c = rng.random()
    if c < 0.35:
        return shape
    if c < 0.6:
        return ()
    s = [x if rng.random() < 0.6 else 1 for x in shape]
    if rng.random() < 0.3 and s:
        s = s[1:]
    elif rng.random() < 0.2:
        s = [2] + s
    return tuple(s)


def make_q(arr, expr, form=None, rng=None):
    """library quantity over (a private copy of) arr"""
    a = np.array(arr, copy=True, order='K') if arr.flags.c_contiguous or arr.flags.f_contiguous else arr
    return Quantity(a, as_units(expr, form or 'dim', rng))


# ------------------------------------------------------------------ catalogue fingerprint

def unit_state(o):
    """observable definition of a unit object"""
    ref = o.definition
    d = None
    if ref is not o:
        d = (float(ref.magnitude), tuple(sorted((u.name, repr(e)) for u, e in ref.dimensionality.items())))
    return (type(o).__name__, o.name, o.symbol, o.u_symbol, float(o.magnitude), o.dtype.str, o.shape,
            o.flags.writeable, d)


def catalogue_fingerprint(deep=False):
    """state of every unit reachable under every label and attribute"""
    out = {}
    seen = {}
    for r in M.UNITS:
        for lab in r.labels:
            if lab == '(esu/s)':
                continue
            o = unit_registry[lab]
            out['L:' + lab] = id(o)
            seen[id(o)] = o
        for a in r.attrs:
            o = getattr(pq, a)
            out['A:' + a] = id(o)
            seen[id(o)] = o
    for i, o in seen.items():
        st = unit_state(o)
        if deep:
            s = o.simplified if o.name != 'dimensionless' else None
            st += () if s is None else (float(s.magnitude), tuple(sorted(dims(s).items(), key=str)))
        out['S:%d' % i] = st
    return out


def diff_fp(a, b):
    return ['%s: %s -> %s' % (k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b), key=str) if a.get(k) != b.get(k)][:5]


_constants = None


def constants():
    """{name: constant object} offered by quantities.constants"""
    global _constants
    if _constants is None:
        import quantities.constants as C
        _constants = {k: v for k, v in vars(C).items()
                      if isinstance(v, UnitQuantity) and type(v).__name__ == 'UnitConstant'}
    return _constants


def whole_sigma(rng, shape):
    """uncertainties which are whole numbers of any type, large ones too"""
    dt = np.dtype(rng.choice('bBhHiIlq'))
    hi = min(np.iinfo(dt).max, 4 * 10 ** 9)
    n = int(np.prod(shape, dtype=int))
    return np.array([rng.choice([0, 1, 3, rng.randint(0, 100), hi, hi // rng.randint(1, 9)]) for _ in range(n)], dt).reshape(shape)
