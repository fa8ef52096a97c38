"""C08: numpy universal functions follow their dimensional rule or refuse."""
from fractions import Fraction as F
import numpy as np
from ..core import Family
from .. import model as M
from ..lib import *

PROP = 'C08'
QUICK_SCALE = 2.5
RULE = ('a case calls one numpy ufunc on quantities, units, uncertain quantities and plain operands; the units must follow an independent '
        'rule table and the value numpy on the bare magnitudes, or the call must be refused; distinct by (ufunc, operand kinds, '
        'unit relation, dtypes, shapes, out form, accepted)')
UFUNCS = {}
for _n in sorted(dir(np)):
    _u = getattr(np, _n)
    if isinstance(_u, np.ufunc):
        UFUNCS.setdefault(_u.__name__, _u)
NAMES = sorted(UFUNCS)

KEEP = {'absolute', 'fabs', 'conjugate', 'negative', 'positive', 'rint', 'floor', 'ceil', 'trunc', 'spacing'}
SAME = {'add', 'subtract', 'remainder', 'fmod', 'hypot', 'maximum', 'minimum', 'fmax', 'fmin', 'nextafter', 'gcd', 'lcm'}
COMPARE = {'equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal'}
MUL = {'multiply', 'matmul', 'vecdot', 'matvec', 'vecmat'}
DIV = {'divide', 'true_divide', 'floor_divide'}
LOGEXP = {'log', 'log10', 'log2', 'log1p', 'exp', 'exp2', 'expm1'}
TRIG = {'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh'}
ARC = {'arcsin', 'arccos', 'arctan', 'arcsinh', 'arccosh', 'arctanh'}
PRED = {'isfinite', 'isinf', 'isnan', 'signbit', 'isnat'}
LOGICAL = {'logical_and', 'logical_or', 'logical_xor', 'logical_not'}
BITS = {'bitwise_and', 'bitwise_or', 'bitwise_xor', 'invert', 'left_shift', 'right_shift', 'bitwise_count'}
# documented by the library: refusing a well-formed call of these is a defect too
SUPPORTED = ((KEEP - {'positive', 'trunc', 'spacing'}) | {'add', 'subtract', 'remainder', 'fmod', 'hypot', 'maximum', 'minimum', 'multiply', 'divide', 'floor_divide',
             'square', 'reciprocal', 'sqrt', 'power', 'arctan2', 'radians', 'degrees', 'logaddexp', 'logaddexp2', 'isfinite', 'isinf', 'isnan'}
             | LOGEXP | TRIG | ARC | COMPARE)
NONE = {}
RAD, DEG = {'radian': 1}, {'arcdegree': 1}
DEGF = M.factor(DEG)


class Refuse(Exception):
    pass


class Skip(Exception):
    pass


def one(ex):
    """expression is a pure number equal to 1"""
    return M.is_dimless(ex) and M.factor(ex) == 1


def identical_units(a, b, va, vb):
    """units of a combination that needs identical units (None = plain operand)"""
    if a is not None and b is not None:
        if M.ex_norm(a) != M.ex_norm(b):
            raise Refuse
        return a
    u, plain = (a, vb) if b is None else (b, va)
    if not M.ex_norm(u) or not np.asarray(plain).any():
        return u
    raise Refuse


def odd_exponents(rng, y):
    """exponents which are not all equal, perhaps by one entry or by one bit only"""
    kind = rng.choice(['line', 'one', 'one', 'one', 'nudge', 'nan', 'inf', 'sign'])
    if kind == 'line':
        return np.linspace(1, 2, y.size).reshape(y.shape)
    y = y.astype(float) if kind != 'one' else y
    k = rng.randrange(y.size)
    v = y.flat[k]
    y.flat[k] = {'one': v + rng.choice([1, -1, 2]), 'nudge': np.nextafter(v, rng.choice([-9, 9])) if rng.random() < .5 else v + rng.choice([1e-6, -1e-9, 1e-3]), 'nan': np.nan, 'inf': rng.choice([np.inf, -np.inf]), 'sign': -v if v else 1}[kind]
    return y


def rule(name, exs, vals):
    """list of acceptable unit expressions per output; 'plain' = no units allowed; raises Refuse when the call must be refused.
    The boolean says whether the call is canonical (a supported function must then accept it)."""
    a = exs[0]
    b = exs[1] if len(exs) > 1 else None
    if name in KEEP:
        return [[a]], True
    if name in SAME:
        return [[identical_units(a, b, *vals)]], True
    if name in COMPARE:
        identical_units(a, b, *vals)
        return [[NONE, 'plain']], True
    if name in MUL:
        return [[M.ex_mul(a or {}, b or {})]], True
    if name in DIV:
        return [[M.ex_div(a or {}, b or {})]], True
    if name == 'divmod':
        u = identical_units(a, b, *vals)
        return [[M.ex_div(a or {}, b or {})], [u]], True
    if name == 'square':
        return [[M.ex_pow(a, 2)]], True
    if name == 'reciprocal':
        return [[M.ex_pow(a, -1)]], True
    if name == 'sqrt':
        return [[M.ex_pow(a, F(1, 2))]], True
    if name == 'cbrt':
        return [[M.ex_pow(a, F(1, 3))]], True
    if name in ('power', 'float_power'):
        if b is not None and not one(b):
            raise Refuse
        if a is None:
            return [[NONE]], False
        p = np.asarray(vals[1])
        if p.size == 0:
            return [[NONE]], False
        if p.min() != p.max():
            if not M.ex_norm(a):
                return [[NONE]], False
            raise Refuse
        e = p.ravel()[0]
        if not np.isfinite(e) or np.iscomplexobj(e):
            raise Refuse if M.ex_norm(a) else Skip
        return [[M.ex_pow(a, M.as_frac(float(e)))]], not b
    if name in LOGEXP:
        if not one(a):
            raise Refuse
        return [[NONE]], not M.ex_norm(a)
    if name in ('logaddexp', 'logaddexp2'):
        for x in exs:
            if x is not None and not one(x):
                raise Refuse
        return [[NONE]], not any(M.ex_norm(x) for x in exs if x)
    if name in TRIG:
        if not one(a):
            raise Refuse
        return [[NONE]], M.ex_norm(a) == RAD
    if name in ARC:
        if not one(a):
            raise Refuse
        return [[RAD]], not M.ex_norm(a)
    if name == 'arctan2':
        if a is None or b is None:
            # zero or dimensionless with a plain number may be accepted
            identical_units(a, b, *vals)
            return [[NONE, RAD]], False
        if M.ex_norm(a) != M.ex_norm(b):
            raise Refuse
        return [[NONE, RAD]], True
    if name in ('radians', 'deg2rad'):
        if not (M.is_dimless(a) and M.factor(a) == DEGF):
            raise Refuse
        return [[RAD]], M.ex_norm(a) == DEG
    if name in ('degrees', 'rad2deg'):
        if not one(a):
            raise Refuse
        return [[DEG]], M.ex_norm(a) == RAD
    if name in PRED:
        return [['plain']], True
    if name == 'sign':
        return [[NONE, 'plain']], False
    if name == 'modf':
        return [[a], [a]], False
    if name == 'frexp':
        return [[a], [NONE, 'plain']], False
    if name == 'ldexp':
        if b is not None and M.ex_norm(b):
            raise Refuse
        return [[a or NONE]], False
    if name == 'copysign':
        return [[a or NONE]], False
    if name == 'heaviside':
        return [[b or NONE]], False
    if name in LOGICAL:
        return [[NONE, 'plain']], False
    if name in BITS:
        if any(M.ex_norm(x) for x in exs if x):
            raise Refuse
        return [[NONE, 'plain']], False
    raise Refuse


def pick_expr(rng, name):
    c = rng.random()
    if name in LOGEXP | ARC | {'logaddexp', 'logaddexp2'}:
        return rng.choice([{}, {}, {}, {'percent': 1}, {'radian': 1}, {'meter': 1}, {'meter': 1, 'kilometer': -1}, {'ppm': 1} if 'ppm' in M.BY_NAME else {'percent': 2},
                           {'hertz': 1, 'second': 1}, gen_expr(rng)])
    if name in TRIG | {'degrees', 'rad2deg', 'radians', 'deg2rad'}:
        return rng.choice([RAD, RAD, DEG, DEG, {}, {'percent': 1}, {'turn': 1}, {'arcminute': 1}, {'milliradian': 1}, {'steradian': 1} if 'steradian' in M.BY_NAME else RAD,
                           {'radian': 2}, {'radian': -1}, {'radian': 1, 'second': -1}, {'meter': 1}, {'arcdegree': 2}, {'gradian': 1} if 'gradian' in M.BY_NAME else DEG, gen_expr(rng)])
    if c < .15:
        return {}
    if c < .22:
        return rng.choice([RAD, DEG, {'percent': 1}])
    return gen_expr(rng, exps=ALL_EXPS if c > .8 else INT_EXPS)


def operand(rng, kind, ex, shape, dt, name):
    if kind == 'unit':
        u = pick_unit(rng)
        return uobj(u.name), np.array(1.0), {u.name: 1}
    hostile = rng.random() < .2
    pos = rng.random() < .5
    a = np.array(gen_array(rng, dt, shape, hostile=hostile, positive=pos))
    if name in ARC and a.dtype.kind == 'f' and rng.random() < .7:
        a = (a / 101).astype(a.dtype)
    if kind == 'plain':
        if rng.random() < .25:
            a = np.zeros_like(a)
        if a.ndim == 0:
            v = a.item()
            return v, a, None
        return a, a, None
    if kind == 'uq':
        a = a.astype('d')
        return UQ(a.copy(), as_units(ex), np.abs(np.where(np.isfinite(a), a, 1))), a, ex
    if kind == 'view' and a.ndim:
        return Quantity(np.repeat(a, 2, 0), as_units(ex))[::2], a, ex
    return Quantity(a.copy(), as_units(ex)), a, ex


def call_case(rng, mon, i):
    name = NAMES[i % len(NAMES)]
    uf = UFUNCS[name]
    dt = rng.choice('dddddfflhD' if name not in BITS | {'gcd', 'lcm'} else 'lllhBd')
    sh = some_shape(rng, [(3,), (3,), (2, 3), (), (1,), (0,), (2, 2)])
    if name in ('matmul', 'vecdot'):
        sh = rng.choice([(2, 2), (3, 3)])
    ex = pick_expr(rng, name)
    k1 = rng.choice(['q'] * 6 + ['view', 'uq', 'unit'])
    if uf.nin == 1:
        x, X, ex = operand(rng, k1, ex, sh, dt, name)
        args, bare, exs, kinds = [x], [X], [ex], (k1,)
        relation = 'u'
    else:
        c = rng.random()
        k2 = rng.choice(['q'] * 6 + ['view', 'uq', 'unit'])
        relation = 'same'
        ey = dict(ex)
        if c < .45:
            pass
        elif c < .6:
            ey, relation = gen_compatible(rng, ex), 'compatible'
        elif c < .72:
            ey, relation = gen_incompatible(rng, ex), 'incompatible'
        elif c < .8:
            ey, relation = {}, 'dimensionless'
        else:
            k2, relation = 'plain', 'plain'
        if name in ('power', 'float_power'):
            k2 = rng.choice(['plain', 'plain', 'plain', 'q'])
            ey = rng.choice([{}, {}, {}, {'meter': 1}, {'percent': 1}])
        s2 = bcast_shape(rng, sh) if name not in ('matmul', 'vecdot') else sh
        x, X, ex = operand(rng, k1, ex, sh, dt, name)
        y, Y, ey = operand(rng, k2, ey, s2, rng.choice(['d', dt]) if name not in BITS else dt, name)
        if name in ('power', 'float_power'):
            p = rng.choice([2, 3, 1, 0, -1, 0.5, -2, 1.5, 2.0])
            Y = np.full(s2, p)
            if np.prod(s2) > 1 and rng.random() < .4:
                Y = odd_exponents(rng, Y)
            y = (Y.item() if Y.ndim == 0 else Y.copy()) if k2 == 'plain' else Quantity(Y.copy(), as_units(ey))
            if k2 == 'plain':
                ey = None
        if rng.random() < .4 and name not in ('power', 'float_power'):
            x, X, ex, k1, y, Y, ey, k2 = y, Y, ey, k2, x, X, ex, k1
        elif rng.random() < .1:
            x, X, ex, k1, y, Y, ey, k2 = y, Y, ey, k2, x, X, ex, k1
        if not isinstance(x, Quantity) and not isinstance(y, Quantity):
            return
        args, bare, exs, kinds = [x, y], [X, Y], [ex, ey], (k1, k2)
        # numpy scalar promotion depends on python numbers staying python numbers
        bare = [b if isinstance(a, Quantity) else a for a, b in zip(args, bare)]
    ref, nerr = attempt(uf, *bare)
    try:
        want, canonical = rule(name, exs, bare)
        refuse = False
    except Skip:
        return
    except Refuse:
        refuse, want, canonical = True, None, False
    what = 'np.%s(%s)' % (name, ', '.join(short(a, 100) for a in args))
    w = Watch(*args)
    mode = rng.choice(['', '', '', 'out', 'outtuple']) if nerr is None and uf.nout == 1 and np.asarray(ref).dtype.kind in 'fcil' else ''
    kw = {}
    out = None
    if mode:
        out = Quantity(np.zeros(np.shape(ref), np.asarray(ref).dtype), as_units(gen_expr(rng)))
        kw = {'out': out if mode == 'out' else (out,)}
    got, err = attempt(uf, *args, **kw)
    w.verify(what)
    sig = (name, kinds, relation, tuple(np.asarray(b).dtype.char for b in bare), tuple(np.shape(b) for b in bare), mode, err is None, tuple(tuple(sorted(map(str, e.items()))) if e is not None else None for e in exs))
    if err is not None:
        if not refuse and canonical and name in SUPPORTED and nerr is None and 'unit' not in kinds:
            mon.fail('%s was refused: %r' % (what, err))
        mon.ev('refused', sig)
        return
    mon.check(not refuse, '%s must be refused but gave %s', what, short(got))
    mon.check(nerr is None, '%s gave %s where numpy itself raises %r', what, short(got), nerr)
    outs = got if uf.nout > 1 else (got,)
    refs = ref if uf.nout > 1 else (ref,)
    mon.check(len(outs) == len(refs), '%s returned %d results', what, len(outs))
    if mode:
        mon.check(got is out, '%s with out= returned another object', what)
    for o, r, ws in zip(outs, refs, want):
        if isinstance(o, Quantity):
            mon.check(not isinstance(o, UnitQuantity), '%s returned a unit object', what)
            ok = any(e != 'plain' and same_dims(o, e) for e in ws)
            mon.check(ok, '%s has units %s, the rule gives %s', what, dims(o), [e if e == 'plain' else M.show(e) for e in ws])
            v = mag(o)
            for u, e in o.dimensionality.items():
                mon.check(e != 0, '%s keeps a zero exponent', what)
        else:
            mon.check('plain' in ws or all(e == 'plain' or not M.ex_norm(e) for e in ws), '%s lost its units: %s', what, short(o))
            v = np.asarray(o)
        mon.check(v.dtype == np.asarray(r).dtype and identical(v, np.asarray(r)), '%s has value %s (%s), numpy gives %s (%s)', what, short(v), v.dtype, short(r), np.asarray(r).dtype)
    mon.ev(name, sig)


def inplace_out_case(rng, mon, i):
    """out= naming one of the operands, keyword dtype, where="""
    name = rng.choice(['add', 'subtract', 'multiply', 'divide', 'sqrt', 'square', 'negative', 'reciprocal', 'maximum', 'floor', 'power', 'absolute', 'arctan', 'sin', 'exp'])
    uf = UFUNCS[name]
    ex = {} if name in ('arctan', 'exp') else RAD if name == 'sin' else gen_expr(rng)
    A = np.array(gen_array(rng, 'd', some_shape(rng, [(3,), (2, 3), ()]), positive=True, nonzero=True))
    q = Quantity(A.copy(), as_units(ex))
    if uf.nin == 1:
        args, bare, exs = [q], [A], [ex]
    elif name == 'power':
        p = rng.choice([2, 3, .5, -1, 1])
        args, bare, exs = [q, p], [A, p], [ex, None]
    else:
        ey = ex if name in SAME else gen_expr(rng)
        B = np.array(gen_array(rng, 'd', A.shape, nonzero=True))
        args, bare, exs = [q, Quantity(B.copy(), as_units(ey))], [A, B], [ex, ey]
    want, _ = rule(name, exs, bare)
    ref = uf(*bare)
    mode = rng.choice(['self', 'other', 'where', 'dtype', 'plainout'])
    mem = mag(q).__array_interface__['data'][0]
    if mode == 'self':
        got = uf(*args, out=q)
        mon.check(got is q and mag(q).__array_interface__['data'][0] == mem, 'np.%s(out=self) moved', name)
    elif mode == 'other':
        got = uf(*args, out=args[-1] if isinstance(args[-1], Quantity) else q)
        mon.check(got is (args[-1] if isinstance(args[-1], Quantity) else q), 'np.%s(out=) returned another object', name)
    elif mode == 'where':
        m = np.array(np.resize([True, False, True], A.shape))
        out = Quantity(np.full(A.shape, 7.0), as_units(gen_expr(rng)))
        got = uf(*args, out=out, where=m)
        ref = np.where(m, ref, 7.0)
        mon.check(got is out, 'where')
    elif mode == 'dtype':
        got = uf(*args, dtype='d')
    else:
        out = np.zeros(A.shape)
        got = uf(*args, out=out)
        mon.check(identical(out, np.asarray(ref)), 'np.%s(out=array) stored %s, numpy %s', name, out, ref)
        mon.ev('out=array', (name, tuple(sorted(ex))))
        return
    mon.check(any(e != 'plain' and same_dims(got, e) for e in want[0]), 'np.%s [%s] on %s has units %s, the rule gives %s', name, mode, M.show(ex), dims(got), want[0])
    mon.check(identical(mag(got), np.asarray(ref)), 'np.%s [%s] has value %s, numpy %s', name, mode, mag(got), ref)
    mon.ev('out ' + mode, (name, tuple(sorted(ex)), A.shape))


METHODS = ['add.reduce', 'multiply.reduce', 'maximum.reduce', 'minimum.reduce', 'add.accumulate', 'multiply.accumulate', 'add.reduceat']


def method_case(rng, mon, i):
    """reduce, accumulate and reduceat bypass the unit rules (numpy passes no context): recorded as a known finding"""
    ex = gen_expr(rng, allow_empty=False)
    nm = METHODS[i % len(METHODS)]
    u, m = nm.split('.')
    f = getattr(UFUNCS[u], m)
    a = (np.array([2.0, 3.0, 4.0]),) + (([0, 1],) if m == 'reduceat' else ())
    q = Quantity(a[0].copy(), as_units(ex))
    w = Watch(q)
    got, err = attempt(f, q, *a[1:])
    w.verify(nm)
    if err is None:
        want = ex if u != 'multiply' else M.ex_pow(ex, 3) if m == 'reduce' else None
        if want is None or not isinstance(got, Quantity) or not same_dims(got, want):
            mon.finding('ufunc-methods', 'np.%s of 3 elements in %s gave %s' % (nm, M.show(ex), got))
        mon.check(identical(np.asarray(got), np.asarray(f(*a))), 'np.%s has value %s', nm, got)
    mon.ev('method', (nm, tuple(sorted(ex))))
    # outer is an ordinary call on a broadcast grid
    ey = gen_expr(rng)
    r = Quantity(np.array([5.0, 7.0]), as_units(ey))
    got = np.multiply.outer(q, r)
    mon.check(same_dims(got, M.ex_mul(ex, ey)) and np.array_equal(mag(got), np.multiply.outer(a[0], mag(r))), 'np.multiply.outer gave %s', got)


REQUIRED_OPS = tuple(sorted(SUPPORTED)) + ('refused', 'out self', 'out where')
FAMILIES = [Family('call', call_case, len(NAMES) * 300, len(NAMES) * 2500), Family('out', inplace_out_case, 800, 20000), Family('method', method_case, 28, 200)]
