"""C23: results do not depend on history or on other threads."""
import copy, os, pickle, zlib, gc, operator, random, sys, threading, time, select, struct, traceback, itertools, warnings
import numpy as np
from ..core import Family, Violation, Inconclusive
from .. import model as M
from ..lib import *
from quantities import umath, markup, unitquantity as U

PROP = 'C23'
RULE = ('an operation is drawn from a pool covering every part of the library; its reference outcome (value bytes, units, text, exception class and message) comes from a process forked for it alone from a pristine image. A history case '
        'performs operations in random order and repetition between disturbing ones, a thread case performs them in several threads on shared operands with delays injected at library lines and the smallest switch interval; every logged '
        'outcome must equal the reference, and the unit table must hold exactly what was defined; distinct by (kind, operation, position in the history or interleaving of threads at the injected yield points)')


# ------------------------------------------------------------------ outcomes

def text(o):
    try:
        return '%s|%r' % (o, o)
    except Exception as e:
        return 'unprintable %s %s' % (type(e).__name__, e)


def canon(o):
    """everything a client can see of a result"""
    if isinstance(o, (Quantity, Dimensionality)):
        return snap(o), text(o)
    if isinstance(o, np.ndarray):
        return snap(o)
    if isinstance(o, (np.generic, float, complex)):
        return type(o).__name__, repr(o)
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(canon(x) for x in o)
    return type(o).__name__, repr(o)


def outcome(f, args):
    try:
        return repr(canon(f(*args)))
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)


# ------------------------------------------------------------------ the pool of operations
# each entry: builder(rng) -> (function, arguments); the function only reads its arguments

def arr(rng, shape=None, dt=None):
    return gen_array(rng, dt or rng.choice(['d', 'd', 'd', 'f', 'l', 'D']), shape)


def q_of(rng, ex=None, shape=None, dt=None):
    ex = gen_expr(rng) if ex is None else ex
    return Quantity(arr(rng, shape, dt), as_units(ex))


def uq_of(rng, ex=None, shape=None):
    a = gen_array(rng, 'd', shape)
    return UQ(a, as_units(gen_expr(rng) if ex is None else ex), np.abs(gen_array(rng, 'd', a.shape)))


def other_expr(rng, ex):
    return gen_compatible(rng, ex) if rng.random() < .7 else gen_incompatible(rng, ex)


def op_rescale(rng):
    ex = gen_expr(rng)
    q, to = q_of(rng, ex), other_expr(rng, ex)
    form = rng.choice(['quantity', 'dim', 'string'])
    u = as_units(to, form, rng)
    return (lambda q, u: q.rescale(u)), (q, u)


BIN = [operator.add, operator.sub, operator.mul, operator.truediv, operator.mod, operator.floordiv, operator.eq, operator.ne, operator.lt, operator.ge]


def op_binary(rng):
    ex = gen_expr(rng)
    a = q_of(rng, ex)
    b = q_of(rng, other_expr(rng, ex), rng.choice([a.shape, ()]))
    if rng.random() < .15:
        b = rng.choice([2.5, 3, np.float64(1.5), None, 'm', [1, 2]])
    if rng.random() < .2:
        a = uobj(pick_unit(rng).name)
    if rng.random() < .5:
        a, b = b, a
    f = rng.choice(BIN)
    return f, (a, b)


def op_power(rng):
    return operator.pow, (q_of(rng, dt='d'), rng.choice([2, 3, -1, .5, 0, np.array([2.0, 2.0, 2.0]), 1.5, 'x', q_of(rng, {}, ())]))


UFUNCS = [np.add, np.subtract, np.multiply, np.divide, np.maximum, np.hypot, np.arctan2, np.less, np.equal, np.sqrt, np.square, np.negative, np.absolute, np.sin, np.exp, np.floor, np.isnan, np.sign, np.reciprocal, np.cbrt, np.log]


def op_ufunc(rng):
    f = rng.choice(UFUNCS)
    ex = gen_expr(rng) if rng.random() < .7 else {rng.choice(M.GROUPS[M.ZERO]).name: 1}
    a = q_of(rng, ex, dt='d')
    if f.nin == 1:
        return f, (a,)
    return f, (a, q_of(rng, other_expr(rng, ex), rng.choice([a.shape, ()]), 'd'))


def op_parse(rng):
    if rng.random() < .35:
        s = rng.choice(['nosuchunit', 'm+', 'm**', '2*m', 'm*nothing', 'm.m', 'f(x)', 'm[0]', 'm if s else kg', '', '%', 'in', 'kg**m', '(m', 'm^2', 'm·s', 'm.s', 'J/kg.K', '1/0', 'm/0', '__import__', 'lambda: m'])
    else:
        s = as_units(gen_expr(rng), 'string', rng)
        if rng.random() < .5:
            s = s.replace('**', '^')
    return rng.choice([lambda s: Quantity(2.5, s), lambda s: unit_registry[s], lambda s: Quantity([1, 2], s).dimensionality, lambda s: pq.CompoundUnit(s)]), (s,)


def op_construct(rng):
    ex = gen_expr(rng)
    data = rng.choice([arr(rng), 3, 2.5, [1, 2, 3], [[1.5], [2.5]], q_of(rng, other_expr(rng, ex)), uobj(pick_unit(rng).name), 'abc', None])
    u = rng.choice([as_units(ex), as_units(ex, 'string', rng), as_units(ex, 'dim'), 3.0, None, 2 * as_units(ex)])
    cls = rng.choice([Quantity, Quantity, UQ])
    return (lambda d, u: cls(d, u)), (data, u)


def op_format(rng):
    q = q_of(rng) if rng.random() < .7 else uq_of(rng)
    return rng.choice([str, repr, lambda q: q.dimensionality.latex, lambda q: q.dimensionality.html, lambda q: q.dimensionality.unicode, lambda q: q.dimensionality.string, lambda q: format(q.dimensionality.string, '>20'),
                       lambda q: [str(u) for u in q.dimensionality], lambda q: [repr(u) for u in q.dimensionality]]), (q,)


def op_pickle(rng):
    o = rng.choice([q_of(rng), uq_of(rng), as_units(gen_expr(rng), 'dim'), uobj(pick_unit(rng).name)])
    p = rng.randrange(2, 6)
    return (lambda o: pickle.loads(pickle.dumps(o, p))), (o,)


def op_simplify(rng):
    o = rng.choice([q_of(rng), uq_of(rng), uobj(pick_unit(rng).name), as_units(gen_expr(rng), 'dim'), constants()[rng.choice(sorted(constants()))]])
    return (lambda o: o.simplified), (o,)


def op_uncertain(rng):
    ex = gen_expr(rng)
    a = uq_of(rng, ex)
    b = rng.choice([uq_of(rng, other_expr(rng, ex), a.shape), q_of(rng, other_expr(rng, ex), (), 'd'), 2.0])
    f = rng.choice([operator.add, operator.sub, operator.mul, operator.truediv, lambda a, b: a ** 2, lambda a, b: a.rescale(getattr(b, 'units', 'm')), lambda a, b: a.relative_uncertainty, lambda a, b: -a,
                    lambda a, b: a.mean(), lambda a, b: a.sum(), lambda a, b: (a.nominal_value if hasattr(a, 'nominal_value') else a.magnitude, a.uncertainty)])
    return f, (a, b)


UM = ['sin', 'cos', 'tan', 'arcsin', 'arctan', 'exp', 'diff', 'cumsum', 'cumprod', 'sum', 'prod', 'ediff1d', 'unwrap', 'nansum', 'gradient', 'trapz', 'around', 'floor', 'ceil', 'fix', 'log', 'expm1']
UM = [n for n in UM if hasattr(umath, n)]


def op_umath(rng):
    n = rng.choice(UM)
    ex = gen_expr(rng) if rng.random() < .5 else {rng.choice(M.GROUPS[M.ZERO]).name: 1}
    return (lambda q: getattr(pq, n)(q)), (q_of(rng, ex, (4,), 'd'),)


def op_reduce(rng):
    n = rng.choice(['sum', 'mean', 'std', 'var', 'min', 'max', 'prod', 'argmax', 'cumsum', 'trace', 'ptp', 'round', 'nonzero', 'argsort', 'nanmax', 'any'])
    q = q_of(rng, shape=rng.choice([(3,), (2, 3), (4,)]), dt='d')
    if rng.random() < .15:
        q = q * rng.choice([0, 0, np.nan])
    if hasattr(q, n):
        return (lambda q: getattr(q, n)()), (q,)
    return (lambda q: getattr(np, n)(q)), (q,)


def op_index(rng):
    q = q_of(rng, shape=(2, 3))
    v = q_of(rng, other_expr(rng, fdims(q)), (), 'd')

    def put(q, v):
        c = q.copy()
        c[0] = v
        return c
    return rng.choice([lambda q, v: q[0], lambda q, v: q[:, 1], lambda q, v: q.T, lambda q, v: q.reshape(3, 2), lambda q, v: list(q), lambda q, v: q[5], put, put, lambda q, v: q.tolist()]), (q, v)


def op_inplace(rng):
    ex = gen_expr(rng)
    q = q_of(rng, ex, dt='d')
    o = rng.choice([q_of(rng, other_expr(rng, ex), (), 'd'), 2.0])
    g = rng.choice([operator.iadd, operator.isub, operator.imul, operator.itruediv])

    def f(q, o):
        c = q.copy()
        r = g(c, o)
        return r, c
    if rng.random() < .2:
        def f(q, o):
            c = q.copy()
            c.units = o.units if hasattr(o, 'units') else 'm'
            return c
    return f, (q, o)


def op_dim(rng):
    a, b = as_units(gen_expr(rng), 'dim'), as_units(gen_expr(rng), 'dim')
    return rng.choice([operator.mul, operator.truediv, operator.add, operator.eq, operator.ne, lambda a, b: a ** 2, lambda a, b: a.simplified, lambda a, b: a.ndims, lambda a, b: a.copy(), lambda a, b: (a * b) / b]), (a, b)


def op_constant(rng):
    c = constants()[rng.choice(sorted(constants()))]
    return rng.choice([lambda c: (1.0 * c).simplified, lambda c: str(c), lambda c: repr(2 * c), lambda c: c.definition, lambda c: c * c, lambda c: (3 * c).rescale('m')]), (c,)


def op_user(rng):
    n0 = 'q23u%d' % rng.randrange(10 ** 9)
    base = uobj(pick_unit(rng).name)
    k = rng.choice([2.0, 12.0, .25])
    x = q_of(rng, {base.name: 1}, dt='d')

    def f(base, x):
        n = n0 + '_%d' % zlib.crc32(base.name.encode())
        u = pq.UnitQuantity(n, k * base, symbol=n + 's', aliases=[n + 'x'])
        return x.rescale(u), (3 * u).simplified, str(2 * u / pq.s), Quantity(1, n + 's'), unit_registry[n + 'x'], pickle.loads(pickle.dumps(2 * u))
    return f, (base, x)


def op_refused_definition(rng):
    lab = rng.choice([l for l in ('m', 'kg', 'foot', 'J', 'mile', 'degC', 'hour')])
    n = 'q23r%d' % rng.randrange(10 ** 9)

    def f():
        try:
            pq.UnitQuantity(n, 77.5 * pq.K ** 5, symbol=lab)
        except Exception as e:
            a = type(e).__name__, str(e)
        else:
            a = 'accepted'
        return a, unit_registry[lab], outcome(lambda: unit_registry[n], ())
    return f, ()


def op_compound(rng):
    s = rng.choice(['m**2/s', 'kg*m', 'pc/cm**3', 'V/h', 'N*m', 'km/h'])
    x = rng.choice([2.0, np.arange(3.0)])
    to = as_units(gen_expr(rng))

    def f(x, to):
        c = pq.CompoundUnit(s)
        q = x * c
        return q * q / c, str(q), q.simplified, outcome(lambda: q.rescale(to), ()), pickle.loads(pickle.dumps(q)), c == pq.CompoundUnit(s)
    return f, (x, to)


def op_numpy(rng):
    ex = gen_expr(rng)
    q = q_of(rng, ex, (4,), 'd')
    v = q_of(rng, other_expr(rng, ex), (), 'd')
    return rng.choice([lambda q, v: np.clip(q, v, 2 * abs(v)), lambda q, v: q.searchsorted(v), lambda q, v: np.sort(q), lambda q, v: np.dot(q, q), lambda q, v: np.linspace(v, 2 * v, 3), lambda q, v: q.fill(v) or 1,
                       lambda q, v: q.dot(q), lambda q, v: np.nanmean(q), lambda q, v: q.repeat(2), lambda q, v: q.take([0, 1]), lambda q, v: q.compress([True, False, True, True])][:5] + [lambda q, v: q.dot(q), lambda q, v: q.take([0, 1])]), (q, v)


def op_copy(rng):
    o = rng.choice([q_of(rng), uq_of(rng), as_units(gen_expr(rng), 'dim')])
    return rng.choice([copy.copy, copy.deepcopy, lambda o: o.copy()]), (o,)


def op_dimless(rng):
    g = rng.choice([x for x in M.GROUPS.values() if len(x) > 2])
    a, b = rng.sample(g, 2)
    ex = {a.name: 1, b.name: -1} if rng.random() < .7 else {a.name: 1}
    return (lambda q: q.dimensionless_magnitude), (q_of(rng, ex, dt='d'),)


def op_preferred(rng):
    return (lambda q: q.rescale_preferred()), (q_of(rng),)


def op_attr(rng):
    return rng.choice([lambda q: q.units, lambda q: q.magnitude, lambda q: q.dimensionality, lambda q: q._reference, lambda q: q.real, lambda q: q.imag, lambda q: q.astype('f'), lambda q: q.ndim, lambda q: float(q), lambda q: bool(q), lambda q: hash(q)]), (q_of(rng),)


# every function and method of the library, in the forms its arguments allow
CALLS = [('pq.' + n, getattr(umath, n)) for n in sorted(dir(umath)) if n[0] != '_' and callable(getattr(umath, n)) and not isinstance(getattr(umath, n), type) and n not in ('with_doc', 'unit_registry') and not isinstance(getattr(umath, n), Quantity)]
_NOT = {'fill', 'put', 'itemset', 'setfield', 'setflags', 'sort', 'partition', 'resize', 'byteswap', 'tofile', 'dump', 'set_default_unit', 'dumps', 'to_device', 'tostring'}
CALLS += [('method ' + n, (lambda n: lambda *a: getattr(a[0], n)(*a[1:]))(n)) for n in sorted(set(dir(UQ)) | set(dir(Quantity))) if n[0] != '_' and n not in _NOT]
CALLS += [('method ' + n, (lambda n: lambda *a: getattr(a[0], n)(*a[1:]) if callable(getattr(a[0], n)) else getattr(a[0], n))(n)) for n in ('magnitude', 'units', 'dimensionality', 'simplified', 'uncertainty', 'relative_uncertainty', 'dimensionless_magnitude', 'real', 'imag', 'T', '_reference')]


def call_args(rng, k):
    sh = rng.choice([(3,), (4,), (2, 3), (3, 3), ()])
    ex = rng.choice([{}, {rng.choice(['radian', 'arcdegree', 'arcminute']): 1}, {'percent': 1}, gen_expr(rng), gen_expr(rng)])
    out = [q_of(rng, ex, sh, 'd')] if rng.random() < .75 else [uq_of(rng, ex, sh)]
    while len(out) < k:
        out.append(q_of(rng, ex if rng.random() < .5 else other_expr(rng, ex), rng.choice([sh, ()]), 'd') if rng.random() < .8 else rng.choice([0, 1, 2.5]))
    return tuple(out)


def op_call(rng):
    n, f = rng.choice(CALLS)
    return f, call_args(rng, rng.choice(arities(n)))


def arities(n):
    """how many arguments are no output arrays"""
    return {'pq.arctan2': [2], 'pq.hypot': [2], 'pq.cross': [2], 'pq.trapz': [1, 2, 2, 3], 'pq.gradient': [1, 2, 2, 3], 'pq.ediff1d': [1, 2, 3], 'pq.unwrap': [1, 2], 'method clip': [2, 3], 'method searchsorted': [2], 'method dot': [2], 'method rescale': [1, 2]}.get(n, [1])


POOL = {k[3:]: v for k, v in list(globals().items()) if k.startswith('op_')}
KINDS = sorted(POOL)


def build(seed):
    """(kind, function, arguments) of one operation; 'seed~n' is a sibling: the same operation on arguments which agree
    with those of 'seed' in most respects"""
    seed, _, var = seed.partition('~')
    if seed.startswith('corner'):
        return build_corner(seed, var)
    rng = random.Random('C23-op-%s' % seed)
    kind = rng.choice(KINDS)
    f, args = POOL[kind](rng)
    if var:
        vr = random.Random('C23-sibling-%s~%s' % (seed, var))
        k = vr.randrange(len(args)) if args else 0
        args = tuple(sibling(vr, a) if j == k or vr.random() < .3 else a for j, a in enumerate(args))
    return kind, f, args


CORNERS = ['zero', 'nan', 'empty', 'ones', 'first', 'negative', 'mixed']


def build_corner(seed, var):
    """one function of the library on arrays of which most results are special"""
    _, k, n = seed.split('-')
    name, f = CALLS[int(k)]
    rng = random.Random('C23-' + seed)
    args = call_args(rng, rng.choice(arities(name)))

    def corner(a):
        if not isinstance(a, Quantity) or isinstance(a, UnitQuantity):
            return a
        m = np.array(a.magnitude)
        if var == 'zero':
            m = m * 0
        elif var == 'nan':
            m = m * np.nan
        elif var == 'ones':
            m = np.ones_like(m)
        elif var == 'negative':
            m = -abs(m)
        elif var == 'mixed' and m.size:
            m.reshape(-1)[::2] = 0
        elif var == 'empty' and m.ndim:
            m = m[:0]
        elif var == 'first' and m.ndim:
            m = m[:1]
        if isinstance(a, UQ):
            return UQ(m, a.dimensionality, np.abs(m) * .1)
        return Quantity(m, a.dimensionality)
    if var:
        args = tuple(corner(a) for a in args)
    return name, f, args


def sibling_units(rng, d):
    """units like those of the dimensionality d"""
    items = list(d.items())
    c = rng.random()
    if c < .2:
        new = [(u, 2 * e) for u, e in items]
    elif c < .3:
        new = [(u, -e) for u, e in items]
    elif c < .45:
        new = [(u, rng.choice([e + 1, e - 1, e + .5, e * 2]) if j == 0 else e) for j, (u, e) in enumerate(items)]
    elif c < .6 and len(items) > 1:
        es = [e for _, e in items]
        new = [(u, e) for (u, _), e in zip(items, es[1:] + es[:1])]
    elif c < .9:
        new = []
        for j, (u, e) in enumerate(items):
            r = M.BY_NAME.get(u.name)
            g = [x for x in M.GROUPS.get(r.dim, ())] if r is not None else []
            new.append((uobj(rng.choice(g).name) if len(g) > 1 else u, e))
    else:
        new = items[::-1]
    q = 1 * pq.dimensionless
    for u, e in new:
        if e:
            q = q * u ** e
    return q.dimensionality


def sibling_array(rng, m):
    """an array which agrees with m in all but one respect"""
    m = np.array(m)
    c = rng.random()
    if c < .35 and m.size:
        f = m.reshape(-1)
        k = rng.randrange(m.size)
        f[k] = rng.choice([0, 1, 2, 5]) if f[k] not in (0, 1, 2, 5) else 3
        return f.reshape(m.shape)
    if c < .5:
        return m[::-1].copy() if m.ndim else -m if m.dtype.kind in 'fc' else m + m.dtype.type(1)
    if c < .65:
        return m.astype(rng.choice(['d', 'f', 'D', 'l']) if m.dtype.kind != 'c' else 'F')
    if c < .8:
        return np.concatenate([m, m]) if m.ndim else m.reshape(1)
    if c < .9 and m.dtype.kind in 'fc':
        return m * 1e8
    return np.asfortranarray(m)


def sibling(rng, a):
    if isinstance(a, UQ):
        return UQ(np.array(a.magnitude), sibling_units(rng, a.dimensionality), np.array(a.uncertainty.magnitude)) if rng.random() < .5 else UQ(np.array(a.magnitude), a.dimensionality, 2 * np.array(a.uncertainty.magnitude))
    if isinstance(a, UnitQuantity):
        g = [x for x in M.ORD if x.name == a.name]
        return uobj(rng.choice(M.GROUPS[g[0].dim] if g else M.ORD).name)
    if isinstance(a, Quantity):
        d = sibling_units(rng, a.dimensionality) if rng.random() < .65 else a.dimensionality
        m = np.array(a.magnitude)
        return Quantity(sibling_array(rng, m) if rng.random() < .5 else m, d)
    if isinstance(a, Dimensionality):
        return sibling_units(rng, a)
    if isinstance(a, np.ndarray):
        return sibling_array(rng, a)
    if isinstance(a, str):
        return rng.choice([a.upper(), a + ' ', a.replace('*', '/', 1), a.replace('2', '3'), a + '*m', ' ' + a, a.replace('m', 'k')])
    if isinstance(a, bool) or a is None:
        return a
    if isinstance(a, (int, float)):
        return rng.choice([float(a), -a, a + 1, np.float64(a)] + ([True, np.int64(1)] if a == 1 else []))
    return a


# ------------------------------------------------------------------ pristine reference outcomes

class Zygote:
    """a process that never performs an operation itself: every reference outcome comes from a child of its own"""

    def __init__(self):
        self.rq, w1 = os.pipe()
        r2, self.wa = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                self.serve()
            finally:
                os._exit(0)
        os.close(self.rq)
        os.close(self.wa)
        self.w, self.r = w1, r2

    @staticmethod
    def read(fd, n):
        b = b''
        while len(b) < n:
            x = os.read(fd, n - len(b))
            if not x:
                raise EOFError
            b += x
        return b

    @classmethod
    def recv(cls, fd):
        n, = struct.unpack('<I', cls.read(fd, 4))
        return pickle.loads(cls.read(fd, n))

    @staticmethod
    def send(fd, o):
        b = pickle.dumps(o)
        b = struct.pack('<I', len(b)) + b
        while b:
            b = b[os.write(fd, b):]

    def serve(self):
        warnings.simplefilter('ignore')
        while True:
            try:
                seed = self.recv(self.rq)
            except EOFError:
                return
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    kind, f, args = build(seed)
                    before = [snap(a) for a in args]
                    out = outcome(f, args)
                    self.send(w, (kind, out, [snap(a) for a in args] == before))
                except BaseException:
                    self.send(w, ('error', traceback.format_exc(), True))
                finally:
                    os._exit(0)
            os.close(w)
            try:
                ans = self.recv(r)
            except EOFError:
                ans = ('error', 'the operation ended its process', True)
            os.close(r)
            os.waitpid(pid, 0)
            self.send(self.wa, ans)

    def ask(self, seed):
        self.send(self.w, seed)
        return self.recv(self.r)

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)


ZYG = [None]
TABLE = [None]


def setup(mon):
    ZYG[0] = Zygote()
    TABLE[0] = catalogue_fingerprint(deep=True)
    sys.monitoring.use_tool_id(TOOL, 'qmon-delay')
    sys.monitoring.register_callback(TOOL, sys.monitoring.events.LINE, on_line)


def cleanup():
    if ZYG[0] is not None:
        ZYG[0].close()
        ZYG[0] = None
    try:
        sys.monitoring.free_tool_id(TOOL)
    except ValueError:
        pass


def finish(mon):
    d = diff_fp(TABLE[0], catalogue_fingerprint(deep=True))
    mon.check(not d, 'the unit table changed over the histories: %s', d)


def reference(mon, seed):
    kind, out, pure = ZYG[0].ask(seed)
    mon.check(kind != 'error', 'operation %s: %s', seed, out)
    mon.check(pure, 'operation %s (%s) changed its arguments', seed, kind)
    mon.extra['reference processes'] += 1
    return kind, out


# ------------------------------------------------------------------ histories

def disturb(rng, mon, i):
    """something that must not matter afterwards"""
    k = rng.choice(['defaults', 'unicode', 'preferred', 'define', 'refused', 'copy units', 'gc', 'errstate', 'fail', 'mutate', 'default refused', 'currency', 'pickle units', 'parse garbage', 'print', 'registry'])
    if k == 'defaults':
        kw = rng.choice([{'length': 'mm'}, {'system': 'cgs'}, {'mass': 'pound', 'time': 'h'}, {'information': 'byte', 'current': 'uA'}])
        pq.set_default_units(**kw)
        q_of(rng).simplified
        attempt(lambda: q_of(rng) + q_of(rng))
        pq.set_default_units('SI', information='bit')
    elif k == 'unicode':
        markup.config.use_unicode = True
        str(q_of(rng)), repr(uobj(pick_unit(rng).name))
        markup.config.use_unicode = False
    elif k == 'preferred':
        pq.quantity.PREFERRED = [uobj(pick_unit(rng).name) for _ in range(3)]
        attempt(q_of(rng).rescale_preferred)
        pq.quantity.PREFERRED = []
    elif k == 'define':
        n = 'q23d%d_%d_%d' % (os.getpid(), i, rng.randrange(10 ** 9))
        pq.UnitQuantity(n, rng.choice([2, .5]) * uobj(pick_unit(rng).name), symbol=n + 's')
        pq.UnitLength(n + 'l', 3 * pq.m)
    elif k == 'refused':
        attempt(lambda: pq.UnitQuantity('m', 5 * pq.s))
        attempt(lambda: unit_registry.__setitem__('kg', 5 * pq.s))
    elif k == 'default refused':
        attempt(lambda: pq.set_default_units(length='kg'))
        attempt(lambda: pq.set_default_units('nosystem'))
        attempt(lambda: U.UnitTime.set_default_unit(pq.m))
    elif k == 'copy units':
        o = uobj(pick_unit(rng).name)
        copy.copy(o), copy.deepcopy(o), o.copy()
    elif k == 'pickle units':
        pickle.loads(pickle.dumps([uobj(pick_unit(rng).name), q_of(rng), pq.c]))
    elif k == 'gc':
        gc.collect(rng.randrange(3))
    elif k == 'errstate':
        with np.errstate(all='raise'):
            attempt(lambda: q_of(rng, dt='d') / Quantity(0.0, 's'))
            attempt(lambda: np.sqrt(q_of(rng, dt='d')))
    elif k == 'fail':
        for f in (lambda: q_of(rng) + Quantity(1, as_units(gen_incompatible(rng, {'meter': 1}))), lambda: Quantity(1, 'nope'), lambda: q_of(rng) ** pq.m, lambda: np.exp(3 * pq.m), lambda: (3 * pq.m).rescale('s'),
                  lambda: np.add(3 * pq.m, 4 * pq.s), lambda: pq.UnitQuantity(3), lambda: pq.m.__setattr__('units', 's'), lambda: pq.m.__iadd__(3), lambda: Quantity([1, 2], 'm') + Quantity([1, 2, 3], 'm')):
            attempt(f)
    elif k == 'mutate':
        q = q_of(rng, {'meter': 1}, (3,), 'd')
        q *= 2
        q /= pq.s
        q[0] = q[1]
        attempt(lambda: q.__setitem__(0, 3 * pq.kg))
        q.units = 'km/h'
        d = q.dimensionality
        d.pop(pq.km, None)
        d[pq.kg] = 3
        u = (3 * pq.J).units
        u *= 5
        attempt(lambda: pq.J.dimensionality.clear())
        attempt(lambda: pq.m.simplified.fill(7))
        attempt(lambda: pq.foot.definition.fill(7))
    elif k == 'currency':
        x = pq.UnitCurrency('q23cur%d_%d_%d' % (os.getpid(), i, rng.randrange(10 ** 9)))
        attempt(lambda: (3 * x).simplified)
    elif k == 'parse garbage':
        for s in ('m**', 'zz', 'm()', '1j*m', 'm if 1 else s', 'm==s', 'a.b.c', '\x00', 'm\n', 'lambda:0'):
            attempt(lambda: unit_registry[s])
    elif k == 'print':
        for o in (q_of(rng), uq_of(rng)):
            str(o), repr(o), o.dimensionality.latex, o.dimensionality.html, o.dimensionality.unicode
    else:
        r = attempt(lambda: unit_registry['UnitQuantity'])
        pq.unit_registry['dimensionless'] if hasattr(pq, 'unit_registry') else None
    return k


def history_case(rng, mon, i):
    seeds = ['h%d-%d' % (rng.randrange(10 ** 9), j) for j in range(rng.choice([6, 10, 14]))]
    family(rng, mon, i, seeds, True)


def sibling_case(rng, mon, i):
    """one operation and its siblings: nothing remembered from one may be used for another"""
    b = ['s%d-%d' % (rng.randrange(10 ** 9), j) for j in range(2)]
    family(rng, mon, i, [b[0]] + ['%s~%d' % (b[0], j) for j in range(5)] + [b[1]] + ['%s~%d' % (b[1], j) for j in range(3)], False, 'sibling ')


def corner_case(rng, mon, i):
    """every function once on ordinary arguments and on arrays of zeros, NaN, nothing, ..."""
    b = 'corner-%d-%d' % (i % len(CALLS), rng.randrange(10 ** 9))
    family(rng, mon, i, [b] + [b + '~' + v for v in CORNERS], False, 'corner ')


def family(rng, mon, i, seeds, disturbed, tag='history '):
    ref = {s: reference(mon, s) for s in seeds}
    built = {}
    order = [s for s in seeds for _ in range(3 if disturbed else 2)]
    rng.shuffle(order)
    done = []
    for s in order:
        if disturbed and rng.random() < .5:
            done.append('!' + disturb(rng, mon, i))
        fresh = s not in built or rng.random() < .4
        if fresh:
            built[s] = build(s)
        kind, f, args = built[s]
        w = [snap(a) for a in args]
        out = outcome(f, args)
        mon.check(out == ref[s][1], 'operation %s (%s) gives %s in a fresh process but %s after %s', s, kind, ref[s][1][:600], out[:600], done[-12:])
        mon.check([snap(a) for a in args] == w, 'operation %s (%s) changed its arguments', s, kind)
        prev = done[-1] if done else None
        done.append(kind)
        mon.ev(tag + kind, (s, prev, fresh), (prev, kind, out[:100]))
    # a warmed-up process may change nothing of the references either: the configuration is what it was
    mon.check(pq.quantity.PREFERRED == [] and markup.config.use_unicode is False, 'the configuration changed')
    for c, n in ((U.UnitLength, 'meter'), (U.UnitMass, 'kilogram'), (U.UnitTime, 'second'), (U.UnitCurrent, 'ampere'), (U.UnitInformation, 'bit')):
        mon.check(c.get_default_unit().name == n, 'default unit of %s became %s', c.__name__, c.get_default_unit())


# ------------------------------------------------------------------ threads

TOOL = 5
ROOT = os.path.realpath(os.path.dirname(pq.__file__)) + os.sep
LIVE = {'on': False, 'tick': itertools.count(), 'pattern': b'', 'log': []}


def on_line(code, line):
    if not code.co_filename.startswith(ROOT):
        return sys.monitoring.DISABLE
    if not LIVE['on']:
        return
    k = LIVE['pattern'][next(LIVE['tick']) & 4095]
    if k:
        LIVE['log'].append((threading.get_ident(), code.co_name, line))
        time.sleep(0 if k == 1 else 2e-5)


class Threads:
    """run functions in threads with forced switching and injected delays at library lines"""

    def __init__(self, rng, mon):
        self.rng, self.mon = rng, mon

    def run(self, fns, ps=(.02, .05, .15)):
        rng = self.rng
        p = rng.choice(ps)
        LIVE['pattern'] = bytes((0 if rng.random() > p else 2 if rng.random() < .1 else 1) for _ in range(4096))
        LIVE['log'] = []
        LIVE['tick'] = itertools.count(rng.randrange(4096))
        errs = []
        start = threading.Barrier(len(fns))

        def go(f):
            try:
                start.wait(30)
                f()
            except BaseException:
                errs.append(traceback.format_exc())
        ts = [threading.Thread(target=go, args=(f,), daemon=True) for f in fns]
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        sys.monitoring.set_events(TOOL, sys.monitoring.events.LINE)
        sys.monitoring.restart_events()
        LIVE['on'] = True
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join(60)
        finally:
            LIVE['on'] = False
            sys.monitoring.set_events(TOOL, 0)
            sys.setswitchinterval(old)
        self.mon.check(not any(t.is_alive() for t in ts), 'threads did not finish: deadlock')
        self.mon.check(not errs, 'a thread ended with %s', errs[:1])
        log = LIVE['log']
        ids = {}
        sched = tuple(ids.setdefault(t, len(ids)) for t, _, _ in log)
        sw = sum(1 for a, b in zip(sched, sched[1:]) if a != b)
        self.mon.extra['yield points hit'] += len(log)
        self.mon.extra['thread switches observed'] += sw
        self.mon.ev('interleaving', hash((sched, tuple((c, l) for _, c, l in log))), 'threads at yield points: %s' % (sched[:60],))
        return sw


def thread_case(rng, mon, i):
    n = rng.choice([2, 3, 4, 6])
    seeds = ['t%d-%d' % (rng.randrange(10 ** 9), j) for j in range(rng.choice([5, 8]))]
    ref = {s: reference(mon, s) for s in seeds}
    shared = {s: build(s) for s in seeds}
    before = {s: [snap(a) for a in shared[s][2]] for s in seeds}
    logs = [[] for _ in range(n)]

    def body(k):
        r = random.Random('%s-%s' % (i, k))
        mine = [s for s in seeds for _ in range(2)]
        r.shuffle(mine)

        def f():
            for s in mine:
                kind, g, args = shared[s] if r.random() < .6 else build(s)
                logs[k].append((s, kind, outcome(g, args)))
        return f
    Threads(rng, mon).run([body(k) for k in range(n)])
    for k, log in enumerate(logs):
        mon.check(len(log) == 2 * len(seeds), 'thread %d performed %d operations', k, len(log))
        for s, kind, out in log:
            mon.check(out == ref[s][1], 'operation %s (%s) gives %s alone but %s in one of %d threads', s, kind, ref[s][1][:600], out[:600], n)
            mon.ev('thread ' + kind, (s, k), out[:80])
    for s in seeds:
        mon.check([snap(a) for a in shared[s][2]] == before[s], 'operation %s (%s) changed arguments shared by threads', s, shared[s][0])


def define_case(rng, mon, i):
    """unrelated definitions and lookups from several threads"""
    n = rng.choice([2, 3, 5])
    tag = 'q23t%d' % i
    logs = [[] for _ in range(n)]
    bases = [uobj(pick_unit(rng).name) for _ in range(n)]

    def body(k):
        r = random.Random('%s-d-%s' % (i, k))

        def f():
            for j in range(3):
                name = '%s_%d_%d' % (tag, k, j)
                fac = float(r.randint(2, 50))
                cls = r.choice([pq.UnitQuantity, pq.UnitQuantity, pq.UnitCurrency])
                if cls is pq.UnitCurrency:
                    u = cls(name, symbol=name + 's', aliases=[name + 'x', name + 'y'])
                    fac = None
                else:
                    u = cls(name, fac * bases[k], symbol=name + 's', aliases=[name + 'x', name + 'y'])
                back = unit_registry[name + 's']
                q = Quantity(3.0, name + 'y/s')
                x = float(q.rescale(bases[k] / pq.s).magnitude) if fac else None
                logs[k].append((name, u, fac, back is u, dims(q), x, str(u.dimensionality), outcome(lambda: unit_registry['m/s'], ())))
        return f
    want = outcome(lambda: unit_registry['m/s'], ())
    Threads(rng, mon).run([body(k) for k in range(n)])
    us = []
    for k, log in enumerate(logs):
        mon.check(len(log) == 3, 'thread %d defined %d units', k, len(log))
        for name, u, fac, same, d, x, s, mps in log:
            mon.check(same and d == {name: 1, 'second': -1} and s == name + 's' and mps == want, 'unit %s defined in thread %d: lookup %s, units %s, rendered %s', name, k, same, d, s)
            if fac:
                mon.check(abs(x / (3 * fac) - 1) < 1e-12, '3 %s/s is %r of its definition, expected %r', name, x, 3 * fac)
            for lab in (name, name + 's', name + 'x', name + 'y'):
                got, err = attempt(lambda: unit_registry[lab])
                mon.check(got is u, 'registration of %r from a thread was lost: %r', lab, got if err is None else err)
            us.append(u)
    for _ in range(40):
        a, b = rng.sample(us, 2)
        mon.check(str((a * b).dimensionality) == str((b * a).dimensionality), '%s and %s, defined in different threads, render as %s and %s', a.name, b.name, (a * b).dimensionality, (b * a).dimensionality)
    fo = [tuple(u.format_order) for u in us if type(u) is pq.UnitQuantity]
    mon.ev('definitions', (n, tuple(type(u).__name__ for u in us)), [u.name for u in us][:4])


def conflict_case(rng, mon, i):
    """several threads define the same labels differently: exactly one definition stands"""
    n = rng.choice([2, 3, 4])
    tag = 'q23x%d' % i
    res = [None] * n
    k0 = rng.sample(range(2, 60), n)
    same = rng.random() < .25
    base = rng.choice([pq.m, pq.s, pq.J])

    def body(k):
        def f():
            fac = k0[0] if same else k0[k]
            try:
                res[k] = pq.UnitQuantity(tag, float(fac) * base, symbol=tag + 's', aliases=[tag + 'x'] + ([] if same else ['%sown%d' % (tag, k)]))
            except KeyError as e:
                res[k] = e
        return f
    Threads(rng, mon).run([body(k) for k in range(n)], (.1, .3, .6))
    ok = [k for k in range(n) if isinstance(res[k], UnitQuantity)]
    fin = unit_registry[tag]
    if same:
        mon.check(len(ok) == n, 'the same definition from %d threads: %s', n, res)
    else:
        mon.check(len(ok) == 1, '%d of %d conflicting definitions of %s were accepted', len(ok), n, tag)
    for lab in (tag, tag + 's', tag + 'x'):
        got = unit_registry[lab]
        mon.check(float((1.0 * got).rescale(base)) == k0[0 if same else ok[0]], '%s is %r, %s was accepted', lab, got.definition, res[ok[0]].definition)
    if not same:
        for k in range(n):
            got, err = attempt(lambda: unit_registry['%sown%d' % (tag, k)])
            mon.check((err is None) == (k in ok), 'label of definition %d: %r', k, got)
    mon.ev('conflicts', (n, same, ok), str(fin.definition))


def settings_case(rng, mon, i):
    """one thread changes the settings (unicode display, default units, preferred units) while others use the library"""
    n = rng.choice([2, 3, 4])
    us = [rng.choice(['meter', 'second', 'kilogram', 'joule', 'volt', 'Kelvin', 'foot', 'hour']) for _ in range(rng.choice([1, 2, 3]))]
    ex = {u: rng.choice([1, 2, -1, -2, 3]) for u in us}
    ex = {u: e for u, e in ex.items() if uobj(u).symbol == uobj(u).u_symbol}
    if not ex:
        return
    d = as_units(ex).dimensionality
    to = gen_compatible(rng, ex)
    if not 1e-9 < M.ratio(ex, to) < 1e9:
        return
    f = M.fl(M.ratio(ex, to))
    a = np.array([1.0, -2.5, 30.0])
    tou = as_units(to).dimensionality
    want = dict(latex=d.latex, html=d.html, string=d.string, unicode=d.unicode)
    repr_ = repr(Quantity(a, d))
    bad, seen = [], [0, 0]
    what = rng.choice(['display', 'display', 'defaults', 'preferred'])
    prefs = [pq.cm, pq.km]

    def writer():
        for k in range(40):
            seen[0] += 1
            if what == 'display':
                v = bool(k % 2)
                markup.config.use_unicode = v
                for _ in range(3):
                    time.sleep(0)
                    if markup.config.use_unicode is not v:
                        bad.append('the display was switched to unicode=%s, it is %s although no one switched it back' % (v, markup.config.use_unicode))
            elif what == 'defaults':
                pq.set_default_units(('SI', 'cgs')[k % 2])
                w = ('meter', 'centimeter')[k % 2]
                for _ in range(3):
                    time.sleep(0)
                    g = U.UnitLength.get_default_unit().name
                    x = (2.0 * pq.m).simplified
                    if g != w or dims(x) != {w: 1} or abs(float(x.magnitude) / (2.0, 200.0)[k % 2] - 1) > 1e-12:
                        bad.append('the default length is %s, 2 m simplified is %r, %s was set' % (g, x, w))
            else:
                pq.quantity.PREFERRED = [prefs[k % 2]]
                w = (prefs[k % 2].name, (200.0, .002)[k % 2])
                for _ in range(2):
                    time.sleep(0)
                    x = (2.0 * pq.m).rescale_preferred()
                    if dims(x) != {w[0]: 1} or abs(float(x.magnitude) / w[1] - 1) > 1e-12:
                        bad.append('2 m in preferred units is %r, preferred is %s' % (x, w[0]))

    def reader():
        q = Quantity(a, d)
        for _ in range(12):
            seen[1] += 1
            got = dict(latex=d.latex, html=d.html, string=d.string, unicode=d.unicode)
            if got != want:
                bad.append('%s is rendered as %s, before as %s' % (M.show(ex), got, want))
            t = str(q)
            if not t.endswith((want['string'], want['unicode'])):
                bad.append('str is %r' % t)
            if repr(q) != repr_:
                bad.append('repr is %r' % repr(q))
            r = q.rescale(tou)
            if not same_dims(r, to) or not close(mag(r), a * f, 1e-10):
                bad.append('%r in %s is %r' % (q, M.show(to), r))
            if not bool(np.all(q == q.copy())):
                bad.append('%r is not equal to its copy' % q)
    try:
        Threads(rng, mon).run([writer] + [reader] * n, (.02, .05))
    finally:
        markup.config.use_unicode = False
        pq.set_default_units('SI')
        pq.quantity.PREFERRED = []
    mon.check(not bad, 'while settings (%s) change in another thread: %s', what, bad[:2])
    mon.check(seen[0] == 40 and seen[1] == 12 * n, 'threads ended early: %s', seen)
    mon.ev('settings', (what, n, tuple(sorted(ex.items()))), (what, M.show(ex)))


JOBS = {'quick': 4, 'thorough': 8}
FAMILIES = [Family('history', history_case, 160, 4000), Family('siblings', sibling_case, 700, 9000), Family('corners', corner_case, 2 * len(CALLS), 20 * len(CALLS)), Family('threads', thread_case, 130, 3500), Family('define', define_case, 100, 2500), Family('conflict', conflict_case, 100, 2500), Family('settings', settings_case, 60, 2000)]
REQUIRED_OPS = ['interleaving', 'definitions', 'conflicts', 'settings'] + ['history ' + k for k in KINDS] + ['thread ' + k for k in KINDS]
