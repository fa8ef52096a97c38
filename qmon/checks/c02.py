"""C02: incompatible units are never silently combined."""
import operator
from ..core import Family
from .. import model as M
from ..lib import *
from .. import zoo

PROP = 'C02'
QUICK_SCALE = 1.5
RULE = ('a case is an operation x operand kinds x a pair of different physical dimensions (near misses favoured) or a plain '
        'non-zero number with a dimensional quantity; distinct by (operation, kinds, shapes, dimension pair)')


def mk(rng, kind, ex, shape=None, dt=None):
    """an operand of the given kind; returns (object, reference expression)"""
    dt = dt or rng.choice(['d', 'd', 'd', 'f', 'l'])
    if kind == 'unit':
        u = pick_unit(rng)
        return uobj(u.name), {u.name: 1}
    sh = some_shape(rng, [(), (), (3,), (3,), (1,), (2, 3)]) if shape is None else shape
    a = gen_array(rng, dt, sh, nonzero=True)
    if a.size and rng.random() < .15:
        # zero seconds are no metres either
        a = np.full(a.shape, rng.choice([0, 0, 0, np.nan, np.inf] if a.dtype.kind == 'f' else [0]), a.dtype)
    if kind == 'uq':
        return UQ(np.array(a, 'd'), as_units(ex), np.abs(np.array(a, 'd')) * 0.1), ex
    return Quantity(np.array(a), as_units(ex)), ex


def iop(op):
    def f(a, b):
        return op(a, b)
    return f


BIN = {
    'add': operator.add, 'sub': operator.sub, 'mod': operator.mod,
    'iadd': operator.iadd, 'isub': operator.isub, 'imod': operator.imod,
    'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge,
    'np.add': np.add, 'np.subtract': np.subtract, 'np.remainder': np.remainder, 'np.fmod': np.fmod,
    'np.mod': np.mod, 'np.maximum': np.maximum, 'np.minimum': np.minimum, 'np.hypot': np.hypot,
    'np.arctan2': np.arctan2, 'pq.hypot': pq.hypot, 'pq.arctan2': pq.arctan2, 'np.less': np.less,
    'np.greater_equal': np.greater_equal,
    'fmax': np.fmax, 'fmin': np.fmin,
}
ARR = ['setitem', 'setslice', 'put', 'clip', 'clipmin', 'clipmax', 'searchsorted', 'rescale', 'rescale_str', 'rescale_dim',
       'units=', 'Quantity()', 'real=', 'UQuncert', 'setmask', 'np.clip']


def expect_refused(mon, what, f, *objs):
    w = Watch(*objs)
    got, err = attempt(f)
    if err is None:
        mon.fail('%s was accepted and gave %s; operands %s' % (what, short(got), [short(o) for o in objs]))
    w.verify('the refused ' + what)
    return err


def bin_case(rng, mon, i):
    names = list(BIN)
    for name in names:
        ka = rng.choice(['q', 'q', 'q', 'unit', 'uq'])
        kb = rng.choice(['q', 'q', 'q', 'unit', 'uq'])
        if name[0] == 'i' and ka == 'unit':
            ka = 'q'
        ex = gen_expr(rng, exps=ALL_EXPS if rng.random() < 0.3 else INT_EXPS)
        a, ea = mk(rng, ka, ex)
        for _ in range(40):
            eb = gen_incompatible(rng, ea)
            b, eb = mk(rng, kb, eb, shape=bcast_shape(rng, a.shape) if kb != 'unit' and name[0] != 'i' else
                       (rng.choice([(), a.shape]) if kb != 'unit' else None))
            if not M.compatible(ea, eb):
                break
        else:
            continue
        op = BIN[name]
        expect_refused(mon, '%s(%s, %s)' % (name, M.show(ea), M.show(eb)), lambda: op(a, b), a, b)
        mon.ev(name, (ka, kb, a.shape, b.shape, a.dtype.char, str(M.dim_of(ea)), str(M.dim_of(eb))),
               '%s[%s] with %s[%s] refused' % (M.show(ea), ka, M.show(eb), kb))


PLAIN = ['add', 'sub', 'iadd', 'isub', 'np.add', 'np.subtract', 'np.remainder', 'np.fmod', 'np.maximum', 'np.minimum', 'np.hypot',
         'np.arctan2', 'mod', 'imod', 'pq.hypot', 'pq.arctan2', 'fmax', 'fmin']


def gen_plain(rng, shape):
    c = rng.random()
    if c < 0.2:
        return rng.choice([1, 2.5, -3, 7, True, 2j, 1 - 1j, 1e-300, 5e-324, float('nan'), float('inf'), -1e-20, 10 ** 30])
    if c < 0.3:
        return np.float64(rng.choice([1.5, -2.0]))
    if c < 0.4:
        return rng.choice([np.int64(rng.choice([1, -4])), np.complex128(1j), np.float32(1e-30), np.bool_(True), np.float16(1e-7), np.uint8(3)])
    if c < .4:
        # elements which cancel, or are not real
        a = np.array(rng.choice([[1.0, -1.0, 0.0], [2j, 0, -2j], [np.nan, 0, 0], [0, 0, 1j], [False, True, False], [1e-300, 0, 0], [3, -1, -2], [0, 0, np.inf]]))
        return a if shape[-1:] in ((3,), (1,), ()) else a[:1] if a[0] else 1j
    sh = bcast_shape(rng, shape)
    a = gen_array(rng, rng.choice(['d', 'f', 'l']), sh, nonzero=True)
    if a.size > 1 and rng.random() < 0.3:
        # not all zero is enough to be refused
        a = np.array(a)
        a.flat[rng.randrange(a.size)] = 0
        if not a.any():
            a.flat[0] = 1
    if a.size == 0:
        return 1
    if rng.random() < 0.2 and a.ndim == 1:
        return a.tolist()
    return a


def plain_case(rng, mon, i):
    for name in PLAIN:
        ka = rng.choice(['q', 'q', 'q', 'unit', 'uq'])
        if name[0] == 'i':
            ka = rng.choice(['q', 'q', 'uq'])
        for _ in range(30):
            ex = gen_expr(rng, allow_empty=False)
            a, ea = mk(rng, ka, ex)
            if not M.is_dimless(ea):
                break
        else:
            continue
        p = gen_plain(rng, a.shape)
        if np.ndim(p) > 0 and name[0] == 'i' and np.shape(p) != a.shape:
            p = 3.5
        op = BIN[name]
        side = 'left' if name[0] == 'i' else rng.choice(['left', 'right'])
        if side == 'left':
            expect_refused(mon, '%s(%s, plain %r)' % (name, M.show(ea), p), lambda: op(a, p), a, p)
        else:
            expect_refused(mon, '%s(plain %r, %s)' % (name, p, M.show(ea)), lambda: op(p, a), p, a)
        mon.ev('plain-' + name, (ka, side, type(p).__name__, np.shape(p), a.shape, str(M.dim_of(ea))))
    # in-place on a plain array
    ex = gen_expr(rng, allow_empty=False)
    if M.is_dimless(ex):
        return
    nd = gen_array(rng, 'd', (3,), nonzero=True)
    nd = np.array(nd)
    before = nd.copy()
    b = Quantity(np.array([1.0, 2.0, 3.0]), as_units(ex))
    opname = rng.choice(['iadd', 'isub'])
    got, err = attempt(BIN[opname], nd, b)
    if err is None and not isinstance(got, Quantity):
        mon.finding('inplace-plain-left', 'ndarray %s quantity with units %s gave the plain array %s' % (opname, M.show(ex), got))
    elif err is not None:
        pass
    mon.ev('plain-left-inplace', (opname,))


def array_case(rng, mon, i):
    for name in ARR:
        for _ in range(40):
            ea = gen_expr(rng, exps=ALL_EXPS if rng.random() < 0.3 else INT_EXPS)
            eb = gen_incompatible(rng, ea)
            if not M.compatible(ea, eb):
                break
        a, _ = mk(rng, rng.choice(['q', 'q', 'q', 'uq']), ea, shape=rng.choice([(3,), (4,), (5,)]), dt=rng.choice('ddfl'))
        ub = as_units(eb, rng.choice(['quantity', 'dim', 'unit', 'string']), rng)
        kb = rng.choice(['scalar', 'array', 'unit', 'uq', 'plain'])
        sb = (a.shape if kb == 'array' else ())
        if name == 'setslice':
            sb = (2,) if kb == 'array' else ()
        if kb == 'unit':
            u = next((x for x in (pick_unit(rng) for _ in range(30)) if not M.compatible({x.name: 1}, ea)), None)
            if u is None:
                continue
            b = uobj(u.name)
        elif kb == 'uq':
            b = UQ(rng.choice([2.5, 2.5, 0.0]), as_units(eb), 0.1)
        elif kb == 'plain':
            if M.is_dimless(ea):
                continue
            b = rng.choice([1.5, 3, np.float64(2.0), 7])
        else:
            v = np.array(gen_array(rng, rng.choice('dddlf'), sb, nonzero=True))
            if rng.random() < .25:
                v[...] = 0
            elif rng.random() < .1 and v.dtype.kind == 'f':
                v[...] = rng.choice([np.nan, np.inf, -np.inf])
            b = Quantity(v, as_units(eb))
        n = a.shape[0]
        val = b
        scal = b if np.ndim(b) == 0 else b[0]
        if name == 'setitem':
            f = lambda: a.__setitem__(rng.randrange(n), scal)
        elif name == 'setslice':
            f = lambda: a.__setitem__(slice(0, 2), val)
        elif name == 'setmask':
            f = lambda: a.__setitem__(np.arange(n) % 2 == 0, scal)
        elif name == 'put':
            f = lambda: a.put([0, n - 1], scal)
        elif name == 'clip':
            f = lambda: a.clip(scal, scal * 2)
        elif name == 'np.clip':
            f = lambda: np.clip(a, scal, scal * 2)
        elif name == 'clipmin':
            f = lambda: a.clip(min=scal)
        elif name == 'clipmax':
            f = lambda: a.clip(max=scal)
        elif name == 'searchsorted':
            f = lambda: a.searchsorted(val)
        elif name == 'rescale':
            if kb == 'plain':
                continue
            f = lambda: a.rescale(ub)
        elif name == 'rescale_str':
            s = as_units(eb, 'string', rng)
            f = lambda: a.rescale(s)
        elif name == 'rescale_dim':
            f = lambda: a.rescale(as_units(eb, 'dim'))
        elif name == 'units=':
            f = lambda: setattr(a, 'units', ub)
        elif name == 'Quantity()':
            f = lambda: Quantity(a, ub)
        elif name == 'real=':
            if kb == 'plain':
                continue
            f = lambda: setattr(a, 'real', val)
        elif name == 'UQuncert':
            u = UQ(np.array([1.0, 2.0, 3.0]), as_units(ea), [0.1, 0.2, 0.3])
            bad = Quantity(np.array([1.0, 2.0, 3.0]), as_units(eb))
            expect_refused(mon, 'uncertainty of %s set to %s' % (M.show(ea), M.show(eb)), lambda: setattr(u, 'uncertainty', bad), u, bad)
            mon.ev(name, (str(M.dim_of(ea)), str(M.dim_of(eb))))
            continue
        err = expect_refused(mon, '%s on %s with %s[%s]' % (name, M.show(ea), M.show(eb), kb), f, a, b)
        mon.ev(name, (kb, a.dtype.char, a.shape, str(M.dim_of(ea)), str(M.dim_of(eb))))


def unit_pairs_case(rng, mon, i):
    """every catalogue unit against a representative of every other dimension"""
    u = M.ORD[i % len(M.ORD)]
    o = uobj(u.name)
    for d, g in M.GROUPS.items():
        if d == u.dim:
            continue
        v = rng.choice(g)
        p = uobj(v.name)
        for nm, f in (('rescale', lambda: o.rescale(p)), ('add', lambda: o + 2 * p), ('radd', lambda: 2 * p + o),
                      ('sub', lambda: 3 * o - p), ('lt', lambda: o < p)):
            _, err = attempt(f)
            mon.check(err is not None, 'unit %s %s unit %s was accepted', u, nm, v)
        mon.ev('unit-matrix', (u.name, v.name))


def out_case(rng, mon, i):
    """a refused universal function with out=: the call raises; the operands other than the output stay as they were"""
    name = rng.choice(['np.add', 'np.subtract', 'np.maximum', 'np.hypot', 'np.remainder', 'np.less'])
    ea = gen_expr(rng, exps=INT_EXPS)
    eb = gen_incompatible(rng, ea)
    if M.compatible(ea, eb):
        return
    A = np.array([3.0, 5.0, 7.0])
    a = Quantity(A.copy(), as_units(ea))
    b = Quantity(np.array([2.0, 4.0, 11.0]), as_units(eb))
    target = rng.choice(['operand', 'third', 'array'])
    out = a if target == 'operand' else Quantity(np.zeros(3), as_units(ea)) if target == 'third' else np.zeros(3)
    if name == 'np.less':
        out = np.zeros(3, bool)
        target = 'array'
    w = Watch(b) if target == 'operand' else Watch(a, b)
    _, err = attempt(BIN[name], a, b, out=out)
    if err is None and target == 'array':
        mon.finding('out-plain-array', '%s(%s, %s, out=array) was accepted' % (name, M.show(ea), M.show(eb)))
    else:
        mon.check(err is not None, '%s(%s, %s, out=%s) was accepted', name, M.show(ea), M.show(eb), target)
    w.verify('the refused %s with out=' % name)
    if target == 'operand' and not (same_dims(a, ea) and identical(mag(a), A)):
        mon.check(same_dims(a, ea), 'the refused %s changed the units of its output', name)
        mon.finding('ufunc-out-overwritten', '%s(a, b, out=a) is refused but has already stored %s' % (name, mag(a)))
    mon.ev('out=' + target, (name, str(M.dim_of(ea)), str(M.dim_of(eb))))


def power_case(rng, mon, i):
    """an exponent with a dimension, whatever its value and whatever is raised to it"""
    for _ in range(40):
        ex = gen_expr(rng, exps=ALL_EXPS if rng.random() < .3 else INT_EXPS, allow_empty=False)
        if not M.is_dimless(ex):
            break
    else:
        return
    kb = rng.choice(['number', 'npscalar', 'array', 'array', 'list', 'quantity', 'quantity', 'dimless', 'unit', 'uq'])
    sh = some_shape(rng, [(), (), (3,), (1,), (2, 3), (0,)])
    base = {
        'number': lambda: rng.choice([2, 2.5, 1, 0, -1, 1.0, True, 2 + 1j]),
        'npscalar': lambda: rng.choice([np.float64(2), np.float32(2.5), np.int64(3), np.int16(1), np.float64(1)]),
        'array': lambda: np.array(gen_array(rng, rng.choice('dflihF'), sh, nonzero=True)),
        'list': lambda: rng.choice([[1, 2, 3], [2.5, .5], (1.0, 2.0)]),
        'quantity': lambda: mk(rng, 'q', gen_expr(rng), sh)[0],
        'dimless': lambda: mk(rng, 'q', {}, sh)[0],
        'unit': lambda: uobj(pick_unit(rng).name),
        'uq': lambda: mk(rng, 'uq', gen_expr(rng), sh, 'd')[0],
    }[kb]()
    v = rng.choice([1, 2, .5, -1, 0, 3, 1.0, 2.0, -1.0, 0.0])
    ke = rng.choice(['quantity', 'quantity', 'array', 'unit', 'uq', 'constant', 'int'])
    if ke == 'unit':
        u = next((x for x in (pick_unit(rng) for _ in range(30)) if not M.is_dimless({x.name: 1})), None)
        if u is None:
            return
        e = uobj(u.name)
    elif ke == 'constant':
        e = constants()[rng.choice(sorted(constants()))]
        if not e.simplified.dimensionality:
            return
    elif ke == 'uq':
        e = UQ(float(v), as_units(ex), rng.choice([0, .1]))
    elif ke == 'array':
        e = Quantity(np.full(rng.choice([(3,), (1,)]) if np.shape(base) == () else np.shape(base), float(v)), as_units(ex))
    elif ke == 'int':
        e = Quantity(np.array(int(v) or 1), as_units(ex))
    else:
        e = Quantity(v, as_units(ex))
    if kb == 'array' and rng.random() < .2:
        # the operator of a plain array never asks the library
        got, err = attempt(operator.ipow, np.array([2.0, 3.0, 4.0]), e)
        if err is None and not isinstance(got, Quantity):
            mon.finding('ipow-plain-left', 'ndarray **= %r gave the plain array %s' % (e, got))
    forms = {'**': lambda: base ** e, 'np.power': lambda: np.power(base, e)}
    if isinstance(base, Quantity) and kb != 'unit':
        forms['**='] = lambda: operator.ipow(base, e)
    if kb == 'list':
        del forms['np.power']
    for name, f in forms.items():
        with np.errstate(all='ignore'):
            expect_refused(mon, 'raising %s to the power %r (%s)' % (short(base), e, name), f, *([base, e] if kb != 'list' else [e]))
        mon.ev('power' + ('=' if name == '**=' else ''), (name, kb, ke, v if ke not in ('unit', 'constant') else None, sh if kb not in ('number', 'npscalar', 'list', 'unit') else None))


FAMILIES = [
    Family('power', power_case, 1500, 40000),
    Family('lookalike', zoo.refuse_case, 800, 20000),
    Family('out', out_case, 200, 3000),
    Family('units', unit_pairs_case, len(M.ORD)),
    Family('binary', bin_case, 500, 12000),
    Family('plain', plain_case, 400, 10000),
    Family('array', array_case, 500, 12000),
]
REQUIRED_OPS = ('lookalike', 'power', 'power=', 'out=operand', 'out=third', 'out=array') + tuple(BIN) + tuple('plain-' + x for x in PLAIN) + tuple(x for x in ARR)
