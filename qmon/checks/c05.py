"""C05: read-only operations have no side effects; units and constants are immutable."""
import copy, operator, os, pickle, io
import numpy as np
from ..core import Family
from .. import model as M
from ..lib import *
from quantities import markup
from quantities.unitquantity import (UnitMass, UnitLength, UnitTime, UnitCurrent, UnitLuminousIntensity, UnitSubstance,
                                     UnitTemperature, UnitInformation, UnitCurrency, CompoundUnit)

PROP = 'C05'
RULE = ('a case is a population of live objects (quantities, views, uncertain quantities, units, constants, dimensionalities) '
        'snapshotted around a chain of read-only operations, and again after the results of those operations were modified; '
        'distinct by (operation, operand types, dtype); immutability cases are distinct by (object, mutator)')
DIMCLS = (UnitMass, UnitLength, UnitTime, UnitCurrent, UnitLuminousIntensity, UnitSubstance, UnitTemperature,
          UnitInformation, UnitCurrency)


def config_state():
    return (tuple(c.get_default_unit().name if c.get_default_unit() is not None else None for c in DIMCLS),
            tuple(id(x) for x in pq.quantity.PREFERRED), markup.config.use_unicode,
            tuple(sorted(np.geterr().items())), repr(np.get_printoptions()))


_objs = None


def all_objects():
    global _objs
    if _objs is None:
        seen = {}
        for r in M.UNITS:
            for l in r.labels:
                if l != '(esu/s)':
                    o = unit_registry[l]
                    seen[id(o)] = o
            for a in r.attrs:
                o = getattr(pq, a)
                seen[id(o)] = o
        for o in constants().values():
            seen[id(o)] = o
        _objs = list(seen.values())
    return _objs


def objects_state():
    return [unit_state(o) for o in all_objects()]


def _pool(rng):
    pop = []
    for _ in range(3):
        ex = gen_expr(rng)
        a = gen_array(rng, rng.choice('ddddfflD'), some_shape(rng, [(3,), (3,), (2, 3), (), (1, 3), (4, 3)]), positive=rng.random() < .5)
        pop.append(Quantity(np.array(a), as_units(ex)))
    q = pop[0]
    # compatible mates so that additions are often accepted
    if pop[0].dtype.kind != 'c':
        pop.append(Quantity(np.array(gen_array(rng, 'd', pop[0].shape)), as_units(gen_compatible(rng, fdims(pop[0])))))
    pop.append(Quantity(np.array(gen_array(rng, 'd', (3,))), rng.choice(['', 'rad', 'deg', 'dimensionless', 'percent'])))
    if q.ndim:
        pop.append(q[::-1])
    else:
        pop.append(q.view())
    ex = gen_expr(rng)
    v = np.array(gen_array(rng, 'd', (3,), positive=True))
    pop.append(UQ(v, as_units(ex), np.abs(v) * .1 + .01))
    pop.append(UQ(v * 2, as_units(gen_compatible(rng, ex)), np.abs(v) * .2))
    pop.append(uobj(pick_unit(rng).name))
    pop.append(uobj(pick_unit(rng).name))
    pop.append(rng.choice(list(constants().values())))
    pop.append(CompoundUnit('parsec/cm**3'))
    pop.append(rng.choice(pop[:4]).dimensionality)
    pop.append(Dimensionality(pop[1].dimensionality))
    pop.append(np.array(gen_array(rng, 'd', (3,))))
    pop.append([1.5, 2.5, -3.0])
    return pop


def isq(o):
    return isinstance(o, Quantity)


BIN = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv,
       '%': operator.mod, '==': operator.eq, '!=': operator.ne, '<': operator.lt, '>=': operator.ge, '>': operator.gt,
       '<=': operator.le, 'divmod': divmod, '**q': operator.pow}
FRESH1 = {   # result must not share memory with an operand
    'neg': operator.neg, 'abs': abs, '**2': lambda q: q ** 2, '**1': lambda q: q ** 1, '**0': lambda q: q ** 0, '**.5': lambda q: q ** .5,
    '**-1': lambda q: q ** -1, 'simplified': lambda q: q.simplified, 'copy': lambda q: q.copy(), 'copy.copy': copy.copy,
    'deepcopy': copy.deepcopy, 'pickle': lambda q: pickle.loads(pickle.dumps(q, 2)), 'pickle5': lambda q: pickle.loads(pickle.dumps(q, 5)),
    'rescale_same': lambda q: q.rescale(q.units), 'rescale_dim': lambda q: q.rescale(q.dimensionality),
    'rescale_simpl': lambda q: q.rescale(q.simplified.dimensionality), 'units': lambda q: q.units * 1, 'astype': lambda q: q.astype('d'),
    'astypef': lambda q: q.astype('f'), 'round': lambda q: round(q, 1), 'rround': lambda q: q.round(2), 'tolist': lambda q: q.tolist(),
    'repr': repr, 'str': str, 'format': lambda q: '{:.3g}'.format(q), 'formats': lambda q: format(q), 'sum': lambda q: q.sum(),
    'mean': lambda q: q.mean(), 'max': lambda q: q.max(), 'min': lambda q: q.min(), 'sum0': lambda q: q.sum(axis=0), 'max0': lambda q: q.max(axis=0),
    'std': lambda q: q.std(), 'var': lambda q: q.var(), 'prod': lambda q: q.prod(), 'cumsum': lambda q: q.cumsum(), 'ptp': lambda q: q.ptp(),
    'nansum': lambda q: q.nansum(), 'nanmean': lambda q: q.nanmean(), 'nanmax': lambda q: q.nanmax(), 'nanmin': lambda q: q.nanmin(),
    'nanstd': lambda q: q.nanstd(), 'argmax': lambda q: q.argmax(), 'argmin': lambda q: q.argmin(), 'argsort': lambda q: q.argsort(),
    'nonzero': lambda q: q.nonzero(), 'trace': lambda q: q.trace(), 'np.sqrt': np.sqrt, 'np.square': np.square, 'np.exp': np.exp, 'np.log': np.log,
    'np.sin': np.sin, 'np.arctan': np.arctan, 'np.negative': np.negative, 'np.fabs': np.fabs, 'np.floor': np.floor, 'np.rint': np.rint,
    'np.reciprocal': np.reciprocal, 'np.isfinite': np.isfinite, 'np.sum': np.sum, 'np.mean': np.mean, 'np.cumsum': np.cumsum,
    'np.diff': np.diff, 'np.ones_like': np.ones_like, 'np.zeros_like': np.zeros_like, 'np.degrees': np.degrees, 'np.sort': np.sort, 'np.cbrt': np.cbrt,
    'np.median': np.median, 'np.clip': lambda q: np.clip(q, q.min(), q.max()), 'np.round': lambda q: np.round(q, 1), 'np.unique': np.unique,
    'np.linalg.norm': np.linalg.norm, 'np.concatenate': lambda q: np.concatenate([q, q]), 'np.sign': np.sign,
    'np.multiply.reduce': np.multiply.reduce, 'np.add.accumulate': np.add.accumulate, 'np.modf': np.modf, 'np.frexp': np.frexp,
    'pq.sin': lambda q: pq.sin(q), 'pq.arcsin': lambda q: pq.arcsin(q), 'pq.tanh': lambda q: pq.tanh(q), 'pq.diff': lambda q: pq.diff(q),
    'pq.ediff1d': lambda q: pq.ediff1d(q), 'pq.cumsum': lambda q: pq.cumsum(q), 'pq.nansum': lambda q: pq.nansum(q), 'pq.trapz': lambda q: pq.trapz(q),
    'flatten': lambda q: q.flatten(), 'take': lambda q: q.take([0, 0]), 'repeat': lambda q: q.repeat(2), 'compress': lambda q: q.compress([True]),
    'tobytes': lambda q: q.tobytes(), 'item': lambda q: q.item(), 'hash': hash, 'float': float, 'bool': bool, 'len': len, 'dimless': lambda q: q.dimensionless_magnitude,
    'preferred': lambda q: q.rescale_preferred(), 'rescale()': lambda q: q.rescale(), 'rescale_bad': lambda q: q.rescale('fortnight**7*tesla'),
    'relunc': lambda q: q.relative_uncertainty, 'fancy': lambda q: q[[0]], 'mask': lambda q: q[np.asarray(q.magnitude) > 0], 'dot': lambda q: q.dot(q),
    'getunc': lambda q: q.uncertainty * 1, 'qsqrt': lambda q: q.sqrt(), 'dimstr': lambda q: q.dimensionality.string,
    'dimlatex': lambda q: q.dimensionality.latex, 'dimhtml': lambda q: q.dimensionality.html, 'dimuni': lambda q: q.dimensionality.unicode,
    'searchsorted': lambda q: q.searchsorted(q), 'clip': lambda q: q.clip(q.min(), q.max()), 'symbol': lambda q: (q.symbol, q.u_symbol, q.name),
    'definition': lambda q: q.definition * 1, 'dtypearg': lambda q: q.rescale(q.units, dtype='f'),
}
VIEW1 = {'T': lambda q: q.T, 'reshape': lambda q: q.reshape(-1), 'ravel': lambda q: q.ravel(), 'squeeze': lambda q: q.squeeze(),
         'slice': lambda q: q[0:1], 'ellipsis': lambda q: q[...], 'newaxis': lambda q: q[None], 'real': lambda q: q.real, 'imag': lambda q: q.imag,
         'magnitude': lambda q: q.magnitude, 'Quantity': lambda q: Quantity(q), 'QuantityU': lambda q: Quantity(q, q.units),
         'UQ': lambda q: UQ(q), 'asarray': np.asarray, 'asanyarray': np.asanyarray, 'view': lambda q: q.view(), 'flat': lambda q: list(q.flat),
         'iter': lambda q: list(q), 'np.squeeze': np.squeeze, 'np.transpose': np.transpose, 'np.broadcast_to': lambda q: np.broadcast_to(q, (2,) + q.shape),
         'np.atleast_2d': np.atleast_2d, 'swapaxes': lambda q: q.swapaxes(0, -1), 'diagonal': lambda q: q.diagonal(), 'conj': lambda q: q.conj(),
         'np.real': np.real, 'uncertainty': lambda q: q.uncertainty, 'unitsobj': lambda q: q.units, '+': operator.pos, 'np.array': lambda q: np.array(q),
         'setdefault_peek': lambda q: q.dimensionality.simplified, 'np.nan_to_num': np.nan_to_num, 'definition': lambda q: q.definition}
FRESH2 = {
    'rescale': lambda a, b: a.rescale(b.units if isq(b) else b), 'rescaled': lambda a, b: a.rescale(b.dimensionality if isq(b) else b),
    'np.add': np.add, 'np.multiply': np.multiply, 'np.hypot': np.hypot, 'np.maximum': np.maximum, 'np.arctan2': np.arctan2, 'np.true_divide': np.true_divide,
    'np.fmod': np.fmod, 'np.less': np.less, 'np.equal': np.equal, 'np.power': np.power, 'np.dot': np.dot, 'np.cross': np.cross,
    'pq.hypot': lambda a, b: pq.hypot(a, b), 'pq.arctan2': lambda a, b: pq.arctan2(a, b), 'pq.cross': lambda a, b: pq.cross(a, b),
    'pq.trapz2': lambda a, b: pq.trapz(a, b), 'np.interp': lambda a, b: np.interp(a, a, b), 'np.where': lambda a, b: np.where(np.asarray(a) > 0, a, b),
    'np.allclose': lambda a, b: np.allclose(a, b), 'np.array_equal': np.array_equal, 'np.logaddexp': np.logaddexp, 'np.copysign': np.copysign,
    'searchsorted2': lambda a, b: a.searchsorted(b), 'clip2': lambda a, b: a.clip(b.min(), b.max()), 'construct': lambda a, b: Quantity(np.array(a), b.units) if isq(b) else None,
    'pq.gradient': lambda a, b: pq.gradient(a, b), 'np.linspace': lambda a, b: np.linspace(a, b, 3), 'np.outer': np.outer, 'np.convolve': np.convolve,
    'isin': np.isin, 'UQbuild': lambda a, b: UQ(np.array(a), a.units, np.array(np.abs(np.asarray(a)))), 'UQ3': lambda a, b: UQ(a, b.units, a),
    'unpickle_pair': lambda a, b: pickle.loads(pickle.dumps((a, b, a))), 'deepcopy_pair': lambda a, b: copy.deepcopy([a, b, a]),
    'in': lambda a, b: a in [b], 'sorted': lambda a, b: sorted([a, b]), 'sumlist': lambda a, b: sum([a, b]),
    'np.stack': lambda a, b: np.stack([a, b]), 'setdefault': lambda a, b: {a: 1}.get(b)}


def dimops(rng, d, e):
    k = rng.choice([2, -1, 0.5, 0, 3])
    return rng.choice([
        ('d*', lambda: d * e), ('d/', lambda: d / e), ('d**', lambda: d ** k), ('d+', lambda: d + e), ('d-', lambda: d - d),
        ('dstr', lambda: str(d)), ('drepr', lambda: repr(d)), ('dsimp', lambda: d.simplified * d), ('dcopy', lambda: d.copy()), ('ddeep', lambda: copy.deepcopy(d)),
        ('dcopy.copy', lambda: copy.copy(d)), ('dpickle', lambda: pickle.loads(pickle.dumps(d))), ('dhash', lambda: hash(d)), ('dndims', lambda: d.ndims),
        ('deq', lambda: d == e), ('dlt', lambda: d < e), ('dq', lambda: Quantity(2.0, d)), ('d+d', lambda: d + d), ('d*1', lambda: d * Dimensionality()),
        ('d/1', lambda: d / Dimensionality()), ('d**1', lambda: d ** 1), ('dlatex', lambda: d.latex), ('dhtml', lambda: d.html),
        ('rescale_d', lambda: Quantity(np.arange(3.), d).rescale(d)), ('1*d', lambda: Dimensionality() * d)])


def parseop(rng):
    s = rng.choice(['m', 'kg*m/s**2', 'percent', '', 'm^2', 'in', 'nosuchunit', '2*m', 'm+s', '__import__("os")', 'm**', 'km/h', unit_string(gen_expr(rng), rng)])
    return 'parse', lambda: (Quantity(1, s), unit_registry[s])


# numpy returns the very array when integers are rounded; construction does not copy
ALIASES = {'round', 'rround', 'np.round', 'UQ3', 'sorted'}
UQFRESH = set(BIN) | {k for k in FRESH1 if k.startswith(('**', 'neg', 'copy', 'deepcopy', 'pickle', 'simplified', 'rescale', 'astype', 'sum', 'mean', 'max'))} | {
    'rescale', 'rescaled', 'unpickle_pair', 'deepcopy_pair'}


def deep(r):
    if isinstance(r, (list, tuple)):
        return tuple(deep(x) for x in r)
    if isinstance(r, np.ndarray) and r.dtype.hasobject:
        return 'objects', r.shape
    if isinstance(r, UQ):
        return snap(r), snap(r.uncertainty)
    return snap(r)


def flat(r):
    for x in r:
        if isinstance(x, list):
            yield from flat(x)
        else:
            yield x


def mutate(rng, r, depth=0, uq=True):
    """modify an operation's result as a client may"""
    if depth > 3:
        return
    if isinstance(r, (list, tuple)):
        for x in r:
            mutate(rng, x, depth + 1, uq)
        return
    if isinstance(r, Dimensionality):
        for f in (lambda: operator.imul(r, (pq.s * pq.tesla).dimensionality), lambda: operator.ipow(r, 3), lambda: operator.itruediv(r, pq.m.dimensionality),
                  lambda: r.update({pq.candela: 5}), r.clear):
            attempt(f)
        return
    if isinstance(r, UnitQuantity):
        # (arrays made from a unit's buffer by numpy are not usable as units)
        attempt(lambda: r.dimensionality.clear())
        return
    if isinstance(r, Quantity):
        attempt(r.dimensionality.clear)
        d = r.dimensionality
        d[pq.tesla] = 9
        if isinstance(r, UQ) and uq:
            attempt(lambda: r.uncertainty.fill(-9))
            attempt(lambda: operator.imul(r.uncertainty, pq.kelvin))
        attempt(lambda: operator.imul(r, 3 * pq.tesla))
        attempt(lambda: operator.itruediv(r, 7.0))
        attempt(lambda: operator.ipow(r, 2))
        attempt(lambda: r.fill(-12345))
        attempt(lambda: r.__setitem__(Ellipsis, r.units * 55))
        attempt(lambda: setattr(r, 'units', r.simplified.units))
    elif isinstance(r, np.ndarray):
        attempt(r.fill, 1)


def purity_case(rng, mon, i):
    pop = _pool(rng)
    cfg = config_state()
    before = [snap(o) for o in pop]
    kept = []
    for step in range(14):
        c = rng.random()
        ops = []
        view = False
        if c < 0.12:
            ds = [o for o in pop if isinstance(o, Dimensionality)]
            ops = [rng.choice(ds), rng.choice(ds)]
            name, f = dimops(rng, *ops)
        elif c < 0.16:
            name, f = parseop(rng)
        elif c < 0.5:
            a = rng.choice([o for o in pop if isq(o)])
            b = rng.choice(pop)
            if rng.random() < .3:
                a, b = b, a
            name = rng.choice(list(BIN) + list(FRESH2))
            fn = BIN.get(name) or FRESH2[name]
            f = lambda: fn(a, b)
            ops = [a, b]
        elif c < 0.85:
            a = rng.choice([o for o in pop if isq(o)])
            name = rng.choice(list(FRESH1))
            fn1 = FRESH1[name]
            f = lambda: fn1(a)
            ops = [a]
        else:
            a = rng.choice([o for o in pop if isq(o)])
            name = rng.choice(list(VIEW1))
            fn1 = VIEW1[name]
            f = lambda: fn1(a)
            ops = [a]
            view = True
        us = [o for o in pop if isinstance(o, UnitQuantity)]
        r, err = attempt(f)
        what = '%s(%s)' % (name, ', '.join(short(o, 80) for o in ops))
        for k, o in enumerate(pop):
            s = snap(o)
            mon.check(s == before[k], '%s changed %s: before %s, after %s', what, 'an operand' if any(o is x for x in ops) else 'an unrelated live object',
                      short(before[k]), short(s))
        view = view or name in ALIASES
        if not view and err is None:
            rs = r if isinstance(r, (list, tuple)) else [r]
            for x in rs:
                if isinstance(x, np.ndarray) and x.size and not isinstance(x, UnitQuantity):
                    for o in pop:
                        if isinstance(o, np.ndarray) and np.shares_memory(np.asarray(x), np.asarray(o)):
                            mon.fail('%s: the result shares memory with a live object %s' % (what, short(o, 100)))
                        if isinstance(o, UQ) and name in UQFRESH and np.shares_memory(np.asarray(x), np.asarray(o.uncertainty)) and x is not o.uncertainty:
                            mon.fail('%s: the result shares memory with the uncertainty of a live object' % what)
            if isinstance(r, list) and name == 'tolist':
                its = [x for x in flat(r) if isinstance(x, np.ndarray) and not isinstance(x, UnitQuantity) and x.flags.writeable]
                mon.check(len(set(map(id, its))) == len(its), '%s: two items of the result are the same object', what)
                mon.check(len({x.__array_interface__['data'][0] for x in its if x.size}) == len([x for x in its if x.size]), '%s: items of the result share memory', what)
            first = attempt(lambda: deep(r))[0]
            mutate(rng, r, 0, name in UQFRESH)
            for k, o in enumerate(pop):
                s = snap(o)
                mon.check(s == before[k], 'modifying the result of %s changed %s: before %s, after %s', what, type(o).__name__, short(before[k]), short(s))
            # what the client did with the result cannot show up in the next one
            if first is not None:
                r2, err2 = attempt(f)
                again = attempt(lambda: deep(r2))[0]
                mon.check(err2 is None and again == first, 'after its result was modified, %s gives %s instead of %s', what, short(again if err2 is None else err2), short(first))
                mon.extra['repeated after modification'] += 1
                r = r2 if err2 is None else r
        elif err is None and isinstance(r, Quantity) and not isinstance(r, UnitQuantity):
            attempt(r.dimensionality.clear)
            r.dimensionality[pq.tesla] = 3
            for k, o in enumerate(pop):
                mon.check(snap(o) == before[k], 'editing the dimensionality handed out by %s changed %s', what, type(o).__name__)
        mon.ev(name, (tuple(type(o).__name__ for o in ops), tuple(getattr(o, 'dtype', np.dtype('O')).char for o in ops), err is None))
        if err is None and rng.random() < .5 and step < 8:
            # results join the population
            if isinstance(r, Quantity) and not view and r.size < 50 and not isinstance(r, UnitQuantity):
                r2 = attempt(f)[0]
                if isinstance(r2, Quantity) and attempt(invariant, r2)[1] is None and type(r2) is type(r) and len(fdims(r2)) < 8 and all(abs(e) < 50 for e in fdims(r2).values()):
                    pop.append(r2)
                    before.append(snap(r2))
    mon.check(config_state() == cfg, 'library or numpy configuration changed: %s -> %s', cfg, config_state())
    if i % 50 == 0:
        now = objects_state()
        for o, a, b in zip(all_objects(), _state0, now):
            mon.check(a == b, 'unit or constant %s changed: %s -> %s', o.name, a, b)
        mon.ev('catalogue', i)


_state0 = None
_fp0 = None


def setup(mon):
    global _state0, _fp0
    _state0 = objects_state()
    _fp0 = catalogue_fingerprint(True)


def finish(mon):
    for o, a, b in zip(all_objects(), _state0, objects_state()):
        mon.check(a == b, 'unit or constant %s changed during the run: %s -> %s', o.name, a, b)
    d = diff_fp(_fp0, catalogue_fingerprint(True))
    mon.check(not d, 'unit table changed during the run: %s', d)
    mon.ev('final catalogue', len(_fp0))


def mutators(o):
    m2 = 2 * pq.meter

    def setat(x, n, v):
        setattr(x, n, v)
    L = []
    for nm, op in (('+=', operator.iadd), ('-=', operator.isub), ('*=', operator.imul), ('/=', operator.itruediv), ('//=', operator.ifloordiv),
                   ('%=', operator.imod), ('**=', operator.ipow)):
        for on, b in (('2', 2), ('1', 1), ('0.5', .5), ('self', o), ('q', m2), ('dimless', Quantity(3.0)), ('arr', np.array(2.0)), ('same', Quantity(2.0, o.dimensionality))):
            L.append((nm + on, lambda op=op, b=b: op(o, b)))
    L += [('[()]=', lambda: o.__setitem__((), 2.0)), ('[()]=q', lambda: o.__setitem__((), 2 * Quantity(1.0, o.dimensionality))),
          ('[...]=', lambda: o.__setitem__(Ellipsis, Quantity(2.0, o.dimensionality))), ('fill', lambda: o.fill(3)), ('fillq', lambda: o.fill(3 * pq.s)),
          ('fill_same', lambda: o.fill(Quantity(3.0, o.dimensionality))),
          ('put', lambda: o.put(0, 3)), ('putq', lambda: o.put(0, Quantity(3.0, o.dimensionality))), ('units=str', lambda: setat(o, 'units', 'm')),
          ('units=self', lambda: setat(o, 'units', o)), ('units=q', lambda: setat(o, 'units', pq.second)),
          ('magnitude[...]', lambda: o.magnitude.__setitem__(Ellipsis, 5)), ('magnitude.fill', lambda: o.magnitude.fill(5)),
          ('view[...]', lambda: o.view(np.ndarray).__setitem__(Ellipsis, 5)), ('view().fill', lambda: o.view().fill(5)),
          ('asarray', lambda: np.asarray(o).__setitem__(Ellipsis, 5)), ('view(Quantity)', lambda: o.view(Quantity).__setitem__(Ellipsis, Quantity(5.0, o.dimensionality))),
          ('view(Quantity)*=', lambda: operator.imul(o.view(Quantity), 5)), ('reshape', lambda: o.reshape(1).magnitude.__setitem__(0, 5)),
          ('T', lambda: o.T.fill(5)), ('real=', lambda: setat(o, 'real', Quantity(5.0, o.dimensionality))), ('real[...]', lambda: np.asarray(o.real).__setitem__(Ellipsis, 5)),
          ('imag=', lambda: setat(o, 'imag', Quantity(5.0, o.dimensionality))), ('flat', lambda: o.flat.__setitem__(0, 5.0)),
          ('np.add out', lambda: np.add(o, o, out=o)), ('np.multiply out', lambda: np.multiply(2.0, 3.0, out=o)), ('np.sqrt out', lambda: np.sqrt(np.array(4.0), out=o)),
          ('np.sum out', lambda: np.sum(np.arange(4.0), out=o)), ('sum out', lambda: Quantity([1.0, 2.0], 's').sum(out=o)), ('max out', lambda: Quantity([1.0, 2.0], 's').max(out=o)),
          ('mean out', lambda: Quantity([1.0, 2.0], 's').mean(out=o)), ('prod out', lambda: Quantity([1.0, 2.0], 's').prod(out=o)), ('std out', lambda: Quantity([1.0, 2.0], 's').std(out=o)),
          ('round out', lambda: Quantity(1.0, 's').round(out=o)), ('clip out', lambda: Quantity(1.0, 's').clip(1 * pq.s, 2 * pq.s, out=o)),
          ('copyto', lambda: np.copyto(o, 5)), ('np.put', lambda: np.put(o, [0], [5])), ('putmask', lambda: np.putmask(o, True, 5)), ('place', lambda: np.place(o, np.array(True), [5])),
          ('byteswap', lambda: o.byteswap(True)), ('setfield', lambda: o.setfield(5, 'd')),
          ('memoryview', lambda: memoryview(o).__setitem__((), 5.0)),
          ('name=', lambda: setat(o, 'name', 'x')), ('symbol=', lambda: setat(o, 'symbol', 'x')), ('u_symbol=', lambda: setat(o, 'u_symbol', 'x')),
          ('definition=', lambda: setat(o, 'definition', m2)), ('dimensionality=', lambda: setat(o, 'dimensionality', m2.dimensionality)), ('simplified=', lambda: setat(o, 'simplified', m2)),
          ('magnitude=', lambda: setat(o, 'magnitude', np.array(5.0)))]
    d = o.definition
    L += [('def*=', lambda: operator.imul(o.definition, 2.0)), ('def*=q', lambda: operator.imul(o.definition, m2)), ('def[...]=', lambda: o.definition.__setitem__(Ellipsis, o.definition * 5)),
          ('def.fill', lambda: o.definition.fill(5)), ('def.magnitude', lambda: o.definition.magnitude.__setitem__(Ellipsis, 5)),
          ('def.units=', lambda: setat(o.definition, 'units', 'fortnight')), ('def/=', lambda: operator.itruediv(o.definition, pq.s)), ('def**=', lambda: operator.ipow(o.definition, 3))]
    # not refused, but must have no effect
    N = [('dimensionality.clear', lambda: o.dimensionality.clear()), ('dimensionality*=', lambda: operator.imul(o.dimensionality, pq.s.dimensionality)),
         ('dimensionality**=', lambda: operator.ipow(o.dimensionality, 3)), ('dimensionality[]', lambda: o.dimensionality.__setitem__(pq.s, 8)),
         ('def.dimensionality', lambda: o.definition.dimensionality.clear()), ('simplified*=', lambda: operator.imul(o.simplified, 5)), ('simplified.fill', lambda: o.simplified.fill(5 * pq.s)),
         ('units.dim', lambda: o.units.dimensionality.clear()), ('copy', lambda: mutate(None, 1 * o)), ('astype', lambda: o.astype('d').fill(9)),
         ('rescale', lambda: o.rescale(o.dimensionality).fill(9))]
    return L, N


def immutable_case(rng, mon, i):
    objs = all_objects()
    o = objs[i % len(objs)]
    if i // len(objs) == 1:
        o = o.copy() if not type(o).__name__ == 'UnitConstant' else objs[(i * 7) % len(objs)]
    st = unit_state(o)
    sn = snap(o)
    L, N = mutators(o)
    o0 = o
    for nm, f in L:
        _, err = attempt(f)
        mon.check(unit_state(o) == st and snap(o) == sn, '%s on %s %s: %s -> %s', nm, type(o).__name__, o.name, st, unit_state(o))
        mon.check(err is not None, '%s on %s %s was not refused', nm, type(o).__name__, o.name)
        mon.ev('refuse ' + nm, (type(o).__name__, o.name))
    for nm, f in N:
        attempt(f)
        mon.check(unit_state(o) == st and snap(o) == sn, '%s on %s %s: %s -> %s', nm, type(o).__name__, o.name, st, unit_state(o))
        mon.ev('ignore ' + nm, (type(o).__name__, o.name))


def dimcopy_case(rng, mon, i):
    """handed-out dimensionalities are private"""
    pop = _pool(rng)
    before = [snap(o) for o in pop]
    for o in pop:
        if not isq(o):
            continue
        for get in (lambda: o.dimensionality, lambda: o.units.dimensionality, lambda: o.dimensionality.simplified, lambda: o.dimensionality.copy(), lambda: o.uncertainty.dimensionality,
                    lambda: o.simplified.dimensionality, lambda: (o * 1).dimensionality, lambda: Dimensionality(o.dimensionality),
                    lambda: Quantity(1.0, o.dimensionality).dimensionality, lambda: o.definition.dimensionality):
            d, err = attempt(get)
            if err is None:
                mutate(rng, d)
        d = o.dimensionality
        q2 = Quantity(5.0, d)
        s2 = snap(q2)
        mutate(rng, d)
        mon.check(snap(q2) == s2, 'a quantity built from a dimensionality follows later edits of it: %s -> %s', s2, snap(q2))
        for k, p in enumerate(pop):
            mon.check(snap(p) == before[k], 'editing a dimensionality obtained from %s changed %s', short(o, 80), short(p, 80))
        mon.ev('dimensionality copy', (type(o).__name__, tuple(sorted(map(str, dims(o).items())))))


# ------------------------------------------------------------------ every argument of every operation

class Args:
    """arguments of one call: related units, one size"""

    def __init__(self, rng):
        self.rng = rng
        self.ex = gen_expr(rng)
        self.n = rng.choice([1, 3, 4, 5, 7, 17, 60, 150, 700])
        self.bad = rng.random() < .12
        self.kept = []

    def ar(self, shape=None, dt=None, **kw):
        a = np.array(gen_array(self.rng, dt or self.rng.choice('dddfl'), (self.n,) if shape is None else shape, layout=False, **kw))
        if self.rng.random() < .3 and a.ndim:
            a = np.repeat(a, 2, axis=0)[::2]
        return self.keep(a)

    def q(self, shape=None, dt=None, same=False, cls=None, **kw):
        """a quantity in units of the same kind"""
        ex = self.ex if same or self.rng.random() < .4 else gen_compatible(self.rng, self.ex)
        if self.bad and ex is not self.ex and self.rng.random() < .4:
            ex = gen_incompatible(self.rng, self.ex)
        a = self.ar(shape, dt, **kw)
        if self.rng.random() < .15:
            return self.keep(UQ(a, as_units(ex), np.abs(np.array(a, 'd')) * .1))
        return self.keep(Quantity(a, as_units(ex)))

    def uq(self, **kw):
        a = self.ar(dt='d', **kw)
        return self.keep(UQ(a, as_units(self.ex), self.keep(np.abs(a) * .1)))

    def any(self, shape=None, dt=None):
        """a quantity in any units"""
        return self.keep(Quantity(self.ar(shape, dt), as_units(gen_expr(self.rng))))

    def angle(self, shape=None):
        return self.keep(Quantity(self.ar(shape, 'd'), self.rng.choice(['rad', 'deg', 'arcmin'])))

    def dimless(self, shape=None):
        return self.keep(Quantity(self.ar(shape, 'd'), self.rng.choice(['', 'percent', 'm/km', 'km/m', 'm/m'])))

    def idx(self, k=None, hi=None):
        return self.keep(np.array([self.rng.randrange(hi or self.n) for _ in range(k or 4)]))

    def lst(self, k=3):
        return self.keep([self.q(()) for _ in range(k)])

    def mask(self):
        return self.keep(np.array([self.rng.random() < .5 for _ in range(self.n)]))

    def keep(self, o):
        self.kept.append(o)
        return o


def _t(f, target):
    f.target = target
    return f


def _each(*fs):
    def f():
        rs = [attempt(x) for x in fs]
        bad = [e for _, e in rs if e is not None]
        if len(bad) == len(rs):
            raise bad[0]
    return f


def A_ediff1d(c): a, b, e = c.q(), c.q((2,)), c.q(()); k = c.rng.randrange(4); return lambda: [pq.ediff1d(a, b), pq.ediff1d(a, to_begin=b), pq.ediff1d(a, to_begin=b, to_end=e), pq.ediff1d(a, e, b)][k:k + 1]
def A_searchsorted(c):
    a, v, srt = c.q(same=True), c.q((3,), same=True), c.keep(np.random.default_rng(c.n).permutation(c.n))
    k = c.rng.randrange(5)
    return lambda: (a.searchsorted(v) if k == 0 else a.searchsorted(v, 'right') if k == 1 else a.searchsorted(v, sorter=srt) if k == 2 else np.searchsorted(a, v) if k == 3 else a.searchsorted(v[0]))
def A_clip(c): a, lo, hi = c.q(), c.q(c.rng.choice([(), (c.n,)])), c.q(()); k = c.rng.randrange(5); return lambda: (a.clip(lo, hi) if k == 0 else a.clip(lo) if k == 1 else a.clip(max=hi) if k == 2 else np.clip(a, lo, hi) if k == 3 else np.clip(a, None, hi))
def A_clip_out(c): a, lo, hi, o = c.q(), c.q(()), c.q(()), c.any(dt='d'); return _t(lambda: a.clip(lo, hi, out=o), o)
def A_put(c): a, v, i = c.q(), c.q((4,)), c.idx(); k = c.rng.randrange(3); return _t((lambda: a.put(i, v)) if k == 0 else (lambda: a.put(i, v, 'clip')) if k == 1 else (lambda: np.put(a, i, v)), a)
def A_fill(c): a, v = c.q(), c.q(()); return _t(lambda: a.fill(v), a)
def A_setitem(c):
    a, v = c.q(), c.q(c.rng.choice([(), (c.n,)]))
    key = c.rng.choice([Ellipsis, slice(None), c.mask() if not v.ndim else slice(None), c.idx() if not v.ndim else Ellipsis])
    c.keep(key if isinstance(key, np.ndarray) else None)
    return _t(lambda: a.__setitem__(key, v), a)
def A_setlist(c): a, v = c.q((3,)), c.keep([1.5, 2.0, 3.0]); a2 = c.keep(Quantity(c.ar((3,), "d"), "")); return _t(lambda: a2.__setitem__(Ellipsis, v), a2)
def A_iter(c): a, v = c.q(), c.q(()); return lambda: [x + v for x in a]
def A_getitem(c): a, i, m = c.q(), c.idx(), c.mask(); return _each(lambda: a[i], lambda: a[m], lambda: a[list(i)])
def A_take(c): a, i = c.q(), c.idx(); return _each(lambda: a.take(i), lambda: np.take(a, i))
def A_compress(c): a, m = c.q(), c.mask(); return _each(lambda: a.compress(m), lambda: np.compress(m, a))
def A_repeat(c): a, m = c.q(), c.keep(np.array([c.rng.randrange(3) for _ in range(c.n)])); return lambda: a.repeat(m)
def A_choose(c): i, x, y = c.keep(np.array([c.rng.randrange(2) for _ in range(c.n)])), c.q(), c.q(); return lambda: np.choose(i, [x, y])
def A_where(c): m, x, y = c.mask(), c.q(), c.q(); return lambda: np.where(m, x, y)
def A_select(c): m, x, y = c.mask(), c.q(), c.q(); return lambda: np.select([m, ~m], [x, y])
def A_trapz(c): y, x, d = c.any(), c.q(), c.any(()); k = c.rng.randrange(3); return lambda: (pq.trapz(y, x) if k == 0 else pq.trapz(y, dx=d) if k == 1 else pq.trapz(y, x, d, 0))
def A_gradient(c): f, d = c.any((5, 5), 'd'), c.keep(c.lst(2)); e = c.q((), 'd', nonzero=True); return _each(lambda: pq.gradient(f, e), lambda: pq.gradient(f, *d))
def A_cross(c): a, b = c.any((c.n, 3)), c.any((c.n, 3)); return _each(lambda: pq.cross(a, b), lambda: np.cross(a, b))
def A_interp(c): x, xp, fp = c.q(), c.q(), c.any(); return lambda: np.interp(x, xp, fp)
def A_linspace(c): a, b = c.q(()), c.q(()); return _each(lambda: np.linspace(a, b, 5), lambda: np.geomspace(a, b, 5), lambda: np.arange(a, b, a))
def A_join(c): a, b = c.q(), c.q(); l = c.keep([a, b]); return _each(lambda: np.concatenate(l), lambda: np.stack(l), lambda: np.vstack(l), lambda: np.hstack(l), lambda: np.append(a, b))
def A_insert(c): a, b, i = c.q(), c.q(()), c.idx(1); return _each(lambda: np.insert(a, i, b), lambda: np.delete(a, i))
def A_sets(c): a, b = c.q(), c.q(); return _each(lambda: np.isin(a, b), lambda: np.union1d(a, b), lambda: np.intersect1d(a, b), lambda: np.setdiff1d(a, b), lambda: np.unique(a))
def A_digitize(c): a, b = c.q(same=True), c.keep(Quantity(np.arange(9.), as_units(c.ex))); return _each(lambda: np.digitize(a, b), lambda: np.histogram(a, b), lambda: np.histogram(a, 3))
def A_average(c): a, w = c.q(), c.any(); return _each(lambda: np.average(a, weights=w), lambda: np.cov(a, w), lambda: np.corrcoef(a, w))
def A_order(c): a = c.q(); p = c.rng.choice([0, 50, [25, 75]]); return _each(lambda: np.median(a), lambda: np.percentile(a, p), lambda: np.partition(a, 0), lambda: np.sort(a), lambda: np.argsort(a), lambda: a.argsort(), lambda: a.argpartition(0), lambda: np.lexsort((a, a)), lambda: sorted(a))
def A_round(c): a = c.q(); return _each(lambda: a.round(1), lambda: round(a, 2), lambda: np.around(a, 1), lambda: pq.around(a, 1) if hasattr(pq, 'around') else 0)
def A_unwrap(c): a, d = c.angle(), c.angle(()); k = c.rng.randrange(3); return lambda: (pq.unwrap(a) if k == 0 else pq.unwrap(a, discont=d) if k == 1 else np.unwrap(a))
def A_trig(c): a = c.angle(); f = c.rng.choice([pq.sin, pq.cos, pq.tan, np.sin, np.cos, np.tan]); return lambda: f(a)
def A_arctrig(c): a = c.dimless(); f = c.rng.choice([pq.arcsin, pq.arccos, pq.arctan, pq.sinh, pq.cosh, pq.tanh, pq.arcsinh, pq.arccosh, pq.arctanh, np.exp, np.log, np.log1p, np.expm1, np.exp2]); return lambda: f(a)
def A_binary(c): a, b = c.q(), c.q(c.rng.choice([(), (c.n,)])); f = c.rng.choice([np.add, np.subtract, np.hypot, np.arctan2, np.maximum, np.minimum, np.fmod, np.remainder, np.less, np.equal, np.floor_divide, np.divmod, pq.hypot, pq.arctan2]); k = c.rng.random() < .5; return lambda: f(a, b) if k else f(b, a)
def A_out(c):
    a, b, o = c.q(), c.q(c.rng.choice([(), (c.n,)])), c.any(dt='d')
    f = c.rng.choice([np.add, np.subtract, np.hypot, np.maximum, np.multiply, np.true_divide])
    return _t(lambda: f(a, b, out=o), o)
def A_where_out(c): a, b, m, o = c.q(), c.q(), c.mask(), c.any(dt='d'); return _t(lambda: np.add(a, b, where=m, out=o), o)
def A_reduce_out(c): a, o = c.q((3, 4)), c.any((4,), 'd'); f = c.rng.choice(['sum', 'mean', 'max', 'min', 'std', 'var', 'nansum', 'ptp']); return _t(lambda: getattr(a, f)(axis=0, out=o), o)
def A_reduce(c): a = c.any(c.rng.choice([(c.n,), (3, 4), (2, 40)])); f = c.rng.choice(['sum', 'mean', 'max', 'min', 'std', 'var', 'nansum', 'nanmean', 'nanstd', 'nanmax', 'nanmin', 'argmax', 'argmin', 'nanargmax', 'nanargmin', 'ptp', 'prod', 'cumsum', 'trace', 'nonzero', 'any', 'all']); k = c.rng.choice([None, 0, -1]); return lambda: getattr(a, f)(k) if f not in ('nonzero', 'trace') else getattr(a, f)()
def A_inplace(c): a, b = c.q(dt='d'), c.q(c.rng.choice([(), (c.n,)])); f = c.rng.choice([operator.iadd, operator.isub, operator.imul, operator.itruediv, operator.imod, operator.ifloordiv]); return _t(lambda: f(a, b), a)
def A_ipow(c): a, p = c.q(dt='d'), c.keep(np.array([2.0] * c.n)); k = c.rng.random() < .5; return (lambda: a ** p) if k else _t(lambda: operator.ipow(a, p), a)
def A_power(c): a, p = c.q(dt='d'), c.keep(Quantity(np.full(c.n, c.rng.choice([2., 3., .5])), '')); return _each(lambda: a ** p, lambda: np.power(a, p), lambda: a ** p[0])
def A_units(c): a, u = c.q(), c.keep(as_units(gen_compatible(c.rng, c.ex), c.rng.choice(['quantity', 'dim', 'string']), c.rng)); return _t(lambda: setattr(a, 'units', u), a)
def A_rescale(c): a, u = c.q(), c.keep(as_units(gen_compatible(c.rng, c.ex), c.rng.choice(['quantity', 'dim', 'string']), c.rng)); dt = c.rng.choice([None, 'd', 'f']); return lambda: a.rescale(u, dt)
def A_rescaleq(c): a, b = c.q(), c.keep(Quantity(np.array(1.0), as_units(gen_compatible(c.rng, c.ex)))); return _each(lambda: a.rescale(b.units), lambda: a.rescale(b.dimensionality), lambda: a.rescale(b))
def A_construct(c): a, u = c.ar(), c.keep(as_units(c.ex, c.rng.choice(['quantity', 'dim']))); return _each(lambda: Quantity(a, u) is None, lambda: Quantity(list(a), u), lambda: Quantity(a, u, dtype='f') is None)
def A_requantity(c): a, u = c.q(), c.keep(as_units(gen_compatible(c.rng, c.ex))); return lambda: (Quantity(a, u), None)[1:]
def A_qlist(c): l = c.lst(); u = c.keep(as_units(c.ex)); return _each(lambda: Quantity(l, u), lambda: sum(l, 0 * u), lambda: max(l), lambda: sorted(l), lambda: l[0] in l)
def A_uq(c): a, u, s = c.ar(dt='d'), c.keep(as_units(c.ex)), c.q(dt='d', positive=True); return lambda: (UQ(a, u, s), None)[1:]
def A_uqset(c): a, s = c.uq(), c.q(dt='d', positive=True); return _t(lambda: a.set_uncertainty(s) if hasattr(a, 'set_uncertainty') else setattr(a, 'uncertainty', s), a)
def A_uqbin(c): a, b = c.uq(), c.q(); f = c.rng.choice([operator.add, operator.sub, operator.mul, operator.truediv, operator.pow, operator.eq, operator.lt]); k = c.rng.random() < .5; return lambda: f(a, b) if k else f(b, a)
def A_uqpow(c): a, p = c.uq(positive=True, nonzero=True), c.keep(np.full(c.n, 2.0)); return _each(lambda: a ** p, lambda: a.relative_uncertainty, lambda: a.sqrt())
def A_dots(c): a, b = c.any(dt='d'), c.any(dt='d'); return _each(lambda: np.dot(a, b), lambda: np.inner(a, b), lambda: np.outer(a, b), lambda: np.convolve(a, b), lambda: np.vdot(a, b), lambda: np.kron(a[:3], b[:3]), lambda: a @ b, lambda: np.einsum('i,i', a, b), lambda: np.tensordot(a, b, 1))
def A_copyto(c): a, b = c.q(), c.q(); return _t(lambda: np.copyto(a, b), a)
def A_compare(c): a, b = c.q(), c.q(c.rng.choice([(), (c.n,)])); return lambda: [f(x, y) for f in (operator.eq, operator.ne) for x, y in ((a, b), (b, a))] + [f(a, b) for f in (operator.lt, operator.ge, operator.gt, operator.le)]
def A_close(c): a, b, t = c.q(), c.q(), c.q(()); return _each(lambda: np.allclose(a, b), lambda: np.isclose(a, b), lambda: np.array_equal(a, b), lambda: np.array_equiv(a, b), lambda: np.allclose(a, b, atol=t))
def A_diff(c): a, p = c.q(), c.q((1,)); return _each(lambda: np.diff(a), lambda: pq.diff(a), lambda: np.diff(a, prepend=p), lambda: np.diff(a, append=p), lambda: np.trapezoid(a))
def A_pad(c): a, v = c.q(), c.q(()); return _each(lambda: np.pad(a, 2), lambda: np.roll(a, 1), lambda: np.flip(a), lambda: np.tile(a, 2), lambda: np.nan_to_num(a), lambda: np.full_like(a, v), lambda: np.ones_like(a))
def A_default(c):
    a, o = c.q(), c.rng.choice([pq.mm, pq.km, 2 * pq.cm, pq.foot])
    c.keep(o)

    def f():
        try:
            pq.set_default_units(length=o)
            return a.simplified
        finally:
            pq.set_default_units('SI')
    return f
def A_preferred(c):
    a, l = c.q(), c.keep([uobj(pick_unit(c.rng).name) for _ in range(4)] + [as_units(gen_compatible(c.rng, c.ex))])

    def f():
        try:
            pq.quantity.PREFERRED = l
            return a.rescale_preferred()
        finally:
            pq.quantity.PREFERRED = []
    return f
def A_define(c):
    d = c.q((), 'd', positive=True, nonzero=True)
    al = c.keep(['qm5al_%d_%d' % (os.getpid(), c.rng.randrange(10 ** 9))])
    return lambda: (pq.UnitQuantity(al[0] + 'n', d, symbol=al[0] + 's', aliases=al), None)[1:]


ARGS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('A_')}
ARGN = sorted(ARGS)


def arguments_case(rng, mon, i):
    """no operation changes any of its arguments other than the one it is there to change"""
    c = Args(rng)
    name = ARGN[i % len(ARGN)]
    f = ARGS[name](c)
    cfg = config_state()
    target = getattr(f, 'target', None)
    kept = [o for o in c.kept if o is not None]
    before = [deep_state(o) for o in kept]
    tb = None if target is None else snap(target)
    for _ in range(2 if target is None else 1):
        r, err = attempt(f)
        for o, b in zip(kept, before):
            if o is target or (target is not None and isinstance(o, np.ndarray) and np.shares_memory(np.asarray(o), np.asarray(target))):
                continue
            now = deep_state(o)
            mon.check(now == b, '%s (%s, %s) changed its argument %s: %s -> %s', name, 'accepted' if err is None else err, 'size %d' % c.n, short(o, 100), short(b), short(now))
        if target is not None and err is not None and name in ('put', 'fill', 'setitem', 'setlist', 'units', 'inplace', 'uqset'):
            mon.check(snap(target) == tb, '%s was refused (%s) and changed its target: %s -> %s', name, err, short(tb), short(snap(target)))
    mon.check(config_state() == cfg, '%s changed the configuration', name)
    mon.ev('argument ' + name, (c.n, tuple((type(o).__name__, getattr(o, 'dtype', None) and o.dtype.char) for o in kept), err is None))
    mon.extra['arguments watched'] += len(kept)


def deep_state(o):
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, len(o)) + tuple((id(x), deep_state(x)) for x in o)
    if isinstance(o, np.ndarray) and not isinstance(o, Quantity):
        return snap(o), o.flags.writeable, o.strides
    if isinstance(o, Quantity) and not isinstance(o, UnitQuantity):
        return snap(o), o.flags.writeable, o.strides
    return snap(o)


REQUIRED_OPS = ('+', 'rescale', 'pickle', 'refuse *=2', 'refuse fill', 'catalogue', 'dimensionality copy', 'd*') + tuple('argument ' + n for n in ARGN)
FAMILIES = [Family('purity', purity_case, 1600, 40000),
            Family('immutable', immutable_case, 780, 1500, seeded=False),
            Family('arguments', arguments_case, 2400, 60000),
            Family('dimcopy', dimcopy_case, 300, 6000)]
