"""C26: results and operands are released; nothing piles up."""
import copy
import gc
import pickle
import random
import threading
import tracemalloc
import weakref
import numpy as np
from ..core import Family
from .. import model as M
from ..lib import *
from quantities import umath, markup

PROP = 'C26'
RULE = ('a case performs one operation on freshly made operands under weak references and object counters: after the operands are dropped a result that is a copy must not keep them alive, after everything is dropped '
        'nothing of it may remain; or repeats one operation on ever new inputs in batches, with the allocations of every batch counted by tracemalloc and the garbage collector; distinct by (operation, operand kinds, '
        'shapes, outcome)')
ASSUMPTIONS = ['released means no longer reachable after a run of the garbage collector; a repeated operation may fill bounded caches of up to some 3000 entries']
JOBS = {'quick': 4, 'thorough': 8}


def setup(mon):
    # what exists now is not looked at again
    gc.collect()
    gc.freeze()


class Args:
    """fresh operands of one case; remembers them only by weak references"""

    def __init__(self, rng, urng=None):
        # units may be chosen by another generator than values
        self.rng, self.refs, self.urng = rng, [], urng or rng
        self.ex = gen_expr(self.urng, 2)
        if not mild(self.ex, -8, 8):
            self.ex = {'kilometer': 1}
        self.shape = rng.choice([(4,), (2, 3), (), (40,)])
        self.kinds = []

    def track(self, o, what):
        self.refs.append((weakref.ref(o), what))
        return o

    def array(self, shape=None, positive=False, dt='d'):
        sh = self.shape if shape is None else shape
        a = np.array([self.rng.uniform(.1 if positive else -9, 9) for _ in range(int(np.prod(sh)))], dt).reshape(sh)
        return self.track(a, 'the array of an operand')

    def q(self, ex=None, shape=None, positive=False, kind=None, dt='d'):
        ex = self.ex if ex is None else ex
        kind = kind or self.rng.choice(['q', 'q', 'q', 'uq'])
        self.kinds.append(kind)
        a = self.array(shape, positive, dt)
        if kind == 'uq':
            return self.track(UQ(a, as_units(ex, 'dim'), np.abs(a) * .1), 'an uncertain operand')
        return self.track(Quantity(a, as_units(ex, 'dim')), 'an operand')

    def other(self, **k):
        ex = gen_compatible(self.urng, self.ex)
        if not 1e-6 < M.fl(M.ratio(self.ex, ex)) < 1e6:
            ex = self.ex
        return self.q(ex, **k)

    def wrong(self, **k):
        return self.q(gen_incompatible(self.urng, self.ex), **k)

    def units(self):
        ex = gen_compatible(self.urng, self.ex)
        return as_units(ex, self.urng.choice(['quantity', 'dim', 'unit', 'string']), self.urng)

    def compound(self):
        u = pq.CompoundUnit('%s/%s**%d' % (self.rng.choice(['m', 'kg', 'parsec']), self.rng.choice(['s', 'cm', 'inch']), self.rng.randint(1, 99)))
        return self.track(u, 'a compound unit')


def alive(refs):
    return [w for r, w in refs if r() is not None]


def refuse(f):
    """a refused operation and its traceback leave nothing behind"""
    try:
        f()
    except Exception as e:
        return type(e).__name__
    return None


def in_thread(f):
    out = []
    t = threading.Thread(target=lambda: out.append(f()))
    t.start()
    t.join()
    return out[0]


def flip(f):
    """under other default units"""
    pq.set_default_units('cgs')
    try:
        return f()
    finally:
        pq.set_default_units('SI')


def preferred(q):
    pq.quantity.PREFERRED = [Quantity(1.0, q.dimensionality)]
    try:
        return q.rescale()
    finally:
        pq.quantity.PREFERRED = []


def pure_strings(rng):
    """unit texts that never repeat"""
    n = rng.randrange(10 ** 12)
    return rng.choice(['m**%d/s' % (n % 97 + 2), 'kg*m**%d' % (n % 89 + 2), 'm * s**-%d' % (n % 83 + 2), 'm/s**0.%d' % n, 'V**0.%d*%s' % (n, rng.choice(['A', 's', 'inch']))])


# name -> (operation, the result is a copy).  The operation gets the operands made by it from Args.
OPS = {
    'add': (lambda a: (a.q(), a.other()), lambda x, y: x + y),
    'sub': (lambda a: (a.q(), a.other()), lambda x, y: x - y),
    'mod': (lambda a: (a.q(kind='q'), a.other(kind='q')), lambda x, y: x % y),
    'mul': (lambda a: (a.q(), a.wrong()), lambda x, y: x * y),
    'div': (lambda a: (a.q(), a.wrong(positive=True)), lambda x, y: x / y),
    'floordiv': (lambda a: (a.q(kind='q'), a.other(positive=True, kind='q')), lambda x, y: x // y),
    'plain mul': (lambda a: (a.q(), a.array()), lambda x, y: y * x),
    'unit mul': (lambda a: (a.array(),), lambda x: x * pq.kilometer / pq.hour),
    'pow': (lambda a: (a.q(positive=True), a.rng.choice([2, -1, .5, 3, 0])), lambda x, y: x ** y),
    'power': (lambda a: (a.q({}, positive=True, kind='q'),), lambda x: 2 ** x if x.size == 1 else np.exp(x)),
    'neg': (lambda a: (a.q(),), lambda x: -x),
    'abs': (lambda a: (a.q(),), abs),
    'rescale': (lambda a: (a.q(), a.units()), lambda x, u: x.rescale(u)),
    'rescale same': (lambda a: (a.q(),), lambda x: x.rescale(x.units)),
    'rescale preferred': (lambda a: (a.q(kind='q'),), preferred),
    'simplified': (lambda a: (a.q(),), lambda x: x.simplified),
    'simplified cgs': (lambda a: (a.q(),), lambda x: flip(lambda: x.simplified)),
    'dimensionless_magnitude': (lambda a: (a.q({'percent': 1}, kind='q'),), lambda x: x.dimensionless_magnitude),
    'dimensionality': (lambda a: (a.q(),), lambda x: x.dimensionality),
    'dimensionality algebra': (lambda a: (a.q(), a.wrong()), lambda x, y: (x.dimensionality * y.dimensionality, x.dimensionality / y.dimensionality, x.dimensionality ** 2, x.dimensionality.simplified)),
    'units': (lambda a: (a.q(),), lambda x: x.units),
    'eq': (lambda a: (a.q(), a.other()), lambda x, y: (x == y, x != y)),
    'eq incompatible': (lambda a: (a.q(), a.wrong()), lambda x, y: (x == y, x != y)),
    'less': (lambda a: (a.q(), a.other()), lambda x, y: (x < y, x >= y)),
    'copy': (lambda a: (a.q(),), lambda x: (x.copy(), copy.copy(x), copy.deepcopy(x))),
    'pickle': (lambda a: (a.q(), a.rng.choice(range(pickle.HIGHEST_PROTOCOL + 1))), lambda x, p: pickle.loads(pickle.dumps(x, p))),
    'astype': (lambda a: (a.q(), a.rng.choice('fd')), lambda x, t: x.astype(t)),
    'sum': (lambda a: (a.q(), a.rng.choice(['sum', 'mean', 'max', 'min'])), lambda x, n: getattr(x, n)()),
    'nan': (lambda a: (a.q(), a.rng.choice(['nansum', 'nanmean', 'nanmax', 'nanmin'])), lambda x, n: getattr(x, n)()),
    'std': (lambda a: (a.q(kind='q'), a.rng.choice(['std', 'var', 'ptp', 'prod', 'cumsum', 'argmax', 'argmin', 'nonzero'])), lambda x, n: getattr(np.atleast_1d(x) if n == 'nonzero' else x, n)()),
    'clip': (lambda a: (a.q(kind='q'), a.q(shape=(), kind='q', positive=True)), lambda x, y: x.clip(-y, y)),
    'searchsorted': (lambda a: (a.q(shape=(5,), kind='q'), a.q(shape=(), kind='q')), lambda x, y: np.sort(x).searchsorted(y)),
    'argsort': (lambda a: (a.q(shape=(5,), kind='q'),), lambda x: x.argsort()),
    'round': (lambda a: (a.q(kind='q'), a.rng.choice([0, 1, 2])), lambda x, d: x.round(d)),
    'trace': (lambda a: (a.q(shape=(3, 3), kind='q'),), lambda x: x.trace()),
    'tolist': (lambda a: (a.q(kind='q'),), lambda x: x.tolist()),
    'item': (lambda a: (a.q(shape=(), kind='q'),), lambda x: (float(x), x.item(), bool(x))),
    'text': (lambda a: (a.q(),), lambda x: (str(x), repr(x), '%s' % x)),
    'format': (lambda a: (a.q(shape=(), kind='q'),), lambda x: ('{:.3f}'.format(x), f'{x}')),
    'markup': (lambda a: (a.q(),), lambda x: (x.dimensionality.string, x.dimensionality.latex, x.dimensionality.unicode, x.dimensionality.html)),
    'hash': (lambda a: (a.q(),), lambda x: (hash(x.dimensionality), {x.dimensionality: 1})),
    'ufunc': (lambda a: (a.q(kind='q', positive=True), a.rng.choice(['sqrt', 'square', 'fabs', 'reciprocal', 'negative', 'floor', 'isfinite'])), lambda x, n: getattr(np, n)(x)),
    'ufunc2': (lambda a: (a.q(kind='q'), a.q(kind='q'), a.rng.choice(['add', 'maximum', 'hypot', 'arctan2', 'less', 'multiply', 'divide'])), lambda x, y, n: getattr(np, n)(x, y)),
    'exp': (lambda a: (a.q({'percent': 1}, kind='q'), a.rng.choice(['exp', 'expm1', 'sinh', 'cosh'])), lambda x, n: (getattr(pq, n) if n[-1] == 'h' else getattr(np, n))(x if n[-1] == 'h' else x.simplified)),
    'trig': (lambda a: (a.q({'arcdegree': 1}, kind='q'), a.rng.choice(['sin', 'cos', 'tan'])), lambda x, n: getattr(pq, n)(x)),
    'umath2': (lambda a: (a.q(kind='q'), a.q(kind='q'), a.rng.choice(['arctan2', 'hypot'])), lambda x, y, n: getattr(pq, n)(x, y)),
    'trapz': (lambda a: (a.q(shape=(4,), kind='q'), a.q({'second': 1}, shape=(4,), kind='q')), lambda x, y: pq.trapz(x, y)),
    'gradient': (lambda a: (a.q(shape=(4,), kind='q'),), lambda x: pq.gradient(x)),
    'diff': (lambda a: (a.q(shape=(4,), kind='q'), a.rng.choice(['diff', 'ediff1d', 'cumsum', 'sum', 'nansum'])), lambda x, n: getattr(pq, n)(x)),
    'cross': (lambda a: (a.q(shape=(3,), kind='q'), a.wrong(shape=(3,), kind='q')), lambda x, y: pq.cross(x, y)),
    'parse': (lambda a: (a.array(),), lambda x: x * Quantity(1.0, 'kg*m**2/s**2')),
    'list data': (lambda a: (a.q(shape=(4,)),), lambda x: Quantity([1.0, 2.0, 3.0, 4.0], x.dimensionality) + x),
    'uncertain exponent': (lambda a: (a.q({}, kind='uq', positive=True), a.q({}, kind='uq', shape=())), lambda x, y: x ** y),
    'uncertain': (lambda a: (a.q(kind='uq'), a.other(kind='uq')), lambda x, y: ((x + y) * 2 - x).rescale(y.units).uncertainty),
    'compound': (lambda a: (a.compound(), a.array()), lambda u, x: (x * u).simplified),
    'iterate': (lambda a: (a.q(shape=(4,)),), lambda x: sum(float(e.magnitude) for e in x)),
    'thread': (lambda a: (a.q(), a.other()), lambda x, y: in_thread(lambda: x.rescale(y.units) + y)),
    # in place and view results are dropped along with their operands
    'v iadd': (lambda a: (a.q(), a.other()), lambda x, y: x.__iadd__(y)),
    'v isub': (lambda a: (a.q(), a.other()), lambda x, y: x.__isub__(y)),
    'v imul': (lambda a: (a.q(), a.wrong()), lambda x, y: x.__imul__(y)),
    'v itruediv': (lambda a: (a.q(), a.wrong(positive=True)), lambda x, y: x.__itruediv__(y)),
    'v ipow': (lambda a: (a.q(positive=True), a.rng.choice([2, -1, 3])), lambda x, y: x.__ipow__(y)),
    'v units=': (lambda a: (a.q(), a.units()), lambda x, u: setattr(x, 'units', u)),
    'v out': (lambda a: (a.q(kind='q'), a.other(kind='q'), a.q(kind='q')), lambda x, y, o: np.multiply(x, y, out=o)),
    'v setitem': (lambda a: (a.q(shape=(4,)), a.other(shape=(), kind='q')), lambda x, y: x.__setitem__(1, y)),
    'v put': (lambda a: (a.q(shape=(4,), kind='q'), a.other(shape=(), kind='q')), lambda x, y: x.put([1, 2], y)),
    'v fill': (lambda a: (a.q(kind='q'), a.other(shape=(), kind='q')), lambda x, y: x.fill(y)),
    'v index': (lambda a: (a.q(shape=(4,)),), lambda x: (x[0], x[1:3], x[::2], x[[0, 2]], x[x.magnitude > 0])),
    'v view': (lambda a: (a.q(kind='q'),), lambda x: (x.magnitude, x.real, x.imag, x.T, x.view(Quantity), x.ravel(), x.flatten())),
    'v real': (lambda a: (a.q(kind='q'), a.other(kind='q', shape=())), lambda x, y: setattr(x, 'real', y)),
    'v Quantity': (lambda a: (a.q(),), lambda x: (Quantity(x), Quantity(x, x.units), UQ(x))),
    'v uncertainty': (lambda a: (a.q(kind='uq'),), lambda x: (x.uncertainty, x.relative_uncertainty, setattr(x, 'uncertainty', x.uncertainty * 2))),
    'v sort': (lambda a: (a.q(shape=(5,), kind='q'),), lambda x: x.sort()),
    # refusals
    'r add': (lambda a: (a.q(), a.wrong()), lambda x, y: refuse(lambda: x + y)),
    'r iadd': (lambda a: (a.q(), a.wrong()), lambda x, y: refuse(lambda: x.__iadd__(y))),
    'r rescale': (lambda a: (a.q(), a.wrong()), lambda x, y: refuse(lambda: x.rescale(y.units))),
    'r units=': (lambda a: (a.q(), a.wrong()), lambda x, y: refuse(lambda: setattr(x, 'units', y.units))),
    'r pow': (lambda a: (a.q(), a.q({'meter': 1})), lambda x, y: refuse(lambda: x ** y)),
    'r ufunc': (lambda a: (a.q(), a.wrong()), lambda x, y: refuse(lambda: np.maximum(x, y))),
    'r setitem': (lambda a: (a.q(shape=(4,)), a.wrong(shape=())), lambda x, y: refuse(lambda: x.__setitem__(0, y))),
    'r uncertainty': (lambda a: (a.q(kind='uq'), a.wrong(kind='q')), lambda x, y: refuse(lambda: setattr(x, 'uncertainty', y))),
    'r sin': (lambda a: (a.q({'meter': 1}, kind='q'),), lambda x: refuse(lambda: pq.sin(x))),
    'r view units': (lambda a: (a.q(shape=(4,)),), lambda x: refuse(lambda: x[1:].__imul__(pq.s))),
    'r parse': (lambda a: (a.q(),), lambda x: refuse(lambda: x.rescale('no_such_unit'))),
    'r preferred': (lambda a: (a.q(kind='q'),), lambda x: refuse(lambda: x.rescale())),
    'r definition': (lambda a: (a.q(shape=(), kind='q'),), lambda x: refuse(lambda: UnitQuantity('leak_%d' % a_counter(), x, symbol='m'))),
    'r default': (lambda a: (a.q(),), lambda x: refuse(lambda: pq.set_default_units(length='no_such_unit'))),
}
COUNTER = [0]


def a_counter():
    COUNTER[0] += 1
    return COUNTER[0]


NAMES = sorted(OPS)


def results(r, out):
    """weak references to the parts of a result"""
    if isinstance(r, (tuple, list)):
        for x in r:
            results(x, out)
    elif isinstance(r, dict):
        for x in r:
            results(x, out)
        if type(r) is not dict:
            out.append((weakref.ref(r), 'a result of type %s' % type(r).__name__))
    elif isinstance(r, np.ndarray) and not (isinstance(r, UnitQuantity) and not isinstance(r, pq.CompoundUnit)):
        out.append((weakref.ref(r), 'a result of type %s' % type(r).__name__))
    return out


def release_case(rng, mon, i):
    name = NAMES[i % len(NAMES)]
    make, op = OPS[name]
    a = Args(rng)
    objs = make(a)
    n = len(a.refs)
    markup.config.use_unicode = uni = rng.random() < .2
    try:
        r = op(*objs)
    finally:
        markup.config.use_unicode = False
    kind = name[0] if name[1] == ' ' else 'copy'
    if kind == 'r':
        mon.check(r is not None, '%s on %s was not refused', name, objs)
    what = '%s on %s' % (name, short(objs))
    objs = None
    if kind == 'copy':
        left = alive(a.refs)
        if left:
            gc.collect()
            mon.extra['needed the collector'] += 1
            left = alive(a.refs)
        mon.check(not left, '%s: the result keeps alive %s', what, left)
        mon.extra['operands seen released while the result was held'] += n
    refs = a.refs + results(r, [])
    r = None
    left = alive(refs)
    if left:
        gc.collect()
        mon.extra['needed the collector'] += 1
        left = alive(refs)
    mon.check(not left, '%s: after everything was dropped there remain %s', what, left)
    mon.extra['objects seen released'] += len(refs)
    mon.ev('release ' + name, (tuple(a.kinds), a.shape, uni, tuple(sorted(a.ex.items(), key=str)) if i < 4 * len(NAMES) else ()), what)


GROW = {n: None for n in NAMES}
EXTRA = {
    'parse texts': lambda rng: Quantity(1.0, pure_strings(rng)).dimensionality,
    'parse numbers': lambda rng: refuse(lambda: Quantity(1.0, '%r*m' % rng.random())),
    'refuse texts': lambda rng: refuse(lambda: Quantity(1.0, 'm**%d +' % rng.randrange(10 ** 9))),
    'refuse names': lambda rng: refuse(lambda: unit_registry['no_such_unit**%d' % rng.randrange(10 ** 12)]),
    'exponents': lambda rng: (pq.Quantity(2.0, 'm') ** rng.uniform(.1, 3)).simplified,
    'rescale exponents': lambda rng: [Quantity(2.0, pq.ft.dimensionality ** p).rescale(pq.m.dimensionality ** p) for p in [rng.uniform(.1, 3)]],
    'compare exponents': lambda rng: [(Quantity(2.0, pq.ft.dimensionality ** p) == Quantity(2.0, pq.m.dimensionality ** p), refuse(lambda: Quantity(2.0, pq.ft.dimensionality ** p) + pq.s)) for p in [rng.uniform(.1, 3)]],
    'dimensionality powers': lambda rng: hash((pq.m.dimensionality * pq.s.dimensionality) ** rng.uniform(.1, 3)),
    'markup': lambda rng: [getattr((pq.m ** rng.uniform(.1, 3) / pq.s).dimensionality, x) for x in ('string', 'unicode', 'latex', 'html')],
    'compound units': lambda rng: (3 * pq.CompoundUnit('m**%d/s**%d' % (rng.randint(1, 999), rng.randint(1, 999)))).simplified,
    'magnitudes': lambda rng: (Quantity(rng.random(), 'ft') + Quantity(rng.random(), 'inch')).rescale('mm'),
    'default units': lambda rng: (pq.set_default_units(length=rng.choice(['ft', 'm', 'cm'])), pq.yard.simplified, pq.set_default_units(length='m')),
    'refused definitions': lambda rng: refuse(lambda: UnitQuantity('leak%d' % rng.randrange(10 ** 12), 2 * pq.m, symbol='m', aliases=['leakier%d' % rng.randrange(10 ** 12)])),
    'pickled units': lambda rng: pickle.loads(pickle.dumps(rng.choice([pq.m, pq.ft, pq.constants.electron_mass, pq.CompoundUnit('m/s**%d' % rng.randint(1, 99))]))),
    'copied units': lambda rng: (copy.copy(pq.ft), copy.deepcopy(pq.hour)),
    'threads': lambda rng: in_thread(lambda: (Quantity(rng.random(), 'ft').rescale('m'), Quantity(rng.random(), 'm').simplified)),
    'shapes': lambda rng: Quantity(np.ones(rng.randint(1, 500)), 'm').rescale('ft').sum(),
}
GROW.update(EXTRA)
GNAMES = sorted(GROW)


def one(rng, name, k):
    """the k-th call of a batch: the units come back in every batch, the values do not"""
    f = GROW[name]
    if f is not None:
        f(rng)
        return
    make, op = OPS[name]
    a = Args(rng, random.Random('%s/%s' % (name, k)))
    op(*make(a))


def growth_case(rng, mon, i):
    """batches of one operation on ever new inputs"""
    name = GNAMES[i % len(GNAMES)]
    n = 60
    # names that are new every time would be kept by python's parser, numbers are not
    for k in range(n):
        one(rng, name, k)
    tracemalloc.start(1)
    try:
        sizes, objects = [], []
        def measure(times):
            for b in range(times):
                for k in range(n):
                    one(rng, name, k)
                gc.collect()
                sizes.append(tracemalloc.get_traced_memory()[0])
                objects.append(len(gc.get_objects()))
            return [y - x for x, y in zip(sizes, sizes[1:])][-3:], [y - x for x, y in zip(objects, objects[1:])][-3:]
        ds, do = measure(5)
        if min(ds) >= 64 * n or min(do) >= n // 2:
            # a bounded cache is full at some point
            for b in range(45):
                for k in range(n):
                    one(rng, name, k)
            ds, do = measure(4)
            mon.extra['longer runs'] += 1
    finally:
        tracemalloc.stop()
    mon.extra['bytes seen growing per 1000 calls (%s)' % name] = max(0, int(1000 * min(ds) / n))
    mon.check(min(ds) < 64 * n and min(do) < n // 2, '%d more calls of "%s" on new inputs leave %s bytes and %s objects behind, in every batch', n, name, ds, do)
    mon.ev('growth ' + name, (name, i // len(GNAMES)), 'bytes per batch %s, objects %s' % (ds, do))


FAMILIES = [Family('release', release_case, len(NAMES) * 30, len(NAMES) * 600), Family('growth', growth_case, len(GNAMES), len(GNAMES) * 10)]
REQUIRED_OPS = ['release ' + n for n in NAMES] + ['growth ' + n for n in GNAMES]
