"""C22: user-defined and compound units."""
import copy, pickle, operator, re
from fractions import Fraction as F
import numpy as np
from ..core import Family, Violation
from .. import model as M
from ..lib import *
from quantities import unitquantity as U, markup

PROP = 'C22'
QUICK_SCALE = 2
RULE = ('a case is a random history of unit definitions (fresh, chained, repeated, conflicting in name, symbol or alias, malformed, compound); a reference table built from the definitions alone predicts every lookup, conversion, '
        'simplification, comparison, rendering and pickle; after every step all labels of the case and a sample of catalogue labels are looked up again, and a refused definition must leave no trace; distinct by '
        '(step kinds so far, definition kind, depth of the chain, probe, outcome)')
CLS = {'kg': U.UnitMass, 'm': U.UnitLength, 's': U.UnitTime, 'A': U.UnitCurrent, 'K': U.UnitTemperature, 'mol': U.UnitSubstance, 'cd': U.UnitLuminousIntensity, 'bit': U.UnitInformation}
COUNT = [0]
PROPS = ['convert', 'simplify', 'compare', 'arith', 'render', 'pickle', 'parse', 'copy', 'incompatible', 'dimsimplify']


class Ref:
    """reference definition of a user unit: value and dimension over the SI bases and the user's own bases"""

    def __init__(self, name, val, dim, depth, labels, obj, args):
        self.name, self.val, self.dim, self.depth, self.labels, self.obj, self.args = name, val, dim, depth, labels, obj, args


def mdim(name):
    return {b: e for b, e in zip(M.BASE, M.BY_NAME[name].dim) if e}


class World:
    def __init__(self, tag, rng=None):
        self.tag = tag
        self.rng = rng
        self.units = {}      # name -> Ref
        self.owner = {}      # label -> object that lookups must give
        self.free = []       # labels of refused definitions that must stay unknown
        self.n = 0
        self.trace = []

    def fresh(self):
        self.n += 1
        name = '%s_%d' % (self.tag, self.n)
        rng = self.rng
        if rng is not None and rng.random() < .35:
            # a name much like that of another unit: only the case, an underscore or the end differs
            o = rng.choice(sorted(self.units)) if self.units and rng.random() < .8 else name
            k = rng.randrange(len(o))
            like = rng.choice([o[:k] + o[k:].swapcase(), o[:k] + o[k].swapcase() + o[k + 1:], o + '_', '_' + o, o.replace('_', '__'), o + 'o', o + 'z' * 60, o.upper(), o.replace('_', '')])
            new = [like + x for x in ('', 's', 'x', 'y')]
            if like.isidentifier() and not any(x in self.owner or x in self.free for x in new) and all(attempt(lambda: unit_registry[x])[1] is not None for x in new):
                return like
        return name

    def val(self, ex):
        r = F(1)
        for k, e in ex.items():
            v = self.units[k].val if k in self.units else M.BY_NAME[k].val
            r *= M._dpow(v, M.as_frac(e))
        return r

    def dim(self, ex):
        d = {}
        for k, e in ex.items():
            for b, x in (self.units[k].dim if k in self.units else mdim(k)).items():
                d[b] = d.get(b, 0) + x * M.as_frac(e)
        return {b: x for b, x in d.items() if x}

    def base_expr(self, dim):
        return {M.SI_NAMES.get(b, b): e for b, e in dim.items()}

    def obj(self, k):
        return self.units[k].obj if k in self.units else uobj(k)

    def units_of(self, ex):
        q = 1 * pq.dimensionless
        for k, e in ex.items():
            q = q * self.obj(k) ** pexp(e)
        return Quantity(1.0, q.dimensionality)

    def depth(self, ex):
        return max([self.units[k].depth for k in ex if k in self.units] or [0])

    def sane(self, ex, lo=1e-30, hi=1e30):
        return lo < self.val(ex) < hi


def gen(rng, w, user=.6, empty=True):
    """random expression over catalogue and user units"""
    for _ in range(30):
        ex = {}
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            k = rng.choice(sorted(w.units)) if w.units and rng.random() < user else pick_unit(rng).name
            ex = M.ex_mul(ex, {k: rng.choice([1, 1, 1, -1, 2, -2, F(1, 2)] if k not in w.units or w.units[k].depth < 3 else [1, 1, -1])})
        if (ex or empty) and w.sane(ex):
            return ex
    return {'meter': 1}


def same_dim_expr(rng, w, ex):
    """another expression of the same dimension: replace user units by their bases, catalogue units by alternatives"""
    new = {}
    for k, e in ex.items():
        if k in w.units:
            c = rng.random()
            if c < .4:
                alts = [u.name for u in w.units.values() if u.dim == w.units[k].dim]
                new = M.ex_mul(new, {rng.choice(sorted(alts)): e})
            else:
                new = M.ex_mul(new, M.ex_pow(w.base_expr(w.units[k].dim), e))
        else:
            new = M.ex_mul(new, {rng.choice(M.GROUPS[M.BY_NAME[k].dim]).name if M.BY_NAME[k].dim in M.GROUPS and rng.random() < .6 else k: e})
    if w.dim(new) != w.dim(ex) or not w.sane(new) or not 1e-40 < w.val(ex) / w.val(new) < 1e40:
        return dict(ex)
    return new


COEF = [1.0, 2.0, 3.0, .5, 7.0, 12.0, 0.1, 0.3048, 1e-3, 1e3, 360.0, 1 / 3, 9.80665, 2.5e-7]


def definition(rng, w):
    """(argument for the constructor, expression, coefficient, kind)"""
    c = rng.random()
    if c < .06:
        return None, None, None, 'base'
    if c < .14:
        k = rng.choice([rng.choice(COEF), rng.randint(1, 50)])
        return k, {}, F(k), 'number'
    if c < .26:
        ex = {rng.choice(sorted(w.units)) if w.units and rng.random() < .6 else pick_unit(rng).name: 1}
        if not w.sane(ex):
            ex = {'foot': 1}
        return w.obj(list(ex)[0]), ex, F(1), 'unit'
    ex = gen(rng, w)
    if c < .4:
        k = rng.randint(1, 60)
        return Quantity(np.array(k, dtype=rng.choice(['l', 'i', 'h', 'B'])), w.units_of(ex)), ex, F(k), 'integer'
    if c < .5:
        k = rng.choice([.5, 2.5, 3.0, 1 / 1024])
        return Quantity(np.float32(k), w.units_of(ex), dtype='f'), ex, F(k), 'float32'
    if c < .75:
        k = rng.choice(COEF)
        q = k
        for n, e in ex.items():
            q = q * w.obj(n) ** pexp(e)
        if not isinstance(q, Quantity):
            q = q * pq.dimensionless
        return q, ex, F(k), 'product'
    k = rng.choice(COEF)
    return Quantity(k, w.units_of(ex)), ex, F(k), 'quantity'


def check_lookups(mon, w, rng, why):
    for lab, o in w.owner.items():
        got, err = attempt(lambda: unit_registry[lab])
        mon.check(err is None and got is o, '%s: looking up %r gives %r, expected %r; history %s', why, lab, got if err is None else err, o, w.trace)
    for lab in w.free:
        got, err = attempt(lambda: unit_registry[lab])
        mon.check(err is not None, '%s: label %r of a refused definition gives %r; history %s', why, lab, got, w.trace)
    for lab in rng.sample(LABELS, 6):
        mon.check(unit_registry[lab] is CATALOGUE[lab], '%s: catalogue label %r gives %r', why, lab, unit_registry[lab])


LABELS = []
CATALOGUE = {}


def setup(mon):
    for l in sorted(M.BY_LABEL):
        if l.isidentifier() and l not in ('in', 'as'):
            LABELS.append(l)
            CATALOGUE[l] = unit_registry[l]


DEFS = {'length': ('m', ['centimeter', 'foot', 'kilometer']), 'mass': ('kg', ['gram', 'pound', 'tonne']), 'time': ('s', ['minute', 'hour', 'millisecond']), 'current': ('A', ['milliampere']), 'temperature': ('K', ['Rankine']),
        'substance': ('mol', ['micromole']), 'information': ('bit', ['byte'])}


class other_defaults:
    """other default units while something happens; names the default unit of each SI base symbol"""

    def __init__(self, rng, p=.3):
        self.rng, self.p, self.used = rng, p, {}

    def __enter__(self):
        if self.rng.random() < self.p:
            if self.rng.random() < .3:
                pq.set_default_units('cgs')
                self.used = {'m': 'centimeter', 'kg': 'gram'}
            else:
                for k in self.rng.sample(sorted(DEFS), self.rng.choice([1, 2, 3])):
                    self.used[DEFS[k][0]] = u = self.rng.choice(DEFS[k][1])
                    pq.set_default_units(**{k: uobj(u)})
        return self.used

    def __exit__(self, *a):
        if self.used:
            pq.set_default_units('SI', information='bit')


def step_define(rng, mon, w):
    arg, ex, k, kind = definition(rng, w)
    name = w.fresh()
    symbol = rng.choice([None, None, name + 's', name + 's', name])
    u_symbol = rng.choice([None, None, name + '\u00b5'])
    aliases = rng.choice([[], [], [name + 'x'], [name + 'x', name + 'y'], (name + 'x',), [name]])
    doc = rng.choice([None, 'a unit'])
    if kind == 'base':
        val, dim, depth = F(1), {name: F(1)}, 1
    else:
        val, dim, depth = k * w.val(ex), w.dim(ex), w.depth(ex) + 1
        if not 1e-25 < val < 1e25:
            return
    cls = pq.UnitQuantity
    bases = list(dim.items())
    if len(bases) == 1 and bases[0][1] == 1 and bases[0][0] in CLS and rng.random() < .5 and kind != 'base':
        cls = CLS[bases[0][0]]
    keep = cls.get_default_unit() if cls is not pq.UnitQuantity else None
    watch = Watch(arg) if arg is not None else None
    # the meaning of a definition does not depend on the default units in force
    with other_defaults(rng) as used:
        u = cls(name, arg, symbol, u_symbol, aliases, doc) if rng.random() < .5 else cls(name, definition=arg, symbol=symbol, u_symbol=u_symbol, aliases=aliases, doc=doc)
    if used:
        mon.ev('other defaults', (tuple(sorted(used.items())), kind, depth))
    if keep is not None:
        mon.check(cls.get_default_unit() is keep, 'defining %r changed the default %s', u, cls.__name__)
    if watch is not None:
        watch.verify('defining a unit')
    if kind in ('integer', 'quantity', 'product', 'float32') and isinstance(arg, Quantity) and not isinstance(arg, UnitQuantity) and rng.random() < .4:
        # the definition is fixed at this point
        arg.fill(77)
        mon.ev('definition reused', kind)
    labels = [name] + ([symbol] if symbol else []) + list(aliases)
    w.units[name] = Ref(name, val, dim, depth, labels, u, (cls, name, arg, symbol, u_symbol, aliases, doc))
    w.units[name].ex, w.units[name].k = ex, k
    for l in labels:
        w.owner[l] = u
    w.trace.append('define %s as %s (%s, %s)' % (labels, kind, k, M.show(ex) if ex else ex))
    mon.check(u.name == name and u.symbol == (symbol or name) and u.u_symbol == (u_symbol or symbol or name), 'unit %r has name %r, symbol %r, u_symbol %r', u, u.name, u.symbol, u.u_symbol)
    mon.check(type(u) is cls and dims(u) == {name: 1} and float(u.magnitude) == 1 and not u.flags.writeable, 'unit %r: %s', u, snap(u))
    mon.ev('define', (kind, depth, cls.__name__, bool(symbol), len(aliases)), w.trace[-1])
    return name


def step_again(rng, mon, w):
    """defining the same unit again is harmless"""
    if not w.units:
        return
    r = w.units[rng.choice(sorted(w.units))]
    cls, name, arg, symbol, u_symbol, aliases, doc = r.args
    if isinstance(arg, Quantity) and r.ex is not None:
        # written afresh
        arg = Quantity(float(r.k), w.units_of(r.ex))
    how = rng.choice(['construct', 'copy', 'deepcopy', 'pickle', 'register', 'more labels'])
    if how in ('construct', 'copy', 'deepcopy', 'pickle'):
        with other_defaults(rng):
            if how == 'construct':
                u = cls(name, arg, symbol, u_symbol, aliases, doc)
            elif how == 'copy':
                u = rng.choice([copy.copy, UnitQuantity.copy])(r.obj)
            elif how == 'deepcopy':
                u = copy.deepcopy(r.obj)
            else:
                u = pickle.loads(pickle.dumps(r.obj, rng.randrange(2, 6)))
    elif how == 'register':
        u = r.obj
        unit_registry[rng.choice(r.labels)] = u
    else:
        lab = w.fresh()
        u = cls(name, arg, symbol, u_symbol, list(aliases) + [lab], doc)
        got = unit_registry[lab]
        mon.check(bool(got == r.obj) and same_dims(got, {name: 1}), 'new alias %r of %r gives %r', lab, r.obj, got)
    mon.check(type(u) is cls and u.name == name and u.symbol == r.obj.symbol and u.u_symbol == r.obj.u_symbol, '%s of %r gives %r', how, r.obj, u)
    mon.check(bool(u == r.obj) and hash(u) == hash(r.obj) and u.dimensionality == r.obj.dimensionality, '%s of %r is %r: not equal', how, r.obj, u)
    # both mean the same unit in arithmetic
    x = (3 * u) / (2 * r.obj)
    mon.check(dims(x) == {} and float(x) == 1.5, '(3 %r)/(2 %r) is %r', u, r.obj, x)
    mon.check(float((2 * u).rescale(r.obj)) == 2.0 and float(((2 * u) + (1 * r.obj)).magnitude) == 3.0, '%s of %r does not convert to it', how, r.obj)
    w.trace.append('%s %s again' % (how, name))
    mon.ev('again', (how, cls.__name__, r.depth), w.trace[-1])


def step_conflict(rng, mon, w):
    """a definition that takes a label of another unit is refused completely"""
    taken = rng.choice(sorted(w.owner)) if w.owner and rng.random() < .6 else rng.choice(LABELS)
    owner = w.owner.get(taken) or CATALOGUE[taken]
    where = rng.choice(['name', 'symbol', 'alias', 'second alias', 'assignment'])
    fresh = w.fresh()
    d = rng.choice([7.125 * pq.m ** 5, 7.125 * pq.kg ** 3 * pq.s, 3.50390625, Quantity(2.0, owner), 1.0000001 * owner, 2.00390625 * pq.m, None, 13.25 * owner ** 2])
    if d is None and where == 'name':
        d = 7.5 * pq.m ** 5
    sdef = None if d is None else str(d)
    if where == 'assignment':
        def f():
            unit_registry[taken] = rng.choice([pq.UnitConstant('zz', d if d is not None else 3.0078125, symbol='zz'), 2.5 * owner])
        free = []
    elif where == 'name':
        f = lambda: pq.UnitQuantity(taken, d, symbol=fresh + 's', aliases=[fresh + 'x'])
        free = [fresh + 's', fresh + 'x']
    elif where == 'symbol':
        f = lambda: pq.UnitQuantity(fresh, d, symbol=taken, aliases=[fresh + 'x'])
        free = [fresh, fresh + 'x']
    elif where == 'alias':
        f = lambda: pq.UnitQuantity(fresh, d, symbol=fresh + 's', aliases=[taken])
        free = [fresh, fresh + 's']
    else:
        f = lambda: pq.UnitQuantity(fresh, d, symbol=fresh + 's', aliases=[fresh + 'x', fresh + 'y', taken, fresh + 'z'])
        free = [fresh, fresh + 's', fresh + 'x', fresh + 'y', fresh + 'z']
    r, err = attempt(f)
    w.trace.append('conflict: %s %r = %s' % (where, taken, sdef))
    # (where == 'name': a base unit of the same name without definition would be the same unit)
    mon.check(err is not None, 'rebinding %r (%s) from %r to %s is accepted; history %s', taken, where, owner, sdef, w.trace)
    w.free += free
    mon.ev('conflict', (where, 'user' if taken in w.owner else 'catalogue', sdef is None, type(owner).__name__), w.trace[-1])
    if free and rng.random() < .5:
        # the labels can be used for a proper definition
        lab = rng.choice(free)
        w.free.remove(lab)
        u = pq.UnitQuantity(lab, 4.75 * pq.m)
        w.units[lab] = Ref(lab, F(4.75), {'m': F(1)}, 1, [lab], u, (pq.UnitQuantity, lab, 4.75 * pq.m, None, None, [], None))
        w.units[lab].ex, w.units[lab].k = {'meter': 1}, F(4.75)
        w.owner[lab] = u
        w.trace.append('define %s after the refusal' % lab)
        mon.check(float(unit_registry[lab].rescale('m')) == 4.75 and u.symbol == lab, '%r after a refused definition is %r', lab, unit_registry[lab])
        mon.ev('after refusal', where)


def step_malformed(rng, mon, w):
    fresh = w.fresh()
    f, what = rng.choice([
        (lambda: pq.UnitQuantity(5, 2 * pq.m), 'name'), (lambda: pq.UnitQuantity(fresh.encode(), 2 * pq.m), 'name'), (lambda: pq.UnitQuantity(None, 2 * pq.m), 'name'),
        (lambda: pq.UnitQuantity(fresh, 2 * pq.m, symbol=5), 'symbol'), (lambda: pq.UnitQuantity(fresh, 2 * pq.m, symbol=fresh.encode()), 'symbol'),
        (lambda: pq.UnitQuantity(fresh, 2 * pq.m, aliases=[3]), 'alias'), (lambda: pq.UnitQuantity(fresh, 'nosuchunit'), 'definition'), (lambda: pq.UnitQuantity(fresh, {'a': 1}), 'definition'),
        (lambda: pq.CompoundUnit('nosuchunit/m'), 'compound'), (lambda: pq.CompoundUnit('m/' + fresh), 'compound'), (lambda: pq.CompoundUnit('7'), 'compound'), (lambda: pq.CompoundUnit('m +'), 'compound')])
    r, err = attempt(f)
    mon.check(err is not None, 'malformed definition (%s) gives %r', what, r)
    w.free.append(fresh)
    w.trace.append('malformed %s' % what)
    mon.ev('malformed', what, type(err).__name__)


def rt(ex):
    return 1e-11 * (2 + sum(abs(float(e)) for e in ex.values()))


def probe(rng, mon, w):
    ex = gen(rng, w, .85, empty=False)
    what = rng.choice(PROPS)
    depth = w.depth(ex)
    a = gen_array(rng, rng.choice(['d', 'd', 'f', 'l']))
    q = Quantity(a.copy(), w.units_of(ex))
    tol = max(rt(ex), rtol_for(a.dtype) * 4)
    h = 'history %s' % w.trace
    if a.dtype.char == 'f' and not w.sane(ex, 1e-10, 1e10):
        return
    if what == 'convert':
        to = same_dim_expr(rng, w, ex)
        f = M.fl(w.val(ex) / w.val(to))
        if a.dtype.char == 'f' and not 1e-20 < f < 1e20:
            return
        target = w.units_of(to)
        if rng.random() < .3 and len(to) == 1 and list(to)[0] in w.units and list(to.values()) == [1]:
            r_ = w.units[list(to)[0]]
            target = rng.choice(r_.labels + [r_.obj, r_.obj.dimensionality])
        r = q.rescale(target)
        mon.check(same_dims(r, to) and close(mag(r), a * f, tol), '%r converted to %s is %r, expected %s; %s', q, M.show(to), r, a * f, h)
    elif what == 'simplify':
        d = w.dim(ex)
        r = q.simplified
        f = M.fl(w.val(ex))
        mon.check(same_dims(r, w.base_expr(d)) and close(mag(r), a * f, tol * 3), '%r simplifies to %r, expected %s %s; %s', q, r, a * f, M.show(w.base_expr(d)), h)
        with other_defaults(rng, .7) as used:
            r = q.simplified
            rs = q.dimensionality.simplified
        to = {used.get(b, M.SI_NAMES.get(b, b)): e for b, e in d.items()}
        f = M.fl(w.val(ex) / w.val(to))
        mon.check(same_dims(r, to) and (a.dtype.char == 'f' and not 1e-20 < f < 1e20 or close(mag(r), a * f, tol * 4)), '%r simplifies to %r with default units %s, expected %s %s; %s', q, r, used, a * f, M.show(to), h)
        mon.check(same_dims(rs, to), 'dimensionality %s simplifies to %s with default units %s; %s', q.dimensionality, rs, used, h)
        k = rng.choice(sorted(ex))
        r = w.obj(k).simplified
        mon.check(same_dims(r, w.base_expr(w.dim({k: 1}))) and close(mag(r), M.fl(w.val({k: 1})), 1e-11), 'unit %s simplifies to %r; %s', k, r, h)
    elif what == 'dimsimplify':
        d = q.dimensionality.simplified
        mon.check(same_dims(d, w.base_expr(w.dim(ex))), 'dimensionality %s simplifies to %s; %s', q.dimensionality, d, h)
    elif what == 'compare':
        to = same_dim_expr(rng, w, ex)
        f = M.fl(w.val(ex) / w.val(to))
        b = Quantity(2.5, w.units_of(to))
        v = rng.choice([2.0, 3.0])
        x = Quantity(v / f, w.units_of(ex))
        if not 1e-20 < f < 1e20:
            return
        for op in (operator.lt, operator.le, operator.gt, operator.ge, operator.eq, operator.ne):
            mon.check(bool(op(x, b)) == op(v, 2.5) and bool(op(b, x)) == op(2.5, v), '%s of %r and %r; %s', op.__name__, x, b, h)
        mon.check(bool(np.all(q == q.copy())), '%r differs from its copy; %s', q, h)
    elif what == 'arith':
        ex2 = gen(rng, w, .7)
        b = gen_array(rng, 'd', a.shape, nonzero=True)
        p = Quantity(b.copy(), w.units_of(ex2))
        m, e3 = q * p, M.ex_mul(ex, ex2)
        mon.check(same_dims(m, e3) and close(mag(m), mag(q) * b, 1e-6 if a.dtype.char == 'f' else 1e-14), '%r * %r is %r; %s', q, p, m, h)
        with np.errstate(all='ignore'):
            m = q / p
            want = a / b
        mon.check(same_dims(m, M.ex_mul(ex, ex2, -1)) and close(mag(m), want, 1e-6 if a.dtype.char == 'f' else 1e-14), '%r / %r is %r; %s', q, p, m, h)
        to = same_dim_expr(rng, w, ex)
        f = M.fl(w.val(to) / w.val(ex))
        if 1e-6 < f < 1e6 and a.dtype.char != 'l':
            p = Quantity(np.abs(b), w.units_of(to))
            r = abs(q) + p
            mon.check(same_dims(r, ex) and close(mag(r), np.abs(a) + np.abs(b) * f, tol * 5), '%r + %r is %r; %s', abs(q), p, r, h)
        n = rng.choice([2, 3, -1])
        if a.dtype.char == 'd':
            with np.errstate(all='ignore'):
                r, want = q ** n, a ** n
            mon.check(same_dims(r, M.ex_pow(ex, n)) and close(mag(r), want, 1e-13), '%r ** %d is %r; %s', q, n, r, h)
    elif what == 'incompatible':
        ex2 = gen(rng, w, .7)
        if w.dim(ex2) == w.dim(ex):
            return
        p = Quantity(1.5, w.units_of(ex2))
        for f in (lambda: q.rescale(p.units), lambda: q + p, lambda: p - q):
            r, err = attempt(f)
            mon.check(isinstance(err, ValueError), 'combining %r with %r gives %r; %s', q, p, r if err is None else err, h)
    elif what == 'render':
        k = rng.choice(sorted(ex))
        o = w.obj(k)
        s = str(o.dimensionality)
        mon.check(s == o.symbol, '%s renders as %r; %s', k, s, h)
        s = str(q.dimensionality)
        for k in ex:
            mon.check(w.obj(k).symbol in s, '%s does not appear in %r; %s', k, s, h)
        back, err = attempt(lambda: Quantity(1, s))
        if k in w.units or all(w.obj(k).symbol.isidentifier() for k in ex):
            if all(w.obj(k).symbol.isidentifier() for k in ex):
                mon.check(err is None and same_dims(back, ex), '%r reads back as %r; %s', s, back if err is None else err, h)
        us = q.dimensionality.unicode
        for k in ex:
            mon.check(w.obj(k).symbol in us or w.obj(k).u_symbol in us, '%s does not appear in %r; %s', k, us, h)
    elif what == 'pickle':
        r = pickle.loads(pickle.dumps(q, rng.randrange(2, 6)))
        mon.check(type(r) is type(q) and identical(mag(r), mag(q)) and same_dims(r, ex) and r.dimensionality == q.dimensionality, '%r pickles to %r; %s', q, r, h)
        mon.check(bool(np.all(r == q)) and str(r.dimensionality) == str(q.dimensionality), '%r pickles to %r; %s', q, r, h)
        d = pickle.loads(pickle.dumps(q.dimensionality))
        mon.check(d == q.dimensionality and same_dims(d, ex), '%s pickles to %s; %s', q.dimensionality, d, h)
    elif what == 'copy':
        r = rng.choice([copy.copy, copy.deepcopy, lambda x: x.copy()])(q)
        mon.check(identical(mag(r), mag(q)) and r.dimensionality == q.dimensionality and same_dims(r, ex), '%r copies to %r; %s', q, r, h)
    else:
        k = rng.choice([k for k in ex])
        if k not in w.units:
            return
        lab = rng.choice(w.units[k].labels)
        e = rng.choice([1, 2, -1])
        s, want = rng.choice([('%s**%d' % (lab, e), {k: e}), ('m*%s' % lab, M.ex_mul({'meter': 1}, {k: 1})), ('kg/(%s*s)' % lab, M.ex_mul({'kilogram': 1}, {k: -1, 'second': -1})), ('%s^2/%s' % (lab, lab), {k: 1}), (lab, {k: 1})])
        for f in (lambda: Quantity(2.0, s), lambda: Quantity(2.0, w.units_of(want)).rescale(s), lambda: Quantity(2.0, unit_registry[s].dimensionality)):
            r = f()
            mon.check(same_dims(r, want) and float(r.magnitude) == 2.0, '%r as units gives %r; %s', s, r, h)
    mon.ev('probe ' + what, (depth, tuple(sorted(w.units[k].depth if k in w.units else 0 for k in ex)), a.dtype.char, a.shape), (str(q.dimensionality), depth))


def history_case(rng, mon, i):
    COUNT[0] += 1
    w = World('q22c%d' % i, rng)
    kinds = ''
    for _ in range(rng.choice([4, 6, 9, 12])):
        c = rng.random()
        step = step_define if c < .5 or not w.units else step_again if c < .65 else step_conflict if c < .9 else step_malformed
        step(rng, mon, w)
        kinds += step.__name__[5]
        check_lookups(mon, w, rng, step.__name__)
        if w.units:
            for _ in range(2):
                probe(rng, mon, w)
    for _ in range(8):
        if w.units:
            probe(rng, mon, w)
    mon.ev('history', kinds, w.trace[:3])


# ------------------------------------------------------------------ compound units

def compound_expr(rng):
    """(string, expression, coefficient)"""
    parts, ex = [], {}
    n = rng.choice([1, 2, 2, 3])
    labs = []
    for _ in range(n):
        u = pick_unit(rng)
        ls = [l for l in u.labels if l.isidentifier() and l not in ('in', 'as')]
        if not ls:
            continue
        e = rng.choice([1, 1, -1, 2, -2, 3])
        labs.append((rng.choice(ls), e, u.name))
    if not labs:
        labs = [('m', 1, 'meter')]
    s = ''
    for j, (l, e, name) in enumerate(labs):
        if j and e < 0:
            s += '/' + l + ('' if e == -1 else '**%d' % -e)
        else:
            s += ('*' if j else '') + l + ('' if e == 1 else '**%d' % e)
        ex = M.ex_mul(ex, {name: e})
    k = F(1)
    if rng.random() < .2:
        k = F(rng.choice([2, 100, .5, 0.25]))
        s = '%r*%s' % (int(k) if k.denominator == 1 else float(k), s)
    if not 1e-30 < M.factor(ex) < 1e30:
        return 'm**2/s', {'meter': 2, 'second': -1}, F(1)
    if rng.random() < .25:
        # the blanks are part of the name
        s = re.sub(r'(?<![*e])(\*\*|\*|/)(?!\*)', lambda m: m.group() if rng.random() < .4 else rng.choice([' %s ', '%s ', ' %s']) % m.group(), s)
    return s, ex, k


def compound_case(rng, mon, i):
    s, ex, k = compound_expr(rng)
    c = pq.CompoundUnit(s)
    c2 = pq.CompoundUnit(s)
    name = '(%s)' % s
    val = k * M.factor(ex)
    mon.check(isinstance(c, UnitQuantity) and c.name == name and dims(c) == {name: 1} and float(c.magnitude) == 1 and not c.flags.writeable, 'compound unit %r: %s', s, snap(c))
    mon.check(bool(c == c2) and hash(c) == hash(c2) and c.dimensionality == c2.dimensionality and not bool(c != c2), 'two compound units %r differ', s)
    got, err = attempt(lambda: unit_registry[s])
    mon.check(err is None and not any(isinstance(u, pq.CompoundUnit) for u in got.dimensionality), 'defining the compound unit %r changed what %r means: %r', s, s, got)
    # unreduced in arithmetic
    a = gen_array(rng, 'd', nonzero=True)
    q = Quantity(a.copy(), c)
    o = uobj(pick_unit(rng).name)
    for r, want, v in [(q * c2, {name: 2}, a), (q * o, {name: 1, o.name: 1}, a), (o / q, {name: -1, o.name: 1}, 1 / a), (q ** 3, {name: 3}, a ** 3), (q / (2 * c2), {}, a / 2), (q * 2, {name: 1}, a * 2), (q + q, {name: 1}, a + a),
                       (q - 2 * q, {name: 1}, a - 2 * a), (np.sqrt(abs(q)), {name: F(1, 2)}, np.sqrt(np.abs(a))), (-q, {name: 1}, -a), (c * c2, {name: 2}, np.array(1.0)), (q.copy(), {name: 1}, a)]:
        mon.check(same_dims(r, want) and close(mag(r), v, 1e-13), 'arithmetic with the compound unit %r gives %r, expected %s', s, r, M.show(want))
    mon.ev('compound arithmetic', (s, a.shape))
    # rendering
    mon.check(str(q.dimensionality) == name and (q * pq.m).dimensionality.string.count(name) == 1 and str((q ** 2).dimensionality) == name + '**2', '%r renders as %s', q, q.dimensionality)
    mon.check(name in str(q) and name in repr(q), 'compound unit %r renders as %s', s, q)
    old = markup.config.use_unicode
    try:
        markup.config.use_unicode = True
        u = str(q.dimensionality)
        mon.check(u.startswith('(') and u.endswith(')') and not any(isinstance(x, pq.CompoundUnit) is False for x in q.dimensionality), 'compound unit %r renders as %r in unicode', s, u)
        mon.check((q * c2).dimensionality == (c ** 2).dimensionality, 'compound units %r are not combined under unicode', s)
    finally:
        markup.config.use_unicode = old
    mon.ev('compound rendering', s, (name, u))
    # conversion
    to = gen_compatible(rng, ex)
    f = M.fl(val / M.factor(to))
    if 1e-30 < f < 1e30:
        r = q.rescale(as_units(to))
        mon.check(same_dims(r, to) and close(mag(r), a * f, rt(ex)), '%r converted to %s is %r, expected %s', q, M.show(to), r, a * f)
        back = r.rescale(c2)
        mon.check(same_dims(back, {name: 1}) and close(mag(back), a, rt(ex)), '%r there and back is %r', q, back)
        x = Quantity(gen_array(rng, 'd'), as_units(to))
        r = x.rescale(c)
        mon.check(same_dims(r, {name: 1}) and close(mag(r), mag(x) / f, rt(ex)), '%r converted to %s is %r', x, name, r)
    r = q.simplified
    d = M.dim_of(ex)
    mon.check(same_dims(r, M.si_expr(d)) and close(mag(r), a * M.fl(val), rt(ex)), '%r simplifies to %r', q, r)
    # the same as the expression itself
    e1 = unit_registry[s]
    t = as_units(to)
    r1, r2 = (1.0 * c).rescale(t), (1.0 * e1).rescale(t)
    mon.check(close(mag(r1), mag(r2), 1e-12), 'compound unit %r is %r, the expression %r', s, r1, r2)
    no = gen_incompatible(rng, ex)
    for f in (lambda: q.rescale(as_units(no)), lambda: q + Quantity(1.0, as_units(no)), lambda: Quantity(1.0, as_units(no)).rescale(c)):
        r, err = attempt(f)
        mon.check(isinstance(err, ValueError), '%r with %s gives %r', q, M.show(no), r if err is None else err)
    mon.ev('compound conversion', (s, M.show(to)), str(c))
    for r in (copy.copy(c), copy.deepcopy(c), pickle.loads(pickle.dumps(c)), c.copy()):
        mon.check(type(r) is pq.CompoundUnit and bool(r == c) and hash(r) == hash(c) and dims(r * c) == {name: 2}, 'copy of the compound unit %r is %r', s, r)
        mon.check(close(mag((1.0 * r).rescale(t)), mag(r1), 1e-15), 'copy of the compound unit %r converts to %r', s, (1.0 * r).rescale(t))
    p = pickle.loads(pickle.dumps(q))
    mon.check(identical(mag(p), mag(q)) and same_dims(p, {name: 1}) and dims(p / q) == {}, '%r pickles to %r', q, p)
    # two different compound units stay apart, also when they are physically equal
    s3, ex3, k3 = compound_expr(rng)
    if s3 != s:
        c3 = pq.CompoundUnit(s3)
        mon.check(same_dims(c * c3, {name: 1, '(%s)' % s3: 1}), '%s*%s has the units %s', c, c3, (c * c3).dimensionality)
        mon.check(same_dims(c / c3, {name: 1, '(%s)' % s3: -1}), '%s/%s has the units %s', c, c3, (c / c3).dimensionality)
    mon.ev('compound copies', s)


def compound_of_user(rng, mon, i):
    """compound units over user units, user units over compound units"""
    n = 'q22d%d' % i
    k = F(rng.choice(COEF))
    base = {rng.choice(M.ORD).name: 1}
    if not 1e-20 < k * M.factor(base) < 1e20:
        return
    u = pq.UnitQuantity(n, float(k) * uobj(list(base)[0]), symbol=n + 's')
    s = rng.choice(['%s/s', 'kg*%s', '%s**2', '1/%s', '%s', 'm*%s/h']) % rng.choice([n, n + 's'])
    c = pq.CompoundUnit(s)
    uv = k * M.factor(base)
    form = s.replace(n + 's', 'U').replace(n, 'U')
    val, dimex = {'U/s': (uv, {'second': -1}), 'kg*U': (uv, {'kilogram': 1}), 'U**2': (uv ** 2, None), '1/U': (1 / uv, None), 'U': (uv, {}), 'm*U/h': (uv / 3600, {'meter': 1, 'second': -1})}[form]
    p = {'U**2': 2, '1/U': -1}.get(form, 1)
    dim = M.dim_of(M.ex_mul(M.ex_pow(base, p), dimex or {}))
    q = 3.0 * c
    r = q.simplified
    mon.check(same_dims(r, M.si_expr(dim)) and close(mag(r), M.fl(3 * val), 1e-11), '%r with %s = %s %s simplifies to %r, expected %s', q, n, float(k), M.show(base), r, M.fl(3 * val))
    v = pq.UnitQuantity(n + 'v', 5 * c)
    r = (2.0 * v).simplified
    mon.check(same_dims(r, M.si_expr(dim)) and close(mag(r), M.fl(10 * val), 1e-11), '%r = 5 %s simplifies to %r', v, c, r)
    mon.check(close(mag((2.0 * v).rescale(c)), 10.0, 1e-12) and close(mag(q.rescale(v)), .6, 1e-12), '%r does not convert to %s and back', v, c)
    mon.ev('compound of user units', (form, list(base)[0], float(k)), str(v.definition))


def currency_case(rng, mon, i):
    """a base dimension of the user's own"""
    n = 'q22e%d' % i
    b = pq.UnitQuantity(n)
    k = rng.randint(2, 40)
    d = pq.UnitQuantity(n + 'd', k * b, symbol=n + 'D')
    g = pq.UnitQuantity(n + 'g', k * d * pq.km, symbol=n + 'G')
    mon.check(dims(b.simplified) == {n: 1} and float(b.simplified) == 1, 'a base unit simplifies to %r', b.simplified)
    mon.check(close(mag((3 * d).rescale(b)), 3 * k, 1e-14) and same_dims((3 * d).simplified, {n: 1}), '%r to base is %r', 3 * d, (3 * d).simplified)
    r = (2.0 * g / pq.hour).simplified
    mon.check(same_dims(r, {n: 1, 'meter': 1, 'second': -1}) and close(mag(r), 2.0 * k * k * 1000 / 3600, 1e-12), '2 %r/h simplifies to %r', g, r)
    for x in (pq.m, pq.dimensionless, pq.UnitQuantity(n + 'other')):
        _, err = attempt(lambda: (2.0 * b).rescale(x))
        _, err2 = attempt(lambda: (2.0 * d) + (1.0 * x))
        mon.check(isinstance(err, ValueError) and isinstance(err2, ValueError), '%r converts to %r', b, x)
    mon.check(float((d / b).dimensionless_magnitude) == k, '%r/%r is %r', d, b, (d / b).dimensionless_magnitude)
    mon.ev('own base', k)


FAMILIES = [Family('history', history_case, 420, 9000), Family('compound', compound_case, 500, 12000), Family('compound of user', compound_of_user, 300, 4000), Family('own base', currency_case, 100, 1000)]
REQUIRED_OPS = ['define', 'definition reused', 'again', 'conflict', 'after refusal', 'malformed', 'history', 'compound arithmetic', 'compound rendering', 'compound conversion', 'compound copies', 'compound of user units', 'own base'] + ['probe ' + p for p in PROPS]
