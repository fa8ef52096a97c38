"""C14: pickling and copying."""
import re, copy, pickle, subprocess, sys, os, io, json
import numpy as np
from ..core import Family, Violation, rng_for, REPO, VERIF
from .. import model as M
from ..lib import *
from quantities import markup

PROP = 'C14'
RULE = ('a case builds an object (quantity, uncertain quantity, unit, constant, compound unit, user unit, dimensionality, container), copies it in one way (pickle protocols 0-5, dumps, copy, deepcopy, '
        '.copy(), in this or a fresh process) and compares complete state, arithmetic with independently made quantities and independence after changes; the catalogue is fingerprinted; '
        'distinct by (kind, way, dtype, shape)')
DTS = ['d', 'd', 'd', 'f', 'l', 'i', 'h', 'B', 'D', 'F', 'e', 'g', '?', '>f8', '<i4', '>i2', '>c16']


# ------------------------------------------------------------------ objects
def gen_plain(rng):
    ex = gen_expr(rng, exps=ALL_EXPS)
    dt = rng.choice(DTS)
    a = gen_array(rng, np.dtype(dt).newbyteorder('=').char, hostile=dt in 'df').astype(dt, order='K')
    return ex, a


def user_unit(tag):
    """(object, reference) of a user unit made the same way in every process"""
    name = 'qmon_unit_%s' % tag
    return pq.UnitQuantity(name, (1.5 + tag) * pq.m / pq.s, symbol='qmu%s' % tag, aliases=['qmon_units_%s' % tag])


COMPOUNDS = ['m**2/s', 'pc/cm**3', 'kg*m', 'V/Hz**0.5', '1/cm', 'mol/L']


def gen_obj(rng, depth=0):
    """(kind, object)"""
    k = rng.choice(['q'] * 6 + ['view', 'noncontig', 'uq', 'uq', 'unit', 'unit', 'constant', 'compound', 'qcompound', 'qconstant', 'dim', 'dim', 'user', 'quser', 'dimless', 'readonly'] + (['container'] * 3 if depth == 0 else []))
    if k in ('q', 'view', 'noncontig', 'readonly'):
        ex, a = gen_plain(rng)
        q = Quantity(a, as_units(ex, 'dim'))
        if k == 'q' and a.ndim > 1 and rng.random() < .3:
            q = q.T
        if k == 'view' and q.ndim:
            q = q[:max(1, len(q) - 1)]
        if k == 'noncontig' and q.ndim:
            q = q[::-1]
        if k == 'readonly':
            q.flags.writeable = False
        return k, q
    if k == 'uq':
        ex = gen_expr(rng, exps=ALL_EXPS)
        dt = rng.choice(['d', 'd', 'f', 'l'])
        a = gen_array(rng, dt, layout=rng.random() < .6)
        u = np.abs(gen_array(rng, rng.choice(['d', 'f']), a.shape, layout=rng.random() < .6))
        q = UQ(a, as_units(ex, 'dim'), u, dtype=rng.choice([None, None, dt, 'l', 'f', 'i']))
        if q.ndim and rng.random() < .3:
            q = q[::-1]
        return k, q
    if k == 'unit':
        return k, uobj(rng.choice(M.ORD).name)
    if k == 'constant':
        c = constants()
        return k, c[rng.choice(sorted(c))]
    if k == 'compound':
        return k, pq.CompoundUnit(rng.choice(COMPOUNDS))
    if k == 'qcompound':
        return k, gen_array(rng, 'd') * pq.CompoundUnit(rng.choice(COMPOUNDS)) ** rng.choice([1, 2, -1])
    if k == 'qconstant':
        c = constants()
        return k, gen_array(rng, 'd') * c[rng.choice(sorted(c))] * uobj(pick_unit(rng).name)
    if k == 'dim':
        return k, as_units(gen_expr(rng, exps=ALL_EXPS), 'dim')
    if k == 'user':
        return k, user_unit(rng.randrange(6))
    if k == 'quser':
        return k, gen_array(rng, 'd') * user_unit(rng.randrange(6)) ** rng.choice([1, -1, 2])
    if k == 'dimless':
        return k, rng.choice([pq.dimensionless, Quantity(gen_array(rng, 'd'), 'dimensionless')])
    parts = [gen_obj(rng, 1)[1] for _ in range(rng.randint(1, 4))]
    if rng.random() < .4:
        parts.append(parts[0])
    c = rng.randrange(4)
    return k, parts if c == 0 else tuple(parts) if c == 1 else {i: p for i, p in enumerate(parts)} if c == 2 else {'a': parts, 'n': 3, 'p': np.arange(3)}


def state(o):
    """complete observable state"""
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(state(x) for x in o)
    if isinstance(o, dict) and not isinstance(o, Dimensionality):
        return ('dict',) + tuple((k, state(v)) for k, v in o.items())
    if isinstance(o, UnitQuantity):
        # the position in renderings (format_order) may be another one
        s = ('unit', unit_state(o), o.symbol, o.u_symbol, getattr(o, '_aliases', None) and tuple(o._aliases), o.__doc__, str(o), repr(o))
        if o.name != 'dimensionless':
            si_ = o.simplified
            s += (float(si_.magnitude), snap(si_.dimensionality))
        return s
    if isinstance(o, Dimensionality):
        return ('dim', type(o).__name__, snap(o), words(o.string), words(o.unicode), [(type(e).__name__, unit_state(u)) for u, e in sorted(o.items(), key=lambda kv: kv[0].name)])
    if isinstance(o, Quantity):
        s = (type(o).__name__, values(o), snap(o.dimensionality), words(o.dimensionality.string))
        if isinstance(o, UQ):
            s += (state(o.uncertainty),)
        return s
    if isinstance(o, np.ndarray):
        return ('nd', values(o))
    return snap(o)


def values(o):
    """element type (numpy restores arrays of another byte order in the native one), shape, values"""
    m = np.asarray(o.magnitude if isinstance(o, Quantity) else o)
    m = m.astype(m.dtype.newbyteorder('='))
    return (m.dtype.str, m.shape, repr(m.tolist()) if m.dtype.char in 'gG' else m.tobytes())


def words(s):
    return sorted(re.split(r'(?<!\*)\*(?!\*)|[·()/]', s))


def leaves(o):
    if isinstance(o, (list, tuple)):
        for x in o:
            yield from leaves(x)
    elif isinstance(o, dict) and not isinstance(o, Dimensionality):
        for x in o.values():
            yield from leaves(x)
    else:
        yield o


def equal(a, b):
    """library equality, NaN aside"""
    if isinstance(a, UnitQuantity) or isinstance(a, Dimensionality):
        return bool(a == b) and not bool(a != b) and hash(a) == hash(b)
    if isinstance(a, Quantity):
        e = np.asarray(a == b)
        m = np.asarray(a.magnitude)
        nan = np.isnan(m) if m.dtype.kind in 'fc' else np.zeros(m.shape, bool)
        return e.shape == m.shape and bool(np.all(e | nan))
    return True


def arithmetic(mon, what, o, r):
    """the copy r behaves like o with quantities made independently"""
    if isinstance(o, Dimensionality):
        mon.check(snap(r * o) == snap(o * o) and not (r / o) and r ** 2 == o ** 2, '%s: arithmetic with the copied dimensionality differs', what)
        return
    if not isinstance(o, Quantity):
        return
    d1, d2 = o.dimensionality, r.dimensionality
    mon.check(d1 == d2 and hash(d1) == hash(d2) and not (d1 / d2), '%s: units of the copy do not cancel with the original: %s', what, d1 / d2)
    if isinstance(o, UnitQuantity):
        mon.check(r.definition.dimensionality == o.definition.dimensionality or o.definition is o, '%s: other definition', what)
        x = 2.5 * r
        y = 2.5 * o
        mon.check(np.all(x == y) and x.dimensionality == y.dimensionality, '%s: multiples differ', what)
        if o.name != 'dimensionless':
            z, err = attempt(lambda: (1.5 * o + x) / r)
            mon.check(err is None and not z.dimensionality and close(mag(z), 4.0, 1e-9), '%s: sums with the copied unit: %r', what, err or z)
            w, err = attempt(lambda: (3 * r).rescale(o))
            mon.check(err is None and close(mag(w), 3.0), '%s: rescaling from the copy to the original: %r', what, err or w)
            mon.check({o: 1}.get(r) == 1, '%s: the copy is another dictionary key', what)
        return
    p, e1 = attempt(lambda: o * pq.m / pq.ms)
    c, e2 = attempt(lambda: r * pq.m / pq.ms)
    mon.check((e1 is None) == (e2 is None) and (e1 is not None or state(p) == state(c)), '%s: products differ: %r, %r', what, p, c)
    if o.dtype.kind in 'fc' and o.dtype.isnative:
        p, e1 = attempt(lambda: o + Quantity(np.ones(o.shape), o.dimensionality))
        c, e2 = attempt(lambda: r + Quantity(np.ones(o.shape), o.dimensionality))
        mon.check(e1 is None and e2 is None and state(p) == state(c), '%s: sums differ: %r, %r', what, e1 or p, e2 or c)
        p, e1 = attempt(lambda: o.simplified)
        c, e2 = attempt(lambda: r.simplified)
        mon.check((e1 is None) == (e2 is None) and (e1 is not None or state(p) == state(c)), '%s: simplified forms differ: %r, %r', what, e1 or p, e2 or c)


def same(mon, what, o, r):
    a, b = state(o), state(r)
    mon.check(a == b, '%s: copy differs: %s became %s', what, short(a, 500), short(b, 500))
    for x, y in zip(leaves(o), leaves(r)):
        mon.check(type(x) is type(y), '%s: type %s became %s', what, type(x).__name__, type(y).__name__)
        mon.check(equal(x, y) and equal(y, x), '%s: the copy is not equal to the original %r', what, short(x))
        if isinstance(x, Quantity) and not isinstance(x, UnitQuantity):
            invariant(y, what)


def shared(o, r):
    return isinstance(o, np.ndarray) and isinstance(r, np.ndarray) and np.shares_memory(np.asarray(o), np.asarray(r))


def independent(rng, mon, what, o, r):
    """changing the copy leaves the original and the other way round; no data shared"""
    for x, y in zip(leaves(o), leaves(r)):
        if isinstance(x, UnitQuantity):
            for f in (lambda: y.__setitem__((), 3), lambda: y.__imul__(2), lambda: setattr(y, 'units', 'm'), lambda: y.magnitude.fill(3)):
                attempt(f)
            mon.check(float(x.magnitude) == 1.0 and float(y.magnitude) == 1.0, '%s: a copied unit can be changed', what)
            continue
        if isinstance(x, Dimensionality):
            before = snap(x)
            y[pq.m] = 17
            mon.check(snap(x) == before, '%s: changing the copied dimensionality changed the original', what)
            continue
        if not isinstance(x, Quantity):
            continue
        mon.check(not shared(x, y), '%s: the copy shares its data with the original', what)
        if isinstance(x, UQ):
            mon.check(not shared(x.uncertainty, y.uncertainty), '%s: the copy shares its uncertainty with the original', what)
        for src, dst in ((x, y), (y, x)):
            if not dst.flags.writeable:
                continue
            before = state(src)
            k = rng.randrange(6)
            if dst.dtype.kind in 'fc':
                if k == 0:
                    dst *= 3
                    attempt(lambda: dst.__imul__(pq.m))
                elif k == 1:
                    _, err = attempt(setattr, dst, 'units', (1.0 * dst.units).simplified.units)
                    mon.check(err is None or dst is x, '%s: the units of a copy can not be changed: %r', what, err)
                elif k == 2 and dst.size:
                    dst[...] = Quantity(7, dst.dimensionality)
                elif k == 3 and not isinstance(dst, UQ):
                    dst.fill(5)
                elif k == 4:
                    _, err = attempt(lambda: dst.__itruediv__(pq.s))
                    mon.check(err is None or dst is x, '%s: a copy can not be divided in place: %r', what, err)
                elif isinstance(dst, UQ):
                    dst.uncertainty *= 2
                else:
                    dst += Quantity(1, dst.dimensionality)
            elif dst.size:
                dst.magnitude.flat[0] = 1 - int(bool(dst.magnitude.flat[0]))
            mon.check(state(src) == before, '%s: changing one of original and copy changed the other: %s became %s', what, short(before), short(state(src)))


WAYS = ['p0', 'p1', 'p2', 'p3', 'p4', 'p5', 'dumps', 'python pickler', 'copy', 'deepcopy', '.copy', 'pickle twice', 'deepcopy of copy', 'copy of pickle', 'order F', 'p5 buffers']


def make_copy(way, o):
    if way[0] == 'p' and way[1:].isdigit():
        return pickle.loads(pickle.dumps(o, int(way[1:])))
    if way == 'dumps':
        return pickle.loads(o.dumps()) if isinstance(o, np.ndarray) else pickle.loads(pickle.dumps(o))
    if way == 'python pickler':
        f = io.BytesIO()
        pickle._Pickler(f, 2).dump(o)
        f.seek(0)
        return pickle._Unpickler(f).load()
    if way == 'copy':
        return copy.copy(o)
    if way == 'deepcopy':
        return copy.deepcopy(o)
    if way == '.copy':
        return o.copy() if hasattr(o, 'copy') and not isinstance(o, (list, dict)) else copy.deepcopy(o)
    if way == 'order F':
        return o.copy('F') if isinstance(o, Quantity) and not isinstance(o, UnitQuantity) else copy.deepcopy(o)
    if way == 'pickle twice':
        return pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(o))))
    if way == 'deepcopy of copy':
        return copy.deepcopy(copy.copy(o))
    if way == 'copy of pickle':
        return copy.deepcopy(pickle.loads(pickle.dumps(o, 2)))
    if way == 'p5 buffers':
        b = []
        s = pickle.dumps(o, 5, buffer_callback=b.append)
        return pickle.loads(s, buffers=[bytes(x.raw()) for x in b])
    raise ValueError(way)


def sig(k, o):
    return (k, type(o).__name__, getattr(getattr(o, 'dtype', None), 'str', None), getattr(o, 'shape', None))


def copy_case(rng, mon, i):
    k, o = gen_obj(rng)
    way = WAYS[i % len(WAYS)]
    uni = rng.random() < .1
    dflt = rng.random() < .1
    markup.config.use_unicode = uni
    if dflt:
        pq.set_default_units(rng.choice(['cgs', 'SI']), length=rng.choice(['ft', 'km']), time='h')
    try:
        before = state(o)
        r = make_copy(way, o)
        what = '%s of %s %s' % (way, k, short(o, 150))
        mon.check(state(o) == before, '%s changed the original', what)
        if isinstance(o, (list, tuple, dict)) and way == 'copy' and not isinstance(o, Dimensionality):
            r = copy.deepcopy(o)
        same(mon, what, o, r)
        for x, y in zip(leaves(o), leaves(r)):
            arithmetic(mon, what, x, y)
        mon.check(state(r) == before and state(o) == before, '%s: using original and copy changed them', what)
        if isinstance(o, list):
            # identity inside containers
            mon.check(all((r[a] is r[b]) >= (o[a] is o[b]) for a in range(len(o)) for b in range(a) if not isinstance(o[a], UnitQuantity)), '%s: an object that was in the container twice is not any more', what)
        independent(rng, mon, what, o, r)
    finally:
        markup.config.use_unicode = False
        if dflt:
            pq.set_default_units('SI', information='bit')
    mon.ev('copied', (way,) + sig(k, o), what)
    if i % 61 == 0:
        verify_catalogue(mon)


def each_unit_case(rng, mon, i):
    names = [u.name for u in M.UNITS]
    cs = sorted(constants())
    o = uobj(names[i]) if i < len(names) else constants()[cs[(i - len(names)) % len(cs)]]
    for way in ('p%d' % (i % 6), 'deepcopy', 'copy', '.copy'):
        r = make_copy(way, o)
        same(mon, way + ' of ' + o.name, o, r)
        arithmetic(mon, way + ' of ' + o.name, o, r)
        q = Quantity([1.5, 2.0], o)
        r = make_copy(way, q)
        same(mon, way + ' of quantity in ' + o.name, q, r)
        arithmetic(mon, way + ' of quantity in ' + o.name, q, r)
        independent(rng, mon, way + ' of quantity in ' + o.name, q, r)
    mon.ev('unit or constant', o.name)


_fp = {}


def setup(mon):
    for t in range(6):
        user_unit(t)
    _fp['c'] = catalogue_fingerprint()
    _fp['k'] = known_labels()


def known_labels():
    import quantities as pq
    return {k: id(v) for k, v in vars(pq).items() if isinstance(v, Quantity)}


def verify_catalogue(mon):
    now = catalogue_fingerprint()
    mon.check(now == _fp['c'], 'copying or restoring changed the catalogue: %s', diff_fp(_fp['c'], now))
    mon.check(known_labels() == _fp['k'], 'copying or restoring changed the module')
    mon.ev('catalogue unchanged', len(now))


def finish(mon):
    verify_catalogue(mon)


# ------------------------------------------------------------------ fresh processes
CHILD = r'''
import sys, pickle, struct, os, warnings
warnings.simplefilter('ignore')
import collections
repo, verif, mode = sys.argv[1:4]
sys.path.insert(0, repo)
data = sys.stdin.buffer.read()
job = pickle.loads(data)
if mode == 'imported':
    import quantities
elif mode == 'unicode':
    import quantities
    quantities.markup.config.use_unicode = True
elif mode == 'cgs':
    import quantities
    quantities.set_default_units('cgs')
objs = []
for blob in job['blobs']:
    objs.append(pickle.loads(blob))
sys.path.insert(0, verif)
os.environ['QMON_REPO'] = repo
import quantities
quantities.markup.config.use_unicode = False
quantities.set_default_units('SI')
from qmon.checks import c14
from qmon import core
out = c14.child(job, objs)
sys.stdout.buffer.write(pickle.dumps(out))
'''


def child(job, objs):
    """runs in the fresh process, after the objects were restored"""
    mon = core.Mon(PROP)
    fp0 = catalogue_fingerprint()
    try:
        back = []
        for (seed, i, j), r in zip(job['ids'], objs):
            rng = rng_for(PROP, 'obj', seed, '%s-%s' % (i, j))
            k, o = gen_obj(rng)
            what = 'restored in a fresh process: %s %s' % (k, short(o, 150))
            same(mon, what, o, r)
            for x, y in zip(leaves(o), leaves(r)):
                arithmetic(mon, what, x, y)
            back.append(pickle.dumps(o, job['proto']))
            independent(rng, mon, what, o, r)
        from qmon import model
        for u in model.UNITS:
            if u.name.startswith('(') or u.name == 'dimensionless':
                continue
            o = uobj(u.name)
            mon.check(o.name == u.name and abs(float(si(1.0 * o)) / u.fval - 1) < 1e-9, 'unit %s is not as defined after restoring', u.name)
            s = (1.0 * o).simplified
            mon.check(abs(float(si(s)) / u.fval - 1) < 1e-9, 'unit %s simplifies to %s after restoring', u.name, s)
        mon.check(catalogue_fingerprint() == fp0, 'the catalogue of the fresh process changed')
        return {'ok': True, 'back': back, 'fp': len(fp0)}
    except Violation as e:
        return {'ok': False, 'msg': str(e)}


def spawn(job, mode):
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env['PYTHONHASHSEED'] = str(job['hash'])
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    p = subprocess.run([sys.executable, '-c', CHILD, REPO, VERIF, mode], input=pickle.dumps(job), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=300, cwd='/')
    if p.returncode:
        raise Violation('a fresh process (%s) failed restoring pickled objects: %s' % (mode, p.stderr.decode(errors='replace')[-1500:]))
    return pickle.loads(p.stdout)


def fresh_case(rng, mon, i):
    n = 120
    ids, blobs, objs = [], [], []
    proto = i % 6
    for j in range(n):
        s = '%s-%s' % (i, j)
        seed = rng.randrange(10 ** 6)
        k, o = gen_obj(rng_for(PROP, 'obj', seed, s))
        ids.append((seed, i, j))
        blobs.append(pickle.dumps(o, proto))
        objs.append((k, o))
    mode = ['none', 'imported', 'unicode', 'cgs'][i // 2 % 4]
    out = spawn({'ids': ids, 'blobs': blobs, 'proto': proto, 'hash': rng.randrange(1000)}, mode)
    mon.check(out['ok'], 'fresh process (%s, protocol %d): %s', mode, proto, out.get('msg'))
    for (k, o), b in zip(objs, out['back']):
        r = pickle.loads(b)
        what = 'made in another process: %s %s' % (k, short(o, 150))
        same(mon, what, o, r)
        for x, y in zip(leaves(o), leaves(r)):
            arithmetic(mon, what, x, y)
        mon.ev('fresh process', (proto, mode) + sig(k, o), what)
    verify_catalogue(mon)


CONFLICT = r'''
import sys, pickle
sys.path.insert(0, sys.argv[1])
import quantities as pq
a, b, c = pickle.loads(sys.stdin.buffer.read())
mine = pq.UnitQuantity('qmon_clash', 3 * pq.kg, symbol='qmc')
err = None
try:
    pickle.loads(a)
except Exception as e:
    err = e
assert err is not None, 'a unit of the same name with another definition was restored silently'
assert pq.registry.unit_registry['qmon_clash'] is mine and pq.registry.unit_registry['qmc'] is mine, 'the label was rebound'
assert float((2 * mine).rescale('g').magnitude) == 6000.0
# a unit that is not known here yet
q = pickle.loads(b)
u = pq.registry.unit_registry['qmon_fresh']
assert float((2 * u).rescale('m').magnitude) == 24.0 and float(q.rescale('m').magnitude) == 60.0, q
assert (q / u).dimensionality.string == 'dimensionless', q / u
assert pq.Quantity(1, 'qmf') == q.units, q
assert pq.Quantity(1.0, 'qmon_alias').rescale('m') == pq.Quantity(12.0, 'm')
# restoring again does not duplicate it
r = pickle.loads(b)
assert pq.registry.unit_registry['qmon_fresh'] is u and (r - q).magnitude == 0
# a chain of user units
w = pickle.loads(c)
assert abs(float(w.rescale('m').magnitude) - 7 * 12 * 5) < 1e-9, w
print('fine')
'''


def conflict_case(rng, mon, i):
    """user units in a process that knows another unit of that name, or none"""
    MAKE = r'''
import sys, pickle
sys.path.insert(0, sys.argv[1])
import quantities as pq
p = int(sys.argv[2])
u = pq.UnitQuantity('qmon_clash', 2 * pq.m, symbol='qmc')
f = pq.UnitQuantity('qmon_fresh', 12 * pq.m, symbol='qmf', aliases=['qmon_alias'])
g = pq.UnitQuantity('qmon_chain', 5 * f, symbol='qmg')
sys.stdout.buffer.write(pickle.dumps((pickle.dumps(2 * u, p), pickle.dumps(5 * f, p), pickle.dumps(7 * g, p))))
'''
    p = subprocess.run([sys.executable, '-c', MAKE, REPO, str(i % 6)], capture_output=True, timeout=120, cwd='/')
    mon.check(p.returncode == 0, 'pickling user units failed: %s', p.stderr.decode()[-800:])
    p = subprocess.run([sys.executable, '-c', CONFLICT, REPO], input=p.stdout, capture_output=True, timeout=120, cwd='/')
    mon.check(p.returncode == 0 and b'fine' in p.stdout, 'restoring user units in a fresh process (protocol %d): %s', i % 6, p.stderr.decode()[-800:])
    mon.ev('user units across processes', i % 6)


FAMILIES = [Family('copy', copy_case, 5000, 300000), Family('each', each_unit_case, len(M.UNITS) + 420, len(M.UNITS) + 420, seeded=False), Family('fresh', fresh_case, 12, 240), Family('conflict', conflict_case, 6, 6, seeded=False)]
REQUIRED_OPS = ['copied', 'unit or constant', 'catalogue unchanged', 'fresh process', 'user units across processes']
ASSUMPTIONS = ['whether a restored array is writable is not part of the compared state (numpy makes copies of read-only arrays writable)']
