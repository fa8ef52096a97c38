"""C24: guarantees do not depend on interpreter settings."""
import copy, json, operator, os, pickle, random, subprocess, sys, tempfile, shutil
import numpy as np
from ..core import Family, Violation, Inconclusive, VERIF
from .. import model as M
from ..lib import *
from quantities import unitquantity as U, markup, umath
from . import c23

PROP = 'C24'
RULE = ('a case runs one script (operations from every part of the library, a battery of operations that must be refused, and slices of the workloads of the other checks with their monitors) in a process of its own under one '
        'interpreter configuration; its log of outcomes (value bytes, units, exception class, monitor verdict) must equal the log of a process started without options, and every entry of the battery must be refused; distinct by (configuration, entry)')

# name, interpreter options, environment, script options
CONFIGS = [
    ('-O', ['-O'], {}, {}),
    ('-OO', ['-OO'], {}, {}),
    ('hash seed 1', [], {'PYTHONHASHSEED': '1'}, {}),
    ('hash seed 4242', [], {'PYTHONHASHSEED': '4242'}, {}),
    ('hash seed random', [], {'PYTHONHASHSEED': 'random'}, {}),
    ('-O and random hash seed', ['-O'], {'PYTHONHASHSEED': 'random'}, {}),
    ('unrelated warnings are errors', [], {}, {'warn': ['ImportWarning', 'ResourceWarning', 'PendingDeprecationWarning', 'UnicodeWarning', 'EncodingWarning']}),
    ('-O and unrelated warnings', ['-OO'], {}, {'warn': ['ImportWarning', 'ResourceWarning', 'PendingDeprecationWarning', 'UnicodeWarning']}),
    ('deprecations are errors', [], {}, {'warn': ['DeprecationWarning', 'FutureWarning', 'PendingDeprecationWarning', 'SyntaxWarning'], 'of': 'quantities'}),
    ('development mode', ['-X', 'dev'], {}, {}),
    ('unicode display', [], {}, {'preamble': 'import quantities.markup as m; m.config.use_unicode = True', 'text': False, 'skip': ['format', 'compound', 'user'], 'modes': ['ops', 'battery']}),
    ('unicode display and -O', ['-O'], {}, {'preamble': 'import quantities.markup as m; m.config.use_unicode = True', 'text': False, 'skip': ['format', 'compound', 'user'], 'modes': ['ops', 'battery']}),
    ('C locale', ['-X', 'utf8=0'], {'LC_ALL': 'C', 'LANG': 'C', 'PYTHONCOERCECLOCALE': '0'}, {}),
    ('umath first', [], {}, {'preamble': 'import quantities.umath, quantities.constants.electron'}),
    ('constants first', [], {}, {'preamble': 'from quantities.constants import *; import quantities.units.information; from quantities import *'}),
    ('registry first', [], {}, {'preamble': 'import quantities.registry as r; r.unit_registry["m/s"]; import quantities.uncertainquantity'}),
    ('numpy extras first', ['-O'], {}, {'preamble': 'import numpy.ma, numpy.linalg, decimal, fractions, pickle, quantities.uncertainquantity as u'}),
    ('isolated', ['-I'], {}, {}),
    ('-S -E', ['-E'], {}, {}),
]
NOT_SLICED = {('C02', 'units'), ('C01', 'pairs'), ('C17', 'sweep'), ('C18', 'fresh'), ('C19', 'fresh'), ('C05', 'immutable'), ('C13', 'switch'), ('C17', 'history')}
SLICES = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C13', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C25']


def strip(o, text):
    """canonical form of a result; without the rendered text when the display is configured differently"""
    c = c23.canon(o)
    if text:
        return c
    if isinstance(o, (Quantity, Dimensionality)):
        return c[0]
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(strip(x, text) for x in o)
    if isinstance(o, (np.ndarray, np.generic, float, complex, int)):
        return c
    return type(o).__name__


def hash_dependent(f):
    co = getattr(f, '__code__', None)
    return co is not None and 'hash' in co.co_names


# ------------------------------------------------------------------ what must be refused, always

def battery():
    m, s, kg = pq.m, pq.s, pq.kg
    q = lambda *a: Quantity([1.0, 2.0, 3.0], 'm')
    t = Quantity([1.0, 2.0, 3.0], 's')
    uq = lambda: UQ([1.0, 2.0, 3.0], 'm', [.1, .2, .3])
    out = []

    def add(name, f):
        out.append((name, f))
    for n, o in [('quantity', q()), ('scalar', 2.0 * m), ('unit', m), ('uncertain', uq()), ('constant', pq.electron_mass if hasattr(pq, 'electron_mass') else pq.constants.m_e)]:
        for bn, b in [('seconds', t), ('scalar seconds', 3 * s), ('second', s), ('number', 2.5), ('array', np.arange(1., 4)), ('uncertain seconds', UQ(2.0, 's', .1)), ('m**2', 3 * m ** 2), ('1/m', 3 / m)]:
            for op in (operator.add, operator.sub, operator.mod, operator.lt, operator.ge):
                if op in (operator.lt, operator.ge) and bn in ('number', 'array'):
                    continue
                add('%s %s %s' % (n, op.__name__, bn), lambda op=op, o=o, b=b: op(o, b))
                if bn not in ('number', 'array'):
                    add('%s r%s %s' % (n, op.__name__, bn), lambda op=op, o=o, b=b: op(b, o))
    for bn, b in [('seconds', t), ('second', s), ('number', 2.5), ('m**2', 3 * m ** 2)]:
        add('iadd %s' % bn, lambda b=b: operator.iadd(q(), b))
        add('isub %s' % bn, lambda b=b: operator.isub(q(), b))
        add('uq iadd %s' % bn, lambda b=b: operator.iadd(uq(), b))
        for f in (np.add, np.subtract, np.maximum, np.minimum, np.fmax, np.hypot, np.fmod, np.remainder, np.nextafter if False else np.add):
            add('%s %s' % (f.__name__, bn), lambda f=f, b=b: f(q(), b))
    for f in (np.less, np.greater_equal, np.arctan2, np.logaddexp):
        add('%s seconds' % f.__name__, lambda f=f: f(q(), t))
    add('add into out of other units is still checked', lambda: np.add(q(), t, out=q()))
    for f in (np.sin, np.cos, np.tan, np.exp, np.log, np.log10, np.arcsin, np.arctan, np.sinh, np.arccosh, np.logical_and.__class__ and np.exp2, np.log1p, np.expm1, np.log2):
        add('%s of metres' % f.__name__, lambda f=f: f(q()))
    add('power by metres', lambda: q() ** m)
    add('power by array', lambda: q() ** np.array([1.0, 2.0, 3.0]))
    add('number to metres', lambda: 2.0 ** q())
    add('power of unit by array', lambda: m ** [1, 2])
    add('in-place power by array', lambda: operator.ipow(q(), np.array([1.0, 2.0, 3.0])))
    add('in-place power by metres', lambda: operator.ipow(q(), m))
    add('np.power by array', lambda: np.power(q(), np.array([1.0, 2.0, 3.0])))
    add('np.power by metres', lambda: np.power(q(), q()))
    add('uncertain power by array', lambda: uq() ** np.array([1.0, 2.0, 3.0]))
    for v in ([1, 2], 'x', None, complex(1, 2), float('nan'), float('inf')):
        add('dimensionality to %r' % (v,), lambda v=v: m.dimensionality ** v)
    # conversions
    for tn, to in [('s', 's'), ('quantity', 2 * m), ('seconds', s), ('dim', s.dimensionality), ('number', 3), ('list', ['m']), ('unknown', 'nosuch'), ('malformed', 'm**'), ('zero', 0 * m), ('array', Quantity([1., 1.], 'm')), ('factor', '2*m'), ('call', 'm()'), ('none unit', 'UnitQuantity')]:
        add('rescale to ' + tn, lambda to=to: q().rescale(to))
        add('construct with ' + tn, lambda to=to: Quantity(1.0, to) if to not in ('s',) and to is not s and not isinstance(to, Dimensionality) else Quantity(q(), to))
        add('units = ' + tn, lambda to=to: q().__setattr__('units', to))
        add('uncertain rescale to ' + tn, lambda to=to: uq().rescale(to))
        add('uncertain units = ' + tn, lambda to=to: uq().__setattr__('units', to))
        add('unit rescale to ' + tn, lambda to=to: m.rescale(to))
    add('uncertainty in seconds', lambda: UQ([1.0], 'm', 3 * s))
    add('set uncertainty in seconds', lambda: uq().__setattr__('uncertainty', 3 * s))
    add('uncertainty of other shape', lambda: UQ([1.0, 2.0, 3.0], 'm', [.1, .2]))
    add('set_uncertainty in kg', lambda: uq().set_uncertainty(2 * kg))
    add('dimensionless magnitude', lambda: q().dimensionless_magnitude)
    add('preferred', lambda: q().rescale_preferred())
    add('rescale to nothing', lambda: q().rescale())
    # element access
    for bn, b in [('seconds', 3 * s), ('number', 2.5), ('unit', s), ('array', np.arange(3.)), ('quantities', [1 * s, 2 * s, 3 * s])]:
        add('setitem ' + bn, lambda b=b: q().__setitem__(slice(None), b))
        add('setitem0 ' + bn, lambda b=b: q().__setitem__(0, b if np.shape(b) == () else b[0]))
        add('unit setitem ' + bn, lambda b=b: m.__setitem__((), b))
        if bn in ('seconds', 'unit'):
            add('put ' + bn, lambda b=b: q().put([0], b))
            add('searchsorted ' + bn, lambda b=b: q().searchsorted(b))
            add('clip ' + bn, lambda b=b: q().clip(b, b))
            add('np.clip ' + bn, lambda b=b: np.clip(q(), b, b))
    # views
    add('units of a view', lambda: q()[1:].__setattr__('units', 'km'))
    def v():
        a = q()
        a[1:] *= 2 * s
    add('multiply a view by seconds', v)
    def v2():
        a = q()
        b = a[1:]
        b /= s
    add('divide a view by seconds', v2)
    def v3():
        b = q()[1:]
        b **= 2
    add('power of a view', v3)
    # protected units
    for un in ('m', 'kg', 'J', 'dimensionless', 'foot', 'percent', 'degC'):
        o = getattr(pq, un)
        for opn in ('iadd', 'isub', 'imul', 'itruediv', 'ipow', 'imod', 'ifloordiv'):
            add('%s of unit %s' % (opn, un), lambda o=o, opn=opn: getattr(o, '__%s__' % opn)(2 if opn != 'iadd' else 2 * o))
        add('fill unit ' + un, lambda o=o: o.fill(3))
        add('units of unit ' + un, lambda o=o: o.__setattr__('units', 'km'))
        add('itemset of unit ' + un, lambda o=o: o.__setitem__((), 2 * o))
        add('out unit ' + un, lambda o=o: np.multiply(1.0, 3.0, out=o))
        add('put unit ' + un, lambda o=o: o.put([0], 2 * o))
        add('definition of unit ' + un, lambda o=o: o.definition.fill(5))
    # definitions
    for n, f in [('name number', lambda: pq.UnitQuantity(3)), ('name bytes', lambda: pq.UnitQuantity(b'x', m)), ('symbol number', lambda: pq.UnitQuantity('q24a', m, symbol=3)), ('name taken', lambda: pq.UnitQuantity('m', 3 * s)),
                 ('name taken, same dimension', lambda: pq.UnitQuantity('meter', 3 * m)), ('symbol taken', lambda: pq.UnitQuantity('q24b', 3 * s, symbol='kg')), ('alias taken', lambda: pq.UnitQuantity('q24c', 3 * s, aliases=['joules', 'J'])),
                 ('alias number', lambda: pq.UnitQuantity('q24d', 3 * s, aliases=[3])), ('registry taken', lambda: unit_registry.__setitem__('m', pq.UnitQuantity('q24e', 3 * m))), ('registry number', lambda: unit_registry.__setitem__(3, 3 * m)),
                 ('class label', lambda: unit_registry.__setitem__('UnitQuantity', 3 * m)), ('compound', lambda: pq.CompoundUnit('nosuch*m')), ('compound number', lambda: pq.CompoundUnit('3')), ('compound class', lambda: pq.CompoundUnit('UnitQuantity')),
                 ('UnitMass length', lambda: pq.set_default_units(length='kg')), ('system', lambda: pq.set_default_units('imperial')), ('default number', lambda: pq.set_default_units(length=3)), ('default unknown', lambda: pq.set_default_units(mass='nosuch')),
                 ('default dimension', lambda: pq.set_default_units(time=m ** 2)), ('default class', lambda: U.UnitTime.set_default_unit('m')), ('default array', lambda: pq.set_default_units(length=[1, 2] * m)), ('default scaled', lambda: pq.set_default_units(length=2 * m))]:
        add('define ' + n, f)
    # dimensionalities
    d, e = m.dimensionality, s.dimensionality
    for n, f in [('add', lambda: d + e), ('sub', lambda: d - e), ('iadd', lambda: operator.iadd(d.copy(), e)), ('isub', lambda: operator.isub(d.copy(), e)), ('add number', lambda: d + 3), ('mul number', lambda: d * 3), ('div string', lambda: d / 'm'),
                 ('imul number', lambda: operator.imul(d.copy(), 3)), ('itruediv number', lambda: operator.itruediv(d.copy(), 3)), ('mul unit', lambda: d * m), ('pow dim', lambda: d ** e), ('pow array', lambda: d ** np.array([1, 2]))]:
        add('dimensionality ' + n, f)
    # strings
    for b in ['nosuch', 'm+s', 'm-s', 'm**s', 'm*2', '2*m', 'm()', 'm.real', 'm[0]', 'm,s', 'lambda: m', 'm if 1 else s', 'm and s', 'm<s', '[m]', '{m}', '__import__("os")', 'm; s', 'm=s', 'm:=s', '*m', 'm**', '(m', 'm%s', 'm@s', '~m', 'not m', "'m'", 'm**[1]', 'm**(1,)',
              'UnitQuantity', '1', '0', 'None', 'True', 'm**None', 'm**1j', '0*m', 'm**m']:
        add('string %r' % b, lambda b=b: Quantity(1.0, b))
    # functions of the library
    for n, f in [('arctan2', lambda: pq.arctan2(q(), t)), ('hypot', lambda: pq.hypot(q(), t)), ('cross', lambda: pq.sin(q())), ('exp', lambda: pq.exp(q())), ('arcsin', lambda: pq.arcsin(q())), ('cumprod', lambda: pq.cumprod(q())),
                 ('ediff1d', lambda: pq.ediff1d(q(), to_end=3 * s)), ('unwrap', lambda: pq.unwrap(q())), ('nanprod array', lambda: np.prod(q()) ** [1, 2])]:
        add('function ' + n, f)
    add('pickle conflict', lambda: pickle.loads(pickle.dumps(pq.kg).replace(b'kilogram', b'meter').replace(b'kg', b'zz')))
    return out


def accepted():
    """operations next to the battery that must keep working"""
    q = Quantity([1.0, 2.0, 3.0], 'm')
    out = []
    for n, f in [('add', lambda: q + 3 * pq.km), ('compare', lambda: q < 3 * pq.km), ('eq other', lambda: q == 3 * pq.s), ('zero', lambda: q * 0 + 0 * pq.m), ('view scale', lambda: operator.imul(q.copy()[1:], 2.0)),
                 ('power uniform', lambda: q ** np.array([2.0, 2.0, 2.0])), ('again', lambda: pq.UnitQuantity('meter', None, symbol='m') if False else unit_registry['m']), ('sin', lambda: np.sin(30 * pq.degree)),
                 ('percent', lambda: q * pq.percent + q), ('dimless', lambda: (q / pq.km).dimensionless_magnitude), ('uq', lambda: UQ(1.0, 'm', .1) + UQ(2.0, 'km', .001)), ('str', lambda: Quantity(1.0, 'kg*m/s^2').rescale('N')),
                 ('define', lambda: pq.UnitQuantity('q24ok', 3 * pq.m, symbol='q24k', aliases=['q24l'])), ('defined', lambda: Quantity(2.0, 'q24l').simplified), ('default', lambda: [pq.set_default_units(length='ft'), (3.0 * pq.m).simplified, pq.set_default_units('SI'), (3.0 * pq.m).simplified]),
                 ('constants', lambda: [c for _, c in sorted(constants().items())]), ('deg', lambda: [getattr(pq, n)(np.array([.1, .2, .3]) * pq.dimensionless) for n in ('sin', 'arcsin', 'tanh', 'exp', 'cumsum')]),
                 ('docs', lambda: [isinstance(pq.sin.__doc__, (str, type(None))), isinstance(Quantity.__add__.__doc__, (str, type(None)))]), ('catalogue', lambda: [(l, M.BY_LABEL[l].name, unit_registry[l].simplified if l != 'dimensionless' else 1) for l in sorted(M.BY_LABEL) if l.isidentifier() and l not in ('in', 'as')]),
                 ('pickles', lambda: [pickle.loads(pickle.dumps(getattr(pq, n))) for n in ('m', 'J', 'dimensionless', 'c', 'foot')])]:
        out.append((n, f))
    # every function and method
    for j, (n, f) in enumerate(c23.CALLS):
        for k in sorted(set(c23.arities(n))):
            for t in range(5):
                args = c23.call_args(random.Random('C24 %s %d %d' % (n, k, t)), k)
                if n == 'method nonzero' and np.ndim(args[0]) == 0:
                    # numpy itself deprecates this call, whoever makes it
                    continue
                out.append(('%s/%d %d' % (n, k, t), lambda f=f, args=args: f(*args)))
    return out


# ------------------------------------------------------------------ running

_scratch = [None]


def setup(mon):
    _scratch[0] = tempfile.mkdtemp(prefix='qmon-c24-')


def cleanup():
    if _scratch[0]:
        shutil.rmtree(_scratch[0], ignore_errors=True)


def run(name, flags, env, spec):
    a, b = os.path.join(_scratch[0], 'spec.json'), os.path.join(_scratch[0], 'log.json')
    json.dump(spec, open(a, 'w'))
    e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    e['PYTHONHASHSEED'] = '0'
    e.update(env)
    p = subprocess.run([sys.executable, '-B', '-s', '-X', 'pycache_prefix=/nonexistent-qmon'] + flags + [os.path.join(VERIF, 'qmon', 'script24.py'), a, b], env=e, cwd=_scratch[0], capture_output=True, text=True, timeout=400, errors='replace')
    if p.returncode or not os.path.exists(b):
        return None, p.stderr[-1500:]
    r = json.load(open(b))
    os.unlink(b)
    return r, None


def config_case(rng, mon, i):
    """one configuration against the plain one, same script"""
    name, flags, env, opts = CONFIGS[i % len(CONFIGS)]
    tier = NOPS[0]
    sl = rng.sample([p for p in SLICES if os.path.exists(os.path.join(os.path.dirname(__file__), p.lower() + '.py'))], tier[1])
    spec = dict(modes=['ops', 'battery', 'slices'], seeds=['o%d-%d' % (rng.randrange(10 ** 9), j) for j in range(tier[0])], seed=rng.randrange(1, 10 ** 6), slices=sl, per_family=tier[2])
    spec.update(opts)
    plain = {k: v for k, v in spec.items() if k not in ('preamble', 'warn', 'of')}
    base, err = run('plain', [], {}, plain)
    mon.check(base is not None, 'the script failed without any options: %s', err)
    got, err = run(name, flags, env, spec)
    mon.check(got is not None, 'the script cannot run under %s: %s', name, err)
    mon.check(set(k for k in base['log'] if not k.startswith('message')) == set(k for k in got['log'] if not k.startswith('message')), 'under %s the script performed other entries: %s', name, sorted(set(base['log']) ^ set(got['log']))[:5])
    mon.check(('-O' in flags) <= (got['flags'][3] >= 1), 'internal: the configuration %s is not in force', name)
    mon.reach |= set(got['reach'])
    bad = []
    for k, v in base['log'].items():
        if k.startswith('message'):
            continue
        w = got['log'][k]
        if k.startswith('refused'):
            if not v.startswith('raised'):
                bad.append('%s is accepted without any options: %s' % (k, v[:200]))
            elif not w.startswith('raised'):
                bad.append('%s is accepted under %s: %s' % (k, name, w[:200]))
            elif v != w:
                bad.append('%s: %s without options, %s under %s' % (k, v, w, name))
        elif v != w:
            bad.append('%s: %s without options, %s under %s %s' % (k, v[:400], w[:400], name, got['log'].get(k.replace('slice', 'message'), '')))
        mon.ev(k.split()[0] + (' ' + k.split()[1] if k.split()[0] in ('op', 'slice') else ''), (name, k), (name, k, w[:60]))
    mon.extra['processes'] += 2
    mon.extra['exceptions compared'] += sum(v.startswith('raised') for v in base['log'].values())
    mon.ev('configuration', (name, tuple(sl)), name)
    mon.check(not bad, '%d differences: %s', len(bad), bad[:6])


NOPS = [(150, 4, 6)]
JOBS = {'quick': 6, 'thorough': 8}
FAMILIES = [Family('configuration', config_case, len(CONFIGS), len(CONFIGS) * 24)]
REQUIRED_OPS = ['configuration', 'refused', 'accepted'] + ['op ' + k for k in c23.KINDS if k not in ()]
