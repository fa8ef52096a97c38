"""C12: parsing a unit string never executes code."""
import sys, os, types, tempfile, shutil, dis, builtins, re, unicodedata
import numpy as np
from ..core import Family, Violation
from .. import model as M
from ..lib import *
from . import c11

PROP = 'C12'
QUICK_SCALE = 3
RULE = ('a case gives a hostile or random string to every place that accepts a unit string while interpreter audit events, the byte code of every '
        'dynamically compiled code object that runs, canary effects and library/process state are monitored; distinct by (string, entry point)')

# ------------------------------------------------------------------ monitors
ARMED = [False]
EVENTS = []
DYN = []
# events that interpreting a string as an expression needs
BENIGN = {'compile', 'exec', 'builtins.id', 'sys._getframe'}
# effects that are stopped before they happen (the code under test is what keeps them from happening)
FORBIDDEN_OPS = re.compile(r'CALL|LOAD_ATTR|LOAD_METHOD|LOAD_SUPER|SUBSCR|SLICE|IMPORT|STORE_(?!FAST$)|DELETE|MAKE_FUNCTION|YIELD|SEND|AWAIT|RAISE|BUILD_(?!.*STRING)|LIST|SET_|DICT|FORMAT|CONVERT|COMPARE|CONTAINS|IS_OP|JUMP|FOR_ITER|GET_ITER|UNPACK|WITH|LOAD_BUILD_CLASS|GLOBAL$|DEREF|CLOSURE|EXEC|PRINT')


def hook(event, args):
    if not ARMED[0] or event in BENIGN:
        return
    EVENTS.append((event, repr(args)[:150]))
    if event.startswith(('os.', 'subprocess.', 'shutil.', 'socket.', 'ctypes.', 'tempfile.', 'pty.', 'urllib.', 'ftplib.', 'smtplib.', 'sqlite3.', 'signal.', 'builtins.input')) or event in ('open', 'import'):
        ARMED[0] = False
        raise RuntimeError('blocked by the monitor: %s' % event)


def is_dynamic(code):
    f = code.co_filename
    return not (f.startswith('/') or f.startswith('<frozen') or f.startswith('<__array_function__')) or not (f.startswith('<') or os.path.isabs(f))


def on_start(code, off):
    if is_dynamic(code):
        if ARMED[0]:
            DYN.append(code)
        return None
    return sys.monitoring.DISABLE


_scratch = [None]
CANARY = {'ran': False}


def setup(mon):
    import numpy.random
    sys.addaudithook(hook)
    sys.monitoring.use_tool_id(3, 'qmon-exec')
    sys.monitoring.register_callback(3, sys.monitoring.events.PY_START, on_start)
    sys.monitoring.set_events(3, sys.monitoring.events.PY_START)
    _scratch[0] = tempfile.mkdtemp(prefix='qmon-c12-')
    os.chdir(_scratch[0])
    builtins.qmon_canary = lambda *a: CANARY.__setitem__('ran', True)
    _fp['c'] = catalogue_fingerprint(deep=True)
    _fp['s'] = state()
    # make sure that the monitors see what they must see
    ARMED[0] = True
    try:
        eval(compile('(1).real', '', 'eval'), {'__builtins__': {}})
    finally:
        ARMED[0] = False
    mon.check(len(DYN) == 1 and illegal(DYN[0]), 'internal: executed-bytecode monitor is blind')
    ARMED[0] = True
    try:
        open('canary', 'w')
        mon.fail('internal: audit monitor is blind')
    except RuntimeError:
        pass
    finally:
        ARMED[0] = False
    DYN.clear()
    EVENTS.clear()
    mon.ev('monitors live', 1)


def finish(mon):
    mon.check(catalogue_fingerprint(deep=True) == _fp['c'], 'the catalogue changed: %s', diff_fp(_fp['c'], catalogue_fingerprint(deep=True)))
    st = state()
    mon.check(st == _fp['s'], 'process state changed: %s', [(k, set(map(str, st[k])) - set(map(str, _fp['s'][k])) if isinstance(st[k], list) else (_fp['s'][k], st[k])) for k in st if st[k] != _fp['s'][k]][:3])
    mon.ev('final state', len(_fp['c']))


def cleanup():
    ARMED[0] = False
    os.chdir('/')
    if _scratch[0]:
        shutil.rmtree(_scratch[0], ignore_errors=True)
    sys.monitoring.set_events(3, 0)
    sys.monitoring.free_tool_id(3)


_fp = {}


def state():
    from quantities import markup
    from quantities.unitquantity import UnitLength, UnitMass, UnitTime, UnitCurrent, UnitTemperature
    return {'modules': sorted(sys.modules), 'cwd': os.getcwd(), 'files': sorted(os.listdir('.')), 'env': len(os.environ), 'builtins': sorted(vars(builtins)), 'unicode': markup.config.use_unicode,
            'preferred': list(pq.quantity.PREFERRED), 'pq': len(vars(pq)), 'printopt': repr(np.get_printoptions()), 'err': repr(np.geterr()), 'reclimit': sys.getrecursionlimit(),
            'defaults': [c.get_default_unit().name for c in (UnitLength, UnitMass, UnitTime, UnitCurrent, UnitTemperature)], 'path': list(sys.path), 'argv': list(sys.argv)}


def illegal(code):
    """forbidden instructions in dynamically compiled code"""
    bad = [i.opname for i in dis.get_instructions(code) if FORBIDDEN_OPS.search(i.opname) and not (i.opname == 'CALL_INTRINSIC_1' and i.arg == 5)]
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            bad.append('nested code')
    return bad


def entries():
    L = [('Quantity', lambda s: Quantity(1.0, s)), ('rescale', lambda s: (1.5 * pq.m).rescale(s)), ('units=', lambda s: setattr(Quantity([1.0], 'm').copy(), 'units', s)),
         ('UQ', lambda s: UQ(1.0, s, .1)), ('registry', lambda s: unit_registry[s]), ('compound', lambda s: pq.CompoundUnit(s)),
         ('default length', lambda s: pq.set_default_units(length=s)), ('default system', lambda s: pq.set_default_units(s)), ('Quantity of quantity', lambda s: Quantity(2 * pq.km, s)),
         ('default time', lambda s: pq.set_default_units(time=s)), ('Dimensionality of', lambda s: pq.quantity.validate_dimensionality(s))]
    return L


ENT = entries()


def feed(mon, s, entry, must_refuse=None):
    name, f = entry
    EVENTS.clear()
    DYN.clear()
    CANARY['ran'] = False
    ARMED[0] = True
    err = got = None
    try:
        got = f(s)
    except Exception as e:
        err = e
    except BaseException as e:
        ARMED[0] = False
        raise Violation('the string %r (%s) ended with %r' % (s, name, e))
    finally:
        ARMED[0] = False
    mon.check(not CANARY['ran'], 'the string %r (%s) called a function', s, name)
    # any interpreter event except compiling and evaluating the expression
    mon.check(not EVENTS, 'the string %r (%s) caused %s', s, name, EVENTS[:3])
    for c in DYN:
        b = illegal(c)
        mon.check(not b, 'the string %r (%s) executed code with %s', s, name, b[:4])
        mon.extra['dynamic code objects inspected'] += 1
        names = [n for n in c.co_names if n not in M.BY_LABEL]
        mon.extra['names outside the catalogue'] += len(names)
    mon.check(not os.path.exists('canary'), 'the string %r (%s) created a file', s, name)
    if err is None:
        if name == 'registry':
            # units, and the constants written in the string itself
            mon.check(isinstance(got, (Quantity, int, float, complex, str, bytes, np.number, np.bool_, type(None), type(Ellipsis), types.UnionType)) or got in (UnitQuantity, pq.CompoundUnit) and got.__name__ in s, 'the string %r reached %r', s, got)
        elif name in ('Quantity', 'UQ', 'Quantity of quantity', 'rescale'):
            mon.check(isinstance(got, Quantity), 'the string %r (%s) gave %r', s, name, got)
        if name.startswith('default'):
            pq.set_default_units('SI')
    if must_refuse and name == 'compound' and isinstance(got, UnitQuantity) and isinstance(got.definition, Quantity) and got.definition is not got:
        # a factor is allowed in the definition of a compound unit
        must_refuse = None
    if must_refuse and name != 'registry':
        mon.check(err is not None, 'the hostile string %r (%s) was accepted as %s', s, name, got)
    elif must_refuse == 'eval':
        mon.check(err is not None, 'the hostile string %r was evaluated to %r', s, got)
    mon.extra['strings'] += 1
    return err


# ------------------------------------------------------------------ hostile strings
PAY = ['qmon_canary()', 'qmon_canary(1)', "open('canary','w')", "__import__('os').mkdir('canary')", "__import__('builtins').qmon_canary()", "exec('qmon_canary()')", "eval('qmon_canary()')",
       'breakpoint()', 'globals()', 'locals()', 'vars()', 'dir()', 'help()', 'input()', 'print(1)', 'id(1)', 'abs(1)', 'type(1)', "getattr(1,'real')", "setattr(1,'a',2)", 'range(3)', 'open', 'print',
       '__import__', '__builtins__', '__name__', '__file__', '__loader__', '__spec__', '__debug__', 'exit()', 'quit()', 'exit', 'copyright',
       '().__class__', '().__class__.__base__.__subclasses__()', '(1).real', '1 .real', '1..real', '"a".join("bc")', "'{0.__class__}'.format(1)", '[].append(1)', '{}.__class__', "''.__class__.__mro__",
       '(lambda: qmon_canary())()', '(lambda: 1)()', 'lambda: qmon_canary()', '[qmon_canary() for x in (1,)]', '[x for x in [1,2]]', '{x for x in (1,)}', '(x for x in (1,))', '{1: 2}', '{1}', '[1]', '(1,)', '[1][0]',
       '"abc"[0]', 'm[0]', 'm[...]', 'm[()]', 'm[0:1]', '(x := 1)', '(m := 1)', '(m:=qmon_canary())', "f'{qmon_canary()}'", "f'{m}'", "f'{m.__class__}'", "f'{m!r}'", "f'{1:>{2}}'", '1 if m else 2', 'm if m else s', 'm < s', 'm == m',
       'm is m', 'm in m', 'm not in s', 'm and s', 'm or s', 'm and qmon_canary()', '0 or qmon_canary()', 'await m', 'yield', 'yield m', '(yield)', '*m', '*m,', '**m', 'm,s',
       'import os', 'from os import *', 'm = 5', 'm += 1', 'm: int', 'del m', 'pass', 'assert m', 'raise m', 'return m', 'global m', 'while 1: pass', 'for x in m: pass', 'def f(): pass', 'class A: pass', 'with m: pass', 'try: m',
       'm;s', 'm\nqmon_canary()', 'm\rqmon_canary()', 'm\n', '\nm', 'm\\\n*s', 'm;qmon_canary()', 'm #\nqmon_canary()', '@m', 'm->s', 'print m', 'exec "qmon_canary()"', '`m`', 'm!', '$m', '?', '!ls', '%ls', '%%time', '%run x', '\x00', 'm\x00', '\x1a', '\x0c m',
       'm.magnitude', 'm.units', 'm.simplified', 'm.__class__', 'm.__reduce__()', 'm.tofile("canary")', 'm.dump("canary")', 'm._definition', 'm.definition', 'm.flags.writeable', 'm.rescale("s")', 'm.copy()', 'm.item()', 'm.view()', 'm.__init__("a")', 'm.set_default_unit("s")',
       'UnitQuantity("zz")', 'UnitQuantity.__new__', 'UnitQuantity.mro()', 'CompoundUnit("m")', 'UnitQuantity', 'CompoundUnit', 'UnitQuantity*2', '-UnitQuantity', 'UnitQuantity|CompoundUnit', 'UnitQuantity**m', 'UnitQuantity[m]',
       'self', 'self.__context', 'self._Registry__context', 'string', 'tree', 'item', 'ast', 'ast.parse("1")', 're', 're.compile("a")', 'label', 'pq', 'pq.m', 'np', 'np.array([1])', 'np.load("canary")', 'numpy', 'os', 'os.system("true")', 'sys', 'sys.exit()', 'quantities',
       'm@s', 'm|s', 'm&s', '~m', 'not m', 'm<<s', 'm>>s', '1<<2', "'a'", '"m"', "b'm'", "'a'*3", "'m'+'s'", "'%s'%m", "'%s'%1", "'a'%()", 'None', 'True', 'False', '...', 'Ellipsis', 'NotImplemented', 'None*m', '...*m', 'True*2*m', 'm**"2"',
       'm.__class__.__base__', 'm.\u200b__class__', 'm·__class__', 'm.·__class__()', 'm^__class__', 'm.real', 'm.a', 'm.s', '__im%ort__("os")', 'eva%l("1")', '\uff51mon_canary()', 'qmon_canary\uff08\uff09', '\uff4d.real', '__\uff49mport__("os")', 'ｅval("1")',
       '# coding: utf-7\n+AG0-', '#!ls\nm', "m'''", '"""', "'''m", "r'm'", "u'm'", "rb'm'", '0_0', '0x10*m', '0b1', '0o7', '1_0', '1e400', '1e400*m', '-m', '+m', '--m', '+-m', '- -1*m', '1j', '1j*m', 'm**1j', 'inf', 'nan', 'm*nan', '1/0', 'm/0', '0**-1', 'm**(1/0)', '1%0', '1//0', 'm%s', 'm//s',
       'match m:\n case 1: pass', 'type X = int', 'async def f(): pass', 'print(qmon_canary())', '[*m]', '{**m}', 'f(*m)', '(*m,)', 'lambda x=qmon_canary(): 1', '(lambda *a, **k: a)', 'm.__getattribute__', 'm.__dict__', 'not qmon_canary()', '-qmon_canary()', '2**qmon_canary()', '"%c"%65', 'm or 1', '(m)(s)', '(m)[s]', 'm(s)', 'm()', '1()', '"a"()', 'm*s()', 's()*m', 'm**s()', '(m*s)()', '(m,s)[0]', 'm*(s,)', 'm*[1]', '[1]*m', 'm*{}', 'm*()']
HARD = [p for p in PAY if any(x in p for x in ('(', '[', '{', '\n', ';', ' = ', 'lambda', 'import', 'yield', '.__', ':=')) and p not in ('(m)(s)',) and not p.startswith(('m^', 'm·', '0**-1', '(*', 'm**(1/0)', 'm*()')) and 'magnitude' not in p]
# accepted by design or harmless whether accepted or not
LENIENT = {'#!ls\nm', 'm.a', 'm.s', 'm.real', '+m', 'm\n', '--m', '- -1*m', '+-m', 'True', 'm%s', 'm//s', '1e400*m', 'm.units', 'm.copy', 'm.simplified', 'm.magnitude', 'm·__class__', '\x0c m', 'm\\\n*s', '%%time', '0**-1', '\nm'}


def hostile_case(rng, mon, i):
    p = PAY[i % len(PAY)]
    wrap = i // len(PAY)
    s = p
    if wrap:
        s = rng.choice(['%s', 'm*(%s)', '(%s)*m', 'm*%s', '%s*m', '%s/s', 'm**(%s)', '-(%s)', '(%s)', '1/(%s)', 'm*s/(%s)', 'm·%s', 'kg^%s', ' %s', '%s ', '(%s)**2', '0*(%s)', '((%s))', 'm*((%s))', '2*(%s)', 'm+(%s)', '%s%%', '%% * %s', 'm.%s', '%s.m'])
        s = s.replace('%s', p).replace('%%', '%') if '%' in s else s
    must = None
    if not wrap and p not in LENIENT:
        must = 'refuse'
    if must and (any(c in p for c in '([{') and not p.startswith(("m**(1/0)", '(1).real'[:0] or '\x01')) or ':=' in p or '\n' in p.strip() or ';' in p):
        if p not in ('m*()', '(m)'):
            must = 'eval'
    for e in (ENT if not wrap else rng.sample(ENT, 3)):
        mm = must
        if e[0] == 'default system' and s.strip().lower() in ('si', 'cgs'):
            continue
        feed(mon, s, e, mm)
        mon.ev('hostile', (s, e[0]), repr(s))


TOKS = ['m', 's', 'kg', 'in', 'as', 'percent', '%', '(', ')', '()', '[', ']', '{', '}', '.', ',', ':', ':=', ';', '=', '==', '+', '-', '*', '**', '/', '//', '@', '^', '·', '~', '|', '&', '<<', '<', '!=', 'not', 'and', 'or', 'is', 'if', 'else', 'lambda', 'for', 'await',
        '1', '2', '0', '1.5', '1e3', '1j', '"a"', "f'{m}'", "b'x'", 'None', 'True', '...', '__import__', 'qmon_canary', 'open', "('canary','w')", '.__class__', '.real', '__builtins__', '\n', '\t', ' ', '\\\n', '#', '\x00', 'UnitQuantity', "('os')", '.mkdir', "('canary')", 'x', '_', 'ñ', '²', 'µ', 'Å', '\u200b', '\ufeff', '\ud800', '’', '×', '÷', '−', '⋅', 'ｍ']


def soup_case(rng, mon, i):
    s = ''.join(rng.choice(TOKS) for _ in range(rng.randint(1, 9)))
    if re.search(r'(\*\*|\^|·\s*[*·]).*(\*\*|\^|·\s*[*·])', s) or '<<' in s and re.search(r'1e3', s):
        # no towers of powers
        return
    for e in rng.sample(ENT, 2):
        feed(mon, s, e)
        mon.ev('soup', (s, e[0]), repr(s))


def random_case(rng, mon, i):
    c = rng.random()
    if c < .4:
        s = c11.mutate(rng, c11.render(rng, c11.gen_tree(rng, 2)))
    elif c < .7:
        p = rng.choice(PAY)
        s = c11.mutate(rng, p)
    else:
        s = ''.join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(0, 32), rng.randrange(127, 0x2100), rng.randrange(0x10000)])) for _ in range(rng.randint(1, 12)))
    if re.search(r'(\*\*|\^|·\s*[*·]).*(\*\*|\^|·\s*[*·])|\d{4}|\d[eE]\d\d|\d[eE]\+', s) or len(s) > 300 or '<<' in s:
        return
    e = rng.choice(ENT)
    feed(mon, s, e)
    mon.ev('random', (s, e[0]), repr(s))


def valid_case(rng, mon, i):
    """ordinary strings: the monitors stay silent and the executed byte code is arithmetic only"""
    s = c11.render(rng, c11.gen_tree(rng, rng.choice([0, 1, 2])))
    e = ENT[0]
    err = feed(mon, s, e)
    mon.check(err is None, 'the unit string %r was refused: %r', s, err)
    mon.ev('ordinary', s, repr(s))


def nested_case(rng, mon, i):
    """long and nested but harmless strings end in a unit or an ordinary exception"""
    n = rng.choice([5, 20, 60, 90])
    s = rng.choice(['(' * n + 'm' + ')' * n, '*'.join(['m'] * n), '(' * n + 'm', '-' * n + 'm', '/'.join(['m'] * n), 'm' * n, '[' * n + ']' * n, '('*n + 'm' + ',)' * n, 'm' + '**1' * min(n, 20), 'm' + '()' * n, 'm' + '.m' * n, 'x' * 3000, ' ' * n + 'm', 'm' + ' ' * n, '"' + 'a' * 5000 + '"'])
    for e in rng.sample(ENT, 3):
        feed(mon, s, e)
        mon.ev('nested', (s[:40], len(s), e[0]))


REQUIRED_OPS = ('monitors live', 'hostile', 'soup', 'random', 'ordinary', 'nested', 'final state')
FAMILIES = [Family('hostile', hostile_case, len(PAY) * 12, len(PAY) * 150), Family('soup', soup_case, 25000, 600000), Family('random', random_case, 25000, 600000), Family('ordinary', valid_case, 3000, 60000), Family('nested', nested_case, 60, 600)]
