"""C11: unit strings parse to the unit they denote."""
from fractions import Fraction as F
import re
import numpy as np
from ..core import Family
from .. import model as M
from ..lib import *

PROP = 'C11'
QUICK_SCALE = 4
RULE = ('a case builds an expression tree over catalogue labels, renders it as a unit string with random spelling, and compares what the library '
        'makes of it with the tree; or mutates such a string / takes one outside the grammar and requires refusal; an own tokenizer and parser is '
        'the oracle for mutated strings; distinct by (string, entry point)')
LABELS = [l for l in M.BY_LABEL if l.isidentifier() and M.BY_LABEL[l].name != 'dimensionless']
EASY = [l for u in M.COMMON for l in u.labels if l.isidentifier()]
TRICKY = [l for l in ('in', 'as', 'min', 'a', 'd', 'h', 'ft', 'c', 'e', 'B', 'b', 'percent', 'L', 'l', 't', 'g', 'm', 's', 'ms', 'mm', 'Mm', 'mS', 'S', 'Pa', 'PA', 'cd', 'dC', 'K', 'R') if l in M.BY_LABEL]


# ------------------------------------------------------------------ expression trees
def gen_tree(rng, depth):
    c = rng.random()
    if depth <= 0 or c < .25:
        pool = LABELS if c < .12 else EASY if c < .2 else TRICKY
        return ('u', rng.choice(pool))
    if c < .6:
        return ('*', gen_tree(rng, depth - 1), gen_tree(rng, depth - 1))
    if c < .8:
        return ('/', gen_tree(rng, depth - 1), gen_tree(rng, depth - 1))
    return ('^', gen_tree(rng, depth - 1 if rng.random() < .3 else 0), gen_exp(rng))


def gen_exp(rng):
    return rng.choice([('n', '2'), ('n', '3'), ('n', '1'), ('n', '-1'), ('n', '-2'), ('n', '0.5'), ('n', '-0.5'), ('n', '1.5'), ('n', '2.0'), ('n', '4'), ('n', '10'), ('n', '0'),
                       ('n', '1e0'), ('n', '.5'), ('n', '2.'), ('n', '0.25'), ('n', '12'), ('q', '1', '2'), ('q', '3', '2'), ('q', '-1', '2'), ('n', '+2')])


def eval_exp(e):
    if e[0] == 'n':
        return F(e[1].rstrip('.') if not e[1].startswith('.') else '0' + e[1])
    return F(e[1]) / F(e[2])


def expr_of(t):
    if t[0] == 'u':
        n = M.BY_LABEL[t[1]].name
        return {} if n == 'dimensionless' else {n: F(1)}
    if t[0] == '*':
        return M.ex_mul(expr_of(t[1]), expr_of(t[2]))
    if t[0] == '/':
        return M.ex_div(expr_of(t[1]), expr_of(t[2]))
    if t[0] == '^':
        return M.ex_pow(expr_of(t[1]), eval_exp(t[2]))
    if t[0] == '1':
        return {}


PREC = {'u': 9, '1': 9, '^': 3, '*': 2, '/': 2}


def render(rng, t, prec=0, right=False):
    sp = lambda: rng.choice(['', '', '', '', ' ', '  ', '\t'])
    k = t[0]
    if k == 'u':
        s = t[1]
    elif k == '1':
        s = rng.choice(['1', '1.0', '1.', '1e0'])
    elif k in '*/':
        a, b = render(rng, t[1], 2), render(rng, t[2], 2, True)
        if k == '*':
            op = rng.choice(['*', '*', '·'])
            if a[-1].isalpha() and b[0].isalpha() and a[-1].isascii() and b[0].isascii() and rng.random() < .1 and len(b) > 1 and re.fullmatch('[A-Za-z]{2,}', b):
                op = '.'
                s = a + op + b
            else:
                s = a + sp() + op + sp() + b
        else:
            s = a + sp() + '/' + sp() + b
    else:
        a = render(rng, t[1], 4)
        e = t[2]
        es = e[1] if e[0] == 'n' else '(%s%s/%s%s)' % (e[1], sp(), sp(), e[2])
        if rng.random() < .15:
            es = '(%s)' % es
        s = a + sp() + rng.choice(['**', '**', '^']) + sp() + es
    if PREC[k] < prec or (right and PREC[k] == prec) or rng.random() < .06:
        s = '(' + sp() + s + sp() + ')'
    return s


# ------------------------------------------------------------------ observing the library
ENTRY = ['Quantity', 'rescale', 'units=', 'UQ', 'registry', 'mul']


def observe(rng, s, ex=None):
    """(expression the library understood or None if refused, error, entry)"""
    e = rng.choice(ENTRY)
    if e == 'rescale':
        if ex is None or not mild(ex, -25, 25):
            e = 'Quantity'
        else:
            src = as_units(M.si_expr(M.dim_of(ex)))
            v, err = attempt(lambda: Quantity(np.array([1.5, 2.5]), src).rescale(s))
            if err is None:
                want = np.array([1.5, 2.5]) / M.fl(M.factor(ex))
                if not close(mag(v), want, 1e-9):
                    return ('value', mag(v), want), None, e
    if e == 'units=':
        if ex is None or not mild(ex, -25, 25):
            e = 'Quantity'
        else:
            v = Quantity(np.array([1.5, 2.5]), as_units(M.si_expr(M.dim_of(ex)))).copy()
            _, err = attempt(setattr, v, 'units', s)
    if e == 'Quantity':
        v, err = attempt(lambda: Quantity(np.array([1.5, 2.5]), s))
        if err is None and not np.array_equal(mag(v), [1.5, 2.5]):
            return ('value', mag(v), [1.5, 2.5]), None, e
    elif e == 'UQ':
        v, err = attempt(lambda: UQ(np.array([1.5]), s, [.1]))
    elif e == 'registry':
        v, err = attempt(lambda: unit_registry[s])
        if err is None:
            if not isinstance(v, Quantity) or v.shape != () or mag(v) != 1:
                # numbers and scaled units are only refused where a unit is expected
                v, err = attempt(lambda: Quantity(1.0, s))
    elif e == 'mul':
        v, err = attempt(lambda: [1.0, 2.0] * Quantity(1.0, s))
    if err is not None:
        return None, err, e
    return v, None, e


def valid_case(rng, mon, i):
    for _ in range(20):
        t = gen_tree(rng, rng.choice([0, 1, 1, 2, 2, 3, 4]))
        ex = expr_of(t)
        if all(abs(v) < 400 for v in ex.values()):
            break
    lead = rng.random()
    if lead < .08:
        t = ('/', ('1',), t)
        ex = M.ex_pow(ex, -1)
    elif lead < .12:
        t = ('*', ('1',), t)
    elif lead < .14:
        t = ('*', t, ('1',))
    s = render(rng, t)
    if rng.random() < .1:
        s = s.replace('percent', '%') if not re.search(r'[\w.]percent|percent[\w.]', s) else s
    v, err, entry = observe(rng, s, ex)
    mon.check(err is None, 'the unit string %r (%s) was refused: %r', s, entry, err)
    if isinstance(v, tuple):
        mon.fail('the unit string %r (%s) converts to %s, expected %s' % (s, entry, v[1], v[2]))
    mon.check(same_dims(v, ex), 'the unit string %r (%s) denotes %s, expected %s', s, entry, dims(v), M.show(ex))
    d2 = Quantity(1.0, s).dimensionality
    mon.check(d2 == v.dimensionality, 'the unit string %r gives another unit the second time: %s', s, dims(d2))
    mon.ev('valid', (s, entry), repr(s))


def label_case(rng, mon, i):
    """every label alone, in every entry point, and in a small expression"""
    l = LABELS[i % len(LABELS)]
    u = M.BY_LABEL[l]
    for f in (lambda s: Quantity(1.0, s), lambda s: unit_registry[s], lambda s: Quantity(1.0, s + '**2') ** .5,
              lambda s: Quantity(1.0, '1/' + s) ** -1, lambda s: Quantity(1.0, '(%s)' % s), lambda s: Quantity(1.0, 'm*' + s) / pq.m,
              lambda s: Quantity(1.0, u.name).rescale(s)):
        v, err = attempt(f, l)
        mon.check(err is None, 'the label %r was refused: %r', l, err)
        mon.check(same_dims(v, {u.name: 1}), 'the label %r denotes %s, expected %s', l, dims(v), u.name)
    mon.check(unit_registry[l] is unit_registry[u.labels[0]], 'labels %r and %r are different units', l, u.labels[0])
    mon.ev('label', l)


# ------------------------------------------------------------------ refused strings
def unknown_name(rng):
    for _ in range(100):
        c = rng.random()
        if c < .3:
            n = ''.join(rng.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_') for _ in range(rng.randint(1, 7)))
        elif c < .5:
            n = rng.choice(['k', 'm', 'M', 'G', 'u', 'n', 'kilo', 'mega', 'milli', 'deci', 'hecto']) + rng.choice(LABELS)
        elif c < .65:
            n = rng.choice(LABELS).swapcase()
        elif c < .8:
            n = rng.choice(LABELS) + rng.choice(['s', 'x', '_', '2', 'es'])
        elif c < .9:
            n = rng.choice(['abs', 'print', 'open', 'eval', 'exec', 'os', 'sys', 'pq', 'np', 'self', 'None', 'True', 'False', '__import__', '__builtins__', '__name__', 'int', 'object', 'type',
                            'UnitQuantity', 'CompoundUnit', 'Quantity', 'Dimensionality', 'registry', 'label', 'ast', 're', 'item', 'tree', 'valid'])
        else:
            n = rng.choice(LABELS)[:-1]
        if n.isidentifier() and n not in M.BY_LABEL and n.lower() != 'in':
            return n
    return 'zzyzx'


def unknown_case(rng, mon, i):
    n = unknown_name(rng)
    if n in ('True', 'False'):
        s = n
    else:
        t = gen_tree(rng, rng.choice([0, 1, 2]))
        s = rng.choice(['%s', '%s', '%s*' + render(rng, t, 2), render(rng, t, 2) + '/%s', render(rng, t, 2) + '*%s**2', '1/%s', '%s**-1', '(%s)', render(rng, t, 4) + '**%s']) % n
    v, err, entry = observe(rng, s)
    mon.check(err is not None, 'the unit string %r (%s) names an unknown unit but was accepted as %s', s, entry, v)
    mon.ev('unknown', (s, entry), repr(s))


def factor_case(rng, mon, i):
    t = gen_tree(rng, rng.choice([0, 1, 2]))
    u = render(rng, t, 2)
    k = rng.choice(['2', '0.5', '10', '1000', '-1', '0', '1e3', '1.0001', '1e-9', '3', '100', '0.1', '1e10', '2j'])
    s = rng.choice(['%s*{u}', '{u}*%s', '{u}/%s', '%s/{u}', '(%s)*{u}', '{u}*(%s*m)/m', '%s*{u}', '{u}*%s*s']).replace('{u}', u) % k
    if k == '0' and '/' in s:
        s = '0*' + u
    if rng.random() < .15:
        s = rng.choice(['-%s', '%s+%s', '%s-%s', '(%s)*2*3', '(2*%s)**2', '1', '2', '1.0', '0', '-1', '1e3', '3*4', '2**3', '%s + %s + %s']).replace('%s', '(%s)' % u)
    w = None
    v, err, entry = observe(rng, s)
    mon.check(err is not None, 'the unit string %r (%s) carries a numeric factor but was accepted as %s', s, entry, v)
    mon.ev('factor', (s, entry), repr(s))


BAD = ['{u}(2)', '{u}.real', '{u}.magnitude', '{u}[0]', '[{u}]', '({u},)', '{u},{u}', '{{"{u}": 1}}', '{{{u}}}', 'lambda: {u}', '{u} if {u} else {u}', '{u} < {u}', '{u} == {u}',
       '{u} and {u}', '{u} or {u}', 'not {u}', '[{u} for x in (1,)]', '(x := {u})', 'f"{{{u}}}"', '"{u}"', "'{u}'", 'b"{u}"', '{u};{u}', '{u}\n{u}', 'x = {u}', 'import os', 'del {u}', '{u}:', '{u} {u}',
       '{u}**', '*{u}', '/{u}', '({u}', '{u})', '()', '{u}()', '{u}***2', '{u}/', '...', 'None', '~{u}', '{u}|{u}', '{u}&{u}', '{u}@{u}', '{u}<<2', '{u}>>1', '{u}!', '${u}', '@{u}', '{u}?', '`{u}`',
       '{u}**{u}', '2**{u}', '{u}**"2"', '{u}*"a"', '"a"*2', '{u}*None', '{u}*...', '{u}**2j', 'yield {u}', 'await {u}', '*{u},', 'print({u})', '{u}.__class__', '(lambda x: x)({u})',
       '{u}[0:1]', '{u} is {u}', '{u} in {u}*{u}', 'return {u}', 'pass', '{u} # x\n+', '\\', '"', "'", '{u}\x00', '#', '# {u}', '{u}**(2,)', '{u}**[2]', '{u}*[1]', '[1]*{u}', '{u}²', '2 {u}', '2{u}', '{u}^', '^{u}', '{u}^^2',
       '{u}..{u}', '{u}.2', '2.{u}', '·', '·{u}', '{u}·', '{u}··{u}', '{u}·/{u}', '1//', '{u}%%', '%%', 'UnitQuantity', 'CompoundUnit', 'CompoundUnit*{u}', 'UnitQuantity/{u}', 'UnitQuantity("a")']


def bad_case(rng, mon, i):
    u = rng.choice(['m', 's', 'kg', 'ft', 'V', 'rad', 'm/s', 'kg*m'])
    pat = BAD[i % len(BAD)]
    if u in ('m/s', 'kg*m'):
        u2 = '(%s)' % u
    else:
        u2 = u
    s = pat.replace('{{', '\x01').replace('}}', '\x02').replace('{u}', u2).replace('\x01', '{').replace('\x02', '}')
    if pat in ('{u}//', ):
        return
    v, err, entry = observe(rng, s)
    mon.check(err is not None, 'the string %r (%s) is not a unit expression but was accepted as %s', s, entry, v)
    mon.check(not isinstance(err, (SystemExit, KeyboardInterrupt)), 'exception')
    mon.ev('malformed', (s, entry), repr(s))


# ------------------------------------------------------------------ mutated strings against an own parser
TOK = re.compile(r'\s*(?:(?P<n>(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)|(?P<w>[A-Za-z_][A-Za-z_0-9]*)|(?P<o>\*\*|\^|[*/()+\-·%]))')


class Bad(Exception):
    pass


class Unsure(Exception):
    pass


def classify(s):
    """('ok', expr) must be understood so; ('refuse',) must be refused; ('either', expr or None) may be refused, but if accepted with this expr"""
    if s.strip() != s or '\n' in s or '\r' in s or not s.isascii() and set(c for c in s if not c.isascii()) != {'·'}:
        raise Unsure
    if re.search(r'//|·\s*[*·]|[*]\s*·|[*]\s+[*]|_\d|\d_|0[xXoObB]|\d[jJ]|[^\sA-Za-z0-9_*/()+\-.^·%]|[A-Za-z]\.[A-Za-z]|\x0b|\x0c', s):
        raise Unsure
    toks, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise Bad
        if m.group('n'):
            n = m.group('n')
            if re.match(r'0\d', n):
                raise Unsure
            toks.append(('n', n))
            if m.end() < len(s) and (s[m.end()].isalnum() or s[m.end()] in '_.'):
                # 2m, 1.2.3: not a number, not a name
                raise Unsure if s[m.end()].isalpha() else Bad
        elif m.group('w'):
            w = m.group('w')
            toks.append(('w', w))
            if m.end() < len(s) and s[m.end()] == '.':
                raise Unsure
        else:
            o = m.group('o')
            if o == '%':
                raise Unsure
            toks.append(('o', {'^': '**', '·': '*'}.get(o, o)))
        i = m.end()
    pos = [0]
    flags = {'num': False}

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else ('e', '')

    def eat(o):
        if peek() == ('o', o):
            pos[0] += 1
            return True
        return False

    def atom():
        k, v = peek()
        pos[0] += 1
        if k == 'n':
            return F(v.rstrip('.') if v.endswith('.') else v.replace('.e', 'e')), {}, True
        if k == 'w':
            if v.lower() == 'in' and v != 'in':
                raise Unsure
            if v in ('None', 'True', 'False', 'and', 'or', 'not', 'if', 'else', 'is', 'lambda', 'for', 'await', 'yield'):
                raise Unsure
            if v not in M.BY_LABEL:
                raise Bad
            n = M.BY_LABEL[v].name
            return F(1), ({} if n == 'dimensionless' else {n: F(1)}), False
        if (k, v) == ('o', '('):
            r = add()
            if not eat(')'):
                raise Bad
            return r
        raise Bad

    def power():
        a = atom()
        if eat('**'):
            b = unary()
            if b[1]:
                raise Bad if a[1] or True else Unsure
            if not b[2]:
                raise Unsure
            if abs(b[0]) > 300 or a[0] != 1 and (abs(b[0]) > 9 or b[0].denominator != 1):
                raise Unsure
            if a[0] == 0:
                raise Unsure
            c = a[0] ** int(b[0]) if a[0] != 1 else F(1)
            return c, M.ex_pow(a[1], b[0]) if a[1] else {}, a[2]
        return a

    def unary():
        if eat('-'):
            a = unary()
            return -a[0], a[1], a[2]
        if eat('+'):
            a = unary()
            if not a[2]:
                raise Unsure
            return a
        return power()

    def mul():
        a = unary()
        while True:
            if eat('*'):
                b = unary()
                a = a[0] * b[0], M.ex_mul(a[1], b[1]), a[2] and b[2]
            elif eat('/'):
                b = unary()
                if b[0] == 0:
                    raise Unsure
                a = a[0] / b[0], M.ex_div(a[1], b[1]), a[2] and b[2]
            else:
                return a

    def add():
        a = mul()
        if peek() in (('o', '+'), ('o', '-')):
            raise Unsure
        return a
    if not toks:
        raise Unsure
    c, ex, num = add()
    if pos[0] != len(toks):
        raise Bad
    if num or c != 1:
        return ('refuse',)
    if any(k == 'n' and v not in ('1',) for k, v in toks) and not re.fullmatch(r'[^0-9.]*(\*\*\s*-?\d+(\.\d+)?[^0-9.]*)*', s.replace('^', '**')):
        return ('either', ex)
    return ('ok', ex)


def mutate(rng, s):
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        k = rng.randint(0, len(s))
        c = rng.random()
        if c < .3 and s:
            s = s[:k] + s[k + 1:]
        elif c < .65:
            s = s[:k] + rng.choice(['*', '/', '**', '^', '(', ')', '2', '1', '-', '.', ' ', 'm', 's', 'k', 'x', '·', '%', '-1', '0', '+', '_', ')*(', '1/', 'e']) + s[k:]
        elif c < .8 and len(s) > 1:
            j = rng.randrange(len(s))
            s = s[:min(j, k)] + s[max(j, k):]
        else:
            j = rng.randint(0, len(s))
            a, b = sorted((j, k))
            s = s[:a] + s[a:b] * 2 + s[b:]
    return s


def mutant_case(rng, mon, i):
    s = render(rng, gen_tree(rng, rng.choice([1, 2, 2, 3])))
    s = mutate(rng, s)
    if len(s) > 200 or re.search(r'\*\*\s*\(*\s*[\d.]+(e\+?\d+|\s*\*\*)', s.replace('^', '**')) or re.search(r'\d{4,}', s) or re.search(r'\d[eE]\+?\d\d+', s):
        return
    try:
        r = classify(s)
    except Unsure:
        r = ('either', None)
    except Bad:
        r = ('refuse',)
    v, err, entry = observe(rng, s)
    if r[0] == 'ok':
        mon.check(err is None, 'the unit string %r (%s) was refused: %r', s, entry, err)
    if r[0] == 'refuse':
        mon.check(err is not None, 'the string %r (%s) must be refused but was accepted as %s', s, entry, v)
    elif err is None and r[1] is not None:
        mon.check(not isinstance(v, tuple) and same_dims(v, r[1]), 'the unit string %r (%s) denotes %s, expected %s', s, entry, v, M.show(r[1]))
    mon.ev('mutant ' + r[0], (s, entry), repr(s))


def special_case(rng, mon, i):
    for s, ex in [('', {}), ('dimensionless', {}), ('%', {'percent': 1}), ('m/%', {'meter': 1, 'percent': -1}), ('%*m', {'meter': 1, 'percent': 1}), ('in', {'inch': 1}),
                  ('in**2', {'inch': 2}), ('lb/in**2', {'pound': 1, 'inch': -2}), ('min', {'minute': 1}), ('as', {'attosecond': 1}), ('1/as', {'attosecond': -1}),
                  ('kg·m/s^2', {'kilogram': 1, 'meter': 1, 'second': -2}), ('m.ms', {'meter': 1, 'millisecond': 1}), ('m**2**2', {'meter': 4}), ('m/s/s', {'meter': 1, 'second': -2}),
                  ('m/s*s', {'meter': 1}), ('m/(s*kg)', {'meter': 1, 'second': -1, 'kilogram': -1}), ('m*s**-1', {'meter': 1, 'second': -1}), ('m^2/s^2', {'meter': 2, 'second': -2}),
                  ('(m/s)**2', {'meter': 2, 'second': -2}), ('m**(1/2)', {'meter': F(1, 2)}), ('m^-1', {'meter': -1}), ('m**-2*s', {'meter': -2, 'second': 1}), ('1/m/s', {'meter': -1, 'second': -1}),
                  ('1', None), ('2', None), (' ', 'either'), ('m**0', {}), ('m/m', {})]:
        v, err, entry = observe(rng, s, ex if isinstance(ex, dict) else None)
        if ex is None:
            mon.check(err is not None, '%r accepted as %s', s, v)
        elif ex != 'either':
            mon.check(err is None, '%r (%s) refused: %r', s, entry, err)
            mon.check(not isinstance(v, tuple) and same_dims(v, ex), '%r (%s) denotes %s, expected %s', s, entry, v, M.show(ex))
        mon.ev('special', (s, entry))


_fp = {}


def setup(mon):
    _fp['before'] = catalogue_fingerprint(deep=True)


def finish(mon):
    now = catalogue_fingerprint(deep=True)
    mon.check(now == _fp['before'], 'looking units up changed the catalogue: %s', diff_fp(_fp['before'], now))
    import random
    r = random.Random(5)
    for _ in range(300):
        n = unknown_name(r)
        _, err = attempt(lambda: Quantity(1.0, n))
        mon.check(err is not None, 'after the run the unknown name %r is accepted', n)
    mon.ev('final fingerprint', len(now))


def table_case(rng, mon, i):
    """the table after a burst of lookups, good and bad"""
    before = catalogue_fingerprint()
    for _ in range(60):
        c = rng.random()
        s = render(rng, gen_tree(rng, 2)) if c < .4 else unknown_name(rng) if c < .7 else rng.choice(BAD).replace('{u}', 'm')
        attempt(lambda: Quantity(1.0, s))
        attempt(lambda: unit_registry[s])
    now = catalogue_fingerprint()
    mon.check(now == before, 'lookups changed the catalogue: %s', diff_fp(before, now))
    mon.ev('table', i)


def other_types_case(rng, mon, i):
    for bad in (5, 2.5, None, object(), ['m'], ('m',), {'m': 1}, b'm', 1j, np.array('m'), np.array(['m', 's']), [pq.m], Quantity([1.0, 1.0], 'm'), 2 * pq.m, pq.UnitQuantity, np.float64(3), True):
        for what, f in (('Quantity', lambda: Quantity(1.5, bad)), ('rescale', lambda: (1.5 * pq.m).rescale(bad)), ('units=', lambda: setattr(1.5 * pq.m, 'units', bad)), ('UQ', lambda: UQ(1.5, bad, .1))):
            if bad is None and what in ('rescale',):
                continue
            v, err = attempt(f)
            mon.check(err is not None, '%s accepted %r as units and gave %s', what, bad, v)
            mon.ev('not a unit', (what, repr(bad)[:30]))


REQUIRED_OPS = ('valid', 'label', 'unknown', 'factor', 'malformed', 'mutant ok', 'mutant refuse', 'special', 'final fingerprint', 'table', 'not a unit')
FAMILIES = [Family('label', label_case, len(LABELS)), Family('valid', valid_case, 6000, 120000), Family('unknown', unknown_case, 2500, 40000), Family('factor', factor_case, 2500, 40000),
            Family('malformed', bad_case, len(BAD) * 6, len(BAD) * 60), Family('mutant', mutant_case, 8000, 160000), Family('special', special_case, 24, 200), Family('table', table_case, 12, 100),
            Family('types', other_types_case, 2, 4)]
