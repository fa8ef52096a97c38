"""C13: renderings name exactly the units and exponents."""
from fractions import Fraction as F
import re
import numpy as np
from ..core import Family, Violation
from .. import model as M
from ..lib import *
from quantities import markup

PROP = 'C13'
QUICK_SCALE = 3
RULE = ('a case renders a random units expression in plain, unicode, LaTeX and HTML notation (unicode display on or off, options, spec strings), decodes each rendering with an '
        'own parser of that notation and compares units, full exponents and side of the fraction with the expression; plain text is also parsed back by the library; '
        'distinct by (exponents, number of units, notation, options)')
SUP = {c: str(i) for i, c in enumerate('⁰¹²³⁴⁵⁶⁷⁸⁹')}
NUM = re.compile(r'\d+(?:\.\d*)?(?:e[-+]?\d+)?|\.\d+')


class Undecodable(Exception):
    pass


class Reader:
    """decodes a rendering: product of (symbol, exponent) in numerator and denominator; symbols are those of the units expected, longest first"""

    def __init__(self, s, symbols, kind, mult):
        self.s, self.i, self.kind = s, 0, kind
        self.symbols = sorted(symbols, key=len, reverse=True)
        self.mult = mult
        self.out = []

    def eat(self, t):
        if t and self.s.startswith(t, self.i):
            self.i += len(t)
            return True
        return False

    def need(self, t):
        if not self.eat(t):
            raise Undecodable('%r expected at %d of %r' % (t, self.i, self.s))

    def number(self):
        m = NUM.match(self.s, self.i)
        if not m:
            raise Undecodable('number expected at %d of %r' % (self.i, self.s))
        self.i = m.end()
        v = float(m.group())
        if v == 1 or m.group().endswith('.0'):
            raise Undecodable('exponent written as %s in %r' % (m.group(), self.s))
        return v

    def factor(self, sign):
        for sym in self.symbols:
            if self.eat(sym):
                break
        else:
            raise Undecodable('no expected unit at %d of %r' % (self.i, self.s))
        e = 1.0
        k = self.kind
        if k == 'plain':
            if self.eat('**'):
                e = self.number()
        elif k == 'unicode':
            d = ''
            while self.i < len(self.s) and self.s[self.i] in SUP:
                d += SUP[self.s[self.i]]
                self.i += 1
            if d:
                e = float(d)
            elif self.eat('^'):
                e = self.number()
        elif k == 'latex':
            if self.eat('^{'):
                e = self.number()
                self.need('}')
        else:
            if self.eat('<sup>'):
                e = self.number()
                self.need('</sup>')
        self.out.append((sym, sign * e))

    def product(self, sign, stop=()):
        if not any(self.s.startswith(x, self.i) for x in self.symbols if x.startswith('(')) and self.eat('('):
            self.product(sign)
            self.need(')')
            return
        self.factor(sign)
        while True:
            if self.mult:
                if not self.eat(self.mult):
                    return
            elif self.i >= len(self.s) or self.s[self.i] in ')/}':
                return
            self.factor(sign)

    def side(self, sign):
        if self.s[self.i:self.i + 1] == '1':
            self.i += 1
        else:
            self.product(sign)

    def read(self):
        if self.s == 'dimensionless':
            return []
        if self.kind == 'latex' and self.eat(r'\frac{'):
            self.side(1)
            self.need('}{')
            self.side(-1)
            self.need('}')
        else:
            self.side(1)
            if self.eat('/'):
                self.side(-1)
        if self.i != len(self.s):
            raise Undecodable('unexpected %r in %r' % (self.s[self.i:], self.s))
        return self.out


def decode(s, symbols, kind, mult):
    out = Reader(s, symbols, kind, mult).read()
    d = {}
    for k, e in out:
        if k in d:
            raise Undecodable('%r appears twice in %r' % (k, s))
        d[k] = e
    return d


EXPS = [1, 1, 1, 2, 3, -1, -1, -2, -3, 10, 12, 100, 101, 1000, -10, -12, -100, -110, 20, 200, 7, 0.5, -0.5, 1.5, 2.5, 12.5, -12.5, 0.25, 0.1, 0.05, -0.01, 10.5, 100.25, 0.125, 1e-3, 1e-5, 1.5e-7, -2.5e-8, 1.5e-10, -2.5e-20, 1.25e+20, 1.5e30,
        1e5, 123456, 1234567.0, 1e16, 1e22, 2.0, -3.0, 10.0, 100.0, -20.0, 1 / 3, 2 / 3, 0.1 + 0.2, 1e-10, 1.0000000000000002, 0.30000000000000004, 9.999999999999999e22, 3.0000000000000004]
UNITOBJ = [u for u in M.ORD if u.name != 'statampere']


def gen_exp(rng):
    c = rng.random()
    if c < .7:
        return rng.choice(EXPS)
    if c < .8:
        return rng.randint(-400, 400) or 1
    if c < .9:
        return round(rng.uniform(-20, 20), rng.randint(1, 6)) or 1
    return rng.uniform(-3, 3)


def gen_units(rng, n=None):
    n = rng.choice([0, 1, 1, 1, 2, 2, 3, 4, 6] * 3 + [9, 16]) if n is None else n
    # all above, or all below the line
    sign = rng.choice([None] * 4 + [1, -1])
    return {u.name: gen_exp(rng) if sign is None else sign * abs(gen_exp(rng)) for u in rng.sample(M.COMMON if rng.random() < .4 else UNITOBJ, n) if u.name != 'statampere'}


def build(ex):
    """quantity with exactly these units, through the public interface"""
    q = Quantity(1.0, 'dimensionless')
    for k, e in ex.items():
        q = q * Quantity(1.0, uobj(k).dimensionality ** e)
    return Quantity(1.0, q.dimensionality)


def show_state(on):
    markup.config.use_unicode = on


def symbols(ex, uni, extra=None):
    out = {}
    for k, e in ex.items():
        o = (extra or {}).get(k) or uobj(k)
        out[o.u_symbol if uni else o.symbol] = float(e)
    return out


OPTS_L = [{}, {}, {}, {'font': 'mathit'}, {'font': 'mathtt'}, {'mult': ''}, {'mult': '*'}, {'mult': r'\\times'}, {'paren': True}, {'paren': True, 'font': 'mathsf', 'mult': r'\\cdot'}, {'mult': ' '}]
OPTS_H = [{}, {}, {}, {'font': '<span style="color: #0000a0">%s</span>'}, {'mult': ''}, {'mult': '*'}, {'mult': '&times;'}, {'paren': True}, {'paren': True, 'font': '<b>%s</b>', 'mult': ' '}, {'font': '<i>%s</i>'}]


def expected_strip(kind, s, o):
    if kind == 'latex':
        a, b = '$\\%s{' % o.get('font', 'mathrm'), '}$'
        if not (s.startswith(a) and s.endswith(b)):
            raise Undecodable('font wrapper missing in %r' % s)
        s = s[len(a):-len(b)]
        if o.get('paren'):
            a, b = '\\left(', '\\right)'
            if not (s.startswith(a) and s.endswith(b)):
                raise Undecodable('parentheses missing in %r' % s)
            s = s[len(a):-len(b)]
        return s
    if kind == 'html':
        a, b = o.get('font', '%s').split('%s')
        if not (s.startswith(a) and s.endswith(b)):
            raise Undecodable('font wrapper missing in %r' % s)
        s = s[len(a):len(s) - len(b)]
        if o.get('paren'):
            if not (s.startswith('(') and s.endswith(')')):
                raise Undecodable('parentheses missing in %r' % s)
            s = s[1:-1]
        return s
    return s


def compare(mon, what, s, ex, uni, kind, mult, o, want=None):
    want = symbols(ex, uni) if want is None else want
    try:
        got = decode(expected_strip(kind, s, o), want, kind, mult)
    except Undecodable as e:
        raise Violation('%s rendering %r of %s (unicode %s, %s): %s' % (what, s, M_show(ex), uni, o, e))
    mon.check(got == want, '%s rendering %r of %s (unicode %s, %s) reads as %s', what, s, M_show(ex), uni, o, got)


def M_show(ex):
    return '*'.join('%s**%r' % kv for kv in ex.items()) or '1'


def render_case(rng, mon, i):
    ex = gen_units(rng)
    render(rng, mon, ex)


def render(rng, mon, ex, q=None):
    q = q if q is not None else build(ex)
    d = q.dimensionality
    mon.check(same(d, ex), 'internal: built %s for %s', d, M_show(ex))
    uni = rng.random() < .4
    before = snap(d)
    show_state(uni)
    try:
        plain = d.string
        compare(mon, 'plain', plain, ex, uni, 'plain', '*', {})
        u = d.unicode
        compare(mon, 'unicode', u, ex, uni, 'unicode', '·', {})
        o = rng.choice(OPTS_L)
        la = markup.format_units_latex(d, **o) if o or rng.random() < .5 else d.latex
        m = o.get('mult', r'\\cdot').replace('\\\\', '\\')
        compare(mon, 'LaTeX', la, ex, uni, 'latex', '{%s}' % m, o)
        h_o = rng.choice(OPTS_H)
        ht = markup.format_units_html(d, **h_o) if h_o or rng.random() < .5 else d.html
        hm = h_o.get('mult', '&sdot;')
        if hm or len(ex) < 2:
            compare(mon, 'HTML', ht, ex, uni, 'html', hm, h_o)
        mon.check(str(d) == (u if uni else plain), 'str of the dimensionality is %r, expected %r', str(d), u if uni else plain)
        mon.check('%s' % d == str(d) and f'{d}' == str(d), 'formatted dimensionality differs from its string')
        if len(ex) > 1:
            # the same units, met in another order
            it = list(ex.items())
            rng.shuffle(it)
            d2 = build(dict(it)).dimensionality
            mon.check((d2.string, d2.unicode, d2.latex, d2.html) == (plain, u, d.latex, d.html), 'the same units in another order read %r, %r, %r', plain, d2.string, (d2.unicode, d2.latex, d2.html))
            mon.ev('order', len(ex))
        mon.check(markup.format_units(dict(d)) == plain, 'rendering of the same units differs: %r, %r', markup.format_units(dict(d)), plain)
    finally:
        show_state(False)
    mon.check(snap(d) == before, 'rendering changed the dimensionality')
    s = d.string
    back, err = attempt(lambda: Quantity(1.0, s).dimensionality)
    mon.check(err is None, 'the plain text %r of %s is refused as unit string: %r', s, M_show(ex), err)
    mon.check(back == d and same(back, ex), 'the plain text %r of %s parses as %s', s, M_show(ex), dims(back))
    r = Quantity([2.0], d).rescale(s)
    mon.check(mag(r)[0] == 2.0, 'rescaling to the own units text %r changes the value', s)
    sig = tuple(sorted(map(str, ex.values())))
    mon.ev('render', (sig, uni, str(o), str(h_o)), s)


def same(d, ex):
    g = {u.name: float(e) for u, e in d.items()}
    return g == {k: float(v) for k, v in ex.items()}


INNER = ['kg/m', 'm**2/s', 'm/(s*K)', 'J/(kg*K**2)', 'kg*m', 'V**3', '1/s', 'A/s**2', 'parsec/cm**3', 'm**2*s/kg', 'mi/h']


def inner_text(s, kind, mult, uni):
    """the text of a compound unit in one notation"""
    if kind == 'unicode' or uni:
        s = re.sub(r'\*\*(\d)', lambda m: '⁰¹²³⁴⁵⁶⁷⁸⁹'[int(m.group(1))], s)
    elif kind == 'latex':
        s = re.sub(r'\*\*(\d)', r'^{\1}', s)
    elif kind == 'html':
        s = re.sub(r'\*\*(\d)', r'<sup>\1</sup>', s)
    return '(%s)' % s.replace('*', mult) if kind != 'plain' else '(%s)' % s


def compound_case(rng, mon, i):
    """compound and ordinary units on both sides of the fraction"""
    inner = rng.sample(INNER, rng.choice([1, 1, 2, 3]))
    ex = {u.name: rng.choice([1, -1, -1, 2, -2, 0.5]) for u in rng.sample(M.COMMON, rng.choice([0, 1, 1, 2])) if u.name != 'statampere'}
    comp = {c: rng.choice([1, -1, -1, 2, -2]) for c in inner}
    q = build(ex)
    for c, e in comp.items():
        q = q * Quantity(1.0, pq.CompoundUnit(c).dimensionality ** e)
    d = q.dimensionality
    uni = rng.random() < .3
    what = '%s with %s' % (M_show(ex), comp)
    show_state(uni)
    try:
        o = rng.choice([{}, {}, {'font': 'mathit'}, {'mult': '*'}, {'mult': r'\\times'}, {'paren': True}, {'paren': True, 'mult': '*'}])
        ho = rng.choice([{}, {}, {'mult': '*'}, {'mult': '&times;'}, {'paren': True}, {'paren': True, 'font': '<b>%s</b>'}])
        if not ex and list(comp.values()) == [1]:
            # a compound unit is in parentheses as it is
            o, ho = {k: v for k, v in o.items() if k != 'paren'}, {k: v for k, v in ho.items() if k != 'paren'}
            for f, tags in ((markup.format_units_latex, 2), (markup.format_units_html, 0)):
                a, b = f(d), f(d, paren=True)
                mon.check(a == b, 'a compound unit reads %r in parentheses, %r without', b, a)
        m, hm = '{%s}' % o.get('mult', r'\\cdot').replace('\\\\', '\\'), ho.get('mult', '&sdot;')
        for kind, s, mult, opt in (('plain', d.string, '*', {}), ('unicode', d.unicode, '·', {}), ('latex', markup.format_units_latex(d, **o) if o else d.latex, m, o), ('html', markup.format_units_html(d, **ho) if ho else d.html, hm, ho)):
            want = symbols(ex, uni)
            want.update({inner_text(c, kind, mult, uni): float(e) for c, e in comp.items()})
            compare(mon, kind, s, ex, uni, kind, mult, opt, want)
            if kind == 'latex' and (min(comp.values()) < 0 or any(e < 0 for e in ex.values())):
                mon.check(r'\frac' in s, 'LaTeX rendering %r of %s is not a fraction', s, what)
            if kind == 'latex' and s.count('(') == s.count(')'):
                mon.check(s.count('{') == s.count('}'), 'unbalanced braces in %r', s)
        mon.ev('compound', (tuple(sorted(comp.values())), tuple(sorted(ex.values())), uni, str(o)), s)
    finally:
        show_state(False)


def unit_case(rng, mon, i):
    """every catalogue unit with a set of exponents"""
    u = UNITOBJ[i % len(UNITOBJ)]
    for e in (1, 2, -1, -3, 0.5, 10, 12.5, -100):
        render(rng, mon, {u.name: e})
    v = rng.choice([x for x in UNITOBJ if x is not u])
    render(rng, mon, {u.name: rng.choice([1, 2, -1]), v.name: rng.choice([1, 2, -1, -2])})
    mon.ev('unit', u.name)


def exponent_type_case(rng, mon, i):
    """exponents of any number type the power operator takes"""
    u = rng.choice(UNITOBJ)
    n, k = rng.choice([1, 2, 3, 5, -1, -2, 7, -5]), rng.choice([1, 2, 3, 4, 5, 6, 7, 8])
    v, e = rng.choice([(F(n, k), n / k), (np.float64(n / k), n / k), (np.float32(n / k), float(np.float32(n / k))), (np.int8(n), n), (np.int64(n), n), (float(n), n), (n, n), (np.float16(n / 4), n / 4), (True, 1),
                       (np.array(n), n), (np.array(n / 4), n / 4)])
    f = rng.choice([lambda: uobj(u.name) ** v, lambda: Quantity([1.0, 1.0], uobj(u.name)) ** v, lambda: Quantity(1.0, u.name) ** v, lambda: uobj(u.name).dimensionality ** (v.item() if isinstance(v, np.ndarray) else v)])
    q, err = attempt(f)
    mon.check(err is None, '%s**%r raised %r', u.name, v, err)
    d = getattr(q, 'dimensionality', q)
    if isinstance(v, F) and u.name and v.denominator == 1:
        e = int(v)
    render(rng, mon, {u.name: e}, Quantity(1.0, d))
    mon.ev('exponent type', (type(v).__name__, e))


def constant_case(rng, mon, i):
    """constants and compound units: not parsed back, but named with their symbol, exponent and side"""
    # a symbol containing an operator (the constant 'A*') can not be told from an expression
    cs = [(k, c) for k, c in sorted(constants().items()) if '*' not in c.symbol or c.symbol.startswith('(')]
    o = cs[i % len(cs)][1]
    if i % 5 == 4:
        o = pq.CompoundUnit(rng.choice(['m**2/s', 'kg*m', 'V/Hz**0.5', '1/cm', 'mol/L']))
    e = rng.choice([1, 2, 3, -1, -2, 0.5, 10, -12])
    ex = {'A': e}
    other = rng.choice([None, 'meter', 'second'])
    d = o.dimensionality ** e
    f = rng.choice([1, -1, 2, -3])
    if other:
        d = d * uobj(other).dimensionality ** f
    for uni in (False, True):
        show_state(uni)
        try:
            want = {(o.u_symbol if uni else o.symbol): float(e)}
            if other:
                want[uobj(other).symbol] = float(f)
            s = d.string
            got = decode(s, want, 'plain', '*')
            mon.check(got == want, 'plain rendering %r reads as %s, expected %s', s, got, want)
            usyms = {markup.superscript(k).replace('**', '^').replace('*', '·'): v for k, v in want.items()}
            got = decode(d.unicode, usyms, 'unicode', '·')
            mon.check(got == usyms, 'unicode rendering %r reads as %s, expected %s', d.unicode, got, usyms)
        except Undecodable as err:
            raise Violation('rendering %r of %s**%s: %s' % (s, o.name, e, err))
        finally:
            show_state(False)
    mon.ev('constant', (o.name, e, other, f), s)


# ------------------------------------------------------------------ quantities
SPECS = ['.2f', '.3g', '+.1e', '8.3f', '', '10', '<12', '0>8.2f', '.0f', ',.2f', '%', 'g', 'e', '+', ' .3f', '.10g']
ISPECS = ['d', '5d', '+d', ',', 'x', '08d', '', 'b', '.2f', '>6']


def text_case(rng, mon, i):
    ex = gen_units(rng, rng.choice([0, 1, 1, 2, 3]))
    dt = rng.choice(['d', 'd', 'f', 'l', 'h', 'D', '?', 'e', 'B'])
    a = gen_array(rng, dt, rng.choice([(), (), (3,), (2, 2), (0,), (1,), (1200,), (2, 600)]), hostile=dt == 'd')
    d = build(ex).dimensionality
    q = Quantity(a, d)
    m = np.asarray(q.magnitude)
    uni = rng.random() < .4
    opts = rng.choice([{}, {}, {'precision': 3}, {'suppress': True}, {'threshold': 5}, {'linewidth': 30}, {'sign': '+'}, {'legacy': '1.13'}, {'formatter': {'float': lambda x: '<%.2f>' % x}}])
    show_state(uni)
    try:
        with np.printoptions(**opts):
            s, r = str(q), repr(q)
            ms, mr = str(m), repr(m)
            units = d.unicode if uni else d.string
            if uni:
                compare(mon, 'unicode', units, ex, uni, 'unicode', '·', {})
            else:
                compare(mon, 'plain', units, ex, uni, 'plain', '*', {})
            mon.check(s == '%s %s' % (ms, units), 'str is %r, numpy prints the magnitude %r and the units are %r', s, ms, units)
            mon.check(r == '%s * %s' % (mr, d.string), 'repr is %r, numpy represents the magnitude %r and the units are %r', r, mr, d.string)
            items = sorted('%s: %s' % (u.name, e) for u, e in d.items())
            rd = repr(d)
            mon.check(rd.startswith('Dimensionality({') and rd.endswith('})') and sorted(x for x in rd[16:-2].split(', ') if x) == items, 'repr of a dimensionality with %s is %r', items, rd)
            mon.check('%s' % q == s and '%r' % q == r, '%%s formatting differs from str')
            if q.ndim == 0:
                sp = rng.choice(ISPECS if m.dtype.kind in 'iu' else SPECS)
                w, e1 = attempt(lambda: format(m, sp))
                g, e2 = attempt(lambda: format(q, sp))
                mon.check((e1 is None) == (e2 is None), 'format %r: numpy gives %r, quantity gives %r', sp, e1 or w, e2 or g)
                if e1 is None:
                    mon.check(g == w + ' ' + str(d), 'format(q, %r) is %r, expected %r', sp, g, w + ' ' + str(d))
                    mon.check(('{:%s}' % sp).format(q) == g, 'str.format differs from format')
            else:
                mon.check(format(q) == s and f'{q}' == s, 'format of an array is %r, str is %r', format(q), s)
                g, e2 = attempt(lambda: format(q, '.2f'))
                w, e1 = attempt(lambda: format(m, '.2f'))
                mon.check((e1 is None) == (e2 is None), 'format of an array with a specification: numpy %r, quantity %r', e1 or w, e2 or g)
    finally:
        show_state(False)
    mon.check(identical(q.magnitude, a) and q.dimensionality == d, 'printing changed the quantity')
    mon.ev('text', (dt, q.shape, uni, str(sorted(opts)), len(ex)), s[:60])
    # a printed scalar reads back: number and units
    if q.ndim == 0 and dt == 'd' and not uni and not opts and math.isfinite(float(m)):
        num, u = s.split(' ', 1)
        back = Quantity(float(num), u)
        mon.check(mag(back) == m and back.dimensionality == d, 'the text %r reads back as %r', s, back)
        mon.ev('text reads back', len(ex))


def uq_text_case(rng, mon, i):
    ex = gen_units(rng, rng.choice([0, 1, 2]))
    d = build(ex).dimensionality
    a = gen_array(rng, 'd', rng.choice([(), (), (3,), (3,), (2, 2), (2, 2), (1,), (0,), (2, 0)]))
    u = np.abs(gen_array(rng, 'd', a.shape)) + .25
    q = UQ(a, d, u)
    uni = rng.random() < .4
    show_state(uni)
    try:
        s, r = str(q), repr(q)
        units = d.unicode if uni else d.string
        m, un = str(np.asarray(q.magnitude)), str(np.asarray(q.uncertainty.magnitude))
        head, _, tail = s.partition('\n')
        mon.check(s.startswith('%s %s' % (m, units)), 'str of an uncertain quantity is %r, magnitude %r, units %r', s, m, units)
        mon.check(un + ' ' + units in s[len(m):], 'str of an uncertain quantity %r lacks the uncertainty %r', s, un)
        pm, sigma = ('±', '1σ') if uni else ('+/-', '1 sigma')
        mon.check(s == '%s %s\n%s%s %s (%s)' % (m, units, pm, un, units, sigma), 'str of an uncertain quantity is %r: magnitude %r, uncertainty %r, units %r', s, m, un, units)
        mon.check(r == 'UncertainQuantity(%r, %s, %r)' % (np.asarray(q.magnitude), d.string, np.asarray(q.uncertainty.magnitude)), 'repr of an uncertain quantity is %r', r)
        mon.check(f'{q}'.startswith('%s %s' % (m, units)), 'a formatted uncertain quantity is %r, str gives %r', f'{q}', s)
        mon.check(repr(np.asarray(q.magnitude)) in r and repr(np.asarray(q.uncertainty.magnitude)) in r and d.string in r, 'repr of an uncertain quantity is %r', r)
    finally:
        show_state(False)
    mon.ev('uncertain text', (a.shape, uni, len(ex)), s[:60])


def unit_text_case(rng, mon, i):
    names = [u.name for u in M.UNITS]
    o = uobj(names[i % len(names)]) if i < len(names) else [c for k, c in sorted(constants().items())][(i - len(names)) % len(constants())]
    # the declared symbols: a unit without symbols of its own shows its name alone
    usym = o.u_symbol
    for uni in (False, True):
        show_state(uni)
        try:
            s, r = str(o), repr(o)
            sym = o.u_symbol if uni else o.symbol
            mon.check(s.startswith('1 ') and sym in s and o.name in s, 'str of the unit %s is %r', o.name, s)
            mon.check(o.name in r, 'repr of the unit %s is %r', o.name, r)
            if o.definition is not o and not isinstance(o, pq.CompoundUnit) and o.name != 'dimensionless':
                mon.check(str(o.definition.magnitude) in r and o.definition.dimensionality.string in r, 'repr of the unit %s does not show its definition: %r', o.name, r)
            if isinstance(o, pq.CompoundUnit):
                mon.check(s == r == '1 ' + o.name, 'the compound unit %s is shown as %r and %r', o.name, s, r)
            else:
                own = usym != o.name if uni else o.symbol != o.name
                want = '1 %s (%s)' % (sym, o.name) if usym != o.name else '1 ' + o.name
                mon.check(s == want, 'str of the unit %s is %r, expected %r', o.name, s, want)
                mon.check(r.startswith(type(o).__name__ + '(' + repr(o.name)) and r.endswith(')'), 'repr of the unit %s is %r', o.name, r)
                args = r[len(type(o).__name__) + 1 + len(repr(o.name)):-1].split(', ')[1:]
                labels = [a for a in args if a[:1] == "'"]
                allowed = [repr(x) for x in ((o.symbol, o.u_symbol) if uni else (o.symbol,))]
                mon.check(set(labels) <= set(allowed) and len(labels) <= 1 + uni, 'repr of the unit %s shows the symbols %s: %r', o.name, labels, r)
                if o.symbol != o.name:
                    mon.check(repr(o.symbol) in labels, 'repr of the unit %s does not show its symbol %r: %r', o.name, o.symbol, r)
                if uni and o.u_symbol not in (o.symbol, o.name):
                    mon.check(repr(o.u_symbol) in labels, 'repr of the unit %s does not show its symbol %r: %r', o.name, o.u_symbol, r)
                rest = [a for a in args if a[:1] != "'"]
                mon.check(len(rest) <= 1 and (not rest or o.name == 'dimensionless' or rest[0] == '%s * %s' % (o.definition.magnitude, o.definition.dimensionality.string)), 'repr of the unit %s shows the definition %s: %r', o.name, rest, r)
        finally:
            show_state(False)
    mon.ev('unit text', o.name, s)


def config_case(rng, mon, i):
    """the switch itself"""
    for v in (True, False, 1, 0, 'yes', ''):
        markup.config.use_unicode = v
        mon.check(markup.config.use_unicode is bool(v), 'use_unicode = %r reads back as %r', v, markup.config.use_unicode)
        q = Quantity(2.0, 'um**2')
        mon.check(str(q) == ('2.0 µm²' if v else '2.0 um**2'), 'str is %r with use_unicode %r', str(q), v)
    markup.config.use_unicode = False
    mon.ev('switch', i)
    # a symbol must identify its unit in each notation
    seen = {}
    for u in M.UNITS:
        if u.name.startswith('('):
            continue
        o = uobj(u.name)
        for kind, sym in (('plain', o.symbol), ('unicode', o.u_symbol)):
            mon.check(sym == sym.strip() and sym, '%s has the %s symbol %r', u.name, kind, sym)
            mon.check(seen.setdefault((kind, sym), u.name) == u.name, '%s and %s share the %s symbol %r', u.name, seen[kind, sym], kind, sym)
            w = M.BY_LABEL.get(sym)
            mon.check(w is None or w.name == u.name, '%s has the %s symbol %r, which denotes %s', u.name, kind, sym, w)
            mon.ev('symbol', (kind, sym))
    for n, c in constants().items():
        mon.check(c.symbol.strip() and c.u_symbol.strip(), 'the constant %s has a blank symbol', n)


FAMILIES = [Family('render', render_case, 5000, 250000), Family('compound', compound_case, 1500, 40000), Family('unit', unit_case, len(UNITOBJ), len(UNITOBJ) * 4), Family('constant', constant_case, 600, 4000),
            Family('exponent type', exponent_type_case, 400, 10000), Family('text', text_case, 4000, 120000), Family('uncertain', uq_text_case, 800, 20000), Family('unit text', unit_text_case, 800, 800, seeded=False), Family('switch', config_case, 4, 4, seeded=False)]
REQUIRED_OPS = ['render', 'compound', 'unit', 'constant', 'exponent type', 'text', 'text reads back', 'uncertain text', 'unit text', 'switch', 'symbol', 'order']
