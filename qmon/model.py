"""Independent reference model of units: no code of the library under test is used here."""
from fractions import Fraction as F
from decimal import Decimal, getcontext
import ast, operator, functools
from .reftable import ROWS

getcontext().prec = 50
BASE = ('kg', 'm', 's', 'A', 'K', 'mol', 'cd', 'bit')
PI = F('3.14159265358979323846264338327950288419716939937510582097494459')
SQ10 = F('3.16227766016837933199889354443271853372067247945291')
_ops = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
        ast.Div: operator.truediv, ast.Pow: operator.pow}


def exact(expr):
    """Evaluate an arithmetic expression exactly (decimal literals, PI, SQ10)."""
    def ev(n):
        if isinstance(n, ast.Constant):
            return F(ast.get_source_segment(expr, n))
        if isinstance(n, ast.Name):
            return {'PI': PI, 'SQ10': SQ10}[n.id]
        if isinstance(n, ast.BinOp):
            return _ops[type(n.op)](ev(n.left), ev(n.right))
        if isinstance(n, ast.UnaryOp):
            return -ev(n.operand)
        raise ValueError(expr)
    return ev(ast.parse(expr, mode='eval').body)


def parse_dim(s):
    d = dict.fromkeys(BASE, F(0))
    for t in s.split():
        i = len(t)
        for k, ch in enumerate(t):
            if not ch.isalpha():
                i = k
                break
        d[t[:i]] = F(t[i:]) if i < len(t) else F(1)
    return tuple(d[b] for b in BASE)


class RefUnit:
    __slots__ = ('name', 'labels', 'attrs', 'val', 'dim', 'fval')

    def __init__(self, name, labels, attrs, val, dim):
        self.name, self.labels, self.attrs = name, list(labels), list(attrs)
        self.val, self.dim = val, dim
        self.fval = float(val)

    def __repr__(self):
        return self.name


UNITS = [RefUnit(n, l, a, exact(v), parse_dim(d)) for n, l, a, v, d in ROWS]
BY_NAME = {u.name: u for u in UNITS}
BY_LABEL = {}
for _u in UNITS:
    for _l in _u.labels:
        BY_LABEL[_l] = _u
BY_LABEL.pop('(esu/s)', None)
ZERO = (F(0),) * len(BASE)
# ordinary units: everything but 'dimensionless' and the compound one
ORD = [u for u in UNITS if u.name != 'dimensionless' and not u.name.startswith('(')]
GROUPS = {}
for _u in ORD:
    GROUPS.setdefault(_u.dim, []).append(_u)
COMMON = [BY_NAME[n] for n in (
    'meter', 'kilometer', 'centimeter', 'millimeter', 'foot', 'inch', 'mile', 'second', 'millisecond',
    'microsecond', 'hour', 'minute', 'kilogram', 'gram', 'pound', 'ampere', 'milliampere', 'Kelvin',
    'millikelvin', 'mole', 'joule', 'newton', 'volt', 'millivolt', 'watt', 'pascal', 'kilopascal', 'psi',
    'hertz', 'kilohertz', 'liter', 'radian', 'arcdegree', 'percent', 'coulomb', 'ohm', 'farad', 'candela',
    'byte', 'bit', 'electron_volt') if n in BY_NAME]


def as_frac(e):
    if isinstance(e, F):
        return e
    if isinstance(e, int):
        return F(e)
    return F(float(e)).limit_denominator(10**6)


def ex_norm(expr):
    return {k: as_frac(v) for k, v in expr.items() if as_frac(v) != 0}


def ex_mul(a, b, sign=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + sign * v
    return {k: v for k, v in r.items() if v != 0}


def ex_div(a, b):
    return ex_mul(a, b, -1)


def ex_pow(a, p):
    p = as_frac(p)
    return {k: v * p for k, v in a.items() if v * p != 0}


def dim_of(expr, extra=None):
    d = [F(0)] * len(BASE)
    for k, e in expr.items():
        u = lookup(k, extra)
        for i, x in enumerate(u.dim):
            if x:
                d[i] += x * as_frac(e)
    return tuple(d)


def lookup(name, extra=None):
    if extra and name in extra:
        return extra[name]
    return BY_NAME[name]


@functools.lru_cache(maxsize=4096)
def _dpow(val, e):
    if e.denominator == 1:
        return val ** e.numerator
    d = (Decimal(val.numerator) / Decimal(val.denominator))
    p = Decimal(e.numerator) / Decimal(e.denominator)
    return F((d.ln() * p).exp())


def factor(expr, extra=None):
    """SI value of one unit `expr`, as a (nearly) exact Fraction."""
    r = F(1)
    for k, e in expr.items():
        r *= _dpow(lookup(k, extra).val, as_frac(e))
    return r


def ratio(a, b, extra=None):
    return factor(a, extra) / factor(b, extra)


def fl(x):
    """Fraction -> float without OverflowError."""
    try:
        return float(x)
    except OverflowError:
        return float('inf') if x > 0 else float('-inf')


def is_dimless(expr, extra=None):
    return dim_of(expr, extra) == ZERO


def compatible(a, b, extra=None):
    return dim_of(a, extra) == dim_of(b, extra)


SI_NAMES = {'kg': 'kilogram', 'm': 'meter', 's': 'second', 'A': 'ampere', 'K': 'Kelvin', 'mol': 'mole',
            'cd': 'candela', 'bit': 'bit'}


def si_expr(dim):
    return {SI_NAMES[b]: e for b, e in zip(BASE, dim) if e}


def show(expr):
    return '*'.join('%s**%s' % (k, v) for k, v in expr.items()) or '1'
