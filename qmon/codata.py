"""The published table of constants, read by columns, with its units in terms of the reference units."""
import os, re, math
from . import model as M
from .core import VERIF
from .consttable import ROWS


def parse_table(path):
    """{entry: (value, uncertainty, unit)} read by columns"""
    T = {}
    body = open(path).read().splitlines()[10:]
    for l in body:
        if not l.strip():
            continue
        name = l[:55].strip().replace('mag.', 'magnetic').replace('mom.', 'moment')
        v = l[55:77].replace(' ', '').replace('...', '')
        p = l[77:99].replace(' ', '').replace('...', '')
        T[name] = (float(v), 0.0 if p == '(exact)' else float(p), l[99:].strip())
    return T


T = parse_table(os.path.join(VERIF, 'qmon', 'nist_codata_2006.txt'))
HAND = {'astronomical_unit': (149597870700.0, 'm'), 'pi': (math.pi, ''), 'golden_ratio': ((1 + math.sqrt(5)) / 2, '')}
# NIST unit tokens -> reference units
TOK = {'m': {'meter': 1}, 'kg': {'kilogram': 1}, 's': {'second': 1}, 'A': {'ampere': 1}, 'K': {'Kelvin': 1}, 'mol': {'mole': 1}, 'J': {'joule': 1}, 'C': {'coulomb': 1}, 'V': {'volt': 1}, 'F': {'farad': 1},
       'N': {'newton': 1}, 'T': {'tesla': 1}, 'Hz': {'hertz': 1}, 'MHz': {'megahertz': 1}, 'eV': {'electron_volt': 1}, 'MeV': {'MeV': 1}, 'GeV': {'GeV': 1}, 'u': {'atomic_mass_unit': 1}, 'E_h': {'hartree': 1}, 'H': {'henry': 1},
       'W': {'watt': 1}, 'Wb': {'weber': 1}, 'ohm': {'ohm': 1}, 'S': {'siemens': 1}, 'Pa': {'pascal': 1}, 'sr': {'steradian': 1}, 'fm': {'femtometer': 1}, 'C_90': {}}


def parse_unit(s):
    """'kg m^2 s^-1', '(m s)^-1 K^-1', 'MeV/c' -> reference expression"""
    toks = re.findall(r'[A-Za-z_]\w*|\^-?\d+|[()/]', s)
    pos = [0]

    def seq():
        e, sign = {}, 1
        while pos[0] < len(toks) and toks[pos[0]] != ')':
            t = toks[pos[0]]
            pos[0] += 1
            if t == '/':
                sign = -1
                continue
            if t == '(':
                f = seq()
                pos[0] += 1
            else:
                f = ref_unit(t)
            k = 1
            if pos[0] < len(toks) and toks[pos[0]][0] == '^':
                k = int(toks[pos[0]][1:])
                pos[0] += 1
            e = M.ex_mul(e, {x: v * k for x, v in f.items()}, sign)
            sign = 1
        return e
    return seq()


def ref_unit(tok):
    u = M.BY_LABEL.get(tok)
    if tok in TOK and all(k in M.BY_NAME for k in TOK[tok]):
        return TOK[tok]
    if u is None:
        raise KeyError(tok)
    return {u.name: 1}


def expected(row):
    name, sym, attrs, entry = row
    if entry is None:
        v, u = HAND[name]
        return v, 0.0, parse_unit(u)
    v, p, u = T[entry]
    return v, p, parse_unit(u)
