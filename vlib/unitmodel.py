"""An independent model of the named units.

Each unit has a size in SI base units, a physical dimension (exponents of
length, mass, time, current, temperature, amount, luminous intensity) and the
name of the quantity that it measures. Plane and solid angles, counts and mass
numbers have no dimension. The values of non-SI constants are the ones that
the package documents.
"""
import math
from fractions import Fraction

PREFIXES = {
    'Y': ('yotta', 1e24), 'Z': ('zetta', 1e21), 'E': ('exa', 1e18),
    'P': ('peta', 1e15), 'T': ('tera', 1e12), 'G': ('giga', 1e9),
    'M': ('mega', 1e6), 'k': ('kilo', 1e3), 'h': ('hecto', 1e2),
    'da': ('deca', 1e1), '': ('', 1.0), 'd': ('deci', 1e-1),
    'c': ('centi', 1e-2), 'm': ('milli', 1e-3), 'μ': ('micro', 1e-6),
    'n': ('nano', 1e-9), 'p': ('pico', 1e-12), 'f': ('femto', 1e-15),
    'a': ('atto', 1e-18), 'z': ('zepto', 1e-21), 'y': ('yocto', 1e-24),
}

EV = 1.6022e-19
AU = 1.495978707e11
RS = 6.96e8
NUC = 1.6605e-27


def dims(L=0, M=0, T=0, I=0, H=0, N=0, J=0):
    return tuple(Fraction(i) for i in (L, M, T, I, H, N, J))


ENERGY = dims(L=2, M=1, T=-2)
UNITS = {
    # symbol: (name, quantity, SI value, dimension)
    'm': ('meter', 'length', 1.0, dims(L=1)),
    'au': ('astronomical unit', 'length', AU, dims(L=1)),
    'Rs': ('solar radius', 'length', RS, dims(L=1)),
    'g': ('gram', 'mass', 1e-3, dims(M=1)),
    's': ('second', 'time', 1.0, dims(T=1)),
    'min': ('minute', 'time', 60.0, dims(T=1)),
    'h': ('hour', 'time', 3600.0, dims(T=1)),
    'd': ('day', 'time', 86400.0, dims(T=1)),
    'A': ('ampere', 'current', 1.0, dims(I=1)),
    'K': ('kelvin', 'temperature', 1.0, dims(H=1)),
    'mol': ('mole', 'amount', 1.0, dims(N=1)),
    'rad': ('radian', 'plane angle', 1.0, dims()),
    'deg': ('degree', 'plane angle', math.pi / 180, dims()),
    'sr': ('steradian', 'solid angle', 1.0, dims()),
    '#': ('count', 'number', 1.0, dims()),
    'nuc': ('nucleon', 'mass number', 1.0, dims()),
    'Hz': ('hertz', 'frequency', 1.0, dims(T=-1)),
    'J': ('joule', 'energy', 1.0, ENERGY),
    'erg': ('erg', 'energy', 1e-7, ENERGY),
    'eV': ('electronvolt', 'energy', EV, ENERGY),
    'N': ('newton', 'force', 1.0, dims(L=1, M=1, T=-2)),
    'dyn': ('dyne', 'force', 1e-5, dims(L=1, M=1, T=-2)),
    'Pa': ('pascal', 'pressure', 1.0, dims(L=-1, M=1, T=-2)),
    'W': ('watt', 'power', 1.0, dims(L=2, M=1, T=-3)),
    'P': ('poise', 'viscosity', 0.1, dims(L=-1, M=1, T=-1)),
    'C': ('coulomb', 'charge', 1.0, dims(T=1, I=1)),
    'e': ('fundamental charge', 'charge', EV, dims(T=1, I=1)),
    'V': ('volt', 'potential', 1.0, dims(L=2, M=1, T=-3, I=-1)),
    'S': ('seimens', 'conductance', 1.0, dims(L=-2, M=-1, T=3, I=2)),
    'F': ('farad', 'capacitance', 1.0, dims(L=-2, M=-1, T=4, I=2)),
    'H': ('henry', 'inductance', 1.0, dims(L=2, M=1, T=-2, I=-2)),
    'Wb': ('weber', 'magnetic flux', 1.0, dims(L=2, M=1, T=-2, I=-1)),
    'Mx': ('maxwell', 'magnetic flux', 1e-8, dims(L=2, M=1, T=-2, I=-1)),
    'T': ('tesla', 'magnetic induction', 1.0, dims(M=1, T=-2, I=-1)),
    'G': ('gauss', 'magnetic induction', 1e-4, dims(M=1, T=-2, I=-1)),
    'Bq': ('becquerel', 'radioactivity', 1.0, dims(T=-1)),
    'Ci': ('Curie', 'radioactivity', 3.7e10, dims(T=-1)),
}

BY_QUANTITY = {}
for _symbol, (_name, _quantity, _value, _dim) in UNITS.items():
    BY_QUANTITY.setdefault(_quantity, []).append(_symbol)


def spell(prefix, symbol, style='symbol'):
    if style == 'name' and ' ' not in UNITS[symbol][0]:
        return PREFIXES[prefix][0] + UNITS[symbol][0]
    if style == 'u' and prefix == 'μ':
        return 'u' + symbol
    return prefix + symbol


def factor(prefix, symbol):
    return PREFIXES[prefix][1] * UNITS[symbol][2]


def clashes(prefix, symbol):
    """True if the spelling also denotes another unit ('cd')."""
    return prefix + symbol in ('cd',)


def size(terms):
    """The SI value of a list of (prefix, symbol, exponent)."""
    total = 1.0
    for prefix, symbol, exponent in terms:
        total *= factor(prefix, symbol) ** float(Fraction(exponent))
    return total


def dimension(terms):
    total = [Fraction(0)] * 7
    for _, symbol, exponent in terms:
        for i, d in enumerate(UNITS[symbol][3]):
            total[i] += d * Fraction(exponent)
    return tuple(total)


def quantities(terms):
    """The exponent of each quantity, including dimensionless ones."""
    out = {}
    for _, symbol, exponent in terms:
        q = UNITS[symbol][1]
        out[q] = out.get(q, 0) + Fraction(exponent)
    return {k: v for k, v in out.items() if v}


def text(terms, style='symbol', form='powers'):
    """Spell a compound unit."""
    if not terms:
        return '1'
    if form == 'powers':
        return ' '.join(
            spell(p, s, style) + ('' if Fraction(x) == 1 else f'^{x}')
            for p, s, x in terms)
    num = [(p, s, Fraction(x)) for p, s, x in terms if Fraction(x) > 0]
    den = [(p, s, -Fraction(x)) for p, s, x in terms if Fraction(x) < 0]
    sep = ' * ' if form == 'star' else ' '

    def side(parts):
        return sep.join(
            spell(p, s, style) + ('' if x == 1 else f'^{x}')
            for p, s, x in parts)

    if not den:
        return side(num)
    top = side(num) if num else '1'
    bottom = side(den)
    if len(den) > 1 or form == 'group':
        bottom = f'({bottom})'
    return f'{top} / {bottom}'
