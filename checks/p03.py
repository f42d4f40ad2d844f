"""P03 -- laws of units, dimensions, quantities and metric systems."""
import itertools
from fractions import Fraction

from hypothesis import strategies as st

from eprempy import metric
from eprempy import symbolic
from vlib import unitmodel as U
from vlib.harness import Property, close, ensure, equal, raises, short
from checks.contained import contained
from checks.p02 import EXPONENTS, clean, pairs, prefixes, spell, spelling

PROPERTY = Property(
    'P03',
    rule=(
        'Cases are compound units (named units with prefixes and powers, '
        'spelled in several ways), pairs of them combined by products, '
        'quotients and powers, and compound quantities written as products '
        'of powers of named quantities. The oracle is an independent table '
        'of SI sizes and dimensions. Non-trivial: more than one term, or a '
        'prefix or power other than one.'
    ),
    assumptions=[
        'The resistance unit is left out: the existing tests pin a '
        'decomposition of the ohm whose power of the ampere is wrong.',
    ],
)

SYSTEMS = ('mks', 'cgs')
BASES = 'LMTIHNJ'
MKS_ONLY = {'J', 'N', 'Pa', 'W', 'C', 'V', 'S', 'F', 'H', 'Wb', 'T', 'Bq'}
CGS_ONLY = {'erg', 'dyn', 'P', 'Mx', 'G', 'Ci'}
GAUSSIAN = {'Mx', 'G'}
BY_SYMBOL = {p + s: (p, s) for s in U.UNITS for p in U.PREFIXES
             if not U.clashes(p, s)}
for _s in U.UNITS:
    BY_SYMBOL[_s] = ('', _s)
for _s, _as in (('kg', 'g'), ('cm', 'm')):
    BY_SYMBOL[_s] = (_s[0], _as)


def terms_of(unit):
    """The model's view of what a unit says."""
    out = []
    for term in unit:
        if term.base == '1':
            ensure(term.coefficient == 1, f'{short(unit)} has a coefficient')
            continue
        equal(float(term.coefficient), 1.0, f'coefficient in {short(unit)}')
        p, s = BY_SYMBOL[term.base]
        out.append((p, s, str(Fraction(term.exponent))))
    return out


def powers(expression):
    return {t.base: Fraction(t.exponent) for t in expression if t.base != '1'}


def merged(terms):
    total = {}
    for p, s, x in terms:
        key = p + s
        total[key] = total.get(key, 0) + Fraction(x)
    return {k: v for k, v in total.items() if v}


ALL = sorted(U.BY_QUANTITY)


@st.composite
def compounds(draw, quantities=ALL, top=4, exponents=EXPONENTS, unique=True):
    chosen = draw(st.lists(st.sampled_from(quantities), min_size=1,
                           max_size=top, unique=unique))
    return clean([
        (draw(prefixes), draw(st.sampled_from(U.BY_QUANTITY[q])),
         draw(st.sampled_from(exponents)))
        for q in chosen
    ])


def interesting(terms):
    return len(terms) > 1 or any(p or x != '1' for p, _, x in terms)


@PROPERTY.facet(
    st.tuples(compounds(), st.permutations(range(4)), spelling, spelling),
    quick=900, thorough=20000)
def spelling_does_not_matter(case, t):
    """Every spelling and order of the same unit is the same unit: equal,
    with the same text, and its text spells it again."""
    terms, order, how1, how2 = case
    t.nontrivial(interesting(terms))
    t.label('terms:' + str(len(terms)))
    other = [terms[i] for i in order if i < len(terms)]
    a, b = spell(terms, how1), spell(other, how2)
    u, v = metric.unit(a), metric.unit(b)
    ensure(u == v and not u != v, f'{a!r} != {b!r}')
    equal(sorted(str(u).split()), sorted(str(v).split()),
          f'terms in the text of {a!r} and {b!r}')
    if how1[1] == how2[1] == 'symbol':
        # A string compares by the symbols in it.
        ensure(u == b and v == a, f'{a!r} and {b!r} as strings')
    equal(merged(terms_of(u)), merged(terms), f'terms of {a!r}')
    ensure(metric.unit(str(u)) == u, f'{a!r} from its own text {str(u)!r}')
    ensure(metric.unit(u) is u, f'{a!r} from itself')
    ensure(metric.unit(list(u)) == u, f'{a!r} from its terms')
    ensure(metric.unit(symbolic.expression(str(u))) == u,
           f'{a!r} from its expression')
    ensure(u & v and u | v and u & b and b & u, f'{a!r} & {b!r} is false')


@PROPERTY.facet(
    st.tuples(compounds(top=3), compounds(top=3),
              st.sampled_from(['mul', 'div', 'strmul', 'strdiv', 'rmul',
                               'rdiv', 'square', 'self', 'one', 'number'])),
    quick=900, thorough=20000)
def products_and_quotients(case, t):
    """The product and quotient of units have the product and quotient of
    their sizes and dimensions, and do not change the units themselves."""
    one, two, op = case
    a, b = U.text(one), U.text(two)
    u, v = metric.unit(a), metric.unit(b)
    before = str(u), str(v)
    inverse = [(p, s, str(-Fraction(x))) for p, s, x in two]
    t.label(op)
    t.nontrivial(interesting(one) or interesting(two))
    if op in ('mul', 'strmul'):
        r, expected = u * (v if op == 'mul' else b), one + two
    elif op in ('div', 'strdiv'):
        r, expected = u / (v if op == 'div' else b), one + inverse
    elif op == 'rmul':
        r, expected = a * v, one + two
    elif op == 'rdiv':
        r, expected = a / v, one + inverse
    elif op == 'square':
        r, expected = u * u, one + one
    elif op == 'self':
        r, expected = u / u, []
    elif op == 'one':
        r, expected = 1 / v, inverse
        ensure(u * 1 == u and 1 * u == u and u / 1 == u, f'{a!r} times one')
    else:
        raises(ValueError, lambda: u * 2, _what=f'{a!r} * 2')
        raises(ValueError, lambda: 2 * u, _what=f'2 * {a!r}')
        raises(ValueError, lambda: u / 2, _what=f'{a!r} / 2')
        raises(ValueError, lambda: 2 / u, _what=f'2 / {a!r}')
        return
    ensure(isinstance(r, metric.Unit), f'{op} gave {type(r)}')
    equal((str(u), str(v)), before, 'operands')
    if any(s in GAUSSIAN for _, s, _ in one + two):
        # The base units of these have no electric current.
        t.label('gaussian')
        return
    got = terms_of(r)
    equal(U.dimension(got), U.dimension(expected),
          f'dimension of {op} of {a!r} and {b!r} = {r}')
    close(U.size(got), U.size(expected), f'size of {op} of {a!r}, {b!r} = {r}')


@PROPERTY.facet(
    st.tuples(compounds(top=3), st.sampled_from(
        ['2', '-1', '3', '1/2', '-2', '3/2', '1', '0', '1/3'])),
    quick=400, thorough=8000)
def powers_of_units(case, t):
    """Powers multiply the exponent of each term."""
    terms, n = case
    a, n = U.text(terms), Fraction(n)
    t.nontrivial(n not in (0, 1))
    u = metric.unit(a)
    r = u ** (int(n) if n.denominator == 1 else n)
    equal(merged(terms_of(r)),
          {k: v * n for k, v in merged(terms).items() if v * n},
          f'({a}) ** {n}')
    if n:
        ensure(r ** (1 / n) == u, f'({a}) ** {n} ** {1 / n}')


def defined_in(terms, system):
    away = CGS_ONLY if system == 'mks' else MKS_ONLY
    return not any(s in away for _, s, _ in terms)


@PROPERTY.facet(st.tuples(compounds(), spelling), quick=600, thorough=12000)
def dimensions_of_units(case, t):
    """A unit has the dimension of the product of its terms in each metric
    system that has those terms, and is dimensionless accordingly."""
    terms, how = case
    a = spell(terms, how)
    u = metric.unit(a)
    electric = any(U.UNITS[s][3][3] for _, s, _ in terms)
    t.nontrivial(interesting(terms))
    expected = {k: v for k, v in zip(BASES, U.dimension(terms)) if v}
    for system in SYSTEMS:
        if system == 'cgs' and electric or not defined_in(terms, system):
            t.label('other system')
            continue
        found = u.dimensions[system]
        ensure(found is not None, f'{a!r} has no dimension in {system}')
        names = {'Θ': 'H', 'H': 'H'}
        got = {names.get(k, k): v for k, v in powers(found).items()}
        equal(got, expected, f'dimension of {a!r} in {system}')
        ensure(metric.system(system).get_dimension(a) == found,
               f'dimension of {a!r} by {system}')
    if not electric and defined_in(terms, 'mks') and defined_in(terms, 'cgs'):
        equal(u.dimensionless, not expected, f'{a!r} is dimensionless')


PLAIN = sorted(
    q for q, units in U.BY_QUANTITY.items()
    if q not in ('mass number', 'number')
    and not any(U.UNITS[s][3][3] for s in units))


@PROPERTY.facet(
    st.tuples(pairs(quantities=PLAIN, top=3), st.booleans(),
              st.sampled_from(PLAIN), spelling),
    quick=700, thorough=15000)
def equivalence_and_consistency(case, t):
    """Consistency of units is having the same dimension; equivalence is also
    having the same size; both are reflexive and symmetric."""
    (one, two), change, q, how = case
    if change:
        two = two + [('', U.BY_QUANTITY[q][0], '1')]
    a, b = U.text(one), spell(two, how)
    u, v = metric.unit(a), metric.unit(b)
    t.nontrivial(a != b)
    same = U.dimension(one) == U.dimension(two)
    t.label('same dimension' if same else 'other dimension')
    ensure(u & u and u | u, f'{a!r} is not consistent with itself')
    for x, y, left, right in ((u, v, a, b), (v, u, b, a)):
        equivalent, consistent = bool(x & y), bool(x | y)
        if not same:
            ensure(not consistent and not equivalent,
                   f'{left!r} and {right!r} are consistent')
            ensure(x != y, f'{left!r} == {right!r}')
            continue
        ensure(consistent or U.quantities(one) != U.quantities(two),
               f'{left!r} and {right!r} are inconsistent')
        if equivalent:
            close(U.size(one) / U.size(two), 1.0,
                  f'{left!r} and {right!r} are equivalent')
            ensure(consistent, f'{left!r} & {right!r} but not |')
        if U.size(one) == U.size(two) and U.quantities(one) == U.quantities(two):
            t.label('same size')
        ensure(equivalent == bool(x & right), f'{left!r} & string')
        ensure(consistent == bool(x | right), f'{left!r} | string')


@PROPERTY.facet(
    st.tuples(compounds(quantities=[q for q in ALL if q not in (
        'mass number', 'number', 'conductance')]), st.sampled_from(SYSTEMS),
        st.booleans()),
    quick=700, thorough=15000)
def normalizing(case, t):
    """Normalizing a unit to a metric system is a product of that system's
    units for the same quantity, and is its own normalization."""
    terms, system, upper = case
    a = U.text(terms)
    u = metric.unit(a)
    t.nontrivial(interesting(terms))
    t.label(system)
    n = u.normalize(system)
    ensure(n.normalize(system) == n, f'{a!r} in {system}, twice')
    ensure(metric.normalize(a, system) == n, f'{a!r} in {system} by function')
    ensure(metric.system(system.upper() if upper else system)
           .get_unit(unit=a) == n, f'{a!r} in {system} by system')
    expected = {}
    for _, s, x in terms:
        canonical = metric.unit(metric.UNITS[U.UNITS[s][1]][system])
        for base, k in powers(canonical).items():
            expected[base] = expected.get(base, 0) + k * Fraction(x)
    equal(powers(n), {k: v for k, v in expected.items() if v},
          f'{a!r} in {system}')
    if system == 'mks':
        # Every SI unit has size one, so the factor is the size of the unit.
        ensure(abs(U.size(terms_of(n)) - 1) < 1e-9, f'{a!r} in mks: {n}')
        c = metric.conversion(a, str(n), error=False)
        if c is not None:
            close(float(c), U.size(terms), f'{a!r} to {n}')


QUANTITIES = ['length', 'mass', 'time', 'temperature', 'amount', 'energy',
              'force', 'velocity', 'number density', 'plane angle', 'pressure',
              'charge', 'current', 'magnetic induction', 'area', 'volume',
              'momentum', 'frequency', 'mass density', 'solid angle']


@PROPERTY.facet(
    st.tuples(
        st.lists(st.tuples(st.sampled_from(QUANTITIES),
                           st.sampled_from(['1', '2', '-1', '-2', '1/2', '3'])),
                 min_size=1, max_size=4, unique_by=lambda x: x[0]),
        st.sampled_from([' * ', ' '])),
    quick=500, thorough=10000)
def compound_quantities(case, t):
    """The unit and dimension of a product of quantities are the products of
    their units and dimensions in either system."""
    parts, sep = case
    if {'mass', 'number density'} <= {q for q, _ in parts}:
        sep = ' * '  # otherwise it could read as a mass number
    text = sep.join(q if x == '1' else
                    (f'({q})^{x}' if ' ' in q else f'{q}^{x}')
                    for q, x in parts)
    text = text.replace('(', '').replace(')', '')
    t.nontrivial(len(parts) > 1 or parts[0][1] != '1')
    compound = metric.quantity(text)
    for system in SYSTEMS:
        for name, table in (('unit', metric.UNITS),
                            ('dimension', metric.DIMENSIONS)):
            expected = {}
            for q, x in parts:
                one = symbolic.expression(table[q][system])
                for base, k in powers(one).items():
                    expected[base] = expected.get(base, 0) + k * Fraction(x)
            expected = {k: v for k, v in expected.items() if v}
            equal(powers(symbolic.expression(table[text][system])), expected,
                  f'{name} of {text!r} in {system}')
        p = compound[system]
        ensure(p.unit == table_unit(text, system), f'unit of {text!r}')
        ensure(metric.system(system)[text] == p, f'{text!r} in {system}')
        ensure(metric.system(system).get_unit(quantity=text) == p.unit,
               f'{system} unit of {text!r}')
    ensure(metric.quantity(text.upper()) is compound or text.upper() == text,
           f'{text!r} depends on case')
    ensure(compound == text and compound | compound, f'{text!r} | itself')


def table_unit(quantity, system):
    return metric.UNITS[quantity][system]


NAMED = sorted(metric.UNITS)
DECLARED = {q: {s: symbolic.expression(metric.DIMENSIONS[q][s])
                for s in SYSTEMS} for q in NAMED}


@PROPERTY.facet(
    st.tuples(st.sampled_from(NAMED), st.sampled_from(NAMED),
              st.sampled_from(SYSTEMS)),
    quick=400, thorough=4000)
def named_quantities(case, t):
    """The unit of each named quantity has the dimension of that quantity,
    quantities are equivalent when their dimensions are, and every system
    finds a unit of the right dimension."""
    q1, q2, system = case
    a, b = metric.quantity(q1), metric.quantity(q2)
    t.nontrivial(q1 != q2)
    declared = metric.DIMENSIONS[q1][system]
    ensure(a[system].dimension == declared,
           f'{q1} in {system}: unit {a[system].unit} has dimension '
           f'{a[system].dimension}, not {declared}')
    for q in NAMED:
        same = all(DECLARED[q1][s] == DECLARED[q][s] for s in SYSTEMS)
        t.label('equivalent' if same else 'different')
        other = metric.quantity(q)
        equal(bool(a | other), same, f'{q1} | {q}')
        equal(bool(other | a), same, f'{q} | {q1}')
    equal(a == b, q1 == q2, f'{q1} == {q2}')
    ensure(metric.quantity(a) is a and metric.quantity(q1.upper()) is a,
           f'{q1} is not unique')
    s = metric.system(system)
    equal(len(s), len(list(s)), f'size of {system}')
    ensure(s[q1] == a[system] and s.get_unit(quantity=a) == a[system].unit,
           f'{q1} in {system}')
    found = s.get_unit(dimension=declared)
    ensure(found.dimensions[system] == declared,
           f'{system} unit {found} for dimension {declared}')
    ensure(found == s.get_unit(dimension=metric.dimension(declared)),
           f'{system} unit for dimension {declared} as an object')
    # A unit goes before a dimension, and a dimension before a quantity.
    ensure(s.get_unit(dimension=declared, quantity=b) == found,
           f'{system} unit for dimension {declared} or quantity {q2}')
    u = b[system].unit
    try:
        expected = s.get_unit(unit=u)
    except KeyError:
        t.label('unit not found')
    else:
        ensure(s.get_unit(quantity=a, dimension=declared, unit=u) == expected,
               f'{system} unit for unit {u} or quantity {q1}')
    raises(KeyError, s.get_unit, _what='get_unit of nothing')
    scrambled = ' * '.join(reversed([f'({i})' for i in str(
        symbolic.expression(declared)).split()]))
    ensure(found == s.get_unit(dimension=scrambled),
           f'{system} unit for dimension {scrambled}')


UNKNOWN = ['foo', 'kkm', 'qm', 'mmm', 'metres', 'M', 'km2', 'dayz', 'kmin_',
           'MeVs', 'uum', 'kau_', 'Volt', 'joules']


@PROPERTY.facet(
    st.tuples(compounds(top=2), st.sampled_from(UNKNOWN), st.integers(0, 2),
              st.sampled_from(['2', '10', '1/2', '-1', '1e3', '0.5', '0'])),
    quick=200, thorough=3000)
def things_that_are_not_units(case, t):
    """An unknown symbol anywhere in a unit, or a numerical coefficient, is
    rejected, also when the same text is tried again."""
    terms, bad, place, number = case
    t.nontrivial()
    good = [U.text([term]) for term in terms]
    parts = good[:place] + [bad] + good[place:]
    text = ' '.join(parts)
    for _ in range(2):
        raises((KeyError, metric.UnitParsingError), metric.unit, text,
               _what=f'unit {text!r}')
    text = f'{number} {U.text(terms)}'
    for _ in range(2):
        raises(metric.UnitParsingError, metric.unit, text,
               _what=f'unit {text!r}')
    raises((KeyError, metric.UnitParsingError), metric.NamedUnit, bad,
           _what=f'named unit {bad!r}')
    ensure(metric.unit(U.text(terms)) == U.text(terms), 'after rejections')


@PROPERTY.finding(
    'P03-ohm',
    'the ohm has the dimension of the volt (M L^2 T^-3 I^-1, not I^-2)')
def ohm():
    return metric.unit('ohm').dimensions['mks'] == metric.unit('V').dimensions['mks']


@PROPERTY.facet(
    st.tuples(st.sampled_from(sorted(U.PREFIXES)),
              st.one_of(st.sampled_from(sorted(U.UNITS)),
                        st.sampled_from([k for k, v in U.UNITS.items()
                                         if ' ' in v[0]])),
              st.permutations(['name', 'symbol', 'unit', 'list'])),
    quick=500, thorough=4000)
@contained
def names(case, t, root):
    """The full name of a unit, even of several words, is the same unit as its
    symbol, whichever is asked for first."""
    prefix, symbol, order = case
    if U.clashes(prefix, symbol):
        return
    short_, long_ = prefix + symbol, U.PREFIXES[prefix][0] + U.UNITS[symbol][0]
    t.nontrivial(bool(prefix))
    t.label('words' if ' ' in long_ else 'word', order[0])
    found = {}
    for kind in order:
        found[kind] = metric.unit(
            metric.unit(short_) if kind == 'unit'
            else {'name': long_, 'symbol': short_, 'list': [long_]}[kind])
    for kind, this in found.items():
        ensure(this == found['symbol'] and str(this) == short_
               or prefix == 'μ',
               f'{long_} as {kind} is {this}, not {short_}')
        ensure(this == found['symbol'], f'{long_} as {kind} is {this}')
        for other in ('name', 'symbol'):
            close(float(this >> found[other]), 1.0,
                  f'{kind} of {long_} in itself', rtol=1e-12)
    close(float(metric.conversion(long_, short_)), 1.0,
          f'{long_} to {short_}', rtol=1e-12)
    close(float(metric.conversion(short_, symbol)),
          U.PREFIXES[prefix][1], f'{short_} to {symbol}', rtol=1e-12)
