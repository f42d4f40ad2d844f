"""P02 -- conversions between units have the right factor, or fail cleanly."""
import math
from fractions import Fraction

from hypothesis import strategies as st

from eprempy import measured, metric, symbolic
from vlib import unitmodel as U
from vlib.harness import Property, close, ensure, equal, fail, raises, short

PROPERTY = Property(
    'P02',
    rule=(
        'Cases are pairs of compound units: one to four named units with '
        'metric prefixes and integer or half-integer powers, spelled by '
        'symbol or name as products, quotients or groups, and a second unit '
        'built from it by exchanging units of the same quantity, expanding '
        'derived mechanical units, reordering, or replacing a term. The '
        'oracle is an independent table of SI values and dimensions. '
        'Non-trivial: the two spellings differ and at least one prefix, '
        'power or unit exchange is involved.'
    ),
    assumptions=[
        'Factors are compared with relative tolerance 1e-9; the values of '
        'au, solar radius, eV and nucleon are the documented ones.',
    ],
)

EXPONENTS = ['1', '2', '-1', '-2', '3', '-3', '1/2', '-1/2', '3/2']
PREFIXES = sorted(U.PREFIXES)
MASSNUMBER = ('nuc',)
TERMWISE = sorted(q for q in U.BY_QUANTITY
                  if q not in ('mass number', 'number'))
FORMS = ['powers', 'star', 'space', 'group']
STYLES = ['symbol', 'symbol', 'name', 'u']

prefixes = st.one_of(st.just(''), st.sampled_from(PREFIXES))


@st.composite
def pairs(draw, quantities=TERMWISE, top=4, exponents=EXPONENTS):
    """Two units that agree term by term in the quantities they measure."""
    chosen = draw(st.lists(st.sampled_from(quantities), min_size=1,
                           max_size=top, unique=True))
    one, two = [], []
    for q in chosen:
        x = draw(st.sampled_from(exponents))
        units = U.BY_QUANTITY[q]
        one.append((draw(prefixes), draw(st.sampled_from(units)), x))
        two.append((draw(prefixes), draw(st.sampled_from(units)), x))
    two = draw(st.permutations(two))
    return clean(one), clean(list(two))


def clean(terms):
    terms = [('k' if U.clashes(p, s) else p, s, x) for p, s, x in terms]
    # Keep every partial product within the range of a float.
    for i in reversed(range(len(terms))):
        if span(terms) <= 80:
            break
        terms[i] = ('', *terms[i][1:])
    return terms


def span(terms):
    """How far a partial product of these terms may be from one (log 10)."""
    return sum(abs(math.log10(U.factor(p, s)) * float(Fraction(x)))
               for p, s, x in terms)


spelling = st.tuples(st.sampled_from(FORMS), st.sampled_from(STYLES))


def spell(terms, how):
    form, style = how
    return U.text(terms, style=style, form=form)


def note(t, one, two, a, b):
    n = max(len(one), len(two))
    t.label('terms:' + str(n))
    if any('/' in x for _, _, x in one):
        t.label('half powers')
    if any(p for p, _, _ in one) and any(p for p, _, _ in two):
        t.label('both prefixed')
    changed = sorted(s for _, s, _ in one) != sorted(s for _, s, _ in two)
    if changed:
        t.label('other units')
    t.nontrivial(a != b and (
        changed or any(p for p, _, _ in one + two)
        or any(x != '1' for _, _, x in one)))


def check_factor(actual, one, two, what):
    close(actual, U.size(one) / U.size(two), what)


@PROPERTY.facet(st.tuples(pairs(), spelling, spelling),
                quick=1500, thorough=30000, shards=2)
def units_of_the_same_quantities(case, t):
    """Units that agree term by term in quantity convert with the product of
    the ratios of their terms, however they are spelled."""
    (one, two), how1, how2 = case
    a, b = spell(one, how1), spell(two, how2)
    note(t, one, two, a, b)
    c = metric.conversion(a, b)
    check_factor(float(c), one, two, f'{a!r} -> {b!r}')
    ensure(bool(c), f'{a!r} -> {b!r}: conversion is undefined')
    equal((c.u0, c.u1), (a, b), 'units of the conversion')
    ensure(c.old == metric.unit(a) and c.new == metric.unit(b),
           f'old and new units of {a!r} -> {b!r}')
    inverse = 1 / c
    check_factor(float(inverse), two, one, f'inverse of {a!r} -> {b!r}')
    check_factor(metric.unit(a) >> b, one, two, f'{a!r} >> {b!r}')
    check_factor(metric.unit(a) << metric.unit(b), two, one, f'{a!r} << {b!r}')
    check_factor(a >> metric.unit(b), one, two, f'{a!r} (r)>> {b!r}')
    check_factor(a << metric.unit(b), two, one, f'{a!r} (r)<< {b!r}')


MECHANICS = {
    'J': [('k', 'g', 1), ('', 'm', 2), ('', 's', -2)],
    'N': [('k', 'g', 1), ('', 'm', 1), ('', 's', -2)],
    'erg': [('', 'g', 1), ('c', 'm', 2), ('', 's', -2)],
    'dyn': [('', 'g', 1), ('c', 'm', 1), ('', 's', -2)],
    'eV': [('', 'g', 1), ('', 'm', 2), ('', 'h', -2)],
    'Pa': [('', 'N', 1), ('', 'm', -2)],
    'W': [('', 'J', 1), ('', 's', -1)],
}
PLAIN = ['length', 'mass', 'time', 'temperature', 'amount', 'plane angle',
         'solid angle', 'energy', 'force', 'pressure', 'power']


@st.composite
def expansions(draw):
    """A unit and the same unit with one derived term written out."""
    symbol = draw(st.sampled_from(sorted(MECHANICS)))
    x = draw(st.sampled_from(['1', '2', '-1', '-2', '1/2', '-1/2']))
    one = [(draw(prefixes), symbol, x)]
    two = []
    keep = draw(st.booleans())
    for p, s, k in MECHANICS[symbol]:
        two.append((p if keep else draw(prefixes), s, str(Fraction(x) * k)))
    others = [q for q in PLAIN if q not in
              {U.UNITS[s][1] for _, s, _ in one + two}]
    for q in draw(st.lists(st.sampled_from(others), max_size=2, unique=True)):
        x = draw(st.sampled_from(EXPONENTS))
        units = U.BY_QUANTITY[q]
        one.append((draw(prefixes), draw(st.sampled_from(units)), x))
        two.append((draw(prefixes), draw(st.sampled_from(units)), x))
    return (clean(list(draw(st.permutations(one)))),
            clean(list(draw(st.permutations(two)))))


@PROPERTY.facet(st.tuples(expansions(), spelling, spelling, st.booleans()),
                quick=700, thorough=16000)
def any_unit_with_the_same_dimension(case, t):
    """When units have the same dimension but different terms, the result is
    the right factor or a conversion error, never a wrong factor."""
    (one, two), how1, how2, swap = case
    if swap:
        one, two = two, one
    a, b = spell(one, how1), spell(two, how2)
    note(t, one, two, a, b)
    c = metric.conversion(a, b, error=False)
    if c is None:
        t.label('not converted')
        raises(metric.UnitConversionError, metric.conversion, a, b)
        return
    check_factor(float(c), one, two, f'{a!r} -> {b!r}')


DERIVED = {k: v for k, v in MECHANICS.items() if k in ('J', 'N', 'erg', 'dyn')}


@PROPERTY.facet(
    st.tuples(st.sampled_from(sorted(DERIVED)), prefixes, prefixes, prefixes,
              prefixes, st.sampled_from(['1', '2', '-1']), st.booleans()),
    quick=300, thorough=5000)
def derived_units_convert_to_base_units(case, t):
    """A prefixed derived mechanical unit converts to and from any prefixed
    product of mass, length and time units."""
    symbol, p0, p1, p2, p3, x, swap = case
    one = [(p0, symbol, x)]
    two = clean([(p, s, str(Fraction(x) * k)) for p, (_, s, k) in
                 zip((p1, p2, p3), DERIVED[symbol])])
    if swap:
        one, two = two, one
    a, b = U.text(one), U.text(two)
    note(t, one, two, a, b)
    check_factor(float(metric.conversion(a, b)), one, two, f'{a!r} -> {b!r}')


# Units that exist only in one system of electromagnetic units have another
# dimension in the other system, so they are not compared by dimension.
INCOMPATIBLE = sorted(
    s for s, (_, _, _, d) in U.UNITS.items()
    if d[3] == 0 and s not in MASSNUMBER and s not in ('Wb', 'Mx', 'T', 'G'))


@st.composite
def mismatches(draw):
    one, two = draw(pairs(quantities=[q for q in TERMWISE if any(
        s in INCOMPATIBLE for s in U.BY_QUANTITY[q])], top=3))
    one = [(p, s, x) for p, s, x in one if s in INCOMPATIBLE] or [('', 'm', '1')]
    two = [(p, s, x) for p, s, x in two if s in INCOMPATIBLE] or [('', 'm', '1')]
    i = draw(st.integers(0, len(two) - 1))
    p, s, x = two[i]
    kind = draw(st.sampled_from(['unit', 'power', 'drop', 'add']))
    if kind == 'unit':
        two[i] = (p, draw(st.sampled_from(INCOMPATIBLE)), x)
    elif kind == 'power':
        two[i] = (p, s, draw(st.sampled_from(EXPONENTS)))
    elif kind == 'drop' and len(two) > 1:
        del two[i]
    else:
        two.append((p, draw(st.sampled_from(INCOMPATIBLE)), '1'))
    return clean(one), clean(two)


@PROPERTY.facet(st.tuples(mismatches(), spelling, spelling),
                quick=700, thorough=16000)
def units_of_different_dimension(case, t):
    """Units of different dimension never convert: the attempt raises a unit
    conversion error, or yields nothing when errors are turned off."""
    (one, two), how1, how2 = case
    if U.dimension(one) == U.dimension(two):
        t.label('same dimension after all')
        c = metric.conversion(spell(one, how1), spell(two, how2), error=False)
        if c is not None:
            check_factor(float(c), one, two, 'factor')
        return
    a, b = spell(one, how1), spell(two, how2)
    t.label('terms:' + str(len(one)))
    t.nontrivial()
    c = metric.conversion(a, b, error=False)
    ensure(c is None, f'{a!r} -> {b!r} converts with factor {c}')
    raises(metric.UnitConversionError, metric.conversion, a, b,
           _what=f'{a!r} -> {b!r}')
    raises(metric.UnitConversionError, lambda: metric.unit(a) >> b,
           _what=f'{a!r} >> {b!r}')
    ensure(not metric.unit(a) & b, f'{a!r} & {b!r} is true')


@PROPERTY.facet(
    st.tuples(pairs(top=3), st.randoms(use_true_random=False).map(
        lambda r: r.random()), prefixes, st.sampled_from(['2', '-1', '1/2', '-2', '3'])),
    quick=500, thorough=10000)
def conversions_compose(case, t):
    """Identity, inverse, chaining and powers hold among factors."""
    (one, two), pick, p, power = case
    mid = []
    for i, (_, s, x) in enumerate(two):
        units = U.BY_QUANTITY[U.UNITS[s][1]]
        mid.append((p if not U.clashes(p, units[int(pick * len(units))]) else '',
                    units[int(pick * len(units))], x))
    a, m, b = U.text(one), U.text(mid), U.text(two)
    note(t, one, two, a, b)
    f = lambda u, v: float(metric.conversion(u, v))
    ensure(f(a, a) == 1.0, f'{a!r} -> itself is {f(a, a)}')
    close(f(a, m) * f(m, b), f(a, b), f'{a!r} -> {m!r} -> {b!r}')
    close(f(a, b) * f(b, a), 1.0, f'{a!r} <-> {b!r}')
    n = Fraction(power)
    if span(one) + span(two) > 90:
        n = Fraction(-1)
    scaled = lambda terms: U.text(
        [(q, s, str(Fraction(x) * n)) for q, s, x in terms])
    close(f(scaled(one), scaled(two)), f(a, b) ** float(n),
          f'({a}) -> ({b}) to the power {n}')


ALL = sorted(U.UNITS)


@PROPERTY.facet(
    st.tuples(st.sampled_from(PREFIXES), st.sampled_from(PREFIXES),
              st.sampled_from(ALL), st.sampled_from(ALL)),
    quick=800, thorough=12000)
def named_units(case, t):
    """Every prefixed unit is known by symbol and by name, with the right
    prefix, base and scale; ratios exist between units of the same base."""
    p1, p2, s1, s2 = case
    if U.clashes(p1, s1):
        p1 = 'k'
    if U.clashes(p2, s1):
        p2 = 'k'
    name1 = U.PREFIXES[p1][0] + U.UNITS[s1][0]
    spelled = [p1 + s1, name1] + (['u' + s1] if p1 == 'μ' else [])
    t.nontrivial(bool(p1))
    t.label('quantity:' + U.UNITS[s1][1])
    # Some spellings denote two units; the unprefixed one takes precedence.
    units = [metric.NamedUnit(i) for i in spelled]
    for text, u in zip(spelled, units):
        equal((u.symbol, u.name), (p1 + s1, name1), f'identity of {text!r}')
        equal(u.quantity, U.UNITS[s1][1], f'quantity of {text!r}')
        close(u.scale, U.PREFIXES[p1][1], f'scale of {text!r}')
        equal((u.base.symbol, u.base.name), (s1, U.UNITS[s1][0]),
              f'base of {text!r}')
        equal(u.prefix.symbol, p1, f'prefix of {text!r}')
        ensure(u == units[0] and u == text and hash(u) == hash(units[0]),
               f'{text!r} and {spelled[0]!r} are different units')
    expected = U.PREFIXES[p1][1] / U.PREFIXES[p2][1]
    close(metric.ratio(p1 + s1, p2 + s1), expected, f'{p1 + s1}:{p2 + s1}')
    close(units[0] >> (p2 + s1), expected, f'{p1 + s1} >> {p2 + s1}')
    close(units[0] << (p2 + s1), 1 / expected, f'{p1 + s1} << {p2 + s1}')
    close((p2 + s1) >> units[0], 1 / expected, f'{p2 + s1} (r)>> {p1 + s1}')
    if s1 != s2:
        raises(ValueError, metric.ratio, p1 + s1, s2, _what=f'{p1 + s1}:{s2}')


GAUSSIAN_BASE = {
    # The fundamental units of the units that exist only in the Gaussian
    # system, where charge has a mechanical dimension.
    'Mx': [('', 'g', '1/2'), ('c', 'm', '3/2'), ('', 's', '-1')],
    'G': [('', 'g', '1/2'), ('c', 'm', '-1/2'), ('', 's', '-1')],
}


def reduced(r):
    """A reduction as its scale and a dictionary of powers."""
    return r.scale, {i.base: Fraction(str(i.exponent)) for i in r.units}


def worth(scale, powers):
    """The SI value of a reduction."""
    known = {p + s: (p, s) for s in U.UNITS for p in ('', 'k', 'c')}
    return scale * U.size([(*known[k], v) for k, v in powers.items()])


@PROPERTY.facet(
    st.tuples(st.sampled_from(PREFIXES), st.sampled_from(ALL),
              st.sampled_from(['mks', 'cgs', 'MKS', None]),
              st.sampled_from([2, 3.0, 0.5, 4, 10.0, 0.125]),
              st.sampled_from([1, 2, 3, -1, -2])),
    quick=400, thorough=8000)
def reductions(case, t):
    """A unit reduces to fundamental units of the same total size in every
    system that defines it, and a reduction can be scaled and raised to
    powers, by value and in text."""
    prefix, symbol, system, number, power = case
    if U.clashes(prefix, symbol):
        prefix = 'k'
    unit = metric.NamedUnit(prefix + symbol)
    try:
        r = unit.reduce(system)
    except Exception as err:
        ensure(type(err).__name__ == "SystemAmbiguityError" and
               system is None and symbol == 'e',
               f'cannot reduce {prefix + symbol} in {system}')
        return t.label('ambiguous')
    defined = system and unit.is_defined_in(system.lower())
    if r is None:
        if defined:
            fail(f'{prefix + symbol} is defined in {system} but not reduced')
        return t.label('irreducible')
    if system:
        equal(r.system, system.lower(), f'system of reduced {unit}')
        ensure(defined, f'{unit} is not defined in {system} but has {r}')
    t.nontrivial(len(r.units) > 1 or r.scale != 1)
    t.label(f'system:{r.system}')
    scale, powers = reduced(r)
    if symbol in GAUSSIAN_BASE:
        equal(powers, {p + s: Fraction(e) for p, s, e
                       in GAUSSIAN_BASE[symbol]}, f'terms of {unit}')
        close(scale, U.PREFIXES[prefix][1], f'scale of {unit}')
    else:
        close(worth(scale, powers), U.factor(prefix, symbol),
              f'size of {r}, from {unit} in {system}')
    ensure(unit.reduce(system) is not None and reduced(unit.reduce(system))
           == (scale, powers), f'{unit} reduces differently the second time')
    results = {
        'number * r': (number * r, number * scale, powers),
        'r * number': (r * number, scale * number, powers),
        'r / number': (r / number, scale / number, powers),
        'r ** power': (r ** power, scale ** power,
                       {k: v * power for k, v in powers.items()}),
        'r': (r, scale, powers),
    }
    for what, (this, expected, terms) in results.items():
        close(this.scale, expected, f'scale of {what} for r={r}')
        equal(reduced(this)[1], terms, f'terms of {what} for r={r}')
        equal(this.system, r.system, f'system of {what}')
        text = symbolic.expression(str(this).split('[')[0])
        total = 1.0
        found = {}
        for term in text.terms:
            total *= float(term.coefficient)
            if term.base != '1':
                found[term.base] = Fraction(str(term.exponent))
        equal(found, terms, f'terms in the text of {what}: {this}')
        close(total, expected, f'number in the text of {what}: {this}')
    raises(TypeError, lambda: number / r, _what='number / r')
    raises(TypeError, lambda: number ** r, _what='number ** r')
    raises(TypeError, lambda: r * 'a', _what="r * 'a'")


GAUSSIAN = {
    # quantity: (SI unit, CGS unit, size of the SI unit in CGS units)
    'charge': ('C', 'statC', 1e-1 * 2.99792458e10),
    'potential': ('V', 'statV', 1e8 / 2.99792458e10),
    'capacitance': ('F', 'cm', 1e-9 * 2.99792458e10 ** 2),
    'magnetic induction': ('T', 'G', 1e4),
    'magnetic flux': ('Wb', 'Mx', 1e8),
    'magnetic intensity': ('A / m', 'Oe', 4e-3 * 3.141592653589793),
    'energy': ('J', 'erg', 1e7),
    'force': ('N', 'dyn', 1e5),
    'power': ('W', 'erg / s', 1e7),
    'length': ('m', 'cm', 1e2),
    'mass': ('kg', 'g', 1e3),
    'time': ('s', 's', 1.0),
    'velocity': ('m / s', 'cm / s', 1e2),
    'acceleration': ('m / s^2', 'cm / s^2', 1e2),
    'mass density': ('kg / m^3', 'g / cm^3', 1e-3),
    'number density': ('m^-3', 'cm^-3', 1e-6),
    'volume': ('m^3', 'cm^3', 1e6),
    'area': ('m^2', 'cm^2', 1e4),
    'momentum': ('kg m / s', 'g cm / s', 1e5),
    'pressure': ('Pa', 'dyn / cm^2', 10.0),
    'energy density': ('J / m^3', 'erg / cm^3', 10.0),
    'frequency': ('Hz', 'Hz', 1.0),
    'temperature': ('K', 'K', 1.0),
    'viscosity': ('kg / (m s)', 'P', 10.0),
    'radioactivity': ('Bq', 'Ci', 1 / 3.7e10),
    'plane angle': ('rad', 'rad', 1.0),
}


def prefixable(u):
    return u in U.UNITS or u in ('statC', 'statV', 'Oe')


@PROPERTY.facet(
    st.tuples(st.sampled_from(sorted(GAUSSIAN)), st.sampled_from(['mks', 'cgs']),
              prefixes),
    quick=300, thorough=3000)
def conversions_to_a_system(case, t):
    """Converting to a metric system uses that system's unit of the quantity
    and the right factor, including between SI and Gaussian units."""
    quantity, system, prefix = case
    t.label('quantity:' + quantity)
    t.nontrivial(system == 'cgs')
    mks, cgs, factor = GAUSSIAN[quantity]
    q = metric.quantity(quantity)
    source, target = (mks, cgs) if system == 'cgs' else (cgs, mks)
    size = factor if system == 'cgs' else 1 / factor
    scale = 1.0
    if prefixable(source) and source not in ('cm', 'kg'):
        if not U.clashes(prefix, source):
            source, scale = prefix + source, U.PREFIXES[prefix][1]
    c = q.convert(source).to(system)
    close(float(c), size * scale, f'{source!r} to {system} as {quantity}')
    ensure(metric.unit(c.u1) == metric.unit(target),
           f'{source!r} to {system} as {quantity}: unit is {c.u1!r}')
    c = metric.conversion(source, system, quantity=quantity)
    close(float(c), size * scale, f'{source!r} to {system} given {quantity}')
    close(float(q.convert(source).to(target)), size * scale,
          f'{source!r} to {target!r} as {quantity}')


COMPOUND = [
    # (unit, the same in the other system, size or None: known finding)
    ('H', [('s', 2), ('cm', -1)], 1e9 / 2.99792458e10 ** 2),
    ('ohm', [('s', 1), ('cm', -1)], 1e9 / 2.99792458e10 ** 2),
    ('S', [('cm', 1), ('s', -1)], None),
    ('Oe', [('A', 1), ('m', -1)], 1e3 / (4 * math.pi)),
    ('P', [('kg', 1), ('m', -1), ('s', -1)], 0.1),
    ('W', [('erg', 1), ('s', -1)], 1e7),
    ('Pa', [('dyn', 1), ('cm', -2)], 10.0),
    ('Gy', [('erg', 1), ('g', -1)], 1e4),
    ([('A', 1), ('Wb', -1)], [('cm', -1)], 4e-9 * math.pi),
    ([('Wb', 1), ('m', -1)], [('G', 1), ('cm', 1)], 1e6),
    ([('H', 1), ('m', -1)], [('1', 1)], 1e7 / (4 * math.pi)),
]


def written(terms, form):
    """A spelling of a compound unit."""
    if isinstance(terms, str):
        return terms
    powers = [f'{u}^{x}' if x != 1 else u for u, x in terms]
    if form == 'powers':
        return ' '.join(powers)
    if form == 'reversed':
        return ' '.join(reversed(powers))
    if form == 'star':
        return ' * '.join(powers)
    top = [f'{u}^{x}' if x != 1 else u for u, x in terms if x > 0]
    low = [f'{u}^{-x}' if x != -1 else u for u, x in terms if x < 0]
    top = ' * '.join(top) if top else '1'
    if not low:
        return top
    return f"{top} / ({' '.join(low)})" if len(low) > 1 else \
        f'{top} / {low[0]}'


WRITTEN = ['powers', 'reversed', 'star', 'quotient']


@PROPERTY.facet(
    st.tuples(st.integers(0, len(COMPOUND) - 1), st.sampled_from(WRITTEN),
              st.sampled_from(WRITTEN), prefixes, st.booleans(),
              st.floats(0.1, 10)),
    quick=300, thorough=4000)
def spellings_of_electromagnetic_units(case, t):
    """The factor between an electromagnetic unit and its compound
    counterpart does not depend on how the compound is spelled."""
    which, form, other, prefix, back, number = case
    one, two, size = COMPOUND[which]
    a, b = written(one, form), written(two, other)
    t.label(form, other)
    t.nontrivial(form != 'quotient' or other != 'quotient')
    scale = 1.0
    if isinstance(one, str) and prefix and not U.clashes(prefix, one):
        symbol = metric.NamedUnit(one).symbol
        a, scale = prefix + symbol, U.PREFIXES[prefix][1]
    if size is None:
        size = float(metric.conversion(one, written(two, 'quotient')))
    size = size * scale
    if back:
        a, b, size = b, a, 1 / size
    what = f'{a!r} to {b!r}'
    close(float(metric.conversion(a, b)), size, what)
    close(metric.unit(a) >> metric.unit(b), size, f'{what} as units')
    close(metric.unit(b) << a, size, f'{what} from the text')
    m = measured.value(number, a).withunit(b)
    close(float(m), number * size, f'{number} of {what}')
    equal(m.unit, metric.unit(b), f'unit of {what}')


@PROPERTY.finding(
    'P02-conductance',
    'one siemens converts to 8.98755e5 cm/s but the Gaussian value is '
    '8.98755e11 cm/s')
def conductance():
    f = float(metric.quantity('conductance').convert('S').to('cgs'))
    return abs(f / (1e-9 * 2.99792458e10 ** 2) - 1) > 1e-9
