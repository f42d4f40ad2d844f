"""P05 -- measurements: parsing, access and conversion of measured objects."""
import numpy
from hypothesis import strategies as st

from eprempy import measured
from eprempy import metric
from eprempy import physical
from eprempy import quantity
from vlib import unitmodel as U
from vlib.harness import Property, close, ensure, equal, fail, raises, short
from checks.common import (
    arrayclose, families, floats, nested, positive, si, terms_of, unit,
)

PROPERTY = Property(
    'P05',
    rule=(
        'Cases are measurable objects of the documented forms (numbers, '
        'numeric strings, flat lists with or without a unit, value lists '
        'paired with a unit, nested collections) and measured objects of '
        'every kind (value, sequence, measurement, scalar, vector, tensor, '
        'array, coordinates, axes of an array) taken through chains of one '
        'to four conversions mixed with indexing. Oracles: the flat values '
        'and unit the form was built from; value times SI size of the unit '
        'is invariant. Non-trivial: more than one value or nesting level, or '
        'a chain with two different units.'
    ),
    assumptions=[],
)

names = st.sampled_from(['m', 'km', 's', 'nT', 'km / s', 'MeV', 'm^2', 'J^-1',
                         'day', 'au', '1', 'G', 'cm^-3'])
numbers = st.one_of(st.integers(-99, 99),
                    st.floats(-1e3, 1e3, allow_nan=False),
                    st.sampled_from([0, 0.0, 1e-30, 2.5e20]))
styles = st.sampled_from(['list', 'tuple'])


def pack(style, items):
    return list(items) if style == 'list' else tuple(items)


@st.composite
def flat(draw, u):
    """One flat form: ('form', values, unit, object)."""
    form = draw(st.sampled_from(
        ['numbers', 'numbers', 'strings', 'pair', 'unitobject', 'range']))
    if form == 'range':
        first = draw(st.integers(-5, 5))
        size = draw(st.integers(2, 4))
        return (form, list(range(first, first+size)), u,
                pack(draw(styles), [('RANGE', first, first+size), u]))
    values = draw(st.lists(numbers, min_size=1, max_size=4))
    style = draw(styles)
    if form == 'pair':
        inner = draw(styles)
        return (form, values, u, pack(style, [pack(inner, values), u]))
    if form == 'unitobject':
        return (form, values, u, pack(style, [*values, ('UNIT', u)]))
    if form == 'strings' and u != '1':  # a final '1' would be a number
        values = [float(v) for v in values]
        return (form, values, u, pack(style, [*map(repr, values), u]))
    if u == '1' and draw(st.booleans()):
        return (form, values, u, pack(style, values))
    return (form, values, u, pack(style, [*values, u]))


@st.composite
def forms(draw):
    u = draw(names)
    kind = draw(st.sampled_from(['single', 'string', 'flat', 'flat',
                                 'collection', 'collection', 'wrapped']))
    if kind == 'single':
        v = draw(numbers)
        return (kind, [v], '1', v)
    if kind == 'string':
        v = float(draw(numbers))
        return (kind, [v], '1', repr(v))
    if kind == 'flat':
        return draw(flat(u))
    if kind == 'wrapped':
        f, values, w, obj = draw(flat(u))
        for _ in range(draw(st.integers(1, 2))):
            obj = pack(draw(styles), [obj])
        return ('wrapped ' + f, values, w, obj)
    parts = draw(st.lists(flat(u), min_size=2, max_size=3))
    values = [v for p in parts for v in p[1]]
    objs = [p[3] for p in parts]
    if draw(st.booleans()):
        objs = [objs[0], pack(draw(styles), objs[1:])]
    return ('collection', values, u, pack(draw(styles), objs))


def build(obj):
    if isinstance(obj, tuple) and len(obj) == 2 and obj[0] == 'UNIT':
        return metric.unit(obj[1])
    if isinstance(obj, tuple) and len(obj) == 3 and obj[0] == 'RANGE':
        return range(*obj[1:])
    if isinstance(obj, (list, tuple)):
        return type(obj)(build(i) for i in obj)
    return obj


def has_text(obj):
    """True if there are numbers among the text of an object."""
    if isinstance(obj, str):
        try:
            float(obj)
        except ValueError:
            return False
        return obj != '1'
    return isinstance(obj, (list, tuple)) and any(map(has_text, obj))


def same_unit(a, b):
    return metric.unit(a) == metric.unit(b)


@PROPERTY.facet(forms(), quick=1200, thorough=25000)
def parsing(case, t):
    """Every documented form yields its numbers, in order, and its unit."""
    kind, values, u, obj = case
    t.label(kind)
    t.nontrivial(len(values) > 1)
    obj = build(obj)
    parsed = quantity.parse(obj)
    ensure(isinstance(parsed, tuple), 'parse returns a tuple')
    equal(list(parsed[:-1]), values, f'values in {short(obj)}')
    ensure(same_unit(parsed[-1], u), f'unit {parsed[-1]!r} of {short(obj)}')
    spread = quantity.parse(obj, distribute=True)
    equal([p[0] for p in spread], values, f'distributed {short(obj)}')
    ensure(all(len(p) == 2 and same_unit(p[1], u) for p in spread),
           f'distributed units {short(spread)} of {short(obj)}')
    # Already parsed input parses to itself.
    equal(quantity.parse(parsed), parsed, f'parse again {short(obj)}')
    equal(quantity.parse(spread), parsed, f'parse distributed {short(obj)}')
    m = quantity.measure(obj)
    equal(m.data.tolist(), values, f'measure({short(obj)})')
    ensure(same_unit(m.unit, u), f'unit of measure({short(obj)})')
    if isinstance(obj, (list, tuple)) and kind in ('numbers', 'pair'):
        again = quantity.measure(*obj)
        equal((again.data.tolist(), again.unit), (values, m.unit),
              f'measure(*{short(obj)})')
    equal(len(m), len(values), f'length of measure({short(obj)})')
    for i, (v, w) in enumerate(zip(values, m)):
        equal(w.data, v, f'member {i} of measure({short(obj)})')
        equal(w.unit, m.unit, f'unit of member {i}')
        equal(float(m[i]), float(v), f'float of member {i}')
    again = quantity.measure(m)
    ensure(again == m, f'measure(measure({short(obj)}))')
    if len(values) == 1:
        equal(float(m), float(values[0]), f'float(measure({short(obj)}))')
        equal(int(m), int(values[0]), f'int(measure({short(obj)}))')
        equal(complex(m), complex(values[0]),
              f'complex(measure({short(obj)}))')
    else:
        for cast in (float, int, complex):
            raises(TypeError, cast, m, _what=f'{cast} of several values')
    # What can be measured has data, which are what is measured.
    if 'string' not in kind and not has_text(obj):
        ensure(quantity.ismeasurable(obj), f'{short(obj)} is not measurable')
    for x in (obj, m):
        ensure(quantity.hasdata(x), f'{short(x)} has no data')
        equal(numpy.atleast_1d(quantity.getdata(x)).tolist(), values,
              f'data of {short(x)}')


@PROPERTY.facet(
    st.one_of(
        st.tuples(st.just('empty'), st.sampled_from([[], (), [[]], ((),), ''])),
        st.tuples(st.just('null'), st.just(None)),
        st.tuples(st.just('word'), st.sampled_from(
            ['m', 'abc', '1 m', 'km s'])),
        st.tuples(st.just('units'), st.tuples(numbers, st.permutations(
            ['m', 's', 'km', 'nT']))),
        st.tuples(st.just('unitobjects'), numbers),
        st.tuples(st.just('differ'), st.tuples(
            numbers, numbers, st.permutations(['m', 's', 'J', '1', 'nT']))),
        st.tuples(st.just('one differs'), st.tuples(
            st.lists(st.lists(numbers, min_size=1, max_size=3), min_size=2,
                     max_size=4), st.integers(0, 3),
            st.permutations(['m', 'cm', 's', '1', 'nT']), st.booleans())),
        st.tuples(st.just('object'), st.just(0)),
    ), quick=300, thorough=4000)
def unparsable(case, t):
    """Empty input, several units, disagreeing units and objects that are not
    numbers raise the documented exceptions."""
    kind, x = case
    t.label(kind)
    t.nontrivial(kind in ('units', 'differ', 'one differs', 'unitobjects'))
    V, T = quantity.ParsingValueError, quantity.ParsingTypeError
    if kind == 'empty':
        raises(V, quantity.parse, x, _what=f'parse({x!r})')
    elif kind == 'null':
        raises(T, quantity.parse, None)
        ensure(not quantity.ismeasurable(x), f'{x!r} is measurable')
        ensure(not quantity.hasdata(x), f'{x!r} has data')
    elif kind == 'word':
        raises(T, quantity.parse, x, _what=f'parse({x!r})')
        ensure(not quantity.ismeasurable(x), f'{x!r} is measurable')
        ensure(not quantity.hasdata(x), f'{x!r} has data')
    elif kind == 'units':
        v, us = x
        for obj in ([v, us[0], us[1]], [us[0], v, us[1]], (v, *us)):
            raises(V, quantity.parse, obj, _what=f'parse({obj!r})')
            raises((quantity.MeasuringTypeError, V), quantity.measure, *obj,
                   _what=f'measure{obj!r}')
    elif kind == 'unitobjects':
        obj = [x, metric.unit('m'), metric.unit('s')]
        raises(V, quantity.parse, obj, _what=f'parse({obj!r})')
    elif kind == 'differ':
        v, w, us = x
        obj = [(v, us[0]), (w, us[1])]
        raises(V, quantity.parse, obj, _what=f'parse({obj!r})')
        raises((quantity.MeasuringTypeError, V), quantity.measure, *obj,
               _what=f'measure{obj!r}')
    elif kind == 'one differs':
        parts, odd, (common, other, *_), nested = x
        obj = [(*p, other if i == odd % len(parts) else common)
               for i, p in enumerate(parts)]
        if nested:
            obj = [obj[0], obj[1:]]
        raises(V, quantity.parse, obj, _what=f'parse({obj!r})')
        raises((quantity.MeasuringTypeError, V), quantity.measure, obj,
               _what=f'measure({obj!r})')
        spread = quantity.parse(obj, distribute=True)
        equal([u for _, u in spread],
              [other if i == odd % len(parts) else common
               for i, p in enumerate(parts) for _ in p],
              f'units of distributed {obj!r}')
    else:
        raises(T, quantity.parse, object(), _what='parse(object())')
        raises(quantity.MeasuringTypeError, quantity.measure, object())


KINDS = ['value', 'sequence', 'measurement', 'scalar', 'vector', 'tensor',
         'array', 'coordinates']


@st.composite
def chains(draw):
    kind = draw(st.sampled_from(KINDS))
    units = draw(families(size=draw(st.integers(2, 5))))
    if kind in ('value', 'scalar'):
        data = draw(floats)
    elif kind in ('tensor', 'array'):
        shape = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
        data = draw(nested(shape, floats))
    elif kind == 'coordinates':
        data = sorted(draw(st.lists(floats, min_size=1, max_size=5,
                                    unique=True)))
    else:
        data = draw(st.lists(floats, min_size=1, max_size=5))
    probes = draw(st.lists(st.integers(0, 2), min_size=3, max_size=3))
    return (kind, data, units, draw(st.booleans()), probes)


def make(kind, data, u):
    if kind == 'value':
        return measured.value(data, unit=u)
    if kind == 'sequence':
        return measured.sequence(data, unit=u)
    if kind == 'measurement':
        return quantity.measure(*data, u)
    if kind == 'scalar':
        return physical.scalar(data, unit=u)
    if kind == 'vector':
        return physical.vector(data, unit=u)
    if kind == 'tensor':
        return physical.tensor(data, unit=u)
    if kind == 'array':
        names = [f'd{i}' for i in range(numpy.ndim(data))]
        return physical.array(data, unit=u, axes=names)
    if kind == 'coordinates':
        return physical.coordinates(quantity.measure(*data, u))
    raise ValueError(kind)


def numbers_of(kind, x):
    if kind in ('value', 'scalar'):
        return float(x)
    if kind == 'coordinates':
        return numpy.array(x.data)
    return numpy.array(x)


@PROPERTY.facet(chains(), quick=1200, thorough=20000, shards=2)
def conversions(case, t):
    """Converting a measured object changes its numbers and its unit so that
    they describe the same amount, however many conversions were made."""
    kind, data, units, asobject, probes = case
    t.label(kind, f'chain:{len(units)}')
    names = [unit(terms) for terms in units]
    t.nontrivial(len(set(names)) > 1)
    x = make(kind, data, names[0])
    expected = si(data, units[0])
    equal(type(x.unit), metric.Unit, 'type of the unit')
    current = x
    for terms, name in zip(units[1:], names[1:]):
        new = metric.unit(name) if asobject else name
        before = numbers_of(kind, current)
        old = current.unit
        following = current.withunit(new)
        what = f'{kind} {short(data)} {" -> ".join(names)} at {name!r}'
        equal(type(following), type(x), what)
        ensure(following.unit == name, f'{what}: unit {following.unit}')
        arrayclose(numbers_of(kind, following), expected / U.size(terms), what)
        # The original is as it was.
        arrayclose(numbers_of(kind, current), before, f'{what}: original', 0)
        equal(current.unit, old, f'{what}: unit of the original')
        current = following
    direct = x.withunit(names[-1])
    arrayclose(numbers_of(kind, direct), numbers_of(kind, current),
               f'{kind} {short(data)} {names}: direct conversion')
    back = current.withunit(names[0])
    arrayclose(numbers_of(kind, back), numpy.asarray(data),
               f'{kind} {short(data)} {names}: back again')
    ensure(back.unit == x.unit, f'{names}: unit of round trip')
    if kind in ('sequence', 'measurement', 'vector', 'tensor'):
        # Members of a converted object carry the converted unit and value.
        i = probes[0] % len(data)
        member = current[i]
        ensure(member.unit == names[-1], f'{kind} {names}: unit of member')
        arrayclose(numpy.squeeze(numpy.array(
            member.data if hasattr(member, 'data') else member, dtype=float)),
            numpy.squeeze(expected[i] / U.size(units[-1])),
            f'{kind} {names}: member {i}')
        again = member.withunit(names[0])
        arrayclose(numpy.squeeze(numpy.array(again.data, dtype=float)),
                   numpy.squeeze(numpy.asarray(data)[i]),
                   f'{kind} {names}: member {i} converted back')
    if kind == 'array':
        i = tuple(p % n for p, n in zip(probes, numpy.shape(data)))
        member = current[i]
        ensure(member.unit == names[-1], f'{kind} {names}: unit of member')
        close(float(numpy.squeeze(numpy.array(member))),
              float(expected[i] / U.size(units[-1])),
              f'{kind} {names}: member {i}')
        again = member.withunit(names[0])
        close(float(numpy.squeeze(numpy.array(again))),
              float(numpy.asarray(data)[i]),
              f'{kind} {names}: member {i} converted back')


@PROPERTY.facet(
    st.tuples(st.sampled_from(KINDS), st.lists(positive, min_size=1,
                                               max_size=3, unique=True),
              families(size=1), st.sampled_from(['cd', 'mol', 'K', 'rad s'])),
    quick=200, thorough=2000)
def inconsistent(case, t):
    """A unit that measures something else is refused, and the object keeps
    its numbers and unit."""
    kind, data, units, other = case
    extra = {'cd': 'luminous intensity', 'mol': 'amount',
             'K': 'temperature', 'rad s': 'plane angle'}[other]
    used = [U.UNITS[s][1] for _, s, _ in units[0]]
    if extra in used or (other == 'rad s' and 'time' in used):
        t.label('skipped')
        return
    t.nontrivial()
    t.label(kind)
    data = sorted(data)
    if kind in ('value', 'scalar'):
        data = data[0]
    name = unit(units[0])
    x = make(kind, data, name)
    raises(ValueError, x.withunit, other, _what=f'{kind} in {name} as {other}')
    arrayclose(numbers_of(kind, x), numpy.asarray(data), f'{kind} {name}', 0)
    ensure(x.unit == name, f'unit of {kind} {name}')
    raises(TypeError, x.withunit, 3, _what=f'{kind}.withunit(3)')


@PROPERTY.facet(
    st.tuples(families(size=2), st.lists(floats, min_size=1, max_size=5),
              st.sampled_from(['value', 'sequence', 'measurement', 'scalar',
                               'vector'])),
    quick=400, thorough=5000)
def equality(case, t):
    """Measured objects are equal when their numbers and units are equal; a
    copy is equal, and one with another value or an unequal unit is not."""
    units, data, kind = case
    t.label(kind)
    a, b = unit(units[0]), unit(units[1])
    if kind in ('value', 'scalar'):
        data = data[0]
    x = make(kind, data, a)
    ensure(numpy.all(x == make(kind, data, a)), f'{kind} {short(data)} {a!r}')
    same = metric.unit(a) == metric.unit(b)
    t.nontrivial(not same)
    if kind in ('value', 'sequence', 'measurement'):
        y = make(kind, data, b)
        equal(bool(x == y), same, f'{kind} {short(data)}: {a!r} == {b!r}')
        other = (numpy.asarray(data, dtype=float) + 1).tolist()
        ensure(not x == make(kind, other, a), f'{short(data)} == {short(other)}')
        ensure(x != make(kind, other, a), f'not {short(data)} != {short(other)}')
