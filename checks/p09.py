"""P09 -- axes map coordinates to indices."""
import numpy
from hypothesis import strategies as st

from eprempy import container
from eprempy import measured
from eprempy import metric
from eprempy import physical
from eprempy import quantity
from vlib import unitmodel as U
from vlib.harness import Property, close, ensure, equal, fail, raises, short
from checks.common import arrayclose, families, unit

PROPERTY = Property(
    'P09',
    rule=(
        'Cases are integral, symbolic and measured axes, of any order and '
        'spacing, and targets taken from the axis, between its values or '
        'outside it, given as numbers, measurable tuples, measurements or '
        'strings, in any consistent unit. The oracle searches the plain '
        'values. Non-trivial: more than one value on the axis and a target '
        'that is not its first, or given in another unit.'
    ),
    assumptions=[
        'A target counts as contained when it agrees with a value to 1e-12; '
        'targets within 1e-4 of a value but not that close are not used.',
        'Where no value satisfies the bound of a closest search, the result '
        'is unspecified.',
    ],
)

gaps = st.lists(st.floats(0.01, 3), min_size=1, max_size=8)


@st.composite
def coordinates(draw):
    start = draw(st.sampled_from([0.0, 1e-3, 1.0, -2.5, 40.0]))
    values = [start]
    for g in draw(gaps):
        values.append(round(values[-1] + g, 4))
    values = values[:draw(st.integers(1, len(values)))]
    order = draw(st.sampled_from(['up', 'up', 'down', 'any']))
    if order == 'down':
        values.reverse()
    elif order == 'any':
        values = draw(st.permutations(values))
    units = draw(families(size=2, top=1, exponents=['1', '2', '-1']))
    hits = draw(st.lists(st.integers(0, len(values) - 1), min_size=1,
                         max_size=4))
    how = draw(st.sampled_from(['numbers', 'tuple', 'measurement', 'other',
                                'othertuple', 'pairs', 'values']))
    return list(values), units, hits, how


def make(values, u):
    return physical.coordinates(quantity.measure(*values, u))


def as_index(x):
    """Plain integers from an index object."""
    arr = numpy.ravel(numpy.array(x))
    return [int(i) for i in arr]


@PROPERTY.facet(coordinates(), quick=1200, thorough=20000)
def contained(case, t):
    """Each value of a measured axis is found at its own index, in the unit of
    the axis or any consistent unit, one at a time or together."""
    values, (one, two), hits, how = case
    u, w = unit(one), unit(two)
    a = make(values, u)
    targets = [values[i] for i in hits]
    ratio = U.size(one) / U.size(two)
    if how in ('other', 'othertuple'):
        targets = [v * ratio for v in targets]
    t.label(how)
    t.nontrivial(len(values) > 1 and (hits != [0] or u != w))
    if how == 'numbers':
        got = a.index(*targets)
    elif how == 'tuple':
        got = a.index((*targets, u))
    elif how == 'measurement':
        got = a.index(quantity.measure(*targets, u))
    elif how == 'other':
        got = a.index(quantity.measure(*targets, w))
    elif how == 'othertuple':
        got = a.index(*targets, w)
    elif how == 'pairs':
        got = a.index(*[(v, u) for v in targets])
    else:
        got = [as_index(a.index(measured.value(v, unit=u)))[0]
               for v in targets]
    equal(as_index(got), hits, f'{values} {u!r}: {targets} by {how} {w!r}')
    # The axis in the other unit has the same indices.
    b = a.withunit(w)
    equal(as_index(b.index((*[values[i] for i in hits], u))), hits,
          f'{values} {u!r} as {w!r}')
    ensure(b.unit == w, f'unit of the converted axis {b.unit}')
    ensure(a.unit == u, f'unit of the axis afterwards {a.unit}')


@PROPERTY.facet(
    st.tuples(coordinates(), st.floats(0.1, 0.9), st.integers(-1, 8),
              st.sampled_from(['lower', 'upper']), st.booleans()),
    quick=1000, thorough=15000)
def not_contained(case, t):
    """A target that is not on the axis is refused, or rounded to the nearest
    value on the requested side of it."""
    (values, (one, two), _, _), fraction, k, side, other = case
    u, w = unit(one), unit(two)
    a = make(values, u)
    s = sorted(values)
    k = min(k, len(s) - 1)
    if k == -1:
        target = s[0] - fraction
    elif k == len(s) - 1:
        target = s[-1] + fraction
    else:
        target = s[k] + fraction * (s[k + 1] - s[k])
    if min(abs(target - v) for v in values) <= 1e-4 * max(
            1e-3, abs(target)) or target == 0:
        t.label('too close')
        return
    t.nontrivial(len(values) > 1)
    t.label(side)
    arg = (target * U.size(one) / U.size(two), w) if other else (target, u)
    what = f'{values} {u!r}: {arg}'
    raises(physical.AxisValueError, a.index, arg, _what=what)
    raises(ValueError, a.index, values[0], target, u, _what=what)
    if side == 'lower':
        allowed = [v for v in values if v <= target]
        best = max(allowed, default=None)
    else:
        allowed = [v for v in values if v >= target]
        best = min(allowed, default=None)
    got = as_index(a.index(arg, closest=side))
    if best is None:
        ensure(-len(values) <= got[0] < len(values), f'{what}: index {got}')
        t.label('no such side')
        return
    equal(got, [values.index(best)], f'{what}: closest {side}')
    raises(ValueError, a.index, arg, closest='middle',
           _what=f'{what}: closest middle')


@PROPERTY.facet(coordinates(), quick=300, thorough=3000)
def inconsistent(case, t):
    """A target in an inconsistent unit, or one that cannot be measured, is
    refused."""
    values, (one, _), _, _ = case
    u = unit(one)
    if U.UNITS[one[0][1]][1] == 'amount':
        return
    a = make(values, u)
    t.nontrivial()
    raises(ValueError, a.index, (values[0], 'mol'), _what=f'{u!r}: mol')
    raises((TypeError, ValueError), a.index, 'nonsense')
    # No target means the whole axis.
    equal(as_index(a.index()), list(range(len(values))), 'no target')


@st.composite
def selections(draw):
    kind = draw(st.sampled_from(['points', 'symbols', 'coordinates']))
    n = draw(st.integers(1, 7))
    if kind == 'points':
        start = draw(st.integers(0, 5))
        step = draw(st.integers(1, 3))
        content = [start + step * i for i in range(n)]
        if draw(st.booleans()):
            content = draw(st.permutations(content))
    elif kind == 'symbols':
        content = draw(st.permutations(
            ['H', 'He', 'C', 'N', 'O', 'Ne', 'Fe']))[:n]
    else:
        content = [round(0.5 * i * i - 1.25, 3) for i in range(n)]
    ints = draw(st.lists(st.integers(-n, n - 1), min_size=1, max_size=4))
    bound = st.one_of(st.none(), st.integers(-n - 1, n + 1))
    cut = (draw(bound), draw(bound), draw(st.sampled_from([None, 1, 2, -1])))
    return kind, list(content), ints, cut


def build(kind, content):
    if kind == 'points':
        return physical.points(content)
    if kind == 'symbols':
        return physical.symbols(content)
    return physical.coordinates(quantity.measure(*content, 'km'))


def content_of(a):
    if isinstance(a, physical.Coordinates):
        return numpy.array(a.data).tolist()
    if isinstance(a, physical.Symbols):
        return list(a.data)
    return [int(i) for i in a.data]


@PROPERTY.facet(selections(), quick=800, thorough=10000)
def subsets(case, t):
    """Slicing or listing an axis selects those of its values, in order, and
    keeps its type and unit; the values are found where they now are."""
    kind, content, ints, cut = case
    a = build(kind, content)
    n = len(content)
    t.label(kind)
    t.nontrivial(n > 1)
    equal(len(a), n, 'length')
    equal(content_of(a), content, 'content')
    s = slice(*cut)
    chosen = content[s]
    if chosen:
        b = a[s]
        equal(type(b), type(a), f'{kind}[{cut}]')
        equal(content_of(b), chosen, f'{kind} {content}[{cut}]')
        if kind == 'coordinates':
            equal(b.unit, a.unit, 'unit')
        # The indices of whole points are the points.
        if kind != 'points' or s != slice(None):
            equal([int(i) % n for i in b.indices], list(range(n))[s],
                  f'indices of {kind} {content}[{cut}]')
        for i, v in enumerate(chosen):
            target = (v, 'km') if kind == 'coordinates' else v
            equal(as_index(b.index(target)), [i],
                  f'{kind} {content}[{cut}]: {v}')
    b = a[ints]
    part = [content[i] for i in ints]
    for v in part:
        target = (v, 'km') if kind == 'coordinates' else v
        found, = as_index(b.index(target))
        equal(part[found], v, f'{kind} {content}[{ints}]: {v}')
    equal([int(i) % n for i in b.indices], [i % n for i in ints],
          f'indices of {kind} {content}[{ints}]')
    equal(type(b), type(a), f'{kind}[{ints}]')
    equal(content_of(b), [content[i] for i in ints],
          f'{kind} {content}[{ints}]')
    first = a[ints[0]]
    equal(content_of(first), [content[ints[0]]], f'{kind}[{ints[0]}]')
    ensure(a == build(kind, content), f'{kind} {content} equals a copy')
    if n > 1:
        ensure(not a == build(kind, content[::-1]),
               f'{kind} {content} equals its reverse')
        ensure(not a == build(kind, content[:-1]),
               f'{kind} {content} equals a part of it')
    for i, v in enumerate(content):
        target = (v, 'km') if kind == 'coordinates' else v
        equal(as_index(a.index(target)), [i], f'{kind} {content}: {v}')
        if kind != 'coordinates':
            ensure(v in a, f'{v} in {kind} {content}')
    if kind != 'coordinates':
        several = [content[i] for i in ints]
        equal(as_index(a.index(*several)), [i % n for i in ints],
              f'{kind} {content}: {several}')
    if kind == 'points':
        absent = max(content) + 1
        raises(ValueError, a.index, absent, _what=f'{content}: {absent}')
        ensure(absent not in a, f'{absent} in {content}')
        raises(ValueError, a.index, content[0], absent)
    elif kind == 'symbols':
        raises(ValueError, a.index, 'Xx', _what=f'{content}: Xx')
        ensure('Xx' not in a, f'Xx in {content}')
        raises(TypeError, a.index, 0, _what=f'{content}: 0')


@PROPERTY.facet(
    st.tuples(st.lists(st.integers(-50, 50), min_size=1, max_size=8),
              st.integers(-120, 120),
              st.sampled_from([None, 'lower', 'upper']), st.booleans()),
    quick=800, thorough=10000)
def nearest(case, t):
    """The nearest value of any collection, on the requested side if one is
    given, whatever the order and number of dimensions."""
    values, doubled, bound, square = case
    target = doubled / 2
    a = numpy.array(values)
    if square and len(values) % 2 == 0:
        a = a.reshape(2, -1)
        t.label('2-D')
    t.label(str(bound))
    t.nontrivial(len(values) > 1 and sorted(values) != values)
    allowed = [v for v in values if bound is None
               or (v >= target if bound == 'lower' else v <= target)]
    got = container.nearest(a, target, bound)
    equal(int(a[got.index]), int(got.value), f'{values}: index and value')
    if not allowed:
        t.label('no such side')
        return
    best = min(abs(v - target) for v in allowed)
    ensure(int(got.value) in allowed,
           f'nearest({values}, {target}, {bound}) is {got}')
    equal(abs(float(got.value) - target), best,
          f'nearest({values}, {target}, {bound}) is {got}')


@PROPERTY.facet(
    st.tuples(st.lists(st.integers(1, 4), min_size=1, max_size=4),
              st.sampled_from(['lengths', 'shape', 'dimensions', 'mapping',
                               'pairs', 'axes', 'named axes'])),
    quick=200, thorough=2000)
def construction(case, t):
    """Every way to build a set of axes gives the same names, lengths and
    kinds, in the order given."""
    lengths, how = case
    names = [f'd{i}' for i in range(len(lengths))]
    t.label(how)
    t.nontrivial(len(lengths) > 1)
    plain = [range(n) for n in lengths]
    if how == 'lengths':
        a, names = physical.axes(*lengths), [f'x{i}' for i in range(len(names))]
    elif how == 'shape':
        a = physical.axes(shape=lengths)
        names = [f'x{i}' for i in range(len(names))]
    elif how == 'dimensions':
        a = physical.axes(shape=lengths, dimensions=names)
    elif how == 'mapping':
        a = physical.axes(dict(zip(names, plain)))
    elif how == 'pairs':
        a = physical.axes(**dict(zip(names, plain)))
    elif how == 'axes':
        a = physical.axes(axes=plain)
        names = [f'x{i}' for i in range(len(names))]
    else:
        a = physical.axes(axes=plain, dimensions=names)
    equal(list(a), names, 'names')
    equal(tuple(a.dimensions), tuple(names), 'dimensions')
    for i, (name, n) in enumerate(zip(names, lengths)):
        equal(content_of(a[name]), list(range(n)), f'{name}')
        ensure(a[i] == a[name], f'axis {i} is axis {name}')
    raises(KeyError, lambda: a['missing'])
    raises(KeyError, lambda: a[len(names)])
    raises(ValueError, physical.axes, shape=[*lengths, 2], dimensions=names)
    raises(ValueError, physical.axes)
    mixed = physical.axes(
        a=['H', 'He'], b=[1.5, 2.5, 'km'], c=[3, 4], d=[1.5, 2])
    equal([type(x).__name__ for x in mixed.values()],
          ['Symbols', 'Coordinates', 'Points', 'Coordinates'], 'kinds')
    equal(str(mixed['b'].unit), 'km', 'unit of a measured axis')


@PROPERTY.facet(
    st.tuples(selections(), st.sampled_from(
        ['same', 'order', 'length', 'value', 'unit', 'list', 'kind']),
        st.integers(0, 6)),
    quick=300, thorough=3000)
def equality(case, t):
    """Axes of a kind are equal when they have the same values in the same
    order and, when measured, the same unit; other objects are not equal."""
    (kind, content, _, _), how, k = case
    n = len(content)
    k = k % n
    t.label(how)
    t.nontrivial(n > 1)
    a = build(kind, content)
    what = f'{kind} {content}'
    if how == 'same':
        for b in (build(kind, list(content)), a[:], a[...], a):
            ensure((a == b) is True or (a == b) == True, f'{what} == itself')
            ensure(not a != b, f'{what} != itself')
            ensure(physical.axes({'x': a}) == physical.axes({'x': b}),
                   f'axes of {what}')
        return
    if how == 'order':
        other = content[k:] + content[:k]
        if other == content:
            return
        b = build(kind, other)
    elif how == 'length':
        b = build(kind, content[:k] or [*content, content[-1]])
    elif how == 'value':
        new = 'Xe' if kind == 'symbols' else 99
        b = build(kind, [new if i == k else c for i, c in enumerate(content)])
    elif how == 'unit':
        if kind != 'coordinates':
            return
        b = physical.coordinates(quantity.measure(*content, 'cm'))
    elif how == 'list':
        ensure(not (a == list(content)) is True, f'{what} == a list')
        ensure((a != list(content)) is True, f'{what} != a list')
        return
    else:
        b = build('points' if kind == 'symbols' else 'symbols',
                  list(range(n)) if kind == 'symbols' else ['H'] * n)
    ensure(not a == b, f'{what} == {b!r}')
    ensure(not b == a, f'{b!r} == {what}')
    ensure(a != b, f'not {what} != {b!r}')
    x, y = physical.axes({'x': a}), physical.axes({'x': b})
    ensure(not x == y, f'axes of {what} == axes of {b!r}')
    ensure(x != y, f'not axes of {what} != axes of {b!r}')


@PROPERTY.facet(
    st.tuples(st.lists(st.integers(-20, 20), min_size=1, max_size=6),
              st.lists(st.integers(-8, 7), min_size=1, max_size=4),
              st.sampled_from(['arguments', 'list', 'tuple', 'array', 'set'])),
    quick=300, thorough=3000)
def plain_axes(case, t):
    """Targets on an axis without a kind are positions on it: those within it
    are their own indices, and all others are refused."""
    data, targets, how = case
    n = len(data)
    a = physical.Axis(data)
    what = f'index {targets} of an axis of length {n}'
    t.label(how)
    if how == 'set':
        targets = list(set(targets))
        args = (set(targets),)
    else:
        args = {'arguments': tuple(targets), 'list': (targets,),
                'tuple': (tuple(targets),), 'array': (numpy.array(targets),),
                }[how]
    wrong = [i for i in targets if not -n <= i < n]
    t.nontrivial(bool(wrong) or len(targets) > 1)
    if wrong:
        t.label('outside')
        raises(ValueError, a.index, *args, _what=what)
    else:
        equal(sorted(as_index(a.index(*args))) if how == 'set'
              else as_index(a.index(*args)),
              sorted(targets) if how == 'set' else targets, what)
    raises(TypeError, a.index, targets[0] + 0.5, _what='a fraction')
    raises(TypeError, a.index, 'text', _what='text')
    equal(as_index(a.index()), list(range(n)), 'all')
    cut = slice(targets[0], None)
    rows = list(range(n))[cut]
    if rows:
        equal(as_index(a.index(cut)), rows, f'{cut}')
        equal(as_index(a[cut].indices), rows, f'indices of {cut}')
    equal(list(a[cut]), data[cut], f'{cut} of {data}')
    equal((len(a), list(a)), (n, data), 'values')
