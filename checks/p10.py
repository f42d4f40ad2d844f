"""P10 -- collections of dimensions and axes behave as ordered sets."""
import itertools

import numpy
from hypothesis import strategies as st

from eprempy import numeric
from eprempy import physical
from eprempy import quantity
from vlib.harness import Property, ensure, equal, fail, raises, short
from checks.p07 import POOL, axis
from checks.p09 import content_of

PROPERTY = Property(
    'P10',
    rule=(
        'Cases are pairs of dimension lists and of sets of axes drawn from a '
        'small pool in any order, with full or singular axes, and sequences '
        'of edits (insert, replace, remove, extract, permute). The oracle is '
        'a plain ordered set. Non-trivial: the collections overlap without '
        'being equal, or more than one edit.'
    ),
    assumptions=[
        "The 'before' and 'after' keywords of Axes.insert are left out: the "
        'existing tests pin the opposite of their names.',
    ],
)

NAMES = ['a', 'b', 'c', 'd', 'time', 'shell']
lists = st.lists(st.sampled_from(NAMES), max_size=5, unique=True)
kinds = st.sampled_from(['dimensions', 'list', 'tuple', 'set'])


def subsequence(part, whole):
    it = iter(whole)
    return all(x in it for x in part)


def conflict(x, y):
    return [i for i in x if i in y] != [i for i in y if i in x]


def other(kind, names):
    if kind == 'dimensions':
        return numeric.dimensions(names)
    if kind == 'tuple':
        return tuple(names)
    return list(names)


@PROPERTY.facet(st.tuples(lists, lists, kinds), quick=1200, thorough=15000)
def set_operations(case, t):
    """Intersection, difference, union and symmetric difference have the
    members of the set operation and keep the order of the operands."""
    x, y, kind = case
    if not x:
        return
    a = numeric.dimensions(x)
    if not y and kind == 'dimensions':
        kind = 'list'
    b = other(kind, y)
    t.label(kind)
    t.nontrivial(bool(set(x) & set(y)) and x != y)
    D = numeric.Dimensions
    for name, got, expected in (
        ('&', a & b, [i for i in x if i in y]),
        ('r&', b & a, [i for i in y if i in x]),
        ('-', a - b, [i for i in x if i not in y]),
        ('^', a ^ b, [i for i in x if i not in y]
         + [i for i in y if i not in x]),
        ('r^', b ^ a, [i for i in y if i not in x]
         + [i for i in x if i not in y]),
    ):
        equal(type(got), D, f'{x} {name} {y}')
        equal(list(got), expected, f'{x} {name} {y}')
    if kind == 'dimensions':
        equal(list(b - a), [i for i in y if i not in x], f'{y} - {x}')
    else:
        raises(TypeError, lambda: b - a, _what=f'{y} - {x}')
    for name, f in (('|', lambda: a | b), ('r|', lambda: b | a)):
        if conflict(x, y):
            t.label('conflict')
            raises(ValueError, f, _what=f'{x} {name} {y}')
            continue
        got = f()
        equal(type(got), D, f'{x} {name} {y}')
        equal(sorted(got), sorted(set(x) | set(y)), f'{x} {name} {y}')
        ensure(subsequence(x, got) and subsequence(y, got),
               f'{x} {name} {y} is {list(got)}')
        first, second = (x, y) if name == '|' else (y, x)
        if not set(x) & set(y):
            equal(list(got), first + second, f'{x} {name} {y}')
    for bad in (3, None, [1, 2]):
        for f in (lambda: a - bad, lambda: bad - a, lambda: bad ^ a,
                  lambda: a & bad, lambda: bad | a):
            raises(TypeError, f, _what=f'{x} with {bad!r}')
    equal(list(a), x, 'the operand afterwards')


@PROPERTY.facet(st.tuples(lists, lists), quick=500, thorough=6000)
def comparisons(case, t):
    """Ordering is set inclusion; equality includes the order of the names,
    and equal dimensions have equal hashes."""
    x, y = case
    if not x or not y:
        return
    a, b = numeric.dimensions(x), numeric.dimensions(y)
    t.nontrivial(bool(set(x) & set(y)) and x != y)
    equal(a == b, x == y, f'{x} == {y}')
    equal(a == tuple(y), x == y, f'{x} == tuple {y}')
    equal(a == list(y), x == y, f'{x} == list {y}')
    equal(a != b, x != y, f'{x} != {y}')
    for name, f in (('<', '__lt__'), ('<=', '__le__'), ('>', '__gt__'),
                    ('>=', '__ge__')):
        expected = getattr(set(x), f)(set(y))
        equal(getattr(a, f)(b), expected, f'{x} {name} {y}')
        equal(getattr(a, f)(y), expected, f'{x} {name} list {y}')
    c = a.copy()
    equal((c, hash(c)), (a, hash(a)), 'copy')
    equal(hash(numeric.dimensions(*x)), hash(a), 'hash')
    if set(x) != set(y):
        raises(ValueError, a.mismatch, y, _what=f'{x} mismatch {y}')
    else:
        equal(a.mismatch(y), None, f'{x} mismatch {y}')
    equal((len(a), list(a), a[0], a[-1]), (len(x), x, x[0], x[-1]), 'access')
    ensure(all((n in a) == (n in x) for n in NAMES), 'membership')


EDIT = st.one_of(
    st.tuples(st.just('insert'), st.sampled_from(['n1', 'n2', 'n3']),
              st.one_of(st.none(), st.integers(-3, 6))),
    st.tuples(st.just('replace'), st.integers(0, 4),
              st.sampled_from(['r1', 'r2', 'r3'])),
    st.tuples(st.just('permute'), st.integers(0, 719), st.booleans()),
    st.tuples(st.just('without'), st.integers(0, 5)),
    st.tuples(st.just('extract'), st.lists(st.integers(0, 4), min_size=1,
                                           max_size=3, unique=True)),
    st.tuples(st.just('copy')),
)


@PROPERTY.facet(
    st.tuples(lists, st.lists(EDIT, min_size=1, max_size=5)),
    quick=800, thorough=10000)
def edits(case, t):
    """A history of edits to dimensions and axes gives the names in the order
    a plain list has after the same edits, and never changes the original."""
    start, steps = case
    if not start:
        return
    lengths = {}
    names = list(start)
    dims = numeric.dimensions(names)
    first = dims
    content = {n: list(range(2 + i)) for i, n in enumerate(names)}
    axes = physical.axes({n: physical.points(c) for n, c in content.items()})
    original = axes
    t.nontrivial(len(steps) > 1)
    what = str(start)
    for step in steps:
        what += f' {step}'
        t.label(step[0])
        kind = step[0]
        if kind == 'insert':
            _, name, i = step
            if name in names:
                continue
            values = list(range(9, 9 + len(names)))
            new = physical.points(values)
            if i is None:
                names.append(name)
                dims, axes = dims.insert(name), axes.insert(name, new)
            else:
                names.insert(i, name)
                dims = dims.insert(name, i)
                axes = axes.insert(name, new, index=i)
            raises(KeyError, original.insert, 'other', new, before='missing',
                   _what='insert before a missing dimension')
            raises(TypeError, original.insert, 'other', new, at=0,
                   _what='insert with an unknown keyword')
            content[name] = values
        elif kind == 'replace':
            _, i, name = step
            i %= len(names)
            if name in names:
                continue
            old = names[i]
            names[i] = name
            dims = dims.replace(old, name)
            values = [7] * 3
            axes = axes.replace(old, **{name: physical.points(values)})
            content[name] = values
        elif kind == 'permute':
            _, k, packed = step
            orders = list(itertools.permutations(range(len(names))))
            order = orders[k % len(orders)]
            names = [names[i] for i in order]
            if packed:
                dims, axes = dims.permute(order), axes.permute(order)
            else:
                dims = dims.permute(*order)
                axes = axes.permute(*order)
        elif kind == 'without':
            i = step[1] % len(names)
            if len(names) == 1:
                continue
            gone = names.pop(i)
            dims, axes = dims - gone, axes.without(gone, strict=True)
            raises(KeyError, axes.without, gone, True, _what=what)
            equal(list(axes.without(gone)), names, what)
        elif kind == 'extract':
            keep = list(dict.fromkeys(names[i % len(names)] for i in step[1]))
            names = keep
            dims = numeric.dimensions(keep)
            axes = axes.extract(*keep)
            raises(KeyError, axes.extract, 'missing', _what=what)
        else:
            dims, axes = dims.copy(), axes.copy()
        equal(list(dims), names, f'{what}: dimensions')
        equal(list(axes), names, f'{what}: axes')
        equal(tuple(axes.dimensions), tuple(names), f'{what}: axes.dimensions')
        for n in names:
            equal(content_of(axes[n]), content[n], f'{what}: axis {n}')
    equal(list(first), start, f'{what}: the original')
    equal(list(original), start, f'{what}: the original axes')


OTHER = {'time': 'hour', 'energy': 'keV'}


@st.composite
def axes_pairs(draw):
    lengths = {n: draw(st.integers(1, 3)) for n in POOL}
    out = []
    for _ in range(2):
        names = draw(st.lists(st.sampled_from(POOL), min_size=1, max_size=4,
                              unique=True))
        spec = {}
        for n in names:
            spec[n] = draw(st.sampled_from(['full', 'full', 'one', 'shifted',
                                            'reversed', 'part', 'other']))
        out.append(spec)
    if draw(st.booleans()):
        out[1] = {n: draw(st.sampled_from(['full', 'one', 'full', 'reversed',
                                           'part', 'other']))
                  for n in out[0]}
    return lengths, out, draw(st.integers(0, 2))


def one_axis(name, how, lengths, k):
    n = lengths[name]
    if how == 'full':
        return axis(name, n)
    if how == 'one':
        return axis(name, 1, k % n)
    if how == 'reversed':
        return axis(name, n)[::-1]
    if how == 'part':
        return axis(name, max(1, n - 1))
    if how == 'other' and name in OTHER:   # the same numbers in another unit
        values = numpy.array(axis(name, n).data)
        return physical.coordinates(quantity.measure(*values, OTHER[name]))
    return axis(name, min(n, 2), n)   # disjoint from the full axis


def measured_content(a):
    """The values of an axis, with their unit."""
    unit = str(a.unit) if isinstance(a, physical.Coordinates) else None
    return [(v, unit) for v in content_of(a)]


@PROPERTY.facet(axes_pairs(), quick=800, thorough=10000)
def axes_operations(case, t):
    """Axes compare, merge and fill by name and content: inclusion needs equal
    content, filling takes the full axis, and disagreement is an error."""
    lengths, (one, two), k = case
    a = physical.axes({n: one_axis(n, h, lengths, k) for n, h in one.items()})
    b = physical.axes({n: one_axis(n, h, lengths, k) for n, h in two.items()})
    common = set(one) & set(two)
    t.nontrivial(bool(common) and one != two)
    alike = all(measured_content(a[n]) == measured_content(b[n]) for n in common)
    t.label('alike' if alike else 'differ')
    what = f'{one} {two} of {lengths}'
    equal(a == b, list(one) == list(two) and alike, f'{what}: ==')
    for name, f in (('<', '__lt__'), ('<=', '__le__'), ('>', '__gt__'),
                    ('>=', '__ge__')):
        if alike:
            equal(getattr(a, f)(b), getattr(set(one), f)(set(two)),
                  f'{what}: {name}')
        else:
            raises(ValueError, getattr(a, f), b, _what=f'{what}: {name}')
    if conflict(list(one), list(two)):
        raises(ValueError, lambda: a | b, _what=f'{what}: |')
    else:
        c = a | b
        equal(sorted(c), sorted(set(one) | set(two)), f'{what}: |')
        ensure(subsequence(one, c) and subsequence(two, c), f'{what}: |')
        for n in c:
            left, right = (
                measured_content(x[n]) if n in x else None for x in (a, b))
            expected = right
            if not right or left and len(right) == 1 < len(left):
                expected = left
            equal(measured_content(c[n]), expected, f'{what}: | gives {n}')
    if set(one) != set(two):
        raises(ValueError, lambda: a + b, _what=f'{what}: +')
        return
    expected = {}
    for n in one:
        x, y = measured_content(a[n]), measured_content(b[n])
        if x == y:
            expected[n] = x
        elif len(y) == 1 and y[0] in x:
            expected[n] = x
        elif len(x) == 1 and x[0] in y:
            expected[n] = y
    if len(expected) == len(one):
        c = a + b
        t.label('filled')
        equal({n: measured_content(c[n]) for n in c}, expected, f'{what}: +')
        equal(list(c), list(one), f'{what}: + order')
    else:
        raises(ValueError, lambda: a + b, _what=f'{what}: +')


STRANGERS = {
    'a list of the names': lambda axes: list(axes),
    'a tuple of the names': lambda axes: tuple(axes),
    'a dictionary': lambda axes: dict(axes),
    'text': lambda axes: ' '.join(axes),
    'a number': lambda axes: len(axes),
    'nothing': lambda axes: None,
}


@PROPERTY.facet(
    st.tuples(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4,
                       unique=True),
              st.sampled_from(sorted(STRANGERS)), st.integers(0, 23),
              st.sampled_from(NAMES)),
    quick=400, thorough=4000)
def lookups_and_refusals(case, t):
    """Axes are found by name and by position, are never equal to (nor ordered
    against) objects that are not axes, and refuse unusable edits, leaving
    themselves as they were."""
    names, stranger, k, extra = case
    content = {n: list(range(1, 3 + i)) for i, n in enumerate(names)}
    axes = physical.axes({n: physical.points(c) for n, c in content.items()})
    what = f'axes {names}'
    t.nontrivial(len(names) > 1)
    t.label(stranger)
    other = STRANGERS[stranger](axes)
    ensure(not (axes == other) is True, f'{what} == {stranger}')
    ensure((axes != other) is True, f'{what} != {stranger}')
    for f in ('__lt__', '__le__', '__gt__', '__ge__', '__add__'):
        equal(getattr(axes, f)(other), NotImplemented, f'{what} {f} {stranger}')
    for i, n in enumerate(names):
        for key in (n, i, i - len(names)):
            equal(content_of(axes[key]), content[n], f'{what}[{key!r}]')
    equal([n in axes for n in NAMES], [n in names for n in NAMES],
          f'names in {what}')
    equal((len(axes), list(axes.keys()), tuple(axes.names)),
          (len(names), names, tuple(names)), what)
    for key in (len(names), -len(names) - 1, 'missing'):
        raises(KeyError, lambda: axes[key], _what=f'{what}[{key!r}]')
    points = physical.points([5, 6, 7, 8, 9, 10])
    for args, kwargs, error in (
        (('missing', points), {}, KeyError),
        (('missing',), {'new': points}, KeyError),
        ((names[0], points), {'new': points}, TypeError),
        ((names[0],), {'new': points, 'newer': points}, ValueError),
        ((names[0],), {}, ValueError),
    ):
        raises(error, axes.replace, *args, _what=f'{what}.replace', **kwargs)
    chosen = names[k % len(names)]
    new = axes.replace(chosen, points)
    equal([content_of(new[n]) for n in names],
          [content_of(points) if n == chosen else content[n] for n in names],
          f'{what}.replace({chosen!r}, ...)')
    raises(TypeError, axes.extract, _what=f'{what}.extract()')
    raises(TypeError, axes.permute, _what=f'{what}.permute()')
    raises(TypeError, lambda: axes.permute(names, order=names),
           _what=f'{what}.permute with too many arguments')
    orders = list(itertools.permutations(range(len(names))))
    order = orders[k % len(orders)]
    expected = [names[i] for i in order]
    for how, found in (
        ('order=positions', axes.permute(order=order)),
        ('order=names', axes.permute(order=expected)),
        ('names', axes.permute(*expected)),
        ('a list of names', axes.permute(expected)),
    ):
        equal(list(found), expected, f'{what} permuted by {how}')
        equal([content_of(found[n]) for n in expected],
              [content[n] for n in expected], f'{what} permuted by {how}')
    if len(names) > 1:
        for wrong in (order[1:], (0, *order[1:-1], 0), expected[1:]):
            raises((ValueError, TypeError), axes.permute, wrong,
                   _what=f'{what}.permute({wrong})')
    if extra not in names:
        raises((ValueError, TypeError), axes.permute, [*expected, extra],
               _what=f'{what}.permute with {extra!r}')
    equal([content_of(axes[n]) for n in names],
          [content[n] for n in names], f'{what} after the edits')
