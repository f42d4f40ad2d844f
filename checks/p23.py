"""P23 -- index objects act as the integers they hold."""
import operator

import numpy
from hypothesis import strategies as st

from eprempy import measured
from eprempy import numeric
from eprempy import physical
from vlib.harness import Property, ensure, equal, quiet, raises

PROPERTY = Property(
    'P23',
    rule=(
        'Cases are integers, lists of integers, shapes of arrays and '
        'requests for parts of arrays, in the forms that the package '
        'accepts. The oracle is Python arithmetic on integers, numpy '
        'indexing, and linear search. Non-trivial: several integers, a '
        'binary operation or a request with an ellipsis, slice or list.'
    ),
    assumptions=['Quotients by zero and powers that overflow are not made.'],
)

index = numeric.index
SMALL = st.integers(-9, 9)
LISTS = st.lists(SMALL, max_size=5)
DTYPES = ['int64', 'int32', 'int8']

VALUE_FORMS = {
    'int': lambda i: i,
    'numpy': numpy.int64,
    'short': numpy.int16,
    'text': str,
    'bytes': lambda i: str(i).encode(),
    'list': lambda i: [i],
    'tuple': lambda i: (i,),
    'texts': lambda i: [str(i)],
    'range': lambda i: range(i, i + 1),
    '0-D': lambda i: numpy.array(i),
    '1-D': lambda i: numpy.array([i]),
    '2-D': lambda i: numpy.array([[i]]),
    '1-D int32': lambda i: numpy.array([i], dtype='int32'),
    '0-D int8': lambda i: numpy.array(i, dtype='int8'),
    'measured': measured.value,
    'measured float': lambda i: measured.value(float(i)),
    'measured list': lambda i: measured.sequence([i]),
    'scalar': lambda i: physical.scalar(i, unit='1'),
    'vector': lambda i: physical.vector([i], unit='1'),
    'value': index.value,
    'sequence': lambda i: index.sequence([i]),
}
SEQUENCE_FORMS = {
    'list': list,
    'tuple': tuple,
    'texts': lambda x: [str(i) for i in x],
    'text tuple': lambda x: tuple(map(str, x)),
    'mixed': lambda x: [numpy.int64(i) if n % 2 else i
                        for n, i in enumerate(x)],
    '1-D': lambda x: numpy.array(x, dtype=int),
    '1-D int32': lambda x: numpy.array(x, dtype='int32'),
    '2-D': lambda x: numpy.array([x], dtype=int),
    'column': lambda x: numpy.array([[[i]] for i in x], dtype=int),
    'measured': measured.sequence,
    'measured float': lambda x: measured.sequence([float(i) for i in x]),
    'vector': lambda x: physical.vector(x, unit='1'),
    'sequence': index.sequence,
}


def ints(x, what):
    """The integers that an index object holds."""
    if isinstance(x, index.Value):
        out = operator.index(x)
        equal(type(out) is int or isinstance(out, numpy.integer), True,
              f'{what}: type {type(out)}')
        equal(int(x), int(out), f'{what}: int')
        return int(out)
    ensure(isinstance(x, index.Sequence), f'{what} is {type(x)}')
    out = list(x)
    ensure(all(isinstance(i, (int, numpy.integer)) for i in out),
           f'{what} has {[type(i) for i in out]}')
    equal(len(x), len(out), f'{what}: length')
    equal([int(i) for i in numpy.array(x, dtype=int)], [int(i) for i in out],
          f'{what}: array')
    return [int(i) for i in out]


@PROPERTY.facet(
    st.tuples(SMALL, st.sampled_from(sorted(VALUE_FORMS)), LISTS,
              st.sampled_from(sorted(SEQUENCE_FORMS)),
              st.integers(1, 9).map(lambda n: n / 10)),
    quick=600, thorough=8000)
def construction(case, t):
    """Every form of an integer, or of several, makes the index that holds
    them; anything that is not integral, or several where one is required, is
    refused."""
    i, form, several, forms, part = case
    given = VALUE_FORMS[form](i)
    t.label(form, forms)
    t.nontrivial(len(several) > 1)
    x = index.value(given)
    equal(ints(x, f'value({given!r})'), i, f'value({given!r})')
    equal(list(range(-20, 20))[x], list(range(-20, 20))[i], 'element of list')
    equal(numpy.arange(20)[x], numpy.arange(20)[i], 'element of array')
    y = index.sequence(given)
    equal(ints(y, f'sequence({given!r})'), [i], f'sequence({given!r})')
    if several or forms in ('list', 'tuple', '1-D', 'sequence'):
        given = SEQUENCE_FORMS[forms](several)
        z = index.sequence(given)
        equal(ints(z, f'sequence({given!r})'), several,
              f'sequence({given!r})')
        equal(numpy.arange(20)[numpy.array(z, dtype=int)].tolist(),
              numpy.arange(20)[numpy.array(several, dtype=int)].tolist(),
              'elements of array')
        if len(several) != 1:
            raises(TypeError, index.value, given, _what=f'value({given!r})')
        else:
            equal(ints(index.value(given), f'value({given!r})'), several[0],
                  f'value({given!r})')
    for bad in (i + part, str(i + part), [i + part], [i, i + part], {i}, None,
                numpy.array([i + part]), measured.value(i + part),
                measured.sequence([i, i + part]), slice(i), {i: i}, 'nine'):
        raises(TypeError, index.value, bad, _what=f'value({bad!r})')
        raises(TypeError, index.sequence, bad, _what=f'sequence({bad!r})')
    for bad in (measured.value(i, unit='m'), measured.sequence([i], unit='s'),
                physical.scalar(i, unit='km')):
        raises(ValueError, index.value, bad, _what=f'value({bad!r})')
        raises(ValueError, index.sequence, bad, _what=f'sequence({bad!r})')


UNARY = {'abs': operator.abs, 'pos': operator.pos, 'neg': operator.neg}
BINARY = {k: getattr(operator, k) for k in
          ('add', 'sub', 'mul', 'floordiv', 'mod', 'pow')}
ORDER = {k: getattr(operator, k) for k in
         ('eq', 'ne', 'lt', 'le', 'gt', 'ge')}


@st.composite
def operations(draw):
    name = draw(st.sampled_from(sorted([*UNARY, *BINARY, *ORDER, *BINARY,
                                        *ORDER])))
    n = draw(st.integers(0, 5))
    one = draw(st.one_of(SMALL, st.lists(SMALL, min_size=n, max_size=n)))
    other = SMALL
    if name in ('floordiv', 'mod'):
        other = SMALL.filter(bool)
    elif name == 'pow':
        other = st.integers(0, 4)
        if draw(st.integers(0, 7)) == 0:
            other = st.integers(-2, 4)
    m = n if draw(st.integers(0, 5)) else draw(st.integers(0, 5))
    two = draw(st.one_of(other, st.lists(other, min_size=m, max_size=m)))
    return name, one, two, draw(st.booleans()), draw(st.booleans())


def wrap(x, bare):
    if isinstance(x, list):
        return index.sequence(x)
    return x if bare else index.value(x)


@PROPERTY.facet(operations(), quick=2500, thorough=40000, shards=2)
def arithmetic(case, t):
    """Operations on indices are those on their integers, one by one, and
    leave the operands as they were."""
    name, one, two, bare, first = case
    what = f'{name}({one}, {two})'
    a = wrap(one, False)
    t.label(name)
    if name in UNARY:
        f = UNARY[name]
        expected = [f(i) for i in one] if isinstance(one, list) else f(one)
        t.nontrivial(isinstance(one, list) and len(one) > 1)
        equal(ints(f(a), what), expected, what)
        equal(ints(a, what), one, f'operand of {what}')
        return
    bare_one = bare and first and isinstance(two, list)
    a = wrap(one, bare_one)
    b = wrap(two, bare and not first)
    if bare and first and not isinstance(one, list):
        a, b = one, wrap(two, False)
    t.nontrivial()
    t.label('-'.join(type(x).__name__ for x in (a, b)))
    f = {**BINARY, **ORDER}[name]
    if isinstance(one, list) and isinstance(two, list):
        if len(one) != len(two):
            t.label('refused')
            if name == 'eq':
                ensure(f(a, b) is False, f'{what} is {f(a, b)!r}')
            elif name == 'ne':
                ensure(f(a, b) is True, f'{what} is {f(a, b)!r}')
            else:
                raises((TypeError, ValueError), f, a, b, _what=what)
            return
        pairs = list(zip(one, two))
    elif isinstance(one, list):
        pairs = [(i, two) for i in one]
    elif isinstance(two, list):
        pairs = [(one, j) for j in two]
    else:
        pairs = [(one, two)]
    if name == 'pow' and min(numpy.ravel(two).tolist(), default=0) < 0:
        t.label('negative power')
        raises(ValueError, f, a, b, _what=what)
        return
    expected = [f(i, j) for i, j in pairs]
    single = not isinstance(one, list) and not isinstance(two, list)
    got = f(a, b)
    if name in ORDER:
        if single:
            ensure(bool(got) is expected[0], f'{what} is {got!r}')
        else:
            equal([bool(i) for i in got], expected, what)
    else:
        equal(ints(got, what), expected[0] if single else expected, what)
    for x, y in ((a, one), (b, two)):
        if not isinstance(x, int):
            equal(ints(x, what), y, f'operand of {what}')
    if name not in ORDER:
        for bad in (1.5, 'a', None, 1j):
            raises(TypeError, f, a if not isinstance(a, int) else b, bad)


@PROPERTY.facet(
    st.tuples(st.one_of(SMALL, LISTS), SMALL,
              st.one_of(st.none(), SMALL), st.one_of(st.none(), SMALL),
              st.booleans(), st.one_of(
                  st.integers(-6, 5), st.slices(6),
                  st.lists(st.integers(-3, 2), min_size=1, max_size=3))),
    quick=800, thorough=10000)
def shifts(case, t):
    """Shifting adds a constant and keeps the result between the given limits;
    part of a sequence is that part of its integers."""
    one, by, floor, ceil, wrapped, part = case
    if floor is not None and ceil is not None and floor > ceil:
        floor, ceil = ceil, floor
    x = wrap(one, False)
    limits = {k: index.value(v) if wrapped else v
              for k, v in (('floor', floor), ('ceil', ceil)) if v is not None}

    def move(i):
        i += by
        if floor is not None:
            i = max(i, floor)
        if ceil is not None:
            i = min(i, ceil)
        return i

    what = f'shift of {one} by {by} in {floor}..{ceil}'
    expected = [move(i) for i in one] if isinstance(one, list) else move(one)
    t.nontrivial(isinstance(one, list) and len(one) > 1)
    t.label(type(one).__name__, '-'.join(sorted(limits)))
    got = x.shift(index.value(by) if wrapped else by, **limits)
    equal(ints(got, what), expected, what)
    equal(ints(x, what), one, f'operand of {what}')
    if isinstance(one, list):
        a = numpy.array(one, dtype=int)
        try:
            expected = a[part]
        except IndexError:
            raises(IndexError, x.__getitem__, part, _what=f'{one}[{part}]')
            return
        equal(ints(x[part], f'{one}[{part}]'), expected.tolist(),
              f'{one}[{part}]')
        for i in range(-9, 10):
            equal(i in x, i in one, f'{i} in {one}')


@st.composite
def parts(draw):
    shape = draw(st.lists(st.integers(1, 4), min_size=1, max_size=4))
    n = draw(st.integers(0, len(shape)))
    dots = draw(st.booleans())
    # An ellipsis that stands for no dimension is only accepted at the end.
    where = draw(st.integers(0, n)) if dots and n < len(shape) else n
    out = []
    for i in range(n):
        size = shape[i if i < where else len(shape) - n + i]
        out.append(draw(st.one_of(
            st.integers(-size, size - 1), st.slices(size),
            st.just(slice(None)),
            st.lists(st.integers(-size, size - 1), min_size=1, max_size=3),
            st.lists(st.integers(0, size - 1), min_size=1,
                     max_size=3).map(tuple),
            st.just(range(size)))))
    if dots:
        out.insert(where, ...)
    return shape, tuple(out), draw(st.booleans())


@PROPERTY.facet(parts(), quick=1500, thorough=20000)
def requests(case, t):
    """A request for part of an array, in any standard form, resolves to the
    indices of that part along each dimension."""
    shape, args, many = case
    a = numpy.arange(numpy.prod(shape)).reshape(shape)
    nd = len(shape)
    n = len([x for x in args if x is not ...])
    full = list(args)
    if ... in full:
        i = full.index(...)
        full[i:i + 1] = [slice(None)] * (nd - n)
    else:
        full += [slice(None)] * (nd - n)
    t.nontrivial(any(not isinstance(x, int) for x in args))
    what = f'{args} of {shape}'
    # Orthogonal indexing, keeping each dimension.
    expected = a
    for d, x in enumerate(full):
        if isinstance(x, int):
            x = [x]
        if not isinstance(x, slice):
            x = list(x)
        expected = expected[(slice(None),) * d + (x,)]
    # Expansion only replaces the ellipsis.
    dots = [x for x in args if x is ...]
    if dots:
        got = index.expand(nd, args)
        equal(got, tuple(full), f'expand {what}')
        raises(IndexError, index.expand, nd, (*args, ...),
               _what=f'two ellipses in {what}')
        if n == 0:
            equal(index.expand(nd, ...), tuple(full), f'expand ... of {shape}')
        t.label('ellipsis')
    if n == 1 and not dots and isinstance(args[0], (int, slice)):
        equal(index.expand(nd, args[0]), tuple(full), f'expand {args[0]}')
    raises(IndexError, index.expand, nd, (0,) * (nd + 1))
    if not args:
        return
    if n < nd and not dots:
        args = (*args, ...)
    simple = all(isinstance(x, (int, slice)) or x is ... for x in args)
    t.label('simple' if simple else 'mixed')
    for given in ([tuple(args), list(args)] if not simple else [tuple(args)]):
        with quiet():
            got = index.resolve(shape, given)
        equal(a[tuple(got)].ravel().tolist(), expected.ravel().tolist(),
              f'resolve {what}')
        if not simple:
            equal(a[tuple(got)].shape, expected.shape, f'resolve {what}')
            with quiet():
                got = index.normalize(shape, given)
            equal(a[tuple(got)].tolist(), expected.tolist(),
                  f'normalize {what}')


@st.composite
def grids(draw):
    shape = draw(st.sampled_from([(2,), (5,), (1,), (2, 4), (4, 2), (3, 3),
                                  (1, 3)]))
    axis = draw(st.integers(0, len(shape) - 1))
    n = shape[axis]
    rows = shape[1 - axis] if len(shape) == 2 else 1
    lines = [sorted(draw(st.lists(st.integers(-20, 20), min_size=n,
                                  max_size=n, unique=True)))
             for _ in range(rows)]
    targets = draw(st.lists(st.one_of(
        st.integers(-22, 22), st.integers(-44, 44).map(lambda i: i / 2)),
        min_size=1, max_size=3))
    return lines, axis, len(shape), targets, draw(st.booleans())


@PROPERTY.facet(grids(), quick=1000, thorough=12000)
def bounds(case, t):
    """Restricting an array around targets yields the indices from the last
    value that is not above the least to the first that is not below the
    greatest, on any line along the axis."""
    lines, axis, ndim, targets, negative = case
    a = numpy.array(lines, dtype=float)
    a = a[0] if ndim == 1 else (a if axis == 1 else a.T)
    lows, highs = [], []
    for x in targets:
        for line in lines:
            below = [i for i, v in enumerate(line) if v <= x]
            above = [i for i, v in enumerate(line) if v >= x]
            lows.append(max(below) if below else 0)
            highs.append(min(above) if above else len(line) - 1)
    expected = range(min(lows), max(highs) + 1)
    t.nontrivial(len(targets) > 1 or len(lines) > 1)
    t.label(f'{ndim}-D', 'inside' if all(
        line[0] <= x <= line[-1] for x in targets for line in lines)
        else 'outside')
    before = a.copy()
    got = index.restrict(a, *targets, axis=axis - ndim if negative else axis)
    equal(list(got), list(expected), f'{targets} in {a.tolist()}')
    ensure(numpy.array_equal(a, before), 'the array changed')
    for x in targets:
        one = index.restrict(a, x, axis=axis)
        ensure(set(one) <= set(got), f'{x} alone yields {one}, not in {got}')
    raises(ValueError, index.restrict, a, axis=axis)
