"""P06 -- arithmetic, comparison and numpy functions of physical objects."""
import math
import operator
from fractions import Fraction

import numpy
from hypothesis import strategies as st

from eprempy import measured
from eprempy import metric
from eprempy import physical
from vlib import unitmodel as U
from vlib.harness import Property, close, ensure, equal, fail, raises, short
from checks.common import (
    MILD, WORKING, arrayclose, families, floats, nested, positive, si,
    terms_of, unit,
)

PROPERTY = Property(
    'P06',
    rule=(
        'Cases are expression trees over physical scalars, vectors, tensors '
        'and arrays (with numbers and measurable tuples as leaves), of '
        'products, quotients, powers, roots, sums of like terms, signs and '
        'absolute values; pairs of operands for comparison and for refused '
        'operations; and numpy functions with their keyword arguments. The '
        'oracle evaluates the tree with numpy on plain values in SI and '
        'tracks the dimension separately. Non-trivial: at least two '
        'operations or two operands whose units differ.'
    ),
    assumptions=[
        'Only combinations the operators accept are claimed to succeed; '
        'floor division and remainder are left out because their unit '
        'convention is not documented.',
        'The sine, cosine and tangent of an object in degrees is a known '
        'finding: existing tests pin values computed from the bare number.',
    ],
)

N = 3    # the length of the last dimension, so that operands broadcast
KINDS = ['scalar', 'vector', 'tensor', 'array']
SHAPE = {'scalar': (), 'vector': (N,), 'tensor': (2, N), 'array': (2, N)}
AXES = ('p', 'q')

values = st.one_of(
    st.integers(1, 9), st.integers(-9, -1),
    st.floats(0.05, 50, allow_nan=False).map(lambda x: round(x, 3)),
    st.floats(-50, -0.05, allow_nan=False).map(lambda x: round(x, 3)),
)
units = families(
    size=1, top=2, exponents=['1', '1', '2', '-1', '-2'],
    # The gauss is Gaussian: products decompose it into other dimensions.
    quantities=[q for q in WORKING if q != 'magnetic induction'])


@st.composite
def leaf(draw, element=values, kinds=KINDS):
    kind = draw(st.sampled_from(kinds))
    terms = draw(units)[0]
    shape = SHAPE[kind]
    data = draw(nested(shape, element)) if shape else draw(element)
    return ('leaf', kind, data, terms)


def extend(children):
    return st.one_of(
        st.tuples(st.sampled_from(['mul', 'mul', 'div', 'div']),
                  children, children),
        st.tuples(st.just('pow'), children,
                  st.sampled_from([2, 2, 3, -1, -2, 1, 0])),
        st.tuples(st.sampled_from(['neg', 'pos', 'abs']), children),
        st.tuples(st.sampled_from(['scaled', 'rscaled', 'over', 'under']),
                  children, values),
        st.tuples(st.sampled_from(['plus', 'minus']), children, values),
        st.tuples(st.sampled_from(['timestuple', 'tupletimes',
                                   'timesvalue']),
                  children, values, units),
        st.tuples(st.just('convert'), children),
    )


trees = st.recursive(leaf(), extend, max_leaves=4)


class Skip(Exception):
    """The tree leaves the range this check covers."""


def build(kind, data, u):
    if kind == 'scalar':
        return physical.scalar(data, unit=u)
    if kind == 'vector':
        return physical.vector(data, unit=u)
    if kind == 'tensor':
        return physical.tensor(data, unit=u)
    return physical.array(data, unit=u, axes=AXES)


def depth(tree):
    if tree[0] == 'leaf':
        return 0
    return 1 + max(depth(x) for x in tree[1:] if isinstance(x, tuple) and x
                   and isinstance(x[0], str))


def arrayish(*kinds):
    best = max(kinds, key=KINDS.index)
    return best


def power(terms, k):
    return [(p, s, str(Fraction(x) * Fraction(k))) for p, s, x in terms]


def check(x, kind, expected, dimension, what):
    """The object has this kind, amount and dimension."""
    classes = {'scalar': physical.Scalar, 'vector': physical.Vector,
               'tensor': physical.Tensor, 'array': physical.Array}
    if type(x) is not classes[kind]:
        fail(f'{what}: {type(x).__name__}, expected {kind}')
    terms = terms_of(x.unit)
    equal(U.dimension(terms), dimension, f'{what}: dimension of {x.unit}')
    got = float(x) if kind == 'scalar' else numpy.array(x)
    scale = U.size(terms)
    arrayclose(numpy.asarray(got, dtype=float) * scale, expected, what,
               rtol=1e-8, atol=1e-9 * float(numpy.max(numpy.abs(expected))))
    if kind == 'array':
        equal(tuple(x.dimensions), AXES, f'{what}: dimensions')


def evaluate(tree, log):
    """Evaluate with the code under test and with the model.

    Returns the object, its kind, the SI values, and its dimension.
    """
    op = tree[0]
    if op == 'leaf':
        _, kind, data, terms = tree
        x = build(kind, data, unit(terms))
        out = x, kind, si(data, terms), U.dimension(terms)
    elif op in ('mul', 'div'):
        (a, ka, va, da), (b, kb, vb, db) = (evaluate(t, log) for t in tree[1:])
        if op == 'mul':
            out = (a * b, arrayish(ka, kb), va * vb,
                   tuple(i + j for i, j in zip(da, db)))
        else:
            out = (a / b, arrayish(ka, kb), va / vb,
                   tuple(i - j for i, j in zip(da, db)))
    else:
        a, k, v, d = evaluate(tree[1], log)
        if op == 'pow':
            n = tree[2]
            if n < 0:
                a = a * 1.0
            out = a ** n, k, v ** float(n), tuple(i * n for i in d)
        elif op == 'neg':
            out = -a, k, -v, d
        elif op == 'pos':
            out = +a, k, v, d
        elif op == 'abs':
            out = abs(a), k, numpy.abs(v), d
        elif op == 'scaled':
            out = a * tree[2], k, v * tree[2], d
        elif op == 'rscaled':
            out = tree[2] * a, k, v * tree[2], d
        elif op == 'over':
            out = a / tree[2], k, v / tree[2], d
        elif op == 'under':
            out = tree[2] / a, k, tree[2] / v, tuple(-i for i in d)
        elif op == 'plus':
            out = a + a * tree[2], k, v + v * tree[2], d
        elif op == 'minus':
            out = a * tree[2] - a, k, v * tree[2] - v, d
        elif op in ('timestuple', 'tupletimes', 'timesvalue'):
            y, terms = tree[2], tree[3][0]
            pair = (y, unit(terms))
            if op == 'timestuple':
                r = a * pair
            elif op == 'tupletimes':
                r = pair * a
            else:
                r = a * measured.value(y, unit=unit(terms))
            out = (r, k, v * si(y, terms),
                   tuple(i + j for i, j in zip(d, U.dimension(terms))))
        elif op == 'convert':
            # To SI base units and back changes nothing.
            new = ' '.join(f'{s}^{x}' for s, x in zip(
                ('m', 'kg', 's', 'A', 'K', 'mol', 'cd'), d) if x) or '1'
            try:
                b = a.withunit(new)
            except (ValueError, metric.UnitConversionError):
                b = a   # some units have no base-unit form; see P02
            out = b, k, v, d
        else:
            raise ValueError(op)
    x, kind, v, d = out
    if not numpy.all(numpy.isfinite(v)) or not numpy.all(
            (numpy.abs(v) < 1e120) & ((v == 0) | (numpy.abs(v) > 1e-120))):
        raise Skip
    if op in ('plus', 'minus'):
        # Cancellation loses precision; the scale of the terms is the bound.
        if numpy.any((numpy.abs(v) < 1e-6 * numpy.abs(
                numpy.asarray(v + 1e-300))) & (v != 0)):
            raise Skip
    log.append(x)
    check(x, kind, v, d, f'{short(show(tree), 500)}')
    return out


def show(tree):
    op = tree[0]
    if op == 'leaf':
        return f'{tree[1]}({tree[2]}, {unit(tree[3])!r})'
    return f'{op}({", ".join(show(t) if isinstance(t, tuple) and t and isinstance(t[0], str) else str(t) for t in tree[1:])})'


def zero_free(tree):
    return True


def kinds_in(tree):
    if tree[0] == 'leaf':
        return {tree[1]}
    return set().union(*(kinds_in(x) for x in tree[1:] if isinstance(x, tuple)
                         and x and isinstance(x[0], str)))


@PROPERTY.facet(trees, quick=1500, thorough=25000, shards=2)
def expressions(case, t):
    """An expression of physical objects has the amount and the dimension of
    the expression of its parts, whatever units they were given in."""
    n = depth(case)
    t.label(f'depth:{min(n, 4)}', *kinds_in(case))
    t.nontrivial(n > 1)
    log = []
    try:
        with numpy.errstate(all='ignore'):
            evaluate(case, log)
    except Skip:
        t.label('out of range')


@PROPERTY.facet(
    st.tuples(st.sampled_from(KINDS), families(size=2, top=1),
              st.integers(0, 10**6), values, st.booleans()),
    quick=500, thorough=6000)
def sums(case, t):
    """Objects in the same unit add and subtract; objects in different units,
    even consistent ones, are refused rather than combined."""
    kind, (one, two), seed, y, astuple = case
    rng = numpy.random.default_rng(seed)
    shape = SHAPE[kind]
    d1 = numpy.round(rng.uniform(-9, 9, shape), 2).tolist()
    d2 = numpy.round(rng.uniform(-9, 9, shape), 2).tolist()
    u, w = unit(one), unit(two)
    a, b = build(kind, d1, u), build(kind, d2, u)
    t.label(kind)
    same = metric.unit(u) == metric.unit(w)
    t.nontrivial(not same)
    d = U.dimension(one)
    x, z = si(d1, one), si(d2, one)
    check(a + b, kind, x + z, d, f'{kind} {u!r}: a + b')
    check(a - b, kind, x - z, d, f'{kind} {u!r}: a - b')
    pair = (y, u) if astuple else measured.value(y, unit=u)
    check(a + pair, kind, x + si(y, one), d, f'{kind} {u!r}: a + {pair}')
    check(a - pair, kind, x - si(y, one), d, f'{kind} {u!r}: a - {pair}')
    check(pair + a, kind, x + si(y, one), d, f'{kind} {u!r}: {pair} + a')
    check(pair - a, kind, si(y, one) - x, d, f'{kind} {u!r}: {pair} - a')
    if same:
        return
    c = build(kind, d2, w)
    for name, f in (('+', operator.add), ('-', operator.sub)):
        raises(ValueError, f, a, c, _what=f'{kind}: {u!r} {name} {w!r}')
        raises(ValueError, f, c, a, _what=f'{kind}: {w!r} {name} {u!r}')
        raises(ValueError, f, a, (y, w), _what=f'{u!r} {name} ({y}, {w!r})')
    # After a conversion they do add.
    try:
        e = c.withunit(u)
    except (ValueError, metric.UnitConversionError):
        return
    check(a + e, kind, x + si(d2, two), d, f'{kind}: {u!r} + {w!r} converted')
    # A plain number has no unit, so it adds only to unitless objects.
    raises((TypeError, ValueError), operator.add, a, 1.5,
           _what=f'{kind} in {u!r} + 1.5')
    raises((TypeError, ValueError), operator.sub, 1.5, a,
           _what=f'1.5 - {kind} in {u!r}')


COMPARISONS = {'<': operator.lt, '<=': operator.le, '>': operator.gt,
               '>=': operator.ge, '==': operator.eq, '!=': operator.ne}


@PROPERTY.facet(
    st.tuples(st.sampled_from(KINDS), families(size=2, top=1),
              st.integers(0, 10**6)),
    quick=500, thorough=6000)
def comparisons(case, t):
    """Ordering compares the numbers of objects in the same unit, and is
    refused between different units; equality requires equal units."""
    kind, (one, two), seed = case
    rng = numpy.random.default_rng(seed)
    shape = SHAPE[kind]
    d1 = rng.integers(-2, 3, shape)
    d2 = rng.integers(-2, 3, shape)
    u, w = unit(one), unit(two)
    a = build(kind, numpy.asarray(d1).tolist(), u)
    b = build(kind, numpy.asarray(d2).tolist(), u)
    c = build(kind, numpy.asarray(d1).tolist(), w)
    same = metric.unit(u) == metric.unit(w)
    t.label(kind)
    t.nontrivial(not same)
    for name, f in COMPARISONS.items():
        got = numpy.asarray(f(a, b))
        expected = f(d1, d2)
        if name == '==' and got.ndim == 0:
            expected = numpy.all(expected)
        if name == '!=' and got.ndim == 0:
            expected = numpy.any(expected)
        equal(got.tolist(), numpy.asarray(expected).tolist(),
              f'{kind} {numpy.asarray(d1).tolist()} {name} '
              f'{numpy.asarray(d2).tolist()}')
        if name in ('==', '!='):
            got = bool(numpy.all(numpy.asarray(f(a, c))))
            equal(got, same if name == '==' else not same,
                  f'{kind}: {numpy.asarray(d1).tolist()} {u!r} {name} the same in {w!r}')
        elif not same:
            raises(ValueError, f, a, c, _what=f'{kind}: {u!r} {name} {w!r}')


def seeded(shape, seed, low=0.1, high=9.0):
    rng = numpy.random.default_rng(seed)
    out = numpy.round(rng.uniform(low, high, shape), 3)
    return out.tolist()


@PROPERTY.facet(
    st.tuples(st.sampled_from(['vector', 'tensor', 'array']), units,
              st.integers(0, 10**6),
              st.sampled_from(['sum', 'mean', 'min', 'max', 'cumsum']),
              st.sampled_from([None, 0, -1, 1]), st.booleans()),
    quick=500, thorough=6000)
def reductions(case, t):
    """Reductions keep the unit and agree with numpy along each axis."""
    kind, (terms,), seed, name, axis, convert = case
    shape = SHAPE[kind]
    if axis is not None and axis >= len(shape):
        axis = 0
    data = seeded(shape, seed, -9, 9)
    u = unit(terms)
    x = build(kind, data, u)
    scale = 1.0
    if convert:
        new = f'k{u}' if len(terms) == 1 and not terms[0][0] and terms[
            0][2] == '1' and terms[0][1] != 'K' else u
        if new != u:
            x, u, scale = x.withunit(new), new, 1e-3
    t.label(kind, name, f'axis:{axis}')
    t.nontrivial(axis is not None)
    f = getattr(numpy, name)
    kwargs = {} if axis is None else {'axis': axis}
    got = f(x, **kwargs)
    expected = f(numpy.array(data) * scale, **kwargs)
    what = f'numpy.{name}({kind}, {kwargs}) of {short(data)} {u!r}'
    ensure(hasattr(got, 'unit'), f'{what} has no unit: {got!r}')
    ensure(got.unit == u, f'{what}: unit {got.unit}')
    arrayclose(numpy.array(got.data if isinstance(got, physical.Scalar)
                           else got, dtype=float), expected, what, rtol=1e-8)
    if kind == 'array' and axis is not None:
        left = AXES if name == 'cumsum' else tuple(
            d for i, d in enumerate(AXES) if i != axis % 2)
        equal(tuple(got.dimensions), left, what)
        equal(tuple(len(i) for i in got.axes.values()),
              numpy.shape(expected), what)


@PROPERTY.facet(
    st.tuples(st.sampled_from(KINDS), units, st.integers(0, 10**6)),
    quick=300, thorough=4000)
def functions(case, t):
    """Roots take the root of the unit; logarithms need unitless input and
    trigonometric functions need an angle."""
    kind, (terms,), seed = case
    data = seeded(SHAPE[kind], seed)
    u = unit(terms)
    t.label(kind)
    t.nontrivial(len(terms) > 1)
    if kind == 'scalar':
        data = float(numpy.ravel(data)[0])
    x = build(kind, data, u)
    v = numpy.asarray(data, dtype=float)
    root = numpy.sqrt(x)
    half = tuple(i / 2 for i in U.dimension(terms))
    check(root, kind, numpy.sqrt(si(data, terms)), half,
          f'sqrt of {kind} in {u!r}')
    check(root * root, kind, si(data, terms), U.dimension(terms),
          f'sqrt squared of {kind} in {u!r}')
    for f in (numpy.log, numpy.log10, numpy.log2, numpy.log1p):
        y = build(kind, data, '1')
        got = f(y)
        ensure(got.unit == '1', f'{f.__name__} of unitless: {got.unit}')
        arrayclose(numpy.array(got.data, dtype=float), f(v),
                   f'{f.__name__} of {kind}')
        if x.unit != '1':
            raises(ValueError, f, x, _what=f'{f.__name__} of {kind} in {u!r}')
    for f in (numpy.sin, numpy.cos, numpy.tan):
        y = build(kind, data, 'rad')
        got = f(y)
        ensure(got.unit == '1', f'{f.__name__} of rad: {got.unit}')
        arrayclose(numpy.array(got.data, dtype=float), f(v),
                   f'{f.__name__} of {kind}')
        if [s for _, s, _ in terms] not in (['rad'], ['deg']):
            raises(ValueError, f, x, _what=f'{f.__name__} of {kind} in {u!r}')
    if kind == 'array':
        for f in (numpy.sqrt, ):
            equal(tuple(f(x).dimensions), AXES, f'{f.__name__}')

@PROPERTY.facet(
    st.tuples(st.sampled_from(KINDS), st.sampled_from(KINDS), units, units,
              st.integers(0, 10**6), st.integers(0, 10**6),
              st.sampled_from([0.5, 1.5, 2, 3, -1.5, '1/2', '2/3']),
              st.booleans(), st.booleans()),
    quick=600, thorough=8000)
def exponents(case, t):
    """Powers: an exponent must be unitless, and when it is array-like, so
    must its base; a power with a number has the power of the unit."""
    kind, other, (terms,), (more,), seed, seed2, k, bare, plain = case
    t.label(kind, f'exponent:{other}')
    data = seeded(SHAPE[kind], seed)
    if kind == 'scalar':
        data = float(numpy.ravel(data)[0])
    data = (numpy.abs(numpy.asarray(data)) + 0.5).tolist()
    ints = numpy.random.default_rng(seed2).integers(
        1, 4, size=SHAPE[other]).astype(float).tolist()
    u = '1' if bare else unit(terms)
    w = '1' if plain else unit(more)
    a = build(kind, data, u)
    b = build(other, ints, w)
    v = numpy.asarray(data, dtype=float)
    e = numpy.asarray(ints, dtype=float)
    what = f'{kind}({data}, {a.unit!r}) ** {other}({ints}, {b.unit!r})'
    t.nontrivial(a.unit != '1' or b.unit != '1')
    if b.unit != '1':
        raises(ValueError, lambda: a ** b, _what=what)
        if kind != 'scalar' and other != 'scalar':
            raises(ValueError, numpy.power, a, b, _what=f'numpy.power: {what}')
        raises(ValueError, lambda: 2.0 ** b, _what=f'2 ** {what}')
        t.label('exponent with a unit')
    elif other == 'scalar':
        got = a ** b
        d = tuple(i * Fraction(int(ints)) for i in U.dimension(
            [] if bare else terms))
        scale = 1.0 if bare else U.size(terms)
        check(got, kind, v ** ints * scale ** ints, d, what)
    elif a.unit != '1':
        raises(ValueError, lambda: a ** b, _what=what)
        t.label('base with a unit')
    else:
        got = a ** b
        check(got, arrayish(kind, other), v ** e, U.dimension([]), what)
    if b.unit == '1':
        got = 2.0 ** b
        arrayclose(numpy.array(got, dtype=float), 2.0 ** e,
                   f'2 ** {other}({ints})')
    power_of = Fraction(k)
    got = a ** float(power_of) if not isinstance(k, str) else numpy.sqrt(a)
    if isinstance(k, str):
        power_of = Fraction(1, 2)
    f = float(power_of)
    scale = 1.0 if bare else U.size(terms)
    d = tuple(i * power_of for i in U.dimension([] if bare else terms))
    check(got, kind, v ** f * scale ** f, d, f'{kind} in {a.unit!r} ** {k}')


@PROPERTY.facet(
    st.tuples(st.sampled_from(KINDS), units, st.integers(0, 10**6),
              st.sampled_from([1, 2, 3, 7, 0.5, 2.5, -2, -0.5])),
    quick=300, thorough=4000)
def remainders(case, t):
    """Floor division by a number, and its remainder, act on the values in
    the unit that the object has, and rebuild the object; floor division of a
    number has the inverse unit."""
    kind, (terms,), seed, n = case
    t.label(kind)
    t.nontrivial(len(terms) > 1)
    data = seeded(SHAPE[kind], seed)
    if kind == 'scalar':
        data = float(numpy.ravel(data)[0])
    v = numpy.asarray(data, dtype=float)
    x = build(kind, data, unit(terms))
    what = f'{kind}({data}, {x.unit!r})'
    q, r = x // n, x % n
    for got, expected, symbol in ((q, v // n, '//'), (r, v % n, '%')):
        ensure(type(got) is type(x), f'{what} {symbol} {n}: {type(got)}')
        equal(str(got.unit), str(x.unit), f'{what} {symbol} {n}: unit')
        values = float(got) if kind == 'scalar' else numpy.array(got)
        arrayclose(numpy.asarray(values, dtype=float), expected,
                   f'{what} {symbol} {n}')
    inverse = n // x
    ensure(type(inverse) is type(x), f'{n} // {what}: {type(inverse)}')
    parts = terms_of(inverse.unit)
    equal(U.dimension(parts), tuple(-d for d in U.dimension(terms)),
          f'{n} // {what}: dimension of {inverse.unit!r}')
    close(U.size(parts), 1 / U.size(terms), f'{n} // {what}: unit', 1e-9)
    values = float(inverse) if kind == 'scalar' else numpy.array(inverse)
    arrayclose(numpy.asarray(values, dtype=float), n // v, f'{n} // {what}')
    whole = q * n + r
    values = float(whole) if kind == 'scalar' else numpy.array(whole)
    arrayclose(numpy.asarray(values, dtype=float), v,
               f'{what}: quotient and remainder', rtol=1e-9)


@PROPERTY.facet(
    st.tuples(st.sampled_from(['vector', 'tensor', 'array']), units, units,
              st.integers(0, 10**6), st.sampled_from([0, -1, 1]),
              st.sampled_from(['none', 'number', 'scalar', 'vector'])),
    quick=400, thorough=4000)
def gradients(case, t):
    """The gradient is numpy's, in the unit of the object over the unit of
    the coordinate."""
    kind, (terms,), (by,), seed, axis, how = case
    shape = SHAPE[kind]
    if axis >= len(shape):
        axis = 0
    data = seeded(shape, seed, -9, 9)
    x = build(kind, data, unit(terms))
    n = shape[axis]
    rng = numpy.random.default_rng(seed + 1)
    coords = numpy.cumsum(numpy.round(rng.uniform(0.1, 3, n), 2))
    t.label(kind, how)
    t.nontrivial(how in ('scalar', 'vector'))
    arg = {'none': [], 'number': [2.5],
           'scalar': [physical.scalar(2.5, unit=unit(by))],
           'vector': [physical.vector(coords, unit=unit(by))]}[how]
    plain = {'none': [], 'number': [2.5], 'scalar': [2.5],
             'vector': [coords]}[how]
    got = numpy.gradient(x, *arg, axis=axis)
    expected = numpy.gradient(numpy.array(data), *plain, axis=axis)
    if how in ('none', 'number'):
        scale, d = U.size(terms), U.dimension(terms)
    else:
        scale = U.size(terms) / U.size(by)
        d = tuple(i - j for i, j in zip(U.dimension(terms), U.dimension(by)))
    check(got, kind, expected * scale, d,
          f'gradient of {kind} in {unit(terms)!r} by {how} {unit(by)!r}')


@PROPERTY.facet(
    st.tuples(units, st.lists(st.sampled_from(['number', 'scalar', 'vector',
                                               'values']),
                              min_size=2, max_size=2),
              units, st.sampled_from(['same', 'prefix', 'other', 'none']),
              units, st.integers(0, 10**6)),
    quick=400, thorough=4000)
def gradients_along_axes(case, t):
    """The gradient along several axes is in the unit of the object over the
    unit of the coordinates, or refused when those differ."""
    (terms,), kinds, (one,), how, (two,), seed = case
    if how == 'same':
        two = one
    elif how == 'prefix':
        p, s, x = one[0]
        two = [('' if p else 'm', s, x)] + list(one[1:])
        if U.clashes(two[0][0], s):
            t.label('skipped')
            return
    shape = (3, 4)
    data = seeded(shape, seed, -9, 9)
    x = build('array', data, unit(terms))
    rng = numpy.random.default_rng(seed + 1)
    args, plain, by = [], [], []
    for kind, u, n in zip(kinds, (one, two), shape):
        step = float(numpy.round(rng.uniform(0.1, 3), 2))
        coords = numpy.cumsum(numpy.round(rng.uniform(0.1, 3, n), 2))
        if how == 'none':
            kind = {'scalar': 'number', 'vector': 'values'}.get(kind, kind)
        plain.append(coords if kind in ('vector', 'values') else step)
        if kind in ('scalar', 'vector'):
            make = physical.scalar if kind == 'scalar' else physical.vector
            args.append(make(plain[-1], unit=unit(u)))
            by.append(u)
        else:
            args.append(plain[-1])
            by.append([])
    t.label(how, *kinds)
    t.nontrivial(how != 'none')
    what = f'gradient of {unit(terms)} by {kinds} in {[unit(u) for u in by]}'
    try:
        got = numpy.gradient(x, *args)
    except TypeError:
        t.label('refused')
        ensure(unit(by[0]) != unit(by[1]), f'{what}: refused')
        return
    expected = numpy.gradient(numpy.array(data), *plain)
    equal(len(got), 2, f'{what}: axes')
    for i in range(2):
        scale = U.size(terms) / U.size(by[i])
        d = tuple(j - k for j, k in zip(U.dimension(terms),
                                        U.dimension(by[i])))
        check(got[i], 'array', expected[i] * scale, d, f'{what}, axis {i}')


@PROPERTY.facet(
    st.tuples(st.sampled_from(['tensor', 'array']),
              st.sampled_from([(3, 4), (3, 3), (2, 3, 4), (3, 3, 3),
                               (2, 3, 2, 3)]),
              units, units, st.sampled_from(['none', 'number', 'scalar']),
              st.sampled_from(['all', 'one', 'some']), st.integers(0, 10**6)),
    quick=200, thorough=2500)
def gradients_along_all_axes(case, t):
    """The gradients along all of the axes, or some of them, are numpy's, in
    the order of the axes, each with all of the axes of the object."""
    kind, shape, (terms,), (by,), how, which, seed = case
    data = numpy.random.default_rng(seed).uniform(-9, 9, shape).round(3)
    ndim = len(shape)
    if kind == 'array':
        x = physical.array(data, unit=unit(terms), axes={
            f'x{i}': physical.points(range(i, i + n))
            for i, n in enumerate(shape)})
    else:
        x = physical.tensor(data, unit=unit(terms))
    args = {'none': (), 'number': (2.5,),
            'scalar': (physical.scalar(2.5, unit=unit(by)),)}[how]
    plain = () if how == 'none' else (2.5,)
    kw = {'all': {}, 'one': {'axis': seed % ndim},
          'some': {'axis': tuple(numpy.random.default_rng(seed).permutation(
              ndim)[:2].tolist())}}[which]
    t.label(kind, how, which, f'{ndim} axes')
    t.nontrivial(which != 'one')
    got = numpy.gradient(x, *args, **kw)
    expected = numpy.gradient(data, *plain, **kw)
    by = by if how == 'scalar' else []
    if which == 'one':
        got, expected = [got], [expected]
    what = f'gradient of {shape} along {kw} by {how}'
    equal(len(got), len(expected), f'{what}: how many')
    scale = U.size(terms) / U.size(by)
    d = tuple(j - k for j, k in zip(U.dimension(terms), U.dimension(by)))
    for i, (a, b) in enumerate(zip(got, expected)):
        if kind == 'array':
            ensure(a.axes == x.axes, f'{what}: axes of number {i}')
        ensure(type(a) is type(x), f'{what}: number {i} is {type(a)}')
        equal(U.dimension(terms_of(a.unit)), d, f'{what}: unit {a.unit}')
        arrayclose(numpy.array(a) * U.size(terms_of(a.unit)), b * scale,
                   f'{what}, number {i}')


@PROPERTY.facet(
    st.tuples(st.sampled_from([(N,), (2, N), (3, 2, N), (2, N, 3)]), units,
              units, st.integers(0, 10**6),
              st.sampled_from([None, 0, -1, 1, -2]),
              st.sampled_from(['none', 'number', 'scalar', 'values',
                               'vector', 'both'])),
    quick=400, thorough=4000)
def integrals(case, t):
    """The trapezoidal integral is numpy's, in the unit of the object times
    the unit of the coordinate."""
    shape, (terms,), (by,), seed, axis, how = case
    if axis is not None and not -len(shape) <= axis < len(shape):
        axis = 0
    data = seeded(shape, seed, -9, 9)
    names = [f'x{i}' for i in range(len(shape))]
    x = physical.array(data, unit=unit(terms), axes={
        n: physical.points(k) for n, k in zip(names, shape)})
    n = shape[-1 if axis is None else axis]
    rng = numpy.random.default_rng(seed + 1)
    coords = numpy.cumsum(numpy.round(rng.uniform(0.1, 3, n), 2))
    t.label(how)
    t.nontrivial(how in ('scalar', 'vector'))
    kw = {'none': {}, 'number': {'dx': 2.5},
          'scalar': {'dx': physical.scalar(2.5, unit=unit(by))},
          'values': {'x': coords},
          'vector': {'x': physical.vector(coords, unit=unit(by))},
          # Steps do not matter if there are coordinates.
          'both': {'x': physical.vector(coords, unit=unit(by)),
                   'dx': physical.scalar(2.5, unit=unit(by))}}[how]
    plain = {'none': {}, 'number': {'dx': 2.5}, 'scalar': {'dx': 2.5}}.get(
        how, {'x': coords})
    if axis is not None:
        kw['axis'] = plain['axis'] = axis
    got = numpy.trapz(x, **kw)
    expected = numpy.trapz(numpy.array(data), **plain)
    factor = by if how in ('scalar', 'vector', 'both') else []
    what = f'integral of {unit(terms)} by {how} {unit(factor)}'
    d = tuple(i + j for i, j in zip(U.dimension(terms), U.dimension(factor)))
    left = [m for i, m in enumerate(names)
            if i != (-1 if axis is None else axis) % len(shape)]
    equal(list(got.dimensions), left, f'{what}: dimensions')
    equal(U.dimension(terms_of(got.unit)), d, f'{what}: unit {got.unit}')
    arrayclose(numpy.array(got) * U.size(terms_of(got.unit)),
               expected * U.size(terms) * U.size(factor), what)


@PROPERTY.facet(
    st.tuples(st.sampled_from(['vector', 'tensor', 'array', 'sequence']),
              families(size=2, top=1, exponents=['1', '1', '2']),
              st.lists(values, min_size=1, max_size=6), values,
              st.booleans(), st.integers(0, 5)),
    quick=500, thorough=6000)
def membership(case, t):
    """A quantity is in an object exactly when it equals one of its elements,
    unit included; a number, when it is one of its numbers."""
    kind, (one, two), data, other, known, pick = case
    x = data[pick % len(data)] if known else other
    u, v = unit(one), unit(two)
    n = len(data)
    if kind in ('vector', 'sequence'):
        a = numpy.array(data, dtype=float)
    else:
        rows = 2 if n % 2 == 0 else 1
        a = numpy.array(data, dtype=float).reshape(rows, n // rows)
    obj = (measured.sequence(a, unit=u) if kind == 'sequence'
           else build(kind, a.tolist(), u))
    found = x in data
    t.label(kind, found)
    t.nontrivial(len(set(data)) > 1)
    what = f'in {kind} of {data} {u}'
    for form in (physical.scalar, measured.value):
        equal(form(x, unit=u) in obj, found, f'{x} {u} {what}')
        if metric.unit(u) != metric.unit(v):
            equal(form(x, unit=v) in obj, False, f'{x} {v} {what}')
    if kind != 'sequence':
        equal(x in obj, found, f'{x} {what}')
        elements = list(obj)
        if kind in ('vector', 'tensor'):
            for e in elements:
                ensure(e in obj, f'{e} {what}')


@PROPERTY.facet(
    st.tuples(values, units), quick=300, thorough=3000)
def builtins(case, t):
    """int, float, complex, round, floor, ceil and trunc of a scalar act on
    its number; those that return a quantity keep the unit."""
    v, (terms,) = case
    u = unit(terms)
    t.nontrivial(v != int(v))
    x = physical.scalar(v, unit=u)
    equal(float(x), float(v), f'float({v} {u})')
    equal(int(x), int(v), f'int({v} {u})')
    equal(complex(x), complex(v), f'complex({v} {u})')
    for name, f in (('round', round), ('floor', math.floor),
                    ('ceil', math.ceil), ('trunc', math.trunc)):
        got = f(x)
        equal(float(got), float(f(v)), f'{name}({v} {u})')
        if hasattr(got, 'unit'):
            ensure(got.unit == u, f'{name}({v} {u}): unit {got.unit}')
    for n in (-1, 0, 1, 2):
        got = round(x, n)
        equal(float(got), float(round(v, n)), f'round({v} {u}, {n})')
        ensure(got.unit == u, f'round({v} {u}, {n}): unit {got.unit}')
    y = build('array', [[v]], u)
    equal(float(y), float(v), 'float of a size-one array')
    equal(int(y), int(v), 'int of a size-one array')
    raises(TypeError, float, build('array', [[v, v]], u))


@PROPERTY.finding('P06-degrees', 'numpy.sin/cos/tan of an object in degrees '
                  'act on the bare number, as if it were in radians')
def degrees():
    x = physical.scalar(90.0, unit='deg')
    return abs(float(numpy.sin(x)) - 1.0) > 1e-6
