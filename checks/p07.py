"""P07 -- arrays combine by the names of their dimensions."""
import operator

import numpy
from hypothesis import strategies as st

from eprempy import metric
from eprempy import physical
from eprempy import quantity
from eprempy import real
from vlib import unitmodel as U
from vlib.harness import Property, close, ensure, equal, fail, raises, short
from checks.common import arrayclose, families, positive, si, terms_of, unit
from checks.p06 import units

PROPERTY = Property(
    'P07',
    rule=(
        'Cases are two or three arrays that draw their dimensions from a '
        'common pool of named axes (integral, symbolic and measured, of '
        'length one to four), some of them cut to a single coordinate along '
        'some dimension, combined by products, quotients, sums, differences '
        'and comparisons. The oracle aligns plain numpy arrays by dimension '
        'name. Non-trivial: the operands have different dimensions, or one '
        'of them is singular where another is not.'
    ),
    assumptions=[
        'Operands that list common dimensions in different orders may be '
        'refused with ValueError, never combined wrongly.',
    ],
)

POOL = ('time', 'shell', 'species', 'energy')
KIND = {'time': 'coordinates', 'shell': 'points', 'species': 'symbols',
        'energy': 'coordinates'}
SYMBOLS = ['H+', 'He++', 'O6+', 'C5+']


def axis(name, length, start=0):
    kind = KIND[name]
    if kind == 'points':
        return physical.points(range(start, start + length))
    if kind == 'symbols':
        return physical.symbols(SYMBOLS[start:start + length])
    values = [1.5 * (i + start) ** 2 + 0.5 for i in range(length)]
    return physical.coordinates(
        quantity.measure(*values, {'time': 'day', 'energy': 'MeV'}[name]))


@st.composite
def operands(draw, count=2):
    lengths = {n: draw(st.integers(1, 4)) for n in POOL}
    out = []
    for _ in range(count):
        dims = [n for n in POOL if draw(st.booleans())] or ['shell']
        singular = {}
        for n in dims:
            if lengths[n] > 1 and draw(st.integers(0, 3)) == 0:
                singular[n] = draw(st.integers(0, lengths[n] - 1))
        out.append((dims, singular, draw(st.integers(0, 10**6)),
                    draw(units)[0]))
    return lengths, out


def data_for(lengths, dims, singular, seed):
    rng = numpy.random.default_rng(seed)
    shape = [1 if n in singular else lengths[n] for n in dims]
    return numpy.round(rng.uniform(0.5, 9, shape), 3)


def build(lengths, spec):
    dims, singular, seed, terms = spec
    data = data_for(lengths, dims, singular, seed)
    axes = {n: axis(n, 1, singular[n]) if n in singular
            else axis(n, lengths[n]) for n in dims}
    return physical.array(data, unit=unit(terms), axes=axes)


def expand(data, dims, order):
    """Align data having these dimensions with an ordered list of names."""
    have = [n for n in order if n in dims]
    moved = numpy.transpose(data, [dims.index(n) for n in have])
    shape = iter(moved.shape)
    return moved.reshape([next(shape) if n in dims else 1 for n in order])


def check_axes(result, lengths, specs, what):
    for n in result.dimensions:
        full = [s for s in specs if n in s[0] and n not in s[1]]
        if full:
            expected = axis(n, lengths[n])
        else:
            marks = {s[1][n] for s in specs if n in s[0]}
            if len(marks) > 1:
                continue
            expected = axis(n, 1, marks.pop())
        ensure(result.axes[n] == expected,
               f'{what}: axis {n} is {result.axes[n]}, expected {expected}')


OPS = {'*': operator.mul, '/': operator.truediv}


@PROPERTY.facet(
    st.tuples(st.one_of(operands(2), operands(2), operands(3)),
              st.lists(st.sampled_from(['*', '/']), min_size=2, max_size=2)),
    quick=1000, thorough=15000, shards=2)
def products(case, t):
    """The product or quotient of arrays has the dimensions of both, and each
    value combines the values at the same coordinates."""
    (lengths, specs), ops = case
    arrays = [build(lengths, s) for s in specs]
    dims = [s[0] for s in specs]
    t.label(f'operands:{len(specs)}')
    if any(s[1] for s in specs):
        t.label('singular')
    t.nontrivial(len({tuple(d) for d in dims}) > 1 or any(
        s[1] for s in specs))
    what = ' '.join(f'{s[0]}{s[1] or ""}' for s in specs) + f' {ops}'
    got = arrays[0]
    for a, op in zip(arrays[1:], ops):
        mine = [n for n in got.dimensions if n in a.dimensions]
        if mine != [n for n in a.dimensions if n in got.dimensions]:
            t.label('other order')   # see `reordered`
            return
        got = OPS[op](got, a)
    order = tuple(got.dimensions)
    equal(sorted(order), sorted(set().union(*dims)), f'{what}: dimensions')
    equal(tuple(got.shape), numpy.shape(numpy.array(got)), f'{what}: shape')
    ref = None
    d = None
    for s, op in zip(specs, ['first', *ops]):
        raw = data_for(lengths, *s[:3])
        x = expand(si(raw, s[3]), s[0], order)
        e = U.dimension(s[3])
        if ref is None:
            ref, d = x, e
        elif op == '*':
            ref, d = ref * x, tuple(i + j for i, j in zip(d, e))
        else:
            ref, d = ref / x, tuple(i - j for i, j in zip(d, e))
    equal(U.dimension(terms_of(got.unit)), d, f'{what}: unit {got.unit}')
    arrayclose(numpy.array(got) * U.size(terms_of(got.unit)), ref, what)
    check_axes(got, lengths, specs, what)
    # Commuting the factors only reorders the dimensions.
    if len(specs) == 2 and ops[0] == '*':
        other = arrays[1] * arrays[0]
        equal(sorted(other.dimensions), sorted(order), f'{what}: commuted')
        x = numpy.array(other) * U.size(terms_of(other.unit))
        arrayclose(x.transpose([list(other.dimensions).index(n)
                                for n in order]), ref, f'{what}: commuted')
    # The operands are as they were.
    for a, s in zip(arrays, specs):
        arrayclose(numpy.array(a), data_for(lengths, *s[:3]),
                   f'{what}: operand afterwards', 0)
        equal(list(a.dimensions), s[0], f'{what}: operand dimensions')


@st.composite
def likes(draw):
    """Two arrays with the same dimensions, possibly cut differently."""
    lengths = {n: draw(st.integers(1, 4)) for n in POOL}
    dims = [n for n in POOL if draw(st.booleans())] or ['shell']
    terms = draw(units)[0]
    out = []
    cut = draw(st.booleans())
    for i in range(2):
        singular = {}
        if cut and i:
            for n in dims:
                if lengths[n] > 1 and draw(st.booleans()):
                    singular[n] = draw(st.integers(0, lengths[n] - 1))
        out.append((dims, singular, draw(st.integers(0, 10**6)), terms))
    if draw(st.booleans()):
        out.reverse()
    return lengths, out


@PROPERTY.facet(likes(), quick=600, thorough=10000)
def sums(case, t):
    """Arrays with the same dimensions, axes and unit add, subtract and
    compare value by value; a single coordinate is either repeated along the
    other's axis or refused, never misaligned."""
    lengths, specs = case
    a, b = (build(lengths, s) for s in specs)
    dims = specs[0][0]
    x, y = (data_for(lengths, *s[:3]) for s in specs)
    cut = any(s[1] for s in specs)
    t.label('cut' if cut else 'alike', f'dims:{len(dims)}')
    t.nontrivial(cut or len(dims) > 1)
    what = f'{specs[0][:2]} and {specs[1][:2]}'
    for name, f in (('+', operator.add), ('-', operator.sub)):
        try:
            got = f(a, b)
        except ValueError as err:
            if not cut:
                fail(f'{what}: {name} raised {err!r}')
            t.label('refused')
            continue
        equal(list(got.dimensions), dims, f'{what}: {name} dimensions')
        arrayclose(numpy.array(got), f(x, y), f'{what}: {name}',
                   atol=1e-12)
        equal(got.unit, a.unit, f'{what}: {name} unit')
        check_axes(got, lengths, specs, what)
    if not cut:
        for name, f in (('<', operator.lt), ('>=', operator.ge)):
            got = numpy.array(f(a, b))
            equal(got.tolist(), f(x, y).tolist(), f'{what}: {name}')
        ensure(a == build(lengths, specs[0]), f'{what}: equals a rebuilt copy')


@PROPERTY.facet(operands(2), quick=500, thorough=6000)
def different(case, t):
    """Sums of arrays with different dimensions are refused, not broadcast."""
    lengths, specs = case
    one, two = specs[0][0], specs[1][0]
    specs = [(s[0], {}, s[2], specs[0][3]) for s in specs]
    if set(one) == set(two):
        t.label('same dimensions')
        return
    t.nontrivial()
    a, b = (build(lengths, s) for s in specs)
    for name, f in (('+', operator.add), ('-', operator.sub)):
        raises(ValueError, f, a, b, _what=f'{one} {name} {two}')


@PROPERTY.facet(
    st.tuples(st.lists(st.sampled_from(POOL), max_size=2, unique=True),
              st.lists(st.sampled_from(POOL), max_size=2, unique=True),
              st.sampled_from(POOL), st.integers(2, 4), st.integers(2, 4),
              st.sampled_from(['lengths', 'coordinates']),
              st.sampled_from(['*', '/', '+', '-', '<', '==']),
              st.booleans(), st.integers(0, 10**6)),
    quick=800, thorough=8000)
def mismatched(case, t):
    """Arrays that have different lengths along a dimension that they share
    are refused in either order; so are sums at different coordinates."""
    one, two, shared, m, n, kind, op, isreal, seed = case
    if kind == 'lengths' and m == n:
        n = m + 1
    if kind == 'coordinates':
        n = m
    if op in '+-<==':
        two = one
    t.label(kind, op, 'real' if isreal else 'physical')
    t.nontrivial()
    operands = []
    for k, (names, length) in enumerate(((one, m), (two, n))):
        dims = sorted({*names, shared}, key=POOL.index)
        shape = [length if d == shared else 3 for d in dims]
        data = numpy.random.default_rng(seed + k).uniform(1, 9, shape)
        if isreal:
            operands.append(real.array(data.tolist(), *dims))
            continue
        start = 1 if kind == 'coordinates' and k else 0
        if shared == 'species' and start and length == 4:
            t.label('skipped')
            return
        axes = {d: axis(d, length, start) if d == shared else axis(d, 3)
                for d in dims}
        operands.append(physical.array(data, unit='m', axes=axes))
    if kind == 'coordinates' and (isreal or op in '*/<'):
        t.label('skipped')   # only sums compare coordinates
        return
    f = {'*': operator.mul, '/': operator.truediv, '+': operator.add,
         '-': operator.sub, '<': operator.lt, '==': operator.eq}[op]
    for a, b in (operands, operands[::-1]):
        what = (f'{a.shapemap if isreal else a.shape} {op} '
                f'{b.shapemap if isreal else b.shape} ({kind}, {shared})')
        if op in ('==', '<'):
            try:
                got = f(a, b)
            except (ValueError, TypeError):
                continue
            ensure(not numpy.any(numpy.array(got)), f'{what} gave {short(got)}')
        else:
            raises((ValueError, TypeError), f, a, b, _what=what)


@PROPERTY.facet(
    st.tuples(operands(2), st.integers(0, 5), st.sampled_from(['*', '/', '+'])),
    quick=500, thorough=6000)
def reordered(case, t):
    """Transposing an operand either still combines values at the same
    coordinates or is refused."""
    (lengths, specs), k, op = case
    specs = [(s[0], {}, s[2], specs[0][3] if op == '+' else s[3])
             for s in specs]
    a, b = (build(lengths, s) for s in specs)
    dims = specs[1][0]
    rng = numpy.random.default_rng(k)
    names = [dims[i] for i in rng.permutation(len(dims))]
    c = b.transpose(*names)
    equal(list(c.dimensions), names, 'dimensions of the transpose')
    f = {'*': operator.mul, '/': operator.truediv, '+': operator.add}[op]
    t.nontrivial(names != dims)
    what = f'{specs[0][0]} {op} {names}'
    try:
        got = f(a, c)
    except ValueError:
        t.label('refused')
        if op != '+' and not set(specs[0][0]) & set(names):
            fail(f'{what}: refused although no dimension is repeated')
        return
    order = tuple(got.dimensions)
    x = expand(si(data_for(lengths, *specs[0][:3]), specs[0][3]),
               specs[0][0], order)
    y = expand(si(data_for(lengths, *specs[1][:3]), specs[1][3]),
               specs[1][0], order)
    arrayclose(numpy.array(got) * U.size(terms_of(got.unit)), f(x, y), what)


@PROPERTY.facet(
    st.tuples(operands(2), st.sampled_from(['*', '/', '+', '-'])),
    quick=600, thorough=8000)
def real_arrays(case, t):
    """Real-valued arrays combine by dimension name in the same way, for sums
    as well as products."""
    (lengths, specs), op = case
    f = {'*': operator.mul, '/': operator.truediv, '+': operator.add,
         '-': operator.sub}[op]
    if op in '+-':
        specs = [(specs[0][0], {}, s[2], s[3]) for s in specs]
        if len(specs[0][0]) > 1:
            # The same dimensions in another order are not the same.
            for turned in (specs[0][0][1:] + specs[0][0][:1],
                           specs[0][0][::-1]):
                x = real.array(data_for(lengths, *specs[0][:3]), *specs[0][0])
                for shape in (lengths, {n: m for n, m in zip(
                        turned, x.shape)}):
                    y = real.array(data_for(shape, turned, {}, specs[1][2]),
                                   *turned)
                    raises(ValueError, f, x, y,
                           _what=f'{specs[0][0]} {op} {turned}')
            t.label('another order')
    raws = [data_for(lengths, *s[:3]) for s in specs]
    a, b = (real.array(x.tolist(), *s[0]) for x, s in zip(raws, specs))
    t.nontrivial(specs[0][0] != specs[1][0])
    got = f(a, b)
    what = f'real {specs[0][:2]} {op} {specs[1][:2]}'
    order = tuple(got.dimensions)
    equal(sorted(order), sorted(set(specs[0][0]) | set(specs[1][0])), what)
    x, y = (expand(r, s[0], order) for r, s in zip(raws, specs))
    arrayclose(numpy.array(got), f(x, y), what, atol=1e-12)
    equal(dict(got.shapemap),
          dict(zip(order, numpy.broadcast_shapes(x.shape, y.shape))),
          f'{what}: shape map')


@PROPERTY.facet(st.tuples(st.one_of(likes(), operands(2)), st.booleans()),
                quick=400, thorough=5000)
def powers(case, t):
    """An array raised to the power of another combines the values at the
    same coordinates, and refuses arrays with different dimensions."""
    (lengths, specs), as_real = case
    # Powers of arrays are only defined without units.
    specs = [(*s[:3], []) for s in specs]
    raws = [data_for(lengths, *s[:3]) for s in specs]
    what = f'{specs[0][:2]} ** {specs[1][:2]}'
    if as_real:
        a, b = (real.array(x.tolist(), *s[0]) for x, s in zip(raws, specs))
        what = f'real {what}'
    else:
        a, b = (build(lengths, s) for s in specs)
    t.nontrivial(len(specs[0][0]) > 1)
    if specs[0][0] != specs[1][0]:
        t.label('different')
        raises(ValueError, lambda: a ** b, _what=what)
        return
    names = specs[0][0]
    if len(names) > 1:
        turned = names[1:] + names[:1]
        for lens in (lengths, dict(zip(turned, raws[0].shape))):
            spec = (turned, {}, specs[1][2], [])
            if as_real:
                c = real.array(data_for(lens, *spec[:3]), *turned)
            else:
                c = build({n: min(m, 4) for n, m in lens.items()}, spec)
            raises(ValueError, lambda: a ** c, _what=f'{what}: {turned}')
    got = a ** b
    t.label('singular' if specs[0][1] or specs[1][1] else 'full')
    equal(list(got.dimensions), names, f'{what}: dimensions')
    arrayclose(numpy.array(got), raws[0] ** raws[1], what)
    if not as_real:
        equal(str(got.unit), '1', f'{what}: unit')
        check_axes(got, lengths, specs, what)
        for x, n in ((a, 0), (b, 1)):
            arrayclose(numpy.array(x), raws[n], f'{what}: afterwards', 0)


CHANGES = ['nothing', 'data', 'unit', 'axis', 'names', 'axis unit']


@PROPERTY.facet(
    st.tuples(operands(1), st.sampled_from(CHANGES), st.integers(0, 10**6)),
    quick=500, thorough=6000)
def equality(case, t):
    """Two arrays are equal if and only if they have the same data, unit,
    dimensions, and coordinates."""
    (lengths, [(dims, singular, seed, terms)]), change, k = case
    data = data_for(lengths, dims, singular, seed)

    def axes():
        return {n: axis(n, 1, singular[n]) if n in singular
                else axis(n, lengths[n]) for n in dims}

    a = physical.array(data, unit=unit(terms), axes=axes())
    other, moved, u = data.copy(), axes(), unit(terms)
    name = dims[k % len(dims)]
    if change == 'data':
        other.flat[k % other.size] += 0.5
    elif change == 'unit':
        u = u * metric.unit('nm')
    elif change == 'axis':
        n = len(moved[name])
        start = singular.get(name, 0)
        if name == 'species' and start + n == len(SYMBOLS):
            moved[name] = physical.symbols(['D+'] * n)
        else:
            moved[name] = axis(name, n, start + 1)
    elif change == 'names':
        moved = {'other' if d == name else d: x for d, x in moved.items()}
    elif change == 'axis unit':
        if KIND[name] != 'coordinates':
            t.label('skipped')
            return
        moved[name] = physical.coordinates(quantity.measure(
            *[float(v) for v in numpy.array(moved[name])], 'm'))
    t.label(change)
    t.nontrivial(change != 'nothing')
    b = physical.array(other, unit=u, axes=moved)
    same = change == 'nothing'
    what = f'{dims} {change} at {name}'
    for x, y in ((a, b), (b, a)):
        equal(bool(numpy.all(x == y)), same, f'{what}: ==')
        equal(bool(numpy.any(x != y)), not same, f'{what}: !=')
    ensure(a == physical.array(data, unit=unit(terms), axes=axes()),
           f'{what}: rebuilt')
