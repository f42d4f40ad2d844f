"""P08 -- indexing, transposing and reducing arrays agrees with numpy."""
import operator

import numpy
from hypothesis import strategies as st

from eprempy import numeric
from eprempy import physical
from eprempy import quantity
from eprempy import real
from vlib.harness import Property, close, ensure, equal, fail, raises, short
from checks.common import arrayclose
from checks.p07 import KIND, POOL, SYMBOLS, axis

PROPERTY = Property(
    'P08',
    rule=(
        'Cases are arrays of one to four named dimensions and one to three '
        'steps of a history: index expressions (integers of either sign, '
        'slices with steps of either sign, lists, arrays, ellipses, and '
        'mixtures), transpositions by name or number, and unit conversions. '
        'The oracle applies orthogonal numpy indexing to the plain data and '
        'to each axis. Reductions, squeezing and integrals are compared with '
        'numpy. Non-trivial: more than one dimension and a selection that is '
        'not the whole array.'
    ),
    assumptions=[
        'An integer keeps its dimension with length one, and a bare list is '
        'one index per dimension; both are pinned by existing tests.',
    ],
)


@st.composite
def shapes(draw, low=1, top=4):
    n = draw(st.integers(low, 4))
    dims = draw(st.lists(st.sampled_from(POOL), min_size=n, max_size=n,
                         unique=True))
    dims = draw(st.permutations(dims))
    return [(d, draw(st.integers(1, top))) for d in dims]


@st.composite
def items(draw, length):
    kind = draw(st.sampled_from(
        ['int', 'int', 'slice', 'slice', 'full', 'list', 'tuple', 'array',
         'range']))
    member = st.integers(-length, length - 1)
    if kind == 'int':
        return ('int', draw(member))
    if kind == 'full':
        return ('full',)
    if kind == 'slice':
        bound = st.one_of(st.none(), st.integers(-length - 2, length + 2))
        step = draw(st.sampled_from([None, 1, 2, -1, -2, 3]))
        s = (draw(bound), draw(bound), step)
        if not len(range(length)[slice(*s)]):
            return ('full',)
        return ('slice', *s)
    if kind == 'range':
        a = draw(st.integers(0, length - 1))
        return ('range', a, draw(st.integers(a + 1, length)))
    members = draw(st.lists(member, min_size=1, max_size=4))
    return (kind, members)


def realize(item):
    kind = item[0]
    if kind == 'int':
        return item[1]
    if kind == 'full':
        return slice(None)
    if kind == 'slice':
        return slice(*item[1:])
    if kind == 'range':
        return range(*item[1:])
    if kind == 'list':
        return list(item[1])
    if kind == 'tuple':
        return tuple(item[1])
    return numpy.array(item[1])


def selected(item, length):
    kind = item[0]
    if kind == 'int':
        return [item[1] % length]
    if kind == 'full':
        return list(range(length))
    if kind == 'slice':
        return list(range(length)[slice(*item[1:])])
    if kind == 'range':
        return list(range(*item[1:]))
    return [i % length for i in item[1]]


STEPS = ['index', 'index', 'transpose', 'convert', 'dots']


@st.composite
def histories(draw):
    shape = draw(shapes())
    steps = []
    current = list(shape)
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(STEPS))
        if kind == 'transpose':
            order = draw(st.permutations(range(len(current))))
            steps.append((kind, list(order), draw(st.booleans()),
                          draw(st.booleans())))
            current = [current[i] for i in order]
        elif kind == 'convert':
            steps.append((kind, draw(st.sampled_from(['km', 'cm', 'm']))))
        else:
            its = [draw(items(n)) for _, n in current]
            if kind == 'dots':
                # Only a final ellipsis may stand for no dimension.
                a = draw(st.integers(0, len(its)))
                b = draw(st.integers(min(a + 1, len(its)), len(its)))
                its = [('full',) if a <= i < b else x
                       for i, x in enumerate(its)]
                steps.append((kind, its, a, b))
            else:
                steps.append((kind, its))
            current = [(d, len(selected(x, n)))
                       for (d, n), x in zip(current, its)]
    return shape, steps


def content(name, length):
    """The plain values of an axis."""
    kind = KIND[name]
    if kind == 'points':
        return list(range(length))
    if kind == 'symbols':
        return SYMBOLS[:length]
    return [1.5 * i ** 2 + 0.5 for i in range(length)]


def axis_values(a):
    if isinstance(a, physical.Coordinates):
        return numpy.array(a.data).tolist()
    return [x if isinstance(x, str) else int(x) for x in a.data]


def plain(shape):
    n = int(numpy.prod([k for _, k in shape]))
    return numpy.arange(1.0, n + 1).reshape([k for _, k in shape])


def compare(x, dims, model, axes, what):
    equal(tuple(x.dimensions), tuple(dims), f'{what}: dimensions')
    equal(tuple(x.shape), model.shape, f'{what}: shape')
    arrayclose(numpy.array(x), model, what)
    equal(x.ndim, model.ndim, f'{what}: ndim')
    equal(x.size, model.size, f'{what}: size')
    if axes is not None:
        equal(tuple(x.axes), tuple(dims), f'{what}: names of the axes')
        for d in dims:
            equal(axis_values(x.axes[d]), axes[d], f'{what}: axis {d}')


def index_of(step):
    its = step[1]
    if step[0] == 'index':
        idx = tuple(realize(i) for i in its)
        return idx if len(idx) != 1 else idx[0]
    _, its, a, b = step
    return (*[realize(i) for i in its[:a]], ...,
            *[realize(i) for i in its[b:]])


def lists_only(idx):
    """A single list or tuple is one index per dimension: not this form."""
    return isinstance(idx, (list, tuple)) and not isinstance(
        idx, tuple) or isinstance(idx, tuple) and not any(
            isinstance(i, (slice, type(...), list, tuple, range,
                           numpy.ndarray)) for i in idx)


def run(case, t, physical_array):
    shape, steps = case
    dims = [d for d, _ in shape]
    model = plain(shape)
    what = f'{shape}'
    if physical_array:
        x = physical.array(model.tolist(), unit='m',
                           axes={d: axis(d, n) for d, n in shape})
        axes = {d: content(d, n) for d, n in shape}
    else:
        x, axes = real.array(model.tolist(), *dims), None
    original = x
    unit = 'm'
    start = model.copy()
    for step in steps:
        kind = step[0]
        what += f' {step}'
        if kind == 'transpose':
            _, order, byname, packed = step
            args = [dims[i] for i in order] if byname else list(order)
            x = x.transpose(args) if packed else x.transpose(*args)
            model = model.transpose(order)
            dims = [dims[i] for i in order]
        elif kind == 'convert':
            if physical_array:
                x = x.withunit(step[1])
                factor = {'km': 1e-3, 'cm': 1e2, 'm': 1.0}
                model = model * (factor[step[1]] / factor[unit])
                unit = step[1]
                equal(str(x.unit), unit, f'{what}: unit')
        else:
            its = step[1]
            idx = index_of(step)
            if len(dims) == 1 and not isinstance(idx, tuple) and isinstance(
                    idx, (list,)):
                idx = numpy.array(idx)
            try:
                x = x[idx]
            except IndexError:
                if len(dims) == 1 and its[0][0] in ('tuple', 'list'):
                    t.label('bare list')
                    return
                raise
            if len(dims) == 1 and its[0][0] == 'tuple':
                t.label('bare list')
                return
            chosen = [selected(i, n) for i, n in zip(its, model.shape)]
            model = model[numpy.ix_(*chosen)]
            if axes is not None:
                axes = {d: [axes[d][i] for i in c]
                        for d, c in zip(dims, chosen)}
        compare(x, dims, model, axes, what)
    t.label(f'ndim:{len(dims)}', *[s[0] for s in steps])
    t.nontrivial(len(dims) > 1 and model.size < start.size)
    arrayclose(numpy.array(original), start, f'{what}: original afterwards', 0)
    equal(list(original.dimensions), [d for d, _ in shape],
          f'{what}: dimensions of the original afterwards')


@PROPERTY.facet(histories(), quick=1500, thorough=25000, shards=2)
def physical_histories(case, t):
    """Indexing, transposing and converting a physical array keeps data, axes
    and dimension names aligned."""
    run(case, t, True)


@PROPERTY.facet(histories(), quick=1200, thorough=20000)
def real_histories(case, t):
    """Indexing and transposing a real array keeps data and names aligned."""
    run(case, t, False)


@PROPERTY.facet(
    st.tuples(shapes(top=3), st.sampled_from(['real', 'physical']),
              st.sampled_from(['sum', 'mean', 'min', 'max', 'cumsum']),
              st.integers(-4, 3), st.integers(0, 10**6),
              st.sampled_from(['m', 'km'])),
    quick=800, thorough=10000)
def reductions(case, t):
    """Reducing along an axis removes that dimension and agrees with numpy;
    reducing without an axis uses every value."""
    shape, which, name, k, seed, unit = case
    dims = [d for d, _ in shape]
    rng = numpy.random.default_rng(seed)
    data = numpy.round(rng.uniform(-9, 9, [n for _, n in shape]), 3)
    f = getattr(numpy, name)
    if which == 'physical':
        x = physical.array(data, unit='m',
                           axes={d: axis(d, n) for d, n in shape})
        x = x.withunit(unit)
        data = data * {'m': 1, 'km': 1e-3}[unit]
    else:
        x = real.array(data.tolist(), *dims)
    what = f'{name} of {which} {shape}'
    t.label(which, name)
    t.nontrivial(len(dims) > 1)
    got = f(x)
    arrayclose(numpy.array(got.data if which == 'physical' else got,
                           dtype=float), f(data), what, atol=1e-12)
    i = k % len(dims)
    axis_arg = i - len(dims) if k < 0 else i
    if len(dims) == 1 and name != 'cumsum':
        return
    got = f(x, axis=axis_arg)
    left = dims if name == 'cumsum' else dims[:i] + dims[i + 1:]
    what += f' along {axis_arg}'
    equal(tuple(got.dimensions), tuple(left), what)
    arrayclose(numpy.array(got), f(data, axis=i), what, atol=1e-12)
    if which == 'physical':
        equal(str(got.unit), unit, f'{what}: unit')
        for d in left:
            equal(axis_values(got.axes[d]), content(d, dict(shape)[d]),
                  f'{what}: axis {d}')


@PROPERTY.facet(
    st.tuples(shapes(top=3), st.sampled_from(['real', 'physical']),
              st.permutations(range(4)), st.integers(0, 3),
              st.integers(0, 10**6), st.booleans()),
    quick=600, thorough=8000)
def functions(case, t):
    """numpy.squeeze, transpose and trapz agree with numpy and keep the names
    of the dimensions that are left."""
    shape, which, order, k, seed, given = case
    dims = [d for d, _ in shape]
    rng = numpy.random.default_rng(seed)
    data = numpy.round(rng.uniform(-9, 9, [n for _, n in shape]), 3)
    if which == 'physical':
        x = physical.array(data, unit='m',
                           axes={d: axis(d, n) for d, n in shape})
    else:
        x = real.array(data.tolist(), *dims)
    t.label(which)
    t.nontrivial(len(dims) > 1)
    what = f'{which} {shape}'
    kept = [d for d, n in shape if n != 1]
    got = numpy.squeeze(x)
    if kept:
        equal(tuple(got.dimensions), tuple(kept), f'squeeze {what}')
        arrayclose(numpy.array(got), data.squeeze(), f'squeeze {what}')
        if which == 'physical':
            for d in kept:
                equal(axis_values(got.axes[d]), content(d, dict(shape)[d]),
                      f'squeeze {what}: axis {d}')
    else:
        close(float(got), float(data.ravel()[0]), f'squeeze {what}')
    for i, (d, n) in enumerate(shape):
        if n == 1 and len(shape) > 1:
            got = numpy.squeeze(x, axis=i)
            left = tuple(e for e in dims if e != d)
            equal(tuple(got.dimensions), left, f'squeeze {what} axis={i}')
            arrayclose(numpy.array(got), data.squeeze(i),
                       f'squeeze {what} axis={i}')
    got = numpy.transpose(x)
    equal(tuple(got.dimensions), tuple(reversed(dims)), f'transpose {what}')
    arrayclose(numpy.array(got), data.T, f'transpose {what}')
    order = [i for i in order if i < len(dims)]
    got = numpy.transpose(x, axes=order)
    equal(tuple(got.dimensions), tuple(dims[i] for i in order),
          f'transpose {what} {order}')
    if order == list(reversed(range(len(dims)))):
        arrayclose(numpy.array(got), data.transpose(order),
                   f'transpose {what} {order}')
    else:
        t.excluded('P08-transpose')
    got = x.transpose(order)
    equal(tuple(got.dimensions), tuple(dims[i] for i in order),
          f'transpose method {what} {order}')
    arrayclose(numpy.array(got), data.transpose(order),
               f'transpose method {what} {order}')
    if len(dims) > 1:
        i = k % len(dims)
        c = numpy.cumsum(rng.uniform(0.1, 2, data.shape[i]))
        args = {'x': c} if given else {}
        got = numpy.trapz(x, axis=i, **args)
        equal(tuple(got.dimensions), tuple(dims[:i] + dims[i + 1:]),
              f'trapz {what} along {i}')
        arrayclose(numpy.array(got), numpy.trapz(data, axis=i, **args),
                   f'trapz {what} along {i}', atol=1e-12)


@PROPERTY.facet(
    st.tuples(shapes(), st.sampled_from(['real', 'physical']),
              st.integers(0, 3), st.integers(1, 3), st.booleans()),
    quick=250, thorough=2500)
def out_of_range(case, t):
    """An index past either end, or too many indices, raises IndexError."""
    shape, which, k, past, negative = case
    dims = [d for d, _ in shape]
    data = plain(shape)
    if which == 'physical':
        x = physical.array(data, unit='m',
                           axes={d: axis(d, n) for d, n in shape})
    else:
        x = real.array(data.tolist(), *dims)
    i = k % len(dims)
    n = shape[i][1]
    bad = -n - past if negative else n - 1 + past
    idx = tuple(bad if j == i else slice(None) for j in range(len(dims)))
    t.label(which)
    t.nontrivial()
    raises(IndexError, lambda: x[idx if len(idx) > 1 else bad],
           _what=f'{which} {shape} at {idx}')
    raises(IndexError, lambda: x[(0,) * (len(dims) + 1)],
           _what=f'{which} {shape} with too many indices')


@PROPERTY.facet(
    st.tuples(shapes(), st.sampled_from(['real', 'physical'])),
    quick=200, thorough=2000)
def conversions_to_numpy(case, t):
    """numpy.array, iteration over dimensions and the shape map describe the
    same data."""
    shape, which = case
    dims = [d for d, _ in shape]
    data = plain(shape)
    if which == 'physical':
        x = physical.array(data, unit='m',
                           axes={d: axis(d, n) for d, n in shape})
    else:
        x = real.array(data.tolist(), *dims)
    t.nontrivial(len(dims) > 1)
    arrayclose(numpy.array(x), data, 'numpy.array')
    arrayclose(numpy.asarray(x), data, 'numpy.asarray')
    arrayclose(numpy.array(x, dtype=int), data.astype(int), 'dtype')
    equal(dict(x.shapemap), dict(shape), 'shape map')
    equal(list(x.shapemap), dims, 'order of the shape map')
    equal(len(x.dimensions), len(dims), 'number of dimensions')


UNARY = ['abs', 'pos', 'neg', 'sqrt', 'exp', 'sin', 'square', 'negative',
         'log1p', 'floor', 'sign', 'tanh']
BINARY = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'lt',
          'le', 'gt', 'ge', 'eq', 'ne', 'maximum', 'minimum', 'multiply',
          'divide', 'power', 'floor_divide']


def function(name):
    return getattr(operator, name, None) or getattr(numpy, name)


@PROPERTY.facet(
    st.tuples(shapes(top=3), st.sampled_from(UNARY), st.integers(0, 10**6)),
    quick=300, thorough=4000)
def real_unary(case, t):
    """Functions of one real array act on its values; operators keep its
    dimensions."""
    shape, name, seed = case
    dims = [d for d, _ in shape]
    data = numpy.random.default_rng(seed).uniform(
        0 if name in ('sqrt', 'log1p') else -3, 3, [n for _, n in shape])
    x = real.array(data, dimensions=dims)
    f = function(name)
    t.label(name)
    t.nontrivial(data.size > 1)
    got = f(x)
    arrayclose(numpy.array(got), f(data), f'{name} of {shape}')
    if name in ('abs', 'pos', 'neg'):
        equal(type(got), type(x), f'type of {name}')
    if isinstance(got, real.Array):
        equal(tuple(got.dimensions), tuple(dims), f'dimensions of {name}')


@PROPERTY.facet(
    st.tuples(shapes(top=3), st.sampled_from(BINARY), st.integers(0, 10**6),
              st.sampled_from(['number', 'array', 'reflected', 'renamed']),
              st.integers(1, 12)),
    quick=800, thorough=12000)
def real_binary(case, t):
    """Operations on a real array and a number, or another real array with
    the same dimensions, act on their values; sums, comparisons and powers of
    arrays with other dimensions are refused."""
    shape, name, seed, kind, quarter = case
    dims = [d for d, _ in shape]
    rng = numpy.random.default_rng(seed)
    lengths = [n for _, n in shape]
    power = name in ('pow', 'power')
    low = 0.25 if power or 'floor' in name or name == 'mod' else -3
    data = numpy.round(rng.uniform(low, 3, lengths), 2)
    x = real.array(data, dimensions=dims)
    f = function(name)
    t.label(name, kind)
    t.nontrivial(data.size > 1)
    what = f'{name} of real {shape} and {kind}'
    other = numpy.round(rng.uniform(0.25, 3, lengths), 2)
    if seed % 3 == 0:
        other.flat[0] = data.flat[0]
    if kind == 'renamed':
        if name in ('mul', 'truediv', 'floordiv', 'mod', 'multiply', 'divide',
                    'floor_divide', 'maximum', 'minimum', 'power'):
            return
        renamed = (dims[1:] + dims[:1] if len(dims) > 1 and seed % 2
                   else ['x' + d for d in dims])
        y = real.array(other, dimensions=renamed)
        if name in ('eq', 'ne'):
            equal(f(x, y), name == 'ne', what)
            y = real.array(data, dimensions=renamed)
            equal(f(x, y), name == 'ne', what)
        else:
            raises((ValueError, TypeError), f, x, y, _what=what)
        return
    if kind == 'array':
        y = real.array(other, dimensions=dims)
        if name in ('eq', 'ne'):
            same = bool((data == other).all())
            equal(f(x, y), same is (name == 'eq'), what)
            z = real.array(data.copy(), dimensions=dims)
            equal(f(x, z), name == 'eq', what)
            return
        got = f(x, y)
        expected = f(data, other)
    else:
        number = quarter / 4
        if name in ('eq', 'ne'):
            equal(f(x, number), name == 'ne', what)
            return
        args = (number, x) if kind == 'reflected' else (x, number)
        got = f(*args)
        expected = f(*(data if a is x else a for a in args))
    arrayclose(numpy.array(got), expected, what, atol=1e-12)
    if isinstance(got, real.Array):
        equal(tuple(got.dimensions), tuple(dims), what)
    elif name in ('mul', 'truediv', 'floordiv', 'mod', 'multiply',
                  'divide') or kind == 'array' and name in (
                      'add', 'sub', 'pow'):
        fail(f'{what} is a {type(got)}')


@PROPERTY.facet(
    st.tuples(shapes(top=4), st.integers(0, 3), st.integers(0, 10**6),
              st.sampled_from(['sum', 'mean', 'min', 'max']),
              st.sampled_from(['real', 'physical'])),
    quick=300, thorough=4000)
def kept(case, t):
    """Reductions that keep their dimensions leave a single value along the
    reduced one."""
    shape, k, seed, name, which = case
    dims = [d for d, _ in shape]
    i = k % len(dims)
    data = numpy.round(numpy.random.default_rng(seed).uniform(
        -9, 9, [n for _, n in shape]), 3)
    x = real.array(data, dimensions=dims)
    if which == 'physical':
        x = physical.array(data, unit='m',
                           axes={d: axis(d, n) for d, n in shape})
    f = getattr(numpy, name)
    what = f'{name} of {which} {shape} along {i}, kept'
    t.label(which)
    t.nontrivial(len(dims) > 1)
    for a in (i, i - len(dims)):
        try:
            got = f(x, axis=a, keepdims=True)
        except TypeError:
            t.label('refused')
            continue
        arrayclose(numpy.array(got), f(data, axis=i, keepdims=True), what,
                   atol=1e-12)
        equal(tuple(got.dimensions), tuple(dims), what)


@PROPERTY.facet(
    st.tuples(shapes(top=4), st.sampled_from(['real', 'physical', 'tensor']),
              st.sampled_from(['sum', 'mean', 'min', 'max']),
              st.sampled_from([None, 0, 1, 2, 3, -1, -2]),
              st.sampled_from(['where', 'initial', 'both']),
              st.integers(0, 10**6)),
    quick=300, thorough=4000)
def reductions_of_a_part(case, t):
    """Reductions over the values that a mask selects, or from an initial
    value, agree with numpy."""
    shape, which, name, a, extra, seed = case
    dims = [d for d, _ in shape]
    if a is not None and not -len(dims) <= a < len(dims):
        a = 0
    if len(dims) == 1:
        a = None
    rng = numpy.random.default_rng(seed)
    data = numpy.round(rng.uniform(-9, 9, [n for _, n in shape]), 3)
    mask = rng.random(data.shape) < 0.7
    mask.flat[0] = True
    kw = {}
    if extra != 'initial':
        kw['where'] = mask
    if extra != 'where' and name != 'mean':
        kw['initial'] = 0.75
    if name in ('min', 'max') and 'where' in kw:
        kw.setdefault('initial', -0.25)
    if name == 'mean':
        # Of no values, there is no mean.
        mask[:] = True
        if len(dims) > 1 and a is not None:
            index = [slice(None)] * len(dims)
            if data.shape[a] > 1:
                index[a] = seed % data.shape[a]
                mask[tuple(index)] = False
    x = {'real': lambda: real.array(data.tolist(), *dims),
         'physical': lambda: physical.array(
             data, unit='m', axes={d: axis(d, n) for d, n in shape}),
         'tensor': lambda: physical.tensor(data.tolist(), unit='m')}[which]()
    f = getattr(numpy, name)
    if a is not None:
        kw['axis'] = a
    what = f'{name} of {which} {shape} with {sorted(kw)} {a}'
    t.label(which, name, extra)
    t.nontrivial(not mask.all() or 'initial' in kw)
    got, expected = f(x, **kw), f(data, **kw)
    if a is None:
        values = got if which == 'real' else float(got)
        close(float(values), float(expected), what, 1e-11, 1e-11)
    else:
        arrayclose(numpy.array(got), expected, what, atol=1e-12)
        if which != 'tensor':
            left = [d for i, d in enumerate(dims) if i != a % len(dims)]
            equal(list(got.dimensions), left, f'{what}: dimensions')
    if which != 'real':
        equal(str(got.unit), 'm', f'{what}: unit')


@PROPERTY.facet(
    st.tuples(st.lists(st.sampled_from([1, 1, 1, 2, 3]), min_size=2,
                       max_size=5),
              st.sampled_from(['real', 'physical', 'tensor']),
              st.lists(st.booleans(), min_size=5, max_size=5),
              st.lists(st.booleans(), min_size=5, max_size=5),
              st.permutations(range(5))),
    quick=300, thorough=3000)
def squeezed(case, t):
    """Squeezing several axes removes those dimensions and no others; an axis
    that is not singular is refused."""
    shape, which, selected, negative, order = case
    ndim = len(shape)
    data = numpy.arange(float(numpy.prod(shape))).reshape(shape)
    names = [f'x{i}' for i in range(ndim)]
    x = {'real': lambda: real.array(data.tolist(), *names),
         'physical': lambda: physical.array(data, unit='m', axes={
             d: physical.points(range(i, i + n))
             for i, (d, n) in enumerate(zip(names, shape))}),
         'tensor': lambda: physical.tensor(data.tolist(), unit='m')}[which]()
    chosen = [i for i in order if i < ndim and selected[i]]
    axes = tuple(i - ndim if negative[i] else i for i in chosen)
    left = [i for i in range(ndim) if i not in chosen]
    what = f'squeeze {which} {shape} along {axes}'
    t.label(which, f'{len(axes)} axes')
    t.nontrivial(len(axes) > 1 and bool(left))
    if any(shape[i] != 1 for i in chosen):
        raises(ValueError, numpy.squeeze, x, axis=axes, _what=what)
        return
    got = numpy.squeeze(x, axis=axes)
    if not left:
        close(float(got), float(data.ravel()[0]), what)
        return
    arrayclose(numpy.array(got), data.squeeze(axes), what, 0)
    if which != 'tensor':
        equal(list(got.dimensions), [names[i] for i in left],
              f'{what}: dimensions')
    if which == 'physical':
        for i in left:
            ensure(got.axes[names[i]] == x.axes[names[i]],
                   f'{what}: axis {names[i]}')
    if which != 'real':
        equal(str(got.unit), 'm', f'{what}: unit')


@PROPERTY.facet(
    st.tuples(shapes(top=4), st.sampled_from(['real', 'physical']),
              st.sampled_from(['same', 'value', 'shape', 'names']),
              st.sampled_from(['real', 'physical', 'numpy']),
              st.integers(0, 10**6)),
    quick=200, thorough=2500)
def equal_values(case, t):
    """numpy.array_equal compares the shapes and the values of arrays."""
    shape, one, how, two, seed = case
    rng = numpy.random.default_rng(seed)
    data = numpy.round(rng.uniform(-9, 9, [n for _, n in shape]), 3)
    dims = [d for d, _ in shape]
    other, names = data.copy(), list(dims)
    if how == 'value':
        other.flat[seed % data.size] += 1
    elif how == 'shape':
        other = other[None]
        names = ['extra', *names]
    elif how == 'names':
        names = [f'{d}_' for d in names]

    def build(kind, values, ds):
        if kind == 'real':
            return real.array(values.tolist(), *ds)
        if kind == 'numpy':
            return values
        return physical.array(values, unit='m', axes={
            d: physical.points(n) for d, n in zip(ds, values.shape)})

    t.label(one, two, how)
    t.nontrivial(how != 'same')
    x, y = build(one, data, dims), build(two, other, names)
    expected = how in ('same', 'names')
    for a, b in ((x, y), (y, x)):
        try:
            got = numpy.array_equal(a, b)
        except TypeError:
            t.label('refused')
            ensure(one != two, f'array_equal of {one} arrays is refused')
            continue
        equal(bool(got), expected,
              f'array_equal of {one} {shape} and {two} with {how}')


@PROPERTY.facet(
    st.tuples(shapes(top=4), st.integers(-4, 3), st.integers(0, 10**6),
              st.sampled_from(['none', 'step', 'array', 'real'])),
    quick=300, thorough=4000)
def real_gradients(case, t):
    """Gradients and integrals of real arrays agree with numpy, whatever the
    form of the steps."""
    shape, k, seed, form = case
    shape = [(d, n + 1) for d, n in shape]
    dims = [d for d, _ in shape]
    i = k % len(dims)
    a = i if k >= 0 else i - len(dims)
    rng = numpy.random.default_rng(seed)
    data = rng.uniform(-3, 3, [n for _, n in shape])
    x = real.array(data, dimensions=dims)
    grid = numpy.cumsum(rng.uniform(0.2, 1, shape[i][1]))
    plain_args = {'none': [], 'step': [0.5]}.get(form, [grid])
    args = [real.array(grid, dimensions=[dims[i]])] if form == 'real' \
        else plain_args
    what = f'gradient of {shape} along {a} with {form}'
    t.label(form)
    t.nontrivial(len(dims) > 1)
    got = numpy.gradient(x, *args, axis=a)
    arrayclose(numpy.array(got), numpy.gradient(data, *plain_args, axis=a),
               what, atol=1e-12)
    equal(tuple(got.dimensions), tuple(dims), what)
    if form in ('none', 'step'):
        got = numpy.gradient(x, *args)
        expected = numpy.gradient(data, *plain_args)
        if len(dims) == 1:
            got, expected = [got], [expected]
        equal(len(got), len(dims), what)
        for g, e in zip(got, expected):
            arrayclose(numpy.array(g), e, what, atol=1e-12)
            equal(tuple(g.dimensions), tuple(dims), what)
    if len(dims) > 1:
        got = numpy.trapz(x)
        arrayclose(numpy.array(got), numpy.trapz(data), 'trapz', atol=1e-12)
        equal(tuple(got.dimensions), tuple(dims[:-1]), 'trapz')


@PROPERTY.facet(
    st.tuples(shapes(top=3), st.integers(0, 10**6), st.booleans(),
              st.sampled_from([0.0, 1e-12, -1e-9, 1e-3, -0.5]),
              st.sampled_from(['numeric', 'real'])),
    quick=400, thorough=5000)
def membership(case, t):
    """A value is in an array exactly when it equals one of its elements, and
    the array contains it when it is as close as rounding."""
    spec, seed, known, off, kind = case
    dims = [d for d, _ in spec]
    shape = tuple(n for _, n in spec)
    rng = numpy.random.default_rng(seed)
    data = rng.integers(-40, 40, shape) * 10.0 ** rng.integers(-30, 5)
    module = numeric if kind == 'numeric' else real
    array = module.array(data, dimensions=dims)
    x = float(data.flat[seed % data.size] if known
              else rng.integers(-40, 40) * 0.37)
    x *= 1 + off
    t.label(kind, known, off)
    t.nontrivial(data.size > 1)
    what = f'{x} in {data.ravel().tolist()}'
    equal(bool(x in array), x in data.ravel().tolist(), what)
    near = bool(numpy.any(numpy.abs(data - x) <= 1e-5 * numpy.abs(data)))
    equal(bool(array.contains(x)), near, f'nearly {what}')


@PROPERTY.finding('P08-transpose', 'numpy.transpose(array, axes=...) reorders '
                  'the dimensions but always reverses the data')
def transpose():
    x = real.array([[[1, 2, 3], [4, 5, 6]]], 'a', 'b', 'c')
    got = numpy.transpose(x, axes=(0, 1, 2))
    return numpy.array(got).shape != (1, 2, 3)
