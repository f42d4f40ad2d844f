"""P19 -- observing between grid points interpolates."""
import numpy
from hypothesis import strategies as st

from vlib import obsmodel as M
from vlib.harness import Property, ensure, equal, quiet, raises, short
from checks import datasets
from checks.common import arrayclose
from checks.p17 import ALL, ENERGIES, TIMES, check, select, selection, usable

PROPERTY = Property(
    'P19',
    rule=(
        'Cases are synthetic datasets and observations at times, radii, '
        'energies and pitch-angle cosines between (and on) grid points, in '
        'any consistent unit, one or several targets, along one or more '
        'dimensions at once and with selections along the others. The oracle '
        'interpolates independent SI arrays linearly (local functions of '
        'the fields apply to interpolated fields). Non-trivial: at least one '
        'target strictly between two grid points.'
    ),
    assumptions=[
        'Radii lie within the range of radii of every time.',
        'The speed at an energy off the grid is not checked.',
    ],
)

LENGTHS = {'au': M.AU, 'km': 1e3, 'm': 1.0}

target = st.tuples(
    st.booleans(),
    st.lists(st.floats(0.02, 0.98), min_size=1, max_size=3, unique=True),
    st.integers(0, 9),              # which unit
    st.sampled_from([None, None, None, 0, 1]),      # include a grid point
)


def linear(values, axis, grid, targets):
    return numpy.apply_along_axis(
        lambda column: numpy.interp(targets, grid, column), axis, values)


def radial(values, radii, targets):
    """Interpolate over shells, whose radii depend on time."""
    out = numpy.empty(values.shape[:1] + (len(targets),) + values.shape[2:])
    for t in range(values.shape[0]):
        out[t] = linear(values[t], 0, radii[t], targets)
    return out


def interpolated(name, model, where):
    """Values at target coordinates {dimension: targets in SI units}."""
    def local(n, values=None, dims=None):
        values = model[n] if values is None else values
        dims = M.DIMENSIONS[n] if dims is None else dims
        if 'shell' in where and 'shell' in dims:
            values = radial(values, model['r'], where['shell'])
        for d in ('time', 'energy', 'mu'):
            if d in where and d in dims:
                values = linear(values, dims.index(d), model[d], where[d])
        return values
    if name in M.COMPONENTS:
        fields = {n: local(n) for n in M.PRIMARY
                  if n in model.primary and M.DIMENSIONS[n] == M.GRID}
        return M.components(name, fields)
    if name == 'mfp':
        power = model.parameters['rigidityPower']
        ratio = model['rigidity'] / M.Model._momentum(
            model, numpy.array([M.MEV])) * model['charge'][:, None]
        if 'energy' in where:
            ratio = linear(ratio ** power, 1, model['energy'],
                           where['energy'])
        else:
            ratio = ratio ** power
        r = local('r')
        return (model.parameters['lamo'] * M.AU
                * (r / M.AU)[:, :, None, None]
                ** model.parameters['mfpRadialPower'] * ratio)
    return local(name)


def targets_for(dim, model, how):
    """The SI targets along a dimension and the index that asks for them, or
    nothing if the dimension cannot be interpolated."""
    _, fractions, u, on = how
    if dim == 'species':
        return None
    if dim == 'shell':
        r = model['r']
        if r.shape[1] < 2:
            return None
        low, high = r.min(axis=1).max(), r.max(axis=1).min()
        if low >= high * (1 - 1e-3):
            return None
        table = LENGTHS
        grid = [low, high]
    else:
        grid = list(model[dim])
        if len(grid) < 2:
            return None
        table = {'time': TIMES, 'energy': ENERGIES, 'mu': {'1': 1.0}}[dim]
        low, high = grid[0], grid[-1]
    values = [low + f * (high - low) for f in fractions]
    # Keep away from grid points, which are found rather than interpolated.
    if dim != 'shell' and any(
            abs(v - g) < 1e-3 * (high - low) for v in values for g in grid):
        return None
    if on is not None and dim != 'shell':
        values.append(grid[1:-1][0] if on and len(grid) > 2 else grid[0])
    elif on and dim == 'shell':
        inner = [x for x in r[0] if low * 1.001 < x < high * 0.999]
        values.extend(inner[:1])
    values = sorted((float(v) for v in values), reverse=u % 3 == 2)
    if u % 5 == 4:
        values.append(values[0])        # the same target once more
    unit = sorted(table)[u % len(table)]
    return values, tuple(v / table[unit] for v in values) + (unit,)


@st.composite
def observations(draw, joint):
    spec = draw(datasets.specs(low=2, time=4, shell=5, energy=5, mu=4))
    if joint:
        spec = {**spec, 'shell': max(3, spec['shell'])}
    pool = [n for n in usable(spec, ALL) if n not in ('mass', 'charge')]
    # Quantities with more dimensions have more combinations to try.
    pool = [n for n in pool for _ in range(len(M.DIMENSIONS[n]) ** 2 if joint
                                           else len(M.DIMENSIONS[n]))]
    names = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3))
    asked = []
    for name in names:
        dims = M.DIMENSIONS[name]
        over = set(draw(st.lists(st.integers(0, len(dims) - 1), min_size=1,
                                 max_size=len(dims) if joint else 1)))
        if joint and len(dims) > 1:
            over |= draw(st.sampled_from([set(), {0}, {0, 1}]))
        asked.append((name, sorted(over), [draw(target) for _ in dims],
                      [draw(selection) for _ in dims]))
    return spec, draw(datasets.SYSTEMS), asked


def compare(case, t):
    spec, system, asked = case
    model, q = datasets.observe(spec, system)
    for name, over, hows, picks in asked:
        dims = M.DIMENSIONS[name]
        where, key, positions = {}, [], []
        for k, dim in enumerate(dims):
            found = targets_for(dim, model, hows[k]) if k in over else None
            if name == 'v':
                found = None
            if found is None:
                index, p = select(dim, model[name].shape[k], picks[k], model,
                                  spec)
                key.append(index)
                positions.append(p)
            else:
                where[dim], index = found
                key.append(index)
                positions.append(list(range(len(where[dim]))))
        if not where:
            t.label('no target')
            continue
        t.label(*sorted(where))
        t.nontrivial()
        with numpy.errstate(all='ignore'):
            full = interpolated(name, model, where)
        expected = full[numpy.ix_(*positions)]
        what = f'{name}[{short(key, 160)}]'
        with quiet():
            got = q[name][tuple(key) if len(key) > 1 else key[0]]
        with numpy.errstate(all='ignore'):
            size = float(numpy.nanmax(numpy.abs(model[name])))
        check(got, expected, name, system, what, size)
        names = tuple('radius' if d == 'shell' and d in where else d
                      for d in dims)
        equal(tuple(got.dimensions), names, f'dimensions of {what}')
        ensure(got.unit == q[name].unit, f'unit of {what} is {got.unit}')
        if name in ('time', 'energy', 'mu'):
            continue
        for dim in where:
            axis = got.axes['radius' if dim == 'shell' else dim]
            scale = M.factor('r' if dim == 'shell' else dim, system)
            arrayclose(numpy.array(axis).ravel(),
                       numpy.array(where[dim]) * scale, f'{dim} of {what}')


@PROPERTY.facet(observations(False), quick=600, thorough=10000, shards=3)
def one(case, t):
    """Targets between grid points along one dimension yield linearly
    interpolated values, shaped and labelled by the targets."""
    compare(case, t)


@st.composite
def meshes(draw):
    spec = draw(datasets.specs(low=2, time=3, shell=4, energy=4, mu=4))
    spec = {**spec, 'shell': max(3, spec['shell']), 'mu': max(2, spec['mu'])}
    name = draw(st.sampled_from(usable(spec, ['f', 'flux', 'mfp', 'ar',
                                              'fluence', 'rigidity'])))
    dims = M.DIMENSIONS[name]
    free = [k for k, d in enumerate(dims) if d != 'species']
    over = draw(st.sets(st.sampled_from(free), min_size=min(2, len(free))))
    return spec, draw(datasets.SYSTEMS), [
        (name, sorted(over), [draw(target) for _ in dims],
         [draw(selection) for _ in dims])]


@PROPERTY.facet(meshes(), quick=500, thorough=10000, shards=2)
def mesh(case, t):
    """Targets along several dimensions of a quantity with many dimensions
    yield values at the mesh of those targets."""
    compare(case, t)


@PROPERTY.facet(observations(True), quick=500, thorough=10000, shards=3)
def several(case, t):
    """Targets along several dimensions interpolate over each of them."""
    compare(case, t)


@PROPERTY.facet(
    st.tuples(datasets.specs(low=2, shell=5), datasets.SYSTEMS,
              st.sampled_from(['time', 'shell', 'energy', 'mu']),
              st.sampled_from([1.0001, 1.5, 20.0]), st.booleans(),
              st.booleans(), st.integers(0, 5)),
    quick=250, thorough=3000)
def outside(case, t):
    """Targets outside the grid are refused, alone or with others inside."""
    spec, system, dim, far, above, mixed, pick = case
    model, q = datasets.observe(spec, system)
    names = [n for n in usable(spec, ALL)
             if dim in M.DIMENSIONS[n] and n not in ('time', 'energy', 'mu',
                                                     'v')]
    if not names:
        t.label('skipped')
        return
    name = names[pick % len(names)]
    grid = model['r'] if dim == 'shell' else model[dim]
    low, high = float(grid.min()), float(grid.max())
    value = high * far if above else low / far
    if dim == 'mu':
        value = far if above else -far
        if spec['mu'] < 2:
            t.label('skipped')
            return
    t.label(dim)
    t.nontrivial()
    unit = {'time': 's', 'energy': 'J', 'mu': '1', 'shell': 'm'}[dim]
    values = [value]
    if mixed:
        values = sorted(values + [0.5 * (low + high)])
    dims = M.DIMENSIONS[name]
    key = [slice(None)] * len(dims)
    key[dims.index(dim)] = (*values, unit)
    with quiet():
        raises(ValueError, q[name].__getitem__, tuple(key),
               _what=f'{name} at {values} {unit}')


@PROPERTY.facet(
    st.tuples(datasets.specs(low=2, time=3, shell=4, energy=4),
              datasets.SYSTEMS, st.floats(0.05, 0.95),
              st.sampled_from(sorted(M.PRIMARY)), st.integers(0, 9)),
    quick=200, thorough=2000)
def between(case, t):
    """Targets close to a grid point yield values close to those at the grid
    point: interpolation is continuous along every dimension."""
    spec, system, fraction, name, pick = case
    if name not in usable(spec, [name]) or name in ('mass', 'charge', 'v'):
        t.label('skipped')
        return
    model, q = datasets.observe(spec, system)
    dims = M.DIMENSIONS[name]
    options = [d for d in dims if d in ('time', 'energy', 'mu')
               and len(model[d]) > 1]
    if not options:
        t.label('skipped')
        return
    dim = options[pick % len(options)]
    grid = model[dim]
    i = pick % (len(grid) - 1)
    t.label(dim)
    t.nontrivial()
    unit = {'time': 's', 'energy': 'J', 'mu': '1'}[dim]
    axis = dims.index(dim)
    key = [slice(None)] * len(dims)
    step = grid[i + 1] - grid[i]
    targets = [float(grid[i] + f * step)
               for f in (0.0, 1e-3, fraction, 1 - 1e-3, 1.0)]
    if name in ('time', 'energy', 'mu'):
        targets = targets[1:-1]
    key[axis] = (*targets, unit)
    with quiet():
        got = numpy.array(q[name][tuple(key) if len(key) > 1 else key[0]])
    got = got / M.factor(name, system)
    expected = linear(model[name], axis, grid, targets)
    arrayclose(got, expected, f'{name} along {dim}', rtol=1e-7,
               atol=1e-9 * abs(expected).max())
    low = numpy.minimum(numpy.take(model[name], i, axis),
                        numpy.take(model[name], i + 1, axis))
    high = numpy.maximum(numpy.take(model[name], i, axis),
                         numpy.take(model[name], i + 1, axis))
    for k in range(len(targets)):
        v = numpy.take(got, k, axis)
        slack = 1e-9 * numpy.maximum(abs(low), abs(high))
        ensure(((v >= low - slack) & (v <= high + slack)).all(),
               f'{name} at {targets[k]} {unit} is not between grid values')
