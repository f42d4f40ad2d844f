"""P16 -- datafile interfaces present what the file contains."""
import os

import netCDF4
import numpy
from hypothesis import strategies as st

from eprempy import datafile
from eprempy import metric
from eprempy import paths
from eprempy import physical
from eprempy import real
from vlib import dataset, obsmodel
from vlib.harness import Property, ensure, equal, raises, short
from checks import datasets
from checks.common import arrayclose

PROPERTY = Property(
    'P16',
    rule=(
        'Cases are synthetic observer files: every combination of axis '
        'lengths (from one), species, flux or distribution output, old or '
        'new energy-grid layout, unit attribute name, stored units, 32- or '
        '64-bit values and limited or unlimited time. The oracle is what was '
        'written, scaled by the SI size of the unit. Non-trivial: more than '
        'one time and shell and more than one species or energy.'
    ),
    assumptions=[
        'Files hold the variables that EPREM writes, in layouts that this '
        'package documents; several species with a species-dependent energy '
        'grid are not used.',
    ],
)


def interesting(spec):
    return (spec['time'] > 1 and spec['shell'] > 1
            and (len(spec['species']) > 1 or spec['energy'] > 1))


def tolerance(spec):
    return 3e-6 if spec.get('single') else 1e-9


def written(spec, name='obs000000.nc'):
    path = os.path.join(datasets.scratch(), name)
    return path, dataset.write(spec, path)


@PROPERTY.facet(
    st.tuples(datasets.specs(units=True),
              st.lists(st.sampled_from(sorted(dataset.UNITS)), max_size=3,
                       unique=True),
              st.sampled_from(['', '', 'netcdf', 'NetCDF', 'NETCDF'])),
    quick=400, thorough=4000)
def views(case, t):
    """A view shows each variable, scalar, size and unit of the file."""
    spec, missing, hint = case
    units = dict(spec.get('units', {}))
    for name in missing:
        units[name] = None
    spec = {**spec, 'units': units}
    path, body = written(spec, 'output' if hint else 'obs000000.nc')
    t.label('hint' if hint else 'suffix', spec['layout'], spec['mode'])
    t.nontrivial(interesting(spec))
    view = datafile.view(path, hint=hint) if hint else datafile.view(path)
    arrays = {k for k in body if k != 'preEruption'}
    equal(set(view.arrays), arrays, 'names of arrays')
    equal(set(view.scalars), {'preEruption'}, 'names of scalars')
    scalar = view['scalars']['preEruption']
    equal(float(scalar), float(body['preEruption'][1]), 'scalar')
    expected = {**dataset.UNITS, **units}
    equal({k: v for k, v in view.units.items()},
          {k: expected[k] for k in body if expected[k] is not None}, 'units')
    sizes = {'time': spec['time'], 'shell': spec['shell'],
             'species': len(spec['species']), 'energy': spec['energy'],
             'mu': spec['mu']}
    equal(dict(view.sizes), sizes, 'sizes')
    equal({k: v.size for k, v in view['axes'].items()}, sizes, 'axes')
    for name in arrays:
        dims, values = body[name]
        array = view['arrays'][name]
        equal(tuple(array.dimensions), dims, f'dimensions of {name}')
        equal(array.unit, expected[name], f'unit of {name}')
        equal(numpy.array(array).tolist(), numpy.array(values).tolist(),
              f'values of {name}')
        key = (slice(None, None, 2),) + (0,) * (len(dims) - 1)
        equal(numpy.array(array[key]).tolist(),
              numpy.array(values)[key].tolist(), f'part of {name}')


KINDS = ['f4', 'f8', 'i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8']


@PROPERTY.facet(
    st.tuples(st.sampled_from(KINDS), st.integers(0, 120),
              st.sampled_from([0.0, 0.5, 0.25]),
              st.sampled_from([None, 'day', 's', 'julian date']),
              st.sampled_from(['unit', 'units']), st.integers(0, 2)),
    quick=100, thorough=1500)
def scalars(case, t):
    """A scalar of a file has its value, as a number of its kind, and its
    unit; a variable with a dimension is not a scalar."""
    kind, whole, part, unit, attribute, size = case
    value = whole + part if kind[0] == 'f' else whole
    path = os.path.join(datasets.scratch(), 'p_obs001.nc')
    with netCDF4.Dataset(path, 'w') as f:
        if size:
            f.createDimension('time', size)
            f.createVariable('time', 'f8', ('time',))[:] = range(size)
        v = f.createVariable('preEruption', kind, ())
        v[...] = value
        if unit is not None:
            v.setncattr(attribute, unit)
    t.label(kind)
    t.nontrivial(kind not in ('f4', 'f8'))
    view = datafile.view(path)
    scalar = view['scalars']['preEruption']
    equal(scalar.value, value, f'{value} as {kind}')
    equal(type(scalar.value), float if kind[0] == 'f' else int,
          f'type of {value} as {kind}')
    equal((float(scalar), int(scalar)), (float(value), int(value)),
          f'numbers from {value} as {kind}')
    equal(scalar.unit, unit, 'unit')
    equal(view.units.get('preEruption'), unit, 'unit among the units')
    if size:
        raises(TypeError, view.viewer.get_scalar, 'time')
        equal(numpy.array(view['arrays']['time']).tolist(),
              [float(i) for i in range(size)], 'times')
    for f in (view.viewer.get_scalar, view.viewer.get_array,
              view.viewer.get_axis, view.viewer.get_unit):
        raises(KeyError, f, 'missing')


PROPERTIES = {
    'time': 'time', 'energy': 'energy', 'v': 'v', 'mu': 'mu', 'mass': 'mass',
    'charge': 'charge', 'r': 'r', 'theta': 'theta', 'phi': 'phi', 'br': 'br',
    'btheta': 'btheta', 'bphi': 'bphi', 'ur': 'ur', 'utheta': 'utheta',
    'uphi': 'uphi', 'rho': 'rho', 'f': 'f', 'flux': 'flux',
}


@PROPERTY.facet(
    st.tuples(datasets.specs(units=True), datasets.SYSTEMS,
              st.permutations(sorted(PROPERTIES))),
    quick=300, thorough=3000)
def arrays(case, t):
    """Each array is the stored one in the unit of the metric system, whatever
    the order of access, and repeats itself."""
    spec, system, order = case
    path, body = written(spec)
    model = obsmodel.Model(spec, body)
    t.label(system, spec['layout'], spec['mode'])
    t.nontrivial(interesting(spec) and bool(spec.get('units')))
    found = datafile.arrays(path, system)
    equal(found.hasflux, spec['mode'] == 'flux', 'hasflux')
    equal(found.hasdist, spec['mode'] == 'dist', 'hasdist')
    for name in order:
        array = getattr(found, name)
        absent = {'f': 'flux', 'flux': 'dist'}.get(name) == spec['mode']
        if absent:
            ensure(array is None, f'{name} should be absent')
            continue
        expected = model.primary[name] * obsmodel.factor(name, system)
        arrayclose(numpy.array(array), expected, name, rtol=tolerance(spec))
        equal(tuple(array.dimensions), obsmodel.DIMENSIONS[name],
              f'dimensions of {name}')
        unit = obsmodel.UNITS[name][system == 'cgs']
        ensure(array.unit == metric.unit(unit),
               f'{name} has unit {array.unit}, not {unit}')
        for d in ('time', 'energy', 'mu'):
            if d in array.dimensions:
                axis = array.axes[d]
                arrayclose(
                    numpy.array(axis).ravel().astype(float),
                    model.primary[d] * obsmodel.factor(d, system),
                    f'{d} axis of {name}', rtol=tolerance(spec))
                unit = metric.unit(obsmodel.UNITS[d][system == 'cgs'])
                ensure(axis.unit == unit,
                       f'{d} axis of {name} has unit {axis.unit}')
        again = getattr(found, name)
        equal(numpy.array(again).tolist(), numpy.array(array).tolist(),
              f'{name} again')
    other = datafile.arrays(path, {'mks': 'cgs', 'cgs': 'mks'}[system])
    one, two = numpy.array(found.r), numpy.array(other.r)
    ratio = 100.0 if system == 'mks' else 0.01
    arrayclose(two, one * ratio, 'r in the other system',
               rtol=tolerance(spec))


@PROPERTY.facet(
    st.tuples(datasets.specs(units=True), datasets.SYSTEMS,
              st.integers(0, 3), st.integers(0, 3),
              st.sampled_from([1, 2, -1])),
    quick=300, thorough=3000)
def axes(case, t):
    """The axes of a file locate each of its times, shells, species, energies
    and pitch-angle cosines, in the unit of the metric system."""
    spec, system, start, pick, step = case
    path, body = written(spec)
    model = obsmodel.Model(spec, body)
    t.label(system, spec['layout'])
    t.nontrivial(interesting(spec))
    found = datafile.axes(path, system)
    equal(sorted(found), sorted(['time', 'shell', 'species', 'energy', 'mu']),
          'names of axes')
    for name in ('time', 'energy', 'mu'):
        axis = found[name]
        expected = model.primary[name] * obsmodel.factor(name, system)
        arrayclose(numpy.array(axis).ravel(), expected, f'{name} axis',
                   rtol=tolerance(spec))
        unit = metric.unit(obsmodel.UNITS[name][system == 'cgs'])
        ensure(axis.unit == unit, f'{name} axis has unit {axis.unit}')
        i = pick % len(expected)
        index = axis.index(float(numpy.array(axis).ravel()[i]))
        equal([int(k) for k in numpy.ravel(numpy.array(index))], [i],
              f'index of {name}[{i}]')
        # A slice of the axis keeps its place in the file.
        part = numpy.array(axis[start::step]).ravel()
        arrayclose(part, expected[start::step], f'part of the {name} axis',
                   rtol=tolerance(spec))
    shell = found['shell']
    equal(numpy.array(shell).tolist(), list(range(spec['shell'])),
          'shell axis')
    species = found['species']
    equal(len(species), len(spec['species']), 'number of species')
    for i, symbol in enumerate(spec['species']):
        equal(str(species[i]) if isinstance(species[i], str)
              else str(numpy.array(species)[i]), symbol, f'species {i}')
        index = species.index(symbol)
        equal([int(k) for k in numpy.ravel(numpy.array(index))], [i],
              f'index of {symbol}')
    raises(KeyError, found.__getitem__, 'radius')


@PROPERTY.facet(
    st.tuples(datasets.specs(units=True), datasets.SYSTEMS),
    quick=150, thorough=1500)
def grid(case, t):
    """The coordinate grid is the stored one, named in any accepted way."""
    spec, system = case
    path, body = written(spec)
    model = obsmodel.Model(spec, body)
    t.label(system)
    t.nontrivial(interesting(spec))
    found = datafile.grid(path, system)
    for name in ('r', 'theta', 'phi'):
        arrayclose(numpy.array(getattr(found, name)),
                   model.primary[name] * obsmodel.factor(name, system),
                   name, rtol=tolerance(spec))
    equal(str(found.source), os.path.realpath(path), 'source')
    ensure(found.system == metric.system(system), 'system')


def pieces(x):
    """What a result shows: values, unit and dimensions, as far as it has
    them."""
    if isinstance(x, physical.Array):
        return ('array', numpy.asarray(x.data).tolist(), str(x.unit),
                tuple(x.dimensions))
    if isinstance(x, physical.Scalar):
        return 'scalar', float(x.data), str(x.unit)
    if isinstance(x, numpy.ndarray):
        return 'numpy', x.tolist()
    return 'other', repr(x)


FIRST = {
    'str': str,
    'repr': lambda x: repr(x).split('(', 1)[1],
    'transpose()': lambda x: x.transpose(),
    'transpose(names)': lambda x: x.transpose(x.dimensions[::-1]),
    '-x': lambda x: -x,
    'abs': abs,
    'x + x': lambda x: x + x,
    'x * x': lambda x: x * x,
    'x * 2': lambda x: x * 2,
    '2 * x': lambda x: 2.0 * x,
    'x / 2': lambda x: x / 2,
    'x ** 2': lambda x: x ** 2,
    '2 / x': lambda x: 2 / x,
    'x / scalar': lambda x: x / physical.scalar(2.0, unit='km'),
    'scalar * x': lambda x: physical.scalar(2.0, unit='km') * x,
    'x / vector': lambda x: x / physical.vector([2.0] * x.shape[0], unit='s'),
    'x < x': lambda x: x < x,
    'x == x': lambda x: x == x,
    'x != -x': lambda x: x != -x,
    'sqrt': numpy.sqrt,
    'square': numpy.square,
    'negative': numpy.negative,
    'multiply': lambda x: numpy.multiply(x, 3.0),
    'sum': lambda x: numpy.sum(x, axis=0),
    'mean': lambda x: numpy.mean(x),
    'max': lambda x: numpy.max(x),
    'squeeze': numpy.squeeze,
    'transposed by numpy': numpy.transpose,
    'asarray': numpy.asarray,
    'array of floats': lambda x: numpy.array(x, dtype=float),
    'withunit': lambda x: x.withunit(x.unit),
    'x[0]': lambda x: x[0],
    'x[..., -1]': lambda x: x[..., -1],
    'x[::-1]': lambda x: x[::-1],
    'x[[0]]': lambda x: x[[0]],
    'x[first]': lambda x: x[(0,) * x.ndim],
    'x[x > 0]': lambda x: numpy.asarray(x)[numpy.asarray(x > -x)],
    'float of one': lambda x: float(x[(0,) * x.ndim]),
    'list': lambda x: [pieces(i) for i in x],
    'size': lambda x: (x.shape, x.ndim, x.size, dict(x.shapemap)),
    'getdata': lambda x: numpy.asarray(x.data).tolist(),
}


@PROPERTY.facet(
    st.tuples(datasets.specs(units=True), datasets.SYSTEMS,
              st.sampled_from(sorted(set(PROPERTIES) - {'f', 'flux'})
                              + ['f or flux']),
              st.lists(st.sampled_from(sorted(FIRST)), min_size=1, max_size=6),
              st.booleans()),
    quick=250, thorough=4000)
def first_uses(case, t):
    """An array that has not been read yet does what the same array does in
    memory, whichever way it is first used and in whatever order."""
    spec, system, name, uses, together = case
    if name == 'f or flux':
        name = 'f' if spec['mode'] == 'dist' else 'flux'
    t.label('in one history' if together else 'each on its own')
    t.nontrivial(interesting(spec))
    with numpy.errstate(all='ignore'):
        path, _ = written(spec, 'obs000000.nc')
        source = getattr(datafile.arrays(path, system), name)
        memory = physical.array(
            numpy.array(source), unit=source.unit,
            axes=dict(source.axes))
        equal(tuple(memory.dimensions), tuple(source.dimensions), 'copy')
        kept = None
        for i, use in enumerate(uses):
            t.label(use)
            if kept is None or not together:
                twin = os.path.join(datasets.scratch(), f'obs{i + 1:06}.nc')
                os.link(path, twin)
                kept = getattr(datafile.arrays(twin, system), name)
            what = f'{use} of {name} after {uses[:i] if together else []}'
            results = []
            for x in (kept, memory):
                try:
                    results.append(pieces(FIRST[use](x)))
                except Exception as err:  # compared below
                    results.append(('error', type(err).__name__))
            if results[1][0] == 'error':
                t.label('refused: ' + use)
            same(*results, what, 1e-5 if spec.get('single') else 1e-12)


def same(got, expected, what, rtol):
    """Check that two results show the same content."""
    ensure(got[0] == expected[0], f'{what}: {short(got)} from a file but '
           f'{short(expected)} from memory')
    if got[0] in ('array', 'numpy'):
        equal(got[2:], expected[2:], what)
        arrayclose(numpy.array(got[1]), numpy.array(expected[1]), what,
                   rtol=rtol)
    elif got[0] == 'scalar':
        equal(got[2], expected[2], what)
        arrayclose(numpy.array(got[1]), numpy.array(expected[1]), what,
                   rtol=rtol)
    elif rtol < 1e-9:
        equal(got[1], expected[1], what)


@PROPERTY.facet(
    st.tuples(datasets.specs(),
              st.sampled_from(['Br', 'R', 'Rho', 'Vp', 'T'])),
    quick=60, thorough=300)
def absent(case, t):
    """A file or a quantity that does not exist is reported as such."""
    spec, name = case
    t.nontrivial()
    folder = datasets.scratch()
    path = os.path.join(folder, 'obs000001.nc')
    for f in (datafile.view, datafile.arrays, datafile.axes):
        raises((OSError, paths.NonExistentPathError), f, path)
    content = dataset.content

    def reduced(spec):
        return {k: v for k, v in content(spec).items() if k != name}
    dataset.content = reduced
    try:
        dataset.write(spec, path)
    finally:
        dataset.content = content
    attribute = {'Br': 'br', 'R': 'r', 'Rho': 'rho', 'Vp': 'uphi',
                 'T': 'theta'}[name]
    found = datafile.arrays(path)
    raises(KeyError, getattr, found, attribute)
    ensure(name not in datafile.view(path).arrays, f'{name} in arrays')
    ensure('Bt' in datafile.view(path).arrays, 'Bt not in arrays')


INDEX = st.one_of(
    st.integers(-6, 5),
    st.builds(slice, st.one_of(st.none(), st.integers(-7, 7)),
              st.one_of(st.none(), st.integers(-7, 7)),
              st.sampled_from([None, 1, 2, 3, -1, -2])).map(
                  lambda x: ['slice', x.start, x.stop, x.step]),
    st.lists(st.integers(-6, 5), min_size=1, max_size=4).map(
        lambda x: ['list', *x]),
    st.just(['slice', None, None, None]),
)


@PROPERTY.facet(
    st.tuples(
        st.lists(st.integers(1, 5), min_size=1, max_size=4),
        st.lists(INDEX, min_size=4, max_size=4),
        st.integers(0, 4), st.one_of(st.none(), st.integers(0, 3)),
        st.sampled_from(['list', 'tuple', 'numpy']),
        st.sampled_from(['f8', 'f4', 'i4']), st.booleans(),
        st.sampled_from(['real', 'physical', 'loaded'])),
    quick=500, thorough=6000)
def parts(case, t):
    """Any part of a stored variable has the stored values: one index, slice
    or list of indices along each dimension, whether or not the rest of the
    variable has been read, and the rest is the same afterwards."""
    sizes, indices, given, gap, form, kind, unlimited, how = case
    path = os.path.join(datasets.scratch(), 'parts.nc')
    names = [f'd{i}' for i in range(len(sizes))]
    count = int(numpy.prod(sizes))
    data = numpy.arange(count).reshape(sizes) * (2 if kind == 'i4' else 0.5)
    with netCDF4.Dataset(path, 'w') as f:
        for i, (name, size) in enumerate(zip(names, sizes)):
            f.createDimension(name, None if unlimited and i == 0 else size)
        f.createVariable('x', kind, names)[:] = data
    f = netCDF4.Dataset(path)
    try:
        if how == 'physical':
            array = physical.array(
                f.variables['x'], unit='m',
                axes={n: physical.points(range(k))
                      for n, k in zip(names, sizes)})
        else:
            array = real.array(f.variables['x'], dimensions=names)
        if how == 'loaded':
            numpy.array(array)
        index, mesh = [], []
        for size, one in zip(sizes, indices):
            if isinstance(one, int):
                one = max(-size, min(one, size - 1))
                index.append(one)
                mesh.append([one])
            elif one[0] == 'slice':
                index.append(slice(*one[1:]))
                mesh.append(range(*slice(*one[1:]).indices(size)))
            else:
                these = [max(-size, min(i, size - 1)) for i in one[1:]]
                index.append({'list': list, 'tuple': tuple,
                              'numpy': numpy.array}[form](these))
                mesh.append(these)
        given = min(given, len(sizes)) or len(sizes)
        index = index[:given]
        mesh = mesh[:given] + [range(n) for n in sizes[given:]]
        if gap is not None and gap < len(index):
            # The dots stand for whatever is left out.
            left = len(sizes) - (len(index) - 1 - gap)
            mesh = (mesh[:gap] + [range(n) for n in sizes[gap:left]]
                    + mesh[gap + 1:given])
            tail = index[gap + 1:]
            fixed = []
            for offset, one in enumerate(tail):
                size = sizes[left + offset]
                if isinstance(one, int):
                    one = max(-size, min(one, size - 1))
                    fixed.append(one)
                    mesh[left + offset] = [one]
                elif isinstance(one, slice):
                    fixed.append(one)
                    mesh[left + offset] = range(*one.indices(size))
                else:
                    these = [int(max(-size, min(i, size - 1))) for i in one]
                    fixed.append(type(one)(these)
                                 if form != 'numpy' else numpy.array(these))
                    mesh[left + offset] = these
            index = [*index[:gap], Ellipsis, *fixed]
        lists = sum(not isinstance(i, (int, slice, type(...)))
                    for i in index)
        t.label(how, kind, f'{lists} lists', 'dots' if Ellipsis in [
            i for i in index if i is Ellipsis] else 'no dots')
        if len(index) == 1 and lists == 1:
            # On its own, a list of indices is one index for each dimension.
            return
        if how == 'physical' and not all(len(m) for m in mesh):
            return
        t.nontrivial(count > 1 and any(
            list(m) != list(range(n)) for m, n in zip(mesh, sizes)))
        part = array[tuple(index)]
        expected = data[numpy.ix_(*[numpy.array(list(m), dtype=int)
                                    for m in mesh])]
        got = numpy.array(part)
        what = f'[{index}] of {sizes}'
        equal(got.shape, expected.shape, f'shape of {what}')
        equal(got.tolist(), expected.tolist(), what)
        equal(tuple(part.dimensions), tuple(names), f'dimensions of {what}')
        equal(numpy.array(array).tolist(), data.tolist(), f'rest of {what}')
        again = array[tuple(index)]
        equal(numpy.array(again).tolist(), expected.tolist(),
              f'{what} again')
    finally:
        f.close()
