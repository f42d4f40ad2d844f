"""P20 -- observers and datasets are found in a directory, and show it."""
import os
import pathlib

import numpy
from hypothesis import strategies as st

from eprempy import eprem
from eprempy import metric
from eprempy import physical
from vlib import dataset, obsmodel as M
from vlib.harness import Property, close, ensure, equal, quiet, raises
from checks import datasets
from checks.common import arrayclose

PROPERTY = Property(
    'P20',
    rule=(
        'Cases are scratch directories with a random set of stream and point '
        'observer files (each with its own content, some of them beside '
        'files of other kinds), one or more configuration files, and a '
        'request for an observer or the whole dataset, by a path given in '
        'several ways. The oracle is what was written to each file. '
        'Non-trivial: more than one observer in the directory.'
    ),
    assumptions=[
        'Every data file in a directory whose name starts like that of an '
        'observer is one.',
    ],
)

STREAMS = ('stream', 'obs', 'flux')
POINTS = ('point', 'p_obs')
OTHERS = ('run.log', 'notes.txt', 'obs.txt', 'plot.png', 'earth.nc',
          'stream000000', 'point.dat', 'observers.md', 'data.nc',
          '2024.nc', '007.nc')


@st.composite
def directories(draw):
    spec = draw(datasets.specs(time=3, shell=3, energy=3, mu=2))
    streams = draw(st.dictionaries(
        st.one_of(st.integers(0, 12), st.integers(0, 999999)),
        st.sampled_from(STREAMS), min_size=0, max_size=4))
    points = draw(st.dictionaries(
        st.one_of(st.integers(0, 12), st.integers(0, 999)),
        st.sampled_from(POINTS), min_size=0, max_size=3))
    others = draw(st.lists(st.sampled_from(OTHERS), unique=True, max_size=3))
    return spec, streams, points, others


def populate(case, parameters=None, config='eprem.cfg'):
    """Write the files, and say what each of them contains."""
    spec, streams, points, others = case
    top = datasets.scratch()
    body = {}
    names = [f'{p}{n:06}.nc' for n, p in streams.items()]
    names += [f'{p}{n:03}.nc' for n, p in points.items()]
    for i, name in enumerate(names):
        one = {**spec, 'seed': spec['seed'] + 17 * i}
        body[name] = (one, dataset.write(one, os.path.join(top, name)))
    for name in others:
        if name.endswith('.nc'):
            one = {**spec, 'seed': spec['seed'] + 99}
            body[name] = (one, dataset.write(one, os.path.join(top, name)))
        else:
            with open(os.path.join(top, name), 'w') as f:
                f.write('not a data file\n')
    dataset.configure(os.path.join(top, config), **(parameters or {}))
    return top, body


def located(how, top, directory):
    """A way to refer to a directory."""
    if how == 'str':
        return top
    if how == 'path':
        return pathlib.Path(top)
    if how == 'dotted':
        return os.path.join(top, '..', os.path.basename(top))
    link = os.path.join(directory, 'link')
    os.symlink(top, link)
    return link


def shows(observer, written, name, system):
    """Check that an observer shows what is in this file."""
    spec, body = written
    what = f'{type(observer).__name__} for {name}'
    equal(pathlib.Path(observer.source).name, name, f'{what}: source')
    ensure(observer.system == system, f'{what}: {observer.system}')
    factor = M.factor('r', system)
    radius = body['R'][1] * M.AU * factor
    arrayclose(numpy.array(observer['r']), radius, f'{what}: r', rtol=1e-9)
    arrayclose(numpy.array(observer.dataview.arrays['R']), body['R'][1],
               f'{what}: raw R', rtol=1e-12)


@PROPERTY.facet(
    st.tuples(directories(), st.sampled_from(['str', 'path', 'dotted',
                                              'link']),
              datasets.SYSTEMS, st.booleans()),
    quick=150, thorough=2500, shards=2)
def single_observers(case, t):
    """Each stream or point of a directory is found by its number, shows what
    its own file contains, and no other number finds anything."""
    layout, how, system, upper = case
    _, streams, points, others = layout
    top, body = populate(layout)
    source = located(how, top, datasets.scratch())
    t.label(how, system, *others)
    t.nontrivial(len(body) > 1)
    given = system.upper() if upper else system
    for n, prefix in streams.items():
        name = f'{prefix}{n:06}.nc'
        if name == 'stream000000.nc' and 'stream000000' in others:
            t.label('beside an extensionless file')
        x = eprem.stream(n, source=source, system=given)
        equal(type(x), eprem.Stream, f'type of stream {n}')
        shows(x, body[name], name, system)
        if prefix != 'stream':
            y = eprem.observer(n, source=source, system=given)
            equal(type(y), eprem.Stream, f'type of observer {n}')
            equal(y.source, x.source, f'source of observer {n}')
            equal(hash(y), hash(x), f'hash of observer {n}')
    for n, prefix in points.items():
        name = f'{prefix}{n:03}.nc'
        for key in (n, str(n), f'{n:03}', name[:-3]):
            if key == name[:-3] and prefix == 'x':
                continue
            x = eprem.point(key, source=source, system=given)
            equal(type(x), eprem.Point, f'type of point {key!r}')
            shows(x, body[name], name, system)
        y = eprem.observer(name[:-3], source=source, system=given)
        shows(y, body[name], name, system)
        equal(type(y), eprem.Point, f'type of observer {name[:-3]!r}')
    for name in ('earth', 'data', '2024', '007'):
        # A number is that of a numbered observer first.
        if f'{name}.nc' in others and not (name == '007' and 7 in points):
            x = eprem.point(name, source=source, system=given)
            shows(x, body[f'{name}.nc'], f'{name}.nc', system)
    for n in (1, 7, 12, 100, 123456):
        if n not in streams:
            raises(eprem.SourcePathError, eprem.stream, n, source=source,
                   _what=f'stream {n} of {sorted(body)}')
        if n not in points and n < 1000:
            raises(eprem.SourcePathError, eprem.point, n, source=source,
                   _what=f'point {n} of {sorted(body)}')
    for bad in ('1', 1.0, None, b'1'):
        raises(TypeError, eprem.stream, bad, source=source)
        if bad != '1':
            raises(TypeError, eprem.point, bad, source=source)
    if body:
        raises(eprem.SourcePathError, eprem.stream, 0,
               source=os.path.join(top, sorted(body)[0]))
    raises(eprem.paths.NonExistentPathError, eprem.stream, 0,
           source=os.path.join(top, 'missing'))


@PROPERTY.facet(
    st.tuples(
        datasets.specs(time=2, shell=2, energy=2, mu=2),
        st.dictionaries(st.one_of(st.integers(0, 12), st.integers(0, 999999)),
                        st.sets(st.sampled_from(STREAMS), min_size=1),
                        max_size=3),
        st.dictionaries(st.one_of(st.integers(0, 12), st.integers(0, 999)),
                        st.sets(st.sampled_from(POINTS), min_size=1),
                        max_size=2),
        st.randoms(use_true_random=False).map(lambda r: r.random())),
    quick=100, thorough=1500)
def namesakes(case, t):
    """Of several files with the same number, one by one and as a part of the
    whole data set show the same one, the first of the known kinds."""
    spec, streams, points, order = case
    top = datasets.scratch()
    names = sorted(f'{p}{n:06}.nc' for n, some in streams.items()
                   for p in some)
    names += sorted(f'{p}{n:03}.nc' for n, some in points.items()
                    for p in some)
    k = int(order * len(names))
    body = {}
    for i, name in enumerate([*names[k:], *reversed(names[:k])]):
        one = {**spec, 'seed': spec['seed'] + 17 * i}
        body[name] = (one, dataset.write(one, os.path.join(top, name)))
    dataset.configure(os.path.join(top, 'eprem.cfg'))
    t.nontrivial(any(len(x) > 1 for x in [*streams.values(),
                                          *points.values()]))
    ds = eprem.dataset(top)
    equal(set(ds.streams), set(streams), 'numbers of streams')
    equal(set(ds.points), {f'{n:03}' for n in points}, 'numbers of points')
    for n, some in streams.items():
        t.label(*(len(some) > 1) * ['-'.join(sorted(some))])
        first = next(p for p in STREAMS if p in some)
        name = f'{first}{n:06}.nc'
        shows(eprem.stream(n, source=top), body[name], name, 'mks')
        shows(ds.streams[n], body[name], name, 'mks')
        shows(ds.observers[n], body[name], name, 'mks')
        first = next((p for p in STREAMS[1:] if p in some), None)
        if first is None:
            raises(eprem.SourcePathError, eprem.observer, n, source=top)
        else:
            name = f'{first}{n:06}.nc'
            shows(eprem.observer(n, source=top), body[name], name, 'mks')
    for n, some in points.items():
        t.label(*(len(some) > 1) * ['-'.join(sorted(some))])
        first = next(p for p in POINTS if p in some)
        name = f'{first}{n:03}.nc'
        shows(eprem.point(n, source=top), body[name], name, 'mks')
        shows(eprem.point(f'{n}', source=top), body[name], name, 'mks')
        shows(ds.points[f'{n:03}'], body[name], name, 'mks')
        shows(ds.observers[f'{n:03}'], body[name], name, 'mks')


@PROPERTY.facet(
    st.tuples(directories(), st.sampled_from(['str', 'path', 'dotted',
                                              'link']),
              datasets.SYSTEMS, st.integers(1, 40)),
    quick=150, thorough=2500, shards=2)
def whole_datasets(case, t):
    """A dataset has one observer for each observer file of its directory,
    under the number or name of the file, and the values of its config."""
    layout, how, system, lamo = case
    spec, streams, points, others = layout
    top, body = populate(layout, {'lamo': lamo / 8})
    source = located(how, top, datasets.scratch())
    t.label(how, system, f'{len(streams)} streams', f'{len(points)} points')
    t.nontrivial(len(streams) + len(points) > 1)
    ds = eprem.dataset(source, system=system)
    equal(set(ds.streams), set(streams), 'numbers of streams')
    equal(set(ds.points), {f'{n:03}' for n in points}, 'numbers of points')
    equal(set(ds.observers), {*ds.streams, *ds.points}, 'observers')
    for n, prefix in streams.items():
        name = f'{prefix}{n:06}.nc'
        equal(type(ds.streams[n]), eprem.Stream, f'type of stream {n}')
        shows(ds.streams[n], body[name], name, system)
        ensure(ds.observers[n] is ds.streams[n], f'observer {n}')
        equal(pathlib.Path(eprem.stream(n, source=source).source),
              pathlib.Path(ds.streams[n].source), f'path of stream {n}')
    for n, prefix in points.items():
        name = f'{prefix}{n:03}.nc'
        key = f'{n:03}'
        equal(type(ds.points[key]), eprem.Point, f'type of point {n}')
        shows(ds.points[key], body[name], name, system)
        ensure(ds.observers[key] is ds.points[key], f'observer {key}')
        equal(pathlib.Path(eprem.point(key, source=source).source),
              pathlib.Path(ds.points[key].source), f'path of point {n}')
    ensure(ds.system == system, f'system is {ds.system}')
    equal(pathlib.Path(ds.directory), pathlib.Path(top).resolve(),
          'directory')
    equal(ds.config['lamo'], str(lamo / 8), 'raw value of lamo')
    close(float(ds.parameters['lamo']), lamo / 8, 'parameter lamo')
    equal(pathlib.Path(ds.config.source),
          pathlib.Path(top).resolve() / 'eprem.cfg', 'config path')
    equal(pathlib.Path(ds.parameters.config),
          pathlib.Path(top).resolve() / 'eprem.cfg', 'parameters path')


@PROPERTY.facet(
    st.tuples(datasets.specs(units=True, mu=3), datasets.SYSTEMS,
              st.sampled_from(['stream', 'point', 'dataset'])),
    quick=150, thorough=2500)
def observer_axes(case, t):
    """The times, shells, species, energies and pitch angles of an observer
    are those of its file, in its metric system."""
    spec, system, how = case
    top = datasets.scratch()
    name = 'p_obs004.nc' if how == 'point' else 'obs000004.nc'
    body = dataset.write(spec, os.path.join(top, name))
    dataset.configure(os.path.join(top, 'eprem.cfg'))
    model = M.Model(spec, body)
    x = {
        'stream': lambda: eprem.stream(4, source=top, system=system),
        'point': lambda: eprem.point(4, source=top, system=system),
        'dataset': lambda: eprem.dataset(top, system=system).streams[4],
    }[how]()
    t.label(how, system, spec['layout'])
    t.nontrivial(len(spec['species']) > 1)
    rtol = 3e-6 if spec.get('single') else 1e-9
    for name, axis in (('time', x.times), ('energy', x.energies),
                       ('mu', x.mus)):
        ensure(isinstance(axis, physical.Coordinates), f'{name} axis {axis}')
        unit = metric.unit(M.UNITS[name][system == 'cgs'])
        ensure(axis.unit == unit, f'{name} axis is in {axis.unit}')
        arrayclose(numpy.array(axis.data),
                   model[name] * M.factor(name, system), f'{name} axis', rtol)
        arrayclose(numpy.array(axis.data), numpy.array(x[name]),
                   f'{name} axis and observable', 1e-12)
    equal([str(s) for s in x.species], list(spec['species']), 'species')
    if how != 'point':
        equal([int(i) for i in x.shells], list(range(spec['shell'])),
              'shells')
    else:
        for n, v in (('r', 'R'), ('theta', 'T'), ('phi', 'P')):
            expected = body[v][1].flat[0] * M.factor(n, system)
            if n == 'r':
                expected *= M.SIZES[spec.get('units', {}).get('R', 'au')]
            got = getattr(x, n)
            ensure(isinstance(got, physical.Scalar), f'{n} is {got!r}')
            close(float(got), float(expected), f'{n} of the point', rtol)
            unit = metric.unit(M.UNITS[n][system == 'cgs'])
            ensure(got.unit == unit, f'{n} of the point is in {got.unit}')


@PROPERTY.facet(
    st.tuples(datasets.specs(time=3, shell=3, energy=3, mu=2),
              st.lists(st.sampled_from(['foo', 'R_', 'lamo', 'radii', '0']),
                       min_size=1, max_size=2),
              st.booleans()),
    quick=60, thorough=800)
def observers_are_mappings(case, t):
    """An observer maps each of its names, and no other, to a quantity; names
    of the same quantity give equal quantities."""
    spec, unknown, stream = case
    top = datasets.scratch()
    name = 'obs000000.nc' if stream else 'point000.nc'
    dataset.write(spec, os.path.join(top, name))
    dataset.configure(os.path.join(top, 'eprem.cfg'))
    make = eprem.stream if stream else eprem.point
    x = make(0, source=top)
    names = list(x)
    t.nontrivial()
    equal(len(names), len(x), 'number of names')
    equal(len(set(names)), len(names), 'distinct names')
    for n in names:
        ensure(n in x, f'{n} is listed but not contained')
        ensure(hasattr(x[n], 'unit'), f'{n} is {x[n]!r}')
    for group in (('r', 'R', 'radius'), ('br', 'Br'), ('rho', 'Rho'),
                  ('time', 't', 'times'), ('flux', 'Flux', 'J'),
                  ('mfp', 'mean free path', 'mean_free_path')):
        known = [n for n in group if n in x]
        for n in known:
            ensure(x[n] == x[known[0]], f'{n} is not {known[0]}')
    for n in unknown:
        ensure(n not in x, f'{n} is contained')
        raises(KeyError, x.__getitem__, n, _what=f'observer[{n!r}]')
        equal(x.get(n), None, f'get({n!r})')


CONFIGS = ['eprem_input_file', 'eprem.cfg', 'run.ini', 'case.in']


@PROPERTY.facet(
    st.tuples(st.lists(st.sampled_from(CONFIGS), min_size=1, max_size=4,
                       unique=True),
              st.sampled_from(['none', 'none', 'name', 'path-name', 'full',
                               'path-full', 'elsewhere', 'missing']),
              st.sampled_from(CONFIGS), st.sampled_from(['dataset',
                                                         'stream']),
              st.integers(0, 99999)),
    quick=200, thorough=3000)
def configurations(case, t):
    """The parameters come from the configuration file that is named, by name
    or path, or else from the first kind that is there."""
    present, how, wanted, through, seed = case
    spec = dict(time=2, shell=3, energy=3, mu=2, species=['H+'],
                layout='new', mode='dist', seed=seed)
    top = datasets.scratch()
    body = dataset.write(spec, os.path.join(top, 'obs000000.nc'))
    values = {}
    for i, name in enumerate(CONFIGS):
        if name in present:
            values[name] = 0.5 + i
            dataset.configure(os.path.join(top, name), lamo=0.5 + i)
    t.label(how, through)
    t.nontrivial(len(present) > 1 or how not in ('none', 'name'))
    expected = None
    if how == 'none':
        config = None
        expected = next(values[n] for n in CONFIGS if n in values)
    elif how == 'elsewhere':
        config = os.path.join(datasets.scratch(), 'other.txt')
        dataset.configure(config, lamo=7.5)
        expected = 7.5
    else:
        name = 'nothing.cfg' if how == 'missing' else wanted
        config = {
            'name': name, 'missing': name, 'path-name': pathlib.Path(name),
            'full': os.path.join(top, name),
            'path-full': pathlib.Path(top) / name,
        }[how]
        expected = values.get(name)

    def request():
        if through == 'dataset':
            ds = eprem.dataset(top, config=config)
            close(float(ds.streams[0]['mfp'][0, 0, 0, 0]),
                  float(eprem.stream(0, config, top)['mfp'][0, 0, 0, 0]),
                  'mean free path through a dataset')
            return float(ds.parameters['lamo']), ds.streams[0]
        return None, eprem.stream(0, config, top)
    if expected is None:
        raises((ValueError, eprem.paths.NonExistentPathError), request,
               _what=f'config {config!r} among {present}')
        return
    with quiet():
        value, stream = request()
    if value is not None:
        close(value, expected, f'lamo by {config!r} among {present}')
    model = M.Model(spec, body, {'lamo': expected})
    with quiet():
        got = numpy.array(stream['mfp'][...])
    arrayclose(got, model['mfp'] * M.factor('mfp', 'mks'),
               f'mean free path by {config!r} among {present}', 1e-7)
