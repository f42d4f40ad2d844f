"""P24 -- plots show the values of an array, and say in which unit."""
import contextlib
import os
import pathlib
import tempfile

import numpy
from hypothesis import strategies as st
from matplotlib import figure as figures
from matplotlib import pyplot

from eprempy import measured
from eprempy import physical
from checks.common import arrayclose, families, unit
from vlib import unitmodel as U
from vlib.harness import Property, ensure, equal, quiet, raises

PROPERTY = Property(
    'P24',
    rule=(
        'Cases are physical arrays of up to four dimensions, axes of every '
        'kind, units to plot in, abscissas in every accepted form, and '
        'options. The figure is intercepted when it is saved or shown; its '
        'lines and labels are compared with the values that the array holds '
        'in the requested unit. Non-trivial: more than one value, in another '
        'unit or beside singular dimensions.'
    ),
    assumptions=['What matplotlib does with a line is not checked.'],
)


@st.composite
def arrays(draw):
    flat = draw(st.integers(0, 9)) > 0
    ndim = draw(st.integers(1, 4))
    size = draw(st.integers(2, 5))
    where = draw(st.integers(0, ndim - 1))
    shape = [size if i == where else
             (1 if flat else draw(st.integers(1, 3))) for i in range(ndim)]
    us = draw(families(size=2))
    kinds = [draw(st.sampled_from(['coordinates', 'symbols', 'points',
                                   'default'])) for _ in shape]
    names = draw(st.permutations(['time', 'shell', 'r', 'energy', 'mu']))
    step = draw(st.sampled_from([1, -1, 0.25]))
    axes = []
    for n, kind in zip(shape, kinds):
        start = draw(st.integers(-3, 5))
        if kind == 'coordinates':
            u = draw(st.sampled_from(['au', 's', 'MeV', 'km / s', 'cm^-3']))
            axes.append((kind, [start + step * i for i in range(n)], u))
        elif kind == 'symbols':
            axes.append((kind, ['H+', 'He+', 'He++', 'O+', 'C+'][:n]))
        elif kind == 'points':
            axes.append((kind, [abs(start) + 2 * i for i in range(n)]))
        else:
            axes.append((kind,))
    values = [draw(st.integers(-40, 40)) / 4 for _ in range(numpy.prod(shape))]
    return shape, list(names[:ndim]), axes, values, us


def make(kind, n, *args):
    if kind == 'coordinates':
        return physical.coordinates(measured.sequence(args[0], unit=args[1]))
    if kind == 'symbols':
        return physical.symbols(args[0])
    if kind == 'points':
        return physical.points(args[0])
    return physical.points(range(n))


@contextlib.contextmanager
def intercept():
    """Collect what each figure shows when it is saved or shown."""
    seen = []

    def look(how, fig):
        axes, = fig.axes
        seen.append({
            'how': how,
            'lines': [(line.get_xdata(), line.get_ydata(), line)
                      for line in axes.lines],
            'xlabel': axes.get_xlabel(), 'ylabel': axes.get_ylabel(),
            'title': axes.get_title(), 'xlim': axes.get_xlim(),
            'yscale': axes.get_yscale()})

    save, show = figures.Figure.savefig, pyplot.show

    def savefig(self, *args, **kwargs):
        look('saved', self)
        return save(self, *args, **kwargs)

    def shown(*args, **kwargs):
        look('shown', pyplot.gcf())

    figures.Figure.savefig, pyplot.show = savefig, shown
    try:
        yield seen
    finally:
        figures.Figure.savefig, pyplot.show = save, show
        pyplot.close('all')


def spells(text, u):
    """Does a TeX label show this unit, term by term?"""
    return text == f"[{physical.array([1.0], unit=u).unit.format('tex')}]"


@PROPERTY.facet(
    st.tuples(arrays(), st.sampled_from([None, 'unit', 'other', 'other']),
              st.sampled_from([None, None, 'name', 'measured', 'coordinates',
                               'bad']),
              st.sets(st.sampled_from(['title', 'xlabel', 'ylabel', 'xlim',
                                       'color', 'marker', 'yscale'])),
              st.booleans(), st.booleans()),
    quick=250, thorough=3000, shards=2)
def plots(case, t):
    """A plot of a logically one-dimensional array has one line, with the
    values of the array in the requested unit at the given or natural
    abscissas, and labels that say so; other arrays are refused."""
    (shape, names, axes, values, us), which, how, options, saved, again = case
    one, two = map(unit, us)
    a = physical.array(
        numpy.reshape(values, shape), unit=one,
        axes={k: make(x[0], n, *x[1:])
              for k, n, x in zip(names, shape, axes)})
    factor = float(U.size(us[0]) / U.size(us[1])) if which == 'other' else 1.0
    kwargs = {'unit': one if which == 'unit' else two} if which else {}
    given = {'title': 'A title', 'xlabel': 'abscissa', 'ylabel': 'ordinate',
             'xlim': (-2.0, 9.0), 'color': 'red', 'yscale': 'symlog'}
    for k in options & set(given):
        kwargs[k] = given[k]
    args = ['o'] if 'marker' in options else []
    full = [i for i, n in enumerate(shape) if n != 1]
    t.label(f'{len(shape)}-D', how or 'natural')
    top = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
    path = pathlib.Path(top) / 'plot.png'
    if saved:
        kwargs['path'] = path
    if len(full) != 1:
        t.label('refused')
        with intercept() as seen:
            raises(Exception, a.plot, *args, **kwargs)
        equal(len(seen), 0, 'figures')
        ensure(not path.exists(), 'a file')
        return
    i, = full
    n = shape[i]
    kind, *content = axes[i]
    t.label(kind)
    natural = content[0] if content else list(range(n))
    if how == 'bad':
        for bad in (3, [*range(n)], object()):
            with intercept():
                raises(TypeError, a.plot, x=bad, **kwargs)
        return
    if how == 'name':
        if kind == 'symbols':
            return
        kwargs['x'] = names[i]
        x, label = natural, names[i]
    elif how in ('measured', 'coordinates'):
        x = [3 * j - 4 for j in range(n)]
        kwargs['x'] = measured.sequence(x, unit='km')
        label = ''
        if how == 'coordinates':
            kwargs['x'] = physical.coordinates(kwargs['x'])
            label = '[km]'
    else:
        x, label = natural, names[i].capitalize()
        if kind == 'coordinates':
            label = f'{label} [{content[1]}]'
    t.nontrivial(which == 'other' or len(shape) > 1)
    with intercept() as seen, quiet():
        for _ in range(1 + again):
            ensure(a.plot(*args, **kwargs) is None, 'a result')
            ensure(not pyplot.get_fignums(), 'figures left open')
    equal(len(seen), 1 + again, 'number of figures')
    equal(path.exists() and path.stat().st_size > 0, saved, 'a file')
    for s in seen:
        equal(s['how'], 'saved' if saved else 'shown', 'figure')
        equal(len(s['lines']), 1, 'number of lines')
        u, v, line = s['lines'][0]
        if kind == 'symbols' and how is None:
            equal([str(k) for k in u], natural, 'abscissas')
        else:
            arrayclose(numpy.array(u, dtype=float), numpy.array(x, float),
                       'abscissas', rtol=1e-12)
        arrayclose(numpy.array(v), factor * numpy.array(values), 'ordinates',
                   rtol=1e-9)
        if 'xlabel' in options:
            label = 'abscissa'
        if kind == 'coordinates' and how is None and 'xlabel' not in options:
            name, _, rest = s['xlabel'].partition(' ')
            equal(name, names[i].capitalize(), 'name in the label')
            ensure(rest[1:-1] == str(physical.array(
                [1.0], unit=content[1]).unit), f"label {s['xlabel']}")
        else:
            equal(s['xlabel'], label, 'label of abscissa')
        if 'ylabel' in options:
            equal(s['ylabel'], 'ordinate', 'label of ordinate')
        else:
            ensure(spells(s['ylabel'], two if which == 'other' else one),
                   f"label {s['ylabel']} in {kwargs.get('unit', one)}")
        equal(s['title'], 'A title' if 'title' in options else '', 'title')
        if 'xlim' in options:
            equal(tuple(s['xlim']), (-2.0, 9.0), 'limits')
        if 'color' in options:
            equal(line.get_color(), 'red', 'color')
        equal(line.get_marker(), 'o' if args else 'None', 'marker')
        equal(s['yscale'], 'symlog' if 'yscale' in options else 'linear',
              'scale')
    arrayclose(numpy.array(a), numpy.reshape(values, shape), 'the array',
               rtol=1e-15)
