"""P18 -- derived observables obey their physical definitions."""
import os

import numpy
from hypothesis import strategies as st

from eprempy import metric
from eprempy import observable
from eprempy import quantity
from vlib import dataset
from vlib import obsmodel as M
from vlib.harness import Property, ensure, equal, quiet, short
from checks import datasets
from checks.common import arrayclose
from checks.p17 import check, same, select, selection, usable

PROPERTY = Property(
    'P18',
    rule=(
        'Cases are synthetic datasets of either output mode, with generated '
        'runtime parameters. The oracle is the textbook formula evaluated on '
        'SI arrays, or a relation between two datasets (rescaled fields, '
        'rotated fields, flux output made from distribution output). '
        'Non-trivial: more than one shell and more than one energy or time, '
        'or fields in a special position (parallel, zero).'
    ),
    assumptions=[
        'Energies per nucleon enter each formula as the file gives them.',
        'The integral flux is checked above energies up to the highest but '
        'one of the grid, where the power-law estimate is defined.',
    ],
)


@st.composite
def parameters(draw):
    out = {}
    if draw(st.booleans()):
        out['lamo'] = round(draw(st.floats(0.01, 5.0)), 4)
    if draw(st.booleans()):
        out['mfpRadialPower'] = draw(
            st.sampled_from([0.0, 1.0, 2.0, -1.0, 0.5, 1.5]))
    if draw(st.booleans()):
        out['rigidityPower'] = draw(
            st.sampled_from([0.25, 0.5, 1.0, 2.0, 0.3333]))
    if draw(st.booleans()):
        out['kperxkpar'] = draw(st.sampled_from([0.001, 0.1, 1.0, 0.5]))
    return out


def whole(quantity):
    n = len(quantity.dimensions)
    with quiet(), numpy.errstate(all='ignore'):
        return quantity[(slice(None),) * n if n > 1 else slice(None)]


def interesting(spec):
    return spec['shell'] > 1 and (spec['energy'] > 1 or spec['time'] > 1)


@PROPERTY.facet(
    st.tuples(datasets.specs(), datasets.SYSTEMS, parameters(),
              st.permutations(sorted(M.DERIVED + ('flux',)))),
    quick=240, thorough=4000, shards=3)
def formulas(case, t):
    """Each derived quantity equals its formula, in the right unit and with
    the right dimensions, for any runtime parameters."""
    spec, system, params, order = case
    model, q = datasets.observe(spec, system, params)
    t.label(system, spec['mode'], *sorted(params))
    t.nontrivial(interesting(spec))
    for name in usable(spec, order):
        got = whole(q[name])
        with numpy.errstate(all='ignore'):
            check(got, model[name], name, system, name)
        equal(tuple(got.dimensions), M.DIMENSIONS[name],
              f'dimensions of {name}')
        unit = metric.unit(M.UNITS[name][system == 'cgs'])
        ensure(same(got.unit, unit), f'{name} has unit {got.unit}')


@PROPERTY.facet(
    st.tuples(datasets.specs(low=2), datasets.SYSTEMS, parameters(),
              st.fixed_dictionaries({d: selection for d in (
                  'time', 'shell', 'species', 'energy', 'mu')}),
              st.permutations(sorted(M.DERIVED + ('flux',)))),
    quick=240, thorough=4000, shards=3)
def selected(case, t):
    """Each derived quantity equals its formula at selected coordinates,
    whatever else the formula needs to look at."""
    spec, system, params, hows, order = case
    model, q = datasets.observe(spec, system, params)
    t.label(*sorted({h[0] for h in hows.values()}))
    t.nontrivial(interesting(spec))
    for name in usable(spec, order):
        dims = M.DIMENSIONS[name]
        with numpy.errstate(all='ignore'):
            full = model[name]
        key, positions = zip(*(
            select(d, n, hows[d], model, spec)
            for d, n in zip(dims, full.shape)))
        what = f'{name}[{short(key, 160)}]'
        with quiet():
            got = q[name][key if len(key) > 1 else key[0]]
        check(got, full[numpy.ix_(*positions)], name, system, what)


@PROPERTY.facet(
    st.tuples(datasets.specs(time=3, shell=3),
              st.sampled_from([1e-3, -1e-3, 2.5, -7.0]),
              st.sampled_from(['parallel', 'still', 'radial', 'across',
                               'axis', 'vacuum'])),
    quick=120, thorough=2000)
def special(case, t):
    """Fields in special positions yield the limiting values: no angle is
    undefined because rounding takes a cosine past one."""
    spec, ratio, how = case
    spec = dict(spec)
    t.label(how)
    t.nontrivial()
    if how == 'parallel':
        spec['align'] = ratio
    elif how == 'radial':
        spec['replace'] = {'Vt': 0.0, 'Vp': 0.0, 'Bt': 0.0, 'Bp': 0.0}
    elif how == 'across':
        spec['replace'] = {'Vt': 0.0, 'Vp': 0.0, 'Br': 0.0}
    elif how == 'axis':
        spec['replace'] = {'T': 0.0}
    elif how == 'vacuum':
        spec['replace'] = {'Dist' if spec['mode'] == 'dist' else 'flux': 0.0}
    elif how == 'still':
        spec['replace'] = {'Vr': 0.0, 'Vt': 0.0, 'Vp': 0.0}
    model, q = datasets.observe(spec, 'mks')
    values = {n: numpy.array(whole(q[n])) for n in (
        'angle', 'upara', 'uperp', 'umag', 'x', 'y', 'z', 'flux', 'fluence',
        'bmag', 'r')}
    umag = values['umag']
    if how in ('parallel', 'radial'):
        sign = numpy.sign(model['udotb'])
        arrayclose(values['angle'], numpy.where(sign > 0, 0.0, numpy.pi),
                   'angle', atol=1e-6)
        arrayclose(values['upara'], sign * umag, 'upara', rtol=1e-9)
        arrayclose(values['uperp'], 0 * umag, 'uperp',
                   atol=1e-6 * umag.max())
    elif how == 'across':
        arrayclose(values['angle'], numpy.full_like(umag, numpy.pi / 2),
                   'angle', atol=1e-9)
        arrayclose(values['uperp'], umag, 'uperp')
        arrayclose(values['upara'], 0 * umag, 'upara', atol=1e-9)
    elif how == 'axis':
        arrayclose(values['z'], values['r'], 'z')
        arrayclose(values['x'], 0 * umag, 'x', atol=1e-6)
        arrayclose(values['y'], 0 * umag, 'y', atol=1e-6)
    elif how == 'vacuum':
        ensure(not values['flux'].any(), 'flux without particles')
        ensure(not values['fluence'].any(), 'fluence without particles')
    else:
        ensure(not umag.any(), 'umag at rest')
        ensure(not values['upara'].any(), 'upara at rest')
        ensure(not values['uperp'].any(), 'uperp at rest')


@PROPERTY.facet(
    st.tuples(datasets.specs(low=1), datasets.SYSTEMS),
    quick=80, thorough=1500)
def ranges(case, t):
    """Magnitudes, angles and components satisfy the identities of vectors."""
    spec, system = case
    model, q = datasets.observe(spec, system)
    t.nontrivial(interesting(spec))
    a = {n: numpy.array(whole(q[n])) for n in (
        'r', 'theta', 'phi', 'x', 'y', 'z', 'br', 'btheta', 'bphi', 'bmag',
        'ur', 'utheta', 'uphi', 'umag', 'upara', 'uperp', 'angle', 'udotb',
        'ubmag')}
    arrayclose(a['x'] ** 2 + a['y'] ** 2 + a['z'] ** 2, a['r'] ** 2,
               'x^2 + y^2 + z^2')
    arrayclose(numpy.arctan2(a['y'], a['x']) % (2 * numpy.pi),
               a['phi'] % (2 * numpy.pi), 'azimuth', atol=1e-9)
    arrayclose(numpy.arccos(a['z'] / a['r']), a['theta'], 'colatitude',
               atol=1e-7)
    arrayclose(a['upara'] ** 2 + a['uperp'] ** 2, a['umag'] ** 2,
               'upara^2 + uperp^2')
    ensure((a['uperp'] >= 0).all(), 'negative uperp')
    ensure((a['angle'] >= 0).all() and (a['angle'] <= numpy.pi).all(),
           'angle out of range')
    arrayclose(numpy.cos(a['angle']) * a['umag'], a['upara'], 'upara',
               rtol=1e-7, atol=1e-9 * a['umag'].max())
    arrayclose(a['upara'] * a['bmag'], a['udotb'], 'U.B',
               atol=1e-9 * abs(a['udotb']).max())
    for c, m in (('br', 'bmag'), ('bphi', 'bmag'), ('utheta', 'umag')):
        ensure((abs(a[c]) <= a[m] * (1 + 1e-12)).all(), f'|{c}| > {m}')
    if spec['mode'] == 'dist' and spec['energy'] > 1:
        e = numpy.array(whole(q['energy']))
        f = numpy.array(whole(q['f']))
        ensure((f > 0).all(), 'f is positive')
        flux = numpy.array(whole(q['flux']))
        ensure((flux > 0).all(), 'flux is positive')
        ensure(e.ndim == 1, 'energy has one dimension')


@PROPERTY.facet(
    st.tuples(datasets.specs(mode='dist', low=2), datasets.SYSTEMS,
              parameters()),
    quick=80, thorough=1500)
def modes(case, t):
    """A dataset of flux output that results from a dataset of distribution
    output has the same derived quantities."""
    spec, system, params = case
    t.label(system)
    t.nontrivial(interesting(spec))
    model, q = datasets.observe(spec, system, params)
    values = (numpy.array(model['flux'])
              / M.SIZES[dataset.UNITS['flux']])
    other = {**spec, 'mode': 'flux', 'replace': {'flux': values}}
    _, p = datasets.observe(other, system, params)
    for name in ('flux', 'fluence', 'energy density', 'average energy',
                 'mfp', 'rigidity', 'bmag'):
        arrayclose(numpy.array(whole(p[name])), numpy.array(whole(q[name])),
                   name, rtol=1e-7)


SCALINGS = {
    'Br': ({'Br': 1, 'Bt': 1, 'Bp': 1}, {
        'bmag': 1, 'udotb': 1, 'ubmag': 1, 'angle': 0, 'upara': 0,
        'uperp': 0, 'umag': 0, 'mfp': 0, 'ar': 0, 'flux': 0}),
    'Vr': ({'Vr': 1, 'Vt': 1, 'Vp': 1}, {
        'umag': 1, 'upara': 1, 'uperp': 1, 'udotb': 1, 'angle': 0,
        'bmag': 0, 'ar': 2, 'mfp': 0, 'divu': 0}),
    'R': ({'R': 1}, {'x': 1, 'y': 1, 'z': 1, 'mfp': 2, 'bmag': 0, 'ar': -2,
                     'rigidity': 0, 'flux': 0}),
    'Rho': ({'Rho': 1}, {'divu': 0, 'umag': 0, 'flux': 0}),
    'Dist': ({'Dist': 1, 'flux': 1}, {
        'flux': 1, 'fluence': 1, 'energy density': 1, 'average energy': 0,
        'mfp': 0, 'divu': 0}),
    'time': ({'time': 1}, {'divu': -1, 'fluence': 1, 'flux': 0, 'ar': 0,
                           'mfp': 0}),
}


@PROPERTY.facet(
    st.tuples(datasets.specs(low=2), datasets.SYSTEMS,
              st.sampled_from(sorted(SCALINGS)),
              st.sampled_from([2.0, 0.5, 3.0, 10.0])),
    quick=120, thorough=2000)
def scaling(case, t):
    """Each derived quantity scales with its ingredients as its dimensions
    say."""
    spec, system, key, k = case
    factors, powers = SCALINGS[key]
    t.label(key)
    t.nontrivial(interesting(spec))
    _, q = datasets.observe(spec, system)
    _, p = datasets.observe(
        {**spec, 'scale': {n: k ** e for n, e in factors.items()}}, system)
    for name, power in powers.items():
        if name not in usable(spec, [name]):
            continue
        one = numpy.array(whole(q[name]))
        two = numpy.array(whole(p[name]))
        top = abs(one[numpy.isfinite(one)]).max(initial=0.0)
        arrayclose(two, one * k ** power, f'{name} with {key} times {k}',
                   rtol=1e-7, atol=1e-9 * top * k ** power)


@PROPERTY.facet(
    st.tuples(datasets.specs(low=2, energy=6, time=3, shell=3),
              datasets.SYSTEMS,
              st.lists(st.tuples(st.integers(0, 9),
                                 st.sampled_from([0.0, 0.0, 0.3, 0.9])),
                       min_size=1, max_size=3),
              st.sampled_from(['MeV', 'keV', 'GeV']), st.booleans()),
    quick=200, thorough=4000)
def integral(case, t):
    """The integral flux above an energy integrates the flux from that energy
    up, with a power law between grid points."""
    spec, system, picks, unit, below = case
    model, q = datasets.observe(spec, system)
    energy = model['energy']
    bounds = []
    for i, frac in picks:
        i = i % (len(energy) - 1)
        bounds.append(float(energy[i] + frac * (energy[i + 1] - energy[i])))
    if below:
        bounds.append(float(energy[0]) * 0.5)
    size = M.MEV * {'MeV': 1.0, 'keV': 1e-3, 'GeV': 1e3}[unit]
    values = [b / size for b in bounds]
    t.label(unit, 'below' if below else 'within')
    t.nontrivial(len(bounds) > 1)
    n = len(bounds)
    with quiet():
        array = q['intflux'][:, :, :, (*values, unit)]
    equal(tuple(array.dimensions),
          ('time', 'shell', 'species', 'minimum energy'), 'dimensions')
    expected = model.intflux(bounds)
    factor = {'mks': 1.0, 'cgs': 1e-4}[system]
    arrayclose(numpy.array(array) / factor, expected,
               f'integral flux above {values} {unit}', rtol=1e-6)
    axis = array.axes['minimum energy'].withunit('J')
    arrayclose(numpy.array(axis).ravel(), numpy.array(bounds),
               'minimum energies', rtol=1e-6)
    if n > 1:
        with quiet():
            one = q['intflux'][0, 0, 0, (values[0], unit)]
        arrayclose(numpy.array(one).ravel(),
                   numpy.array(array)[0, 0, 0, :1], 'one bound')


@PROPERTY.facet(
    st.tuples(datasets.specs(low=2, time=3, shell=3, mu=3, mode='dist'),
              parameters(), st.sampled_from(['lamo', 'kperxkpar',
                                             'mfpRadialPower'])),
    quick=100, thorough=1000)
def runtime(case, t):
    """Runtime parameters come from the configuration file of the dataset,
    whose absent entries take their default values."""
    spec, params, key = case
    t.nontrivial(bool(params))
    t.label(key)
    folder = datasets.scratch()
    path = os.path.join(folder, 'obs000000.nc')
    body = dataset.write(spec, path)
    values = []
    for number, extra in enumerate(({}, {key: 0.125})):
        config = dataset.configure(
            os.path.join(folder, f'{number}.cfg'), **{**params, **extra})
        q = observable.quantities(path, config, 'mks')
        model = M.Model(spec, body, {**params, **extra})
        for name in ('mfp', 'ar'):
            if name not in usable(spec, [name]):
                continue
            check(whole(q[name]), model[name], name, 'mks', name)
        equal(float(q.parameters[key]),
              {**M.DEFAULTS, **params, **extra}[key], key)
        values.append(q)
