"""Synthesize small EPREM datasets.

EPREM writes one NetCDF file per observer.  The functions here write files
with the same variables, dimensions and unit attributes, filled with values
drawn from a seeded random-number generator, together with the configuration
file that a simulation run leaves beside them.
"""
import os

import netCDF4
import numpy

UNITS = {
    'time': 'julian date',
    'shell': 'shell',
    'mu': 'cos(mu)',
    'mass': 'nucleon',
    'charge': 'e-',
    'egrid': 'MeV',
    'vgrid': 'km/s',
    'R': 'au',
    'T': 'rad',
    'P': 'rad',
    'Br': 'nT',
    'Bt': 'nT',
    'Bp': 'nT',
    'Vr': 'km/s',
    'Vt': 'km/s',
    'Vp': 'km/s',
    'Rho': 'cm^-3',
    'Dist': 's^3/km^6',
    'flux': '# / cm^2 s sr MeV',
    'phiOffset': 'rad',
    'preEruption': 'day',
}

# The species that a dataset may contain, as (symbol, mass, charge).
SPECIES = {
    'H+': (1, 1),
    'He++': (4, 2),
    'He+': (4, 1),
    'O++++++': (16, 6),
    'C++++': (12, 4),
}

GRID = ('time', 'shell')


def content(spec):
    """Compute the content of a dataset: {name: (dimensions, values)}.

    Keys of `spec`: time, shell, energy, mu (the lengths of those axes),
    species (a list of symbols), mode ('dist' or 'flux'), layout ('new' or
    'old'), single (store 32-bit values), seed; align (make B this multiple of
    U), scale ({variable: factor}) and replace ({variable: values}).
    """
    rng = numpy.random.default_rng(spec['seed'])
    nt, ns, ne, nm = (spec[k] for k in ('time', 'shell', 'energy', 'mu'))
    species = spec['species']
    np_ = len(species)
    single = spec.get('single', False)

    def real(values):
        x = numpy.asarray(values, dtype='f4' if single else 'f8')
        return x

    out = {}
    start = float(rng.uniform(0.01, 2.0))
    steps = rng.uniform(0.01, 0.5, nt)
    time = start + numpy.cumsum(steps) - steps[0]
    out['time'] = (('time',), real(time))
    out['shell'] = (('shell',), numpy.arange(ns, dtype='i4'))
    mu = numpy.linspace(-1.0, 1.0, nm) if nm > 1 else numpy.array([0.0])
    out['mu'] = (('mu',), real(mu))
    mass = [SPECIES[s][0] for s in species]
    charge = [SPECIES[s][1] for s in species]
    out['mass'] = (('species',), real(mass))
    out['charge'] = (('species',), real(charge))
    energy = numpy.cumsum(rng.uniform(0.05, 1.0, ne)) * float(
        rng.choice([0.1, 1.0, 10.0]))
    speed = 1e-5 * numpy.sqrt(2 * energy * 1.6022e-6 / 1.6726e-24)
    if spec.get('layout') == 'old':
        out['egrid'] = (('species', 'energy'), real(energy[None, :]))
        out['vgrid'] = (('species', 'energy'), real(speed[None, :]))
    else:
        out['egrid'] = (('energy',), real(energy))
        out['vgrid'] = (('energy',), real(speed))
    shape = (nt, ns)
    radius = rng.uniform(0.05, 0.4) + numpy.cumsum(
        rng.uniform(0.02, 0.3, shape), axis=1)
    radius = radius + 0.01 * numpy.arange(nt)[:, None]
    out['R'] = (GRID, real(radius))
    out['T'] = (GRID, real(rng.uniform(0.1, 3.0, shape)))
    out['P'] = (GRID, real(rng.uniform(0.0, 6.2, shape)))
    for name in ('Br', 'Bt', 'Bp'):
        values = rng.uniform(0.1, 9.0, shape) * rng.choice([-1, 1], shape)
        out[name] = (GRID, real(values))
    out['Vr'] = (GRID, real(rng.uniform(100, 900, shape)))
    out['Vt'] = (GRID, real(rng.uniform(-50, 50, shape)))
    out['Vp'] = (GRID, real(rng.uniform(-50, 50, shape)))
    out['Rho'] = (GRID, real(10 ** rng.uniform(-1, 3, shape)))
    if spec['mode'] == 'dist':
        values = 10 ** rng.uniform(-6, 6, (nt, ns, np_, ne, nm))
        dims = ('time', 'shell', 'species', 'energy', 'mu')
        out['Dist'] = (dims, real(values))
    else:
        values = 10 ** rng.uniform(-6, 6, (nt, ns, np_, ne))
        dims = ('time', 'shell', 'species', 'energy')
        out['flux'] = (dims, real(values))
    out['phiOffset'] = (('time',), real(rng.uniform(0, 6, nt)))
    out['preEruption'] = ((), real(rng.uniform(0, 3)))
    if 'align' in spec:         # make B parallel to U
        for b, v in (('Br', 'Vr'), ('Bt', 'Vt'), ('Bp', 'Vp')):
            out[b] = (GRID, real(out[v][1] * spec['align']))
    for name, factor in spec.get('scale', {}).items():
        if name in out:
            dims, values = out[name]
            out[name] = (dims, real(values * factor))
    for name, values in spec.get('replace', {}).items():
        dims, old = out[name]
        out[name] = (dims, real(numpy.broadcast_to(values, old.shape)))
    return out


def write(spec, path):
    """Write a dataset file and return what it contains."""
    body = content(spec)
    sizes = {
        'time': spec['time'],
        'shell': spec['shell'],
        'species': len(spec['species']),
        'energy': spec['energy'],
        'mu': spec['mu'],
    }
    attribute = spec.get('attribute', 'units')
    with netCDF4.Dataset(path, 'w') as f:
        for name, size in sizes.items():
            unlimited = name == 'time' and spec.get('unlimited')
            f.createDimension(name, None if unlimited else size)
        for name, (dims, values) in body.items():
            v = f.createVariable(name, values.dtype, dims)
            unit = spec.get('units', {}).get(name, UNITS[name])
            if unit is not None:
                v.setncattr(attribute, unit)
            v[...] = values
    return body


def configure(path, **parameters):
    """Write a configuration file."""
    with open(path, 'w') as f:
        for key, value in parameters.items():
            f.write(f'{key} = {value}\n')
    return path


def observe(spec, directory, system='mks', parameters=None, name=None):
    """Write a dataset and create the collection of its observables."""
    from eprempy import observable
    os.makedirs(directory, exist_ok=True)
    name = name or 'obs000000.nc'
    path = os.path.join(directory, name)
    body = write(spec, path)
    config = configure(os.path.join(directory, 'eprem.cfg'),
                       **(parameters or {}))
    return body, observable.quantities(path, config, system)
