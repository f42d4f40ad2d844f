"""An independent model of the observable quantities, in SI units.

Every quantity is an array computed from the content of a synthetic dataset
(see `dataset.content`) by the textbook formula, without using the code under
test.  Arrays have one dimension per name in `DIMENSIONS`.
"""
import numpy

from vlib import dataset

ELEMENTARY = 1.6022e-19
NUCLEON = 1.6605e-27
PROTON = 1.6726e-27
MEV = 1.6022e-13
AU = 1.495978707e11
LIGHT = 2.99792458e8
DAY = 86400.0

# The size, in SI units, of each unit that a dataset may use.
SIZES = {
    'julian date': DAY, 'day': DAY, 'hour': 3600.0, 's': 1.0,
    'shell': 1.0, 'cos(mu)': 1.0, '1': 1.0, 'rad': 1.0,
    'deg': numpy.pi / 180,
    'nucleon': NUCLEON, 'e-': ELEMENTARY, 'e': ELEMENTARY,
    'kg': 1.0, 'g': 1e-3, 'C': 1.0,
    'keV': 1e-3 * MEV, 'MeV': MEV, 'GeV': 1e3 * MEV, 'J': 1.0,
    'km': 1e3, 'm': 1.0, 'cm': 1e-2, 'au': AU,
    'nT': 1e-9, 'uT': 1e-6, 'T': 1.0, 'G': 1e-4,
    'km/s': 1e3, 'm/s': 1.0, 'm s^-1': 1.0, 'km s^-1': 1e3,
    'cm^-3': 1e6, 'm^-3': 1.0, 'km^-3': 1e-9,
    's^3/km^6': 1e-18, 's^3/m^6': 1.0, 's^3 m^-6': 1.0,
    '# / cm^2 s sr MeV': 1e4 / MEV,
    '# / cm^2 s sr MeV/nuc': 1e4 / MEV,
    '# / m^2 s sr J': 1.0,
}

GRID = ('time', 'shell')
FULL = ('time', 'shell', 'species', 'energy')

# The dimensions of each quantity.
DIMENSIONS = {
    'time': ('time',), 'energy': ('energy',), 'v': ('energy',),
    'mu': ('mu',), 'mass': ('species',), 'charge': ('species',),
    'f': FULL + ('mu',), 'flux': FULL, 'fluence': FULL, 'mfp': FULL,
    'ar': FULL, 'rigidity': ('species', 'energy'),
    'energy density': ('time', 'shell', 'species'),
    'average energy': ('time', 'shell', 'species'),
}
for _name in ('r', 'theta', 'phi', 'br', 'btheta', 'bphi', 'ur', 'utheta',
              'uphi', 'rho', 'x', 'y', 'z', 'bmag', 'umag', 'ubmag', 'udotb',
              'upara', 'uperp', 'angle', 'divu'):
    DIMENSIONS[_name] = GRID

PRIMARY = ('time', 'energy', 'v', 'mu', 'mass', 'charge', 'r', 'theta', 'phi',
           'br', 'btheta', 'bphi', 'ur', 'utheta', 'uphi', 'rho', 'f', 'flux')

DERIVED = tuple(k for k in DIMENSIONS if k not in PRIMARY)

# The unit of each quantity in each metric system, and the number of cgs units
# per mks unit.
_C = 2.99792458e9
UNITS = {
    'time': ('s', 's', 1.0),
    'energy': ('J', 'erg', 1e7),
    'v': ('m s^-1', 'cm s^-1', 1e2),
    'mu': ('1', '1', 1.0),
    'mass': ('kg', 'g', 1e3),
    'charge': ('C', 'statC', _C),
    'r': ('m', 'cm', 1e2),
    'theta': ('rad', 'rad', 1.0),
    'br': ('T', 'G', 1e4),
    'rho': ('m^-3', 'cm^-3', 1e-6),
    'f': ('s^3 m^-6', 's^3 cm^-6', 1e-12),
    'flux': ('J^-1 s^-1 sr^-1 m^-2', 'erg^-1 s^-1 sr^-1 cm^-2', 1e-11),
    'fluence': ('J^-1 sr^-1 m^-2', 'erg^-1 sr^-1 cm^-2', 1e-11),
    'energy density': ('J m^-3', 'erg cm^-3', 10.0),
    'rigidity': ('kg m s^-1 C^-1', 'g cm s^-1 statC^-1', 1e5 / _C),
    'ar': ('s^-1', 's^-1', 1.0),
    'udotb': ('T m s^-1', 'G cm s^-1', 1e6),
}
for _like, _names in {
    'energy': ['average energy'],
    'r': ['x', 'y', 'z', 'mfp'],
    'theta': ['phi', 'angle'],
    'br': ['btheta', 'bphi', 'bmag'],
    'v': ['ur', 'utheta', 'uphi', 'umag', 'upara', 'uperp'],
    'udotb': ['ubmag'],
    'ar': ['divu'],
}.items():
    for _name in _names:
        UNITS[_name] = UNITS[_like]

DEFAULTS = dict(lamo=1.0, mfpRadialPower=2.0, rigidityPower=1 / 3,
                kperxkpar=0.01)


def factor(name, system):
    """The number of units of `system` per SI unit of the named quantity."""
    return UNITS[name][2] if system == 'cgs' else 1.0


class Model:
    """The values of every quantity of a dataset, in SI units."""

    def __init__(self, spec, body, parameters=None):
        self.spec = spec
        self.parameters = {**DEFAULTS, **(parameters or {})}
        units = {**dataset.UNITS, **spec.get('units', {})}
        raw = {
            k: numpy.asarray(v, dtype=float) * SIZES.get(units[k], 1.0)
            for k, (_, v) in body.items()
        }
        self.raw = raw
        self.hasflux = 'flux' in body
        p = {}
        p['time'] = raw['time']
        p['energy'] = raw['egrid'].reshape(-1)
        p['v'] = raw['vgrid'].reshape(-1)
        p['mu'] = raw['mu']
        p['mass'] = raw['mass']
        p['charge'] = raw['charge']
        for name, key in (
            ('r', 'R'), ('theta', 'T'), ('phi', 'P'),
            ('br', 'Br'), ('btheta', 'Bt'), ('bphi', 'Bp'),
            ('ur', 'Vr'), ('utheta', 'Vt'), ('uphi', 'Vp'),
            ('rho', 'Rho'),
        ):
            p[name] = raw[key]
        if self.hasflux:
            p['flux'] = raw['flux']
        else:
            p['f'] = raw['Dist']
        self.primary = p
        self.cache = dict(p)

    def __getitem__(self, name):
        if name not in self.cache:
            self.cache[name] = self.derive(name)
        return self.cache[name]

    def derive(self, name):
        if name in COMPONENTS:
            return components(name, self.primary)
        return getattr(self, '_' + name.replace(' ', '_'))()

    def _fiso(self):
        if not self.hasflux:
            return self['f'].mean(axis=-1)
        m = self['mass'][:, None]
        return 0.5 * self['flux'] * m ** 2 / self['energy']

    def _flux(self):
        return (2 * self._fiso() * self['energy']
                / self['mass'][:, None] ** 2)

    def _divu(self):
        rho = self['rho']
        return -numpy.gradient(rho, self['time'], axis=0) / rho

    def _momentum(self, energy):
        """The momentum of particles of a kinetic energy per nucleon... of
        each species, from E^2 = (pc)^2 + (mc^2)^2."""
        m = self['mass'][:, None]
        rest = m * LIGHT ** 2
        return numpy.sqrt((energy + rest) ** 2 - rest ** 2) / LIGHT

    def _rigidity(self):
        return self._momentum(self['energy']) / self['charge'][:, None]

    def mfp(self, r, rigidity=None):
        """The mean free path at an array of radii."""
        p = self.parameters
        reference = self._momentum(numpy.array([MEV]))
        reference = reference / self['charge'][:, None]
        rg = self['rigidity'] if rigidity is None else rigidity
        return (
            p['lamo'] * AU
            * (r / AU)[:, :, None, None] ** p['mfpRadialPower']
            * (rg / reference) ** p['rigidityPower']
        )

    def _mfp(self):
        return self.mfp(self['r'])

    def _ar(self):
        n = self['r'].shape[1]
        s = numpy.arange(n)
        s1 = numpy.minimum(s + 1, n - 1)
        s2 = numpy.maximum(s - 1, 0)
        u1, u2 = ([self[k][:, i] for k in ('ur', 'utheta', 'uphi')]
                  for i in (s1, s2))
        dot = sum(a * b for a, b in zip(u1, u2))
        ux = self['umag'][:, s1]
        change = ux * abs(1 - dot / ux ** 2)
        a = self['angle']
        k = numpy.cos(a) ** 2 + (
            self.parameters['kperxkpar'] * numpy.sin(a) ** 2)
        ratio = (self['mfp'] * self['v'] / 3.0
                 * (k / self['umag'])[:, :, None, None])
        return change[:, :, None, None] / (ratio[:, s1] + ratio[:, s2])

    def _energy_density(self):
        v = self['v']
        moment = numpy.sum(v ** 4 * self._fiso() * numpy.gradient(v), axis=-1)
        return self['mass'] * moment

    def _average_energy(self):
        v = self['v']
        n = numpy.sum(v ** 2 * self._fiso() * numpy.gradient(v), axis=-1)
        return 0.5 * self['energy density'] / n

    def _fluence(self):
        dt = numpy.diff(self['time'], prepend=self['time'][0])
        return numpy.cumsum(
            self['flux'] * dt[:, None, None, None], axis=0)

    def intflux(self, bounds):
        """The integral flux above each bound (in J)."""
        from scipy import integrate
        energy = self['energy']
        flux = self['flux']
        out = numpy.zeros(flux.shape[:-1] + (len(bounds),))
        for k, bound in enumerate(bounds):
            y, x = flux.copy(), energy.copy()
            near = numpy.isclose(x, bound, rtol=1e-8, atol=0.0)
            if near.any():
                i = int(numpy.argmax(near))
                y, x = y[..., i:], x[i:]
            elif bound > x[0]:
                i = int(numpy.searchsorted(x, bound, side='right')) - 1
                slope = (numpy.log(y[..., i + 1] / y[..., i])
                         / numpy.log(x[i + 1] / x[i]))
                y[..., i] = y[..., i] * (bound / x[i]) ** slope
                x[i] = bound
                y, x = y[..., i:], x[i:]
            out[..., k] = integrate.simpson(y, x=x)
        return out


def _upara(p):
    return components('udotb', p) / components('bmag', p)


# Quantities that are functions of the local primary quantities.
COMPONENTS = {
    'x': lambda p: p['r'] * numpy.sin(p['theta']) * numpy.cos(p['phi']),
    'y': lambda p: p['r'] * numpy.sin(p['theta']) * numpy.sin(p['phi']),
    'z': lambda p: p['r'] * numpy.cos(p['theta']),
    'bmag': lambda p: numpy.sqrt(
        p['br'] ** 2 + p['btheta'] ** 2 + p['bphi'] ** 2),
    'umag': lambda p: numpy.sqrt(
        p['ur'] ** 2 + p['utheta'] ** 2 + p['uphi'] ** 2),
    'udotb': lambda p: (
        p['ur'] * p['br'] + p['utheta'] * p['btheta']
        + p['uphi'] * p['bphi']),
    'ubmag': lambda p: components('umag', p) * components('bmag', p),
    'upara': _upara,
    'uperp': lambda p: numpy.sqrt(numpy.maximum(
        components('umag', p) ** 2 - _upara(p) ** 2, 0)),
    'angle': lambda p: numpy.arccos(numpy.clip(
        components('udotb', p) / components('ubmag', p), -1, 1)),
}


def components(name, primary):
    return COMPONENTS[name](primary)
