"""P21 -- physical constants and atomic species."""
import math

import numpy
import scipy.constants as codata
from hypothesis import strategies as st

from eprempy import atomic, measured, physical, universal
from checks.common import MILD, unit
from checks.p02 import clean
from vlib import unitmodel as U
from vlib.harness import Property, close, ensure, equal, raises

PROPERTY = Property(
    'P21',
    rule=(
        'Cases are a constant, a metric system and a unit of the same '
        'quantity; and one or more elements with charges. The oracles are '
        'the CODATA values in scipy, conversion by the unit model, and a '
        'table of standard atomic weights. Non-trivial: a unit other than '
        'the defined one, or a charged species.'
    ),
    assumptions=[
        'Constants have the precision of the tables that define them: '
        '0.05 percent.',
        'An integral mass names the first listed of the elements whose '
        'weights round to it, a choice this property does not judge.',
    ],
)

_h, _c, _k, _e = codata.h, codata.c, codata.k, codata.e
_me = codata.m_e
# name: (value in SI, value in Gaussian units, quantities and exponents)
CONSTANTS = {
    'pi': (math.pi, math.pi, []),
    'k': (_k, _k * 1e7, [('energy', 1), ('temperature', -1)]),
    'e': (_e, _e * _c * 10, None),
    'me': (_me, _me * 1e3, [('mass', 1)]),
    'mp': (codata.m_p, codata.m_p * 1e3, [('mass', 1)]),
    'G': (codata.G, codata.G * 1e3,
          [('length', 3), ('mass', -1), ('time', -2)]),
    'g': (codata.g, codata.g * 1e2, [('length', 1), ('time', -2)]),
    'h': (_h, _h * 1e7, [('energy', 1), ('time', 1)]),
    'c': (_c, _c * 1e2, [('length', 1), ('time', -1)]),
    'epsilon0': (codata.epsilon_0, 1.0, None),
    'mu0': (codata.mu_0, 1.0, None),
    'Rinfinity': (codata.Rydberg, codata.Rydberg / 100, [('length', -1)]),
    'a0': (codata.value('Bohr radius'), codata.value('Bohr radius') * 1e2,
           [('length', 1)]),
    're': (codata.value('classical electron radius'),
           codata.value('classical electron radius') * 1e2, [('length', 1)]),
    'alpha': (codata.alpha, codata.alpha, []),
    'c1': (2 * math.pi * _h * _c**2, 2 * math.pi * _h * _c**2 * 1e11,
           [('power', 1), ('length', 2)]),
    'c2': (_h * _c / _k, _h * _c / _k * 1e2,
           [('length', 1), ('temperature', 1)]),
    'sigma': (codata.sigma, codata.sigma * 1e3,
              [('power', 1), ('length', -2), ('temperature', -4)]),
    'eV': (_e, _e * 1e7, [('energy', 1)]),
    'MeV': (_e * 1e6, _e * 1e13, [('energy', 1)]),
    'H+': (13.6 * _e, 13.6 * _e * 1e7, [('energy', 1)]),
    'amu': (codata.atomic_mass, codata.atomic_mass * 1e3, [('mass', 1)]),
    'au': (codata.au, codata.au * 1e2, [('length', 1)]),
}
DIRECT = [k for k, v in CONSTANTS.items() if v[2]]


@st.composite
def conversions(draw):
    name = draw(st.sampled_from(DIRECT))
    system = draw(st.sampled_from(['mks', 'cgs', 'MKS', 'CGS']))
    terms = [
        (draw(st.sampled_from(MILD)),
         draw(st.sampled_from(U.BY_QUANTITY[q])), x)
        for q, x in CONSTANTS[name][2]
    ]
    return name, system, clean(list(draw(st.permutations(terms))))


@PROPERTY.facet(st.sampled_from(sorted(CONSTANTS)), quick=46, thorough=46)
def values(name, t):
    """Each constant has its accepted value in each metric system."""
    t.nontrivial()
    si, gaussian, _ = CONSTANTS[name]
    equal(sorted(universal.MKS), sorted(CONSTANTS), 'names of constants')
    equal(len(universal.CGS), len(CONSTANTS), 'how many constants')
    for system, expected in {'mks': si, 'cgs': gaussian}.items():
        for mapping in (universal.Constants(system),
                        universal.Constants(system.upper()),
                        getattr(universal, system.upper())):
            constant = mapping[name]
            # Tables truncate the standard Rydberg constant and others.
            close(float(constant), expected, f'{name} in {system}', rtol=5e-4)
            ensure(constant.info and constant.quantity, 'no metadata')
            scalar = constant.asscalar
            ensure(isinstance(scalar, physical.Scalar), 'not a scalar')
            equal(float(scalar), float(constant), 'value of the scalar')
            equal(str(scalar.unit), str(constant.unit), 'unit of the scalar')
            ensure(constant == mapping[name], 'unequal to itself')
    raises(KeyError, lambda: universal.MKS[name + '?'])


@PROPERTY.facet(conversions(), quick=500, thorough=8000)
def converted(case, t):
    """A constant in another unit is the same constant."""
    name, system, terms = case
    t.nontrivial()
    t.label(name)
    target = unit(terms)
    constant = universal.Constants(system)[name]
    factor = U.size(terms)
    # Exact definitions differ from the accepted ones only by truncation.
    expected = CONSTANTS[name][0] / factor
    for what, got in {
        'constant': constant.withunit(target),
        'scalar': constant.asscalar.withunit(target),
        'value': measured.value(float(constant),
                                unit=constant.unit).withunit(target),
    }.items():
        close(float(got), expected, f'{what} {name} in {target}', rtol=1e-3)
        ensure(got.unit == target, f'{what}: unit {got.unit}, not {target}')
    got = constant.withunit(target)
    ensure(isinstance(got, universal.Constant), 'not a constant any more')
    equal((got.quantity, got.info), (constant.quantity, constant.info),
          'metadata')
    mks = universal.MKS[name].withunit(target)
    cgs = universal.CGS[name].withunit(target)
    close(float(mks), float(cgs), f'{name} from both systems', rtol=1e-4)
    back = got.withunit(constant.unit)
    close(float(back), float(constant), f'{name} and back', rtol=1e-9)
    two = physical.scalar(2.0, unit='1') * constant.asscalar
    close(float(two.withunit(target)), 2 * float(got), 'twice', rtol=1e-9)


# Standard atomic weights.
WEIGHTS = {
    'H': 1.008, 'He': 4.0026, 'Li': 6.94, 'Be': 9.0122, 'B': 10.81,
    'C': 12.011, 'N': 14.007, 'O': 15.999, 'F': 18.998, 'Ne': 20.180,
    'Na': 22.990, 'Mg': 24.305, 'Al': 26.982, 'Si': 28.085, 'P': 30.974,
    'S': 32.06, 'Cl': 35.45, 'Ar': 39.95, 'K': 39.098, 'Ca': 40.078,
    'Sc': 44.956, 'Ti': 47.867, 'V': 50.942, 'Cr': 51.996, 'Mn': 54.938,
    'Fe': 55.845, 'Co': 58.933, 'Ni': 58.693, 'Cu': 63.546, 'Zn': 65.38,
    'Ga': 69.723, 'Ge': 72.630, 'As': 74.922, 'Se': 78.971, 'Br': 79.904,
    'Kr': 83.798, 'Rb': 85.468, 'Sr': 87.62, 'Y': 88.906, 'Zr': 91.224,
    'Nb': 92.906, 'Mo': 95.95, 'Tc': 98, 'Ru': 101.07, 'Rh': 102.91,
    'Pd': 106.42, 'Ag': 107.87, 'Cd': 112.41, 'In': 114.82, 'Sn': 118.71,
    'Sb': 121.76, 'Te': 127.60, 'I': 126.90, 'Xe': 131.29, 'Cs': 132.91,
    'Ba': 137.33, 'La': 138.91, 'Ce': 140.12, 'Pr': 140.91, 'Nd': 144.24,
    'Pm': 145, 'Sm': 150.36, 'Eu': 151.96, 'Gd': 157.25, 'Tb': 158.93,
    'Dy': 162.50, 'Ho': 164.93, 'Er': 167.26, 'Tm': 168.93, 'Yb': 173.05,
    'Lu': 174.97, 'Hf': 178.49, 'Ta': 180.95, 'W': 183.84, 'Re': 186.21,
    'Os': 190.23, 'Ir': 192.22, 'Pt': 195.08, 'Au': 196.97, 'Hg': 200.59,
    'Tl': 204.38, 'Pb': 207.2, 'Bi': 208.98, 'Po': 209, 'At': 210, 'Rn': 222,
    'Fr': 223, 'Ra': 226, 'Ac': 227, 'Th': 232.04, 'Pa': 231.04, 'U': 238.03,
    'Np': 237,
}
NAMES = {
    'H': 'Hydrogen', 'He': 'Helium', 'C': 'Carbon', 'N': 'Nitrogen',
    'O': 'Oxygen', 'Ne': 'Neon', 'Mg': 'Magnesium', 'Si': 'Silicon',
    'S': 'Sulfur', 'Fe': 'Iron', 'Na': 'Sodium', 'K': 'Potassium',
    'Pb': 'Lead', 'U': 'Uranium',
}
CHARGES = st.one_of(st.integers(-3, 5), st.integers(-20, 40))
SOME = st.one_of(st.sampled_from(sorted(WEIGHTS)),
                 st.sampled_from(['H', 'He', 'C', 'N', 'O', 'Fe']))


def symbol_of(base, charge):
    return base + ('+' if charge > 0 else '-') * abs(charge)


@PROPERTY.facet(st.lists(st.tuples(SOME, CHARGES), min_size=1, max_size=4),
                quick=800, thorough=10000)
def species(case, t):
    """Species have the mass and charge that their symbols say."""
    t.nontrivial(any(q for _, q in case))
    found = []
    for base, charge in case:
        symbol = symbol_of(base, charge)
        for s in (atomic.species(symbol), atomic.Species(symbol)):
            equal(s.symbol, symbol, 'symbol')
            # Weights of man-made elements and old tables vary a little.
            close(s.m, WEIGHTS[base], f'mass of {symbol}', atol=0.13,
                  rtol=1e-12)
            equal(s.q, charge, f'charge of {symbol}')
            ensure(s.mass.unit == 'nuc', f'unit of mass {s.mass.unit}')
            ensure(s.charge.unit == 'e', f'unit of charge {s.charge.unit}')
            close(float(s.mass.withunit('kg')),
                  WEIGHTS[base] * codata.atomic_mass, f'{symbol} in kg',
                  rtol=7e-3)
            close(float(s.charge.withunit('C')), charge * codata.e,
                  f'{symbol} in C', rtol=1e-3)
            ensure(symbol in str(s), 'the symbol is not in the text')
        element = atomic.ELEMENTS.find(base, unique=True)
        if base in NAMES:
            equal(element['name'], NAMES[base], 'name')
        named = atomic.ELEMENTS.find(element['name'], unique=True)
        equal(named['symbol'], base, 'symbol by name')
        for mass in {round(s.m), s.m, float(round(s.m)), round(s.m) + 0.3}:
            again = atomic.species(mass=mass, charge=charge)
            stem = again.symbol.rstrip('+-')
            equal(again.symbol[len(stem):], symbol[len(base):],
                  f'charge symbol of mass {mass}, charge {charge}')
            equal(round(again.m), round(s.m), f'mass of {again.symbol}')
            equal(again.q, charge, f'charge of {again.symbol}')
            alone = sum(round(e['mass']) == round(s.m)
                        for e in atomic.ELEMENTS)
            if alone == 1:
                equal(again.symbol, symbol, f'mass {mass}, charge {charge}')
                t.label('unambiguous')
        found.append((round(s.m), charge, again.symbol))
    masses = [m for m, _, _ in found]
    charges = [q for _, q, _ in found]
    for kind in (list, tuple, numpy.array,
                 lambda x: numpy.array(x, dtype=float)):
        equal(atomic.elements(mass=kind(masses), charge=kind(charges)),
              [s for _, _, s in found], 'several elements')
    raises(TypeError, atomic.elements, mass=masses + masses, charge=charges)
    raises(TypeError, atomic.species, 'H', 'He')
    raises(TypeError, atomic.species, 'H', mass=1, charge=0)
    raises(TypeError, atomic.species)
    raises(TypeError, atomic.species, mass=1, charge=1, extra=1)
    for mass in (0, 2, 3, 5, 8, 300, -1):
        raises(atomic.MassValueError, atomic.species, mass=mass, charge=0)


@PROPERTY.facet(
    st.one_of(
        st.tuples(st.sampled_from(sorted(WEIGHTS)),
                  st.sampled_from(['lower', 'upper', 'swapcase', 'before',
                                   'after', 'double', 'digit'])),
        st.tuples(st.text('abcdehinopruABCEFHNOX2', max_size=3),
                  st.just('as is'))),
    quick=300, thorough=3000)
def misspelled(case, t):
    """What is not the symbol or the name of an element has no mass."""
    base, how = case
    text = {
        'lower': base.lower(), 'upper': base.upper(),
        'swapcase': base.swapcase(), 'before': ' ' + base,
        'after': base + ' ', 'double': base + base, 'digit': base + '2',
        'as is': base}[how]
    known = text in {e[k] for e in atomic.ELEMENTS for k in ('symbol', 'name')}
    t.label(how, 'known' if known else 'unknown')
    t.nontrivial(not known)
    for sign in ('', '+', '--'):
        found = atomic.species(text + sign)
        if known:
            if text in WEIGHTS:
                close(found.m, WEIGHTS[text], f'mass of {text}', atol=0.13)
            continue
        for name in ('mass', 'm'):
            raises(Exception, lambda: getattr(found, name),
                   _what=f'{name} of {text + sign!r}')
