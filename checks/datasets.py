"""Generators of synthetic datasets, shared by the checks of observables."""
import os
import tempfile

from hypothesis import strategies as st

from vlib import dataset, obsmodel

SYSTEMS = st.sampled_from(['mks', 'cgs'])

OVERRIDES = {
    'time': ['julian date', 'day', 'hour'],
    'egrid': ['MeV', 'keV', 'GeV'],
    'vgrid': ['km/s', 'm s^-1'],
    'R': ['au', 'km', 'm'],
    'Br': ['nT', 'T'],
    'Vr': ['km/s', 'm/s'],
    'Rho': ['cm^-3', 'm^-3'],
    'Dist': ['s^3/km^6', 's^3 m^-6'],
    'flux': ['# / cm^2 s sr MeV', '# / cm^2 s sr MeV/nuc'],
}


@st.composite
def specs(draw, low=1, time=4, shell=5, energy=4, mu=4, mode=None,
          units=False):
    """Descriptions of datasets; `low` is the least length of time and
    energy axes and the other arguments are the greatest lengths."""
    layout = draw(st.sampled_from(['new', 'new', 'old']))
    species = draw(st.lists(
        st.sampled_from(list(dataset.SPECIES)), unique=True, min_size=1,
        max_size=1 if layout == 'old' else 3))
    spec = dict(
        time=draw(st.integers(low, time)),
        shell=draw(st.integers(1, shell)),
        energy=draw(st.integers(low, energy)),
        mu=draw(st.integers(1, mu)),
        species=species,
        layout=layout,
        mode=mode or draw(st.sampled_from(['dist', 'flux'])),
        seed=draw(st.integers(0, 99999)),
    )
    if units:
        spec['attribute'] = draw(st.sampled_from(['units', 'units', 'unit']))
        spec['unlimited'] = draw(st.booleans())
        spec['single'] = draw(st.sampled_from([False, False, True]))
        names = draw(st.lists(st.sampled_from(list(OVERRIDES)), unique=True,
                              max_size=4))
        spec['units'] = {n: draw(st.sampled_from(OVERRIDES[n]))
                         for n in names}
    return spec


def scratch():
    """A new directory, under the scratch directory of this worker."""
    return tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))


def observe(spec, system='mks', parameters=None):
    """A dataset's model and its collection of observable quantities."""
    body, quantities = dataset.observe(spec, scratch(), system, parameters)
    return obsmodel.Model(spec, body, parameters), quantities


def names_in(spec, pool):
    """The quantities in the pool that a dataset of this kind provides."""
    return [n for n in pool if not (n == 'f' and spec['mode'] == 'flux')]
