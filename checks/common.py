"""Generators and oracles that several checks share."""
import math
from fractions import Fraction

import numpy
from hypothesis import strategies as st

from vlib import unitmodel as U
from vlib.harness import ensure, fail, short
from checks.p02 import EXPONENTS, TERMWISE, clean, prefixes, span

WORKING = ['length', 'mass', 'time', 'energy', 'magnetic induction', 'charge',
           'temperature', 'plane angle', 'force', 'power', 'amount']
MILD = ['', '', '', 'k', 'c', 'm', 'M', 'μ']


@st.composite
def families(draw, size=3, quantities=WORKING, top=2, exponents=EXPONENTS,
             mild=True):
    """Several units that agree term by term in the quantities they measure."""
    chosen = draw(st.lists(st.sampled_from(quantities), min_size=1,
                           max_size=top, unique=True))
    powers = [draw(st.sampled_from(exponents)) for _ in chosen]
    ps = st.sampled_from(MILD) if mild else prefixes
    out = []
    for _ in range(size):
        terms = [
            (draw(ps), draw(st.sampled_from(U.BY_QUANTITY[q])), x)
            for q, x in zip(chosen, powers)
        ]
        out.append(clean(list(draw(st.permutations(terms)))))
    return out


def unit(terms):
    return U.text(terms)


def terms_of(u):
    from checks.p03 import terms_of as implementation
    return implementation(u)


def si(values, terms):
    """The values expressed in SI, as an array."""
    return numpy.asarray(values, dtype=float) * U.size(terms)


floats = st.one_of(
    st.integers(-9, 9),
    st.floats(-100, 100, allow_nan=False).map(lambda x: round(x, 3)),
    st.sampled_from([0.0, 1.0, -1.0, 1e-8, 2.5e7, 0.125]),
)
positive = st.one_of(
    st.integers(1, 9),
    st.floats(0.01, 100, allow_nan=False).map(lambda x: round(x, 3)),
    st.sampled_from([1e-6, 2.5e7, 0.125]),
)


def arrayclose(got, expected, what, rtol=1e-9, atol=0.0):
    """Same shape and the same values, up to rounding."""
    g = numpy.asarray(got)
    e = numpy.asarray(expected)
    if g.shape != e.shape:
        fail(f'{what}: shape {g.shape}, expected {e.shape}')
    if g.dtype == object:
        g = g.astype(float)
    both = numpy.isnan(e) & numpy.isnan(g) if e.dtype.kind == 'f' else False
    good = numpy.isclose(g, e, rtol=rtol, atol=atol) | both | (g == e)
    if not numpy.all(good):
        fail(f'{what}: got {short(g.tolist(), 200)}, '
             f'expected {short(e.tolist(), 200)}')


@st.composite
def nested(draw, shape, element):
    """A nested list with the given shape."""
    if len(shape) == 1:
        return draw(st.lists(element, min_size=shape[0], max_size=shape[0]))
    return [draw(nested(shape[1:], element)) for _ in range(shape[0])]
