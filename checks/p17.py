"""P17 -- observables are the dataset's quantities, however they are asked
for."""
import numpy
from hypothesis import strategies as st

from eprempy import metric
from eprempy import physical
from eprempy import reference
from vlib import obsmodel as M
from vlib.harness import Property, ensure, equal, fail, quiet, raises, short
from checks import datasets
from checks.common import arrayclose

PROPERTY = Property(
    'P17',
    rule=(
        'Cases are synthetic datasets with a sequence of observations. Each '
        'observation names a quantity and gives, per dimension, an integer, '
        'a list, a slice, an ellipsis, a species symbol or measured values '
        'that lie on the axis, in any consistent unit. The oracle is an '
        'independent array in SI units, indexed orthogonally. Non-trivial: a '
        'selection that is neither everything nor a single leading element.'
    ),
    assumptions=[
        'Shells are indexed from the start of the axis.',
        'Where a file stores 32-bit values, only stored quantities are '
        'observed.',
        'Results of quantities that need a derivative are only checked where '
        'the axis has more than one value.',
    ],
)

RTOL = 1e-7


def usable(spec, names):
    """The quantities among these that a dataset defines."""
    out = []
    for n in datasets.names_in(spec, names):
        if n == 'divu' and spec['time'] < 2:
            continue
        if n == 'ar' and spec['shell'] < 2:
            continue        # nothing but rounding errors
        if n in ('energy density', 'average energy') and spec['energy'] < 2:
            continue
        out.append(n)
    return out


ALL = sorted(M.DIMENSIONS)


def atol(name, expected):
    """Rounding errors where a value results from a cancellation."""
    if name in ('udotb', 'upara', 'uperp', 'divu', 'ar', 'x', 'y', 'z'):
        finite = numpy.abs(expected[numpy.isfinite(expected)])
        return 1e-9 * finite.max() if finite.size else 0.0
    if name == 'angle':
        return 1e-6
    return 0.0


def check(got, expected, name, system, what, size=0.0):
    """Compare an observation with its expected SI values, up to the rounding
    of intermediate values of the given size."""
    factor = M.factor(name, system)
    e = expected * factor
    with numpy.errstate(all='ignore'):
        arrayclose(numpy.array(got), e, what, rtol=RTOL,
                   atol=max(atol(name, e), 1e-14 * size * factor))


@PROPERTY.facet(
    st.tuples(datasets.specs(units=True), datasets.SYSTEMS,
              st.permutations(sorted(M.PRIMARY))),
    quick=200, thorough=3000)
def primary(case, t):
    """Each stored quantity is observed as stored, in the unit of the metric
    system, with the names of its dimensions and its axes."""
    spec, system, order = case
    model, q = datasets.observe(spec, system)
    t.label(system, spec['layout'], spec['mode'])
    t.nontrivial(spec['time'] > 1 and spec['shell'] > 1)
    rtol = 3e-6 if spec.get('single') else 1e-9
    for name in usable(spec, order):
        if name == 'flux' and not model.hasflux and spec.get('single'):
            continue
        quantity = q[name]
        equal(tuple(quantity.dimensions), M.DIMENSIONS[name],
              f'dimensions of {name}')
        unit = metric.unit(M.UNITS[name][system == 'cgs'])
        ensure(quantity.unit == unit, f'{name} has unit {quantity.unit}')
        array = quantity[:] if len(M.DIMENSIONS[name]) == 1 else quantity[...]
        expected = model[name] * M.factor(name, system)
        ensure(array.unit == unit, f'{name}[...] has unit {array.unit}')
        equal(tuple(array.dimensions), M.DIMENSIONS[name],
              f'dimensions of {name}[...]')
        arrayclose(numpy.array(array), expected, name, rtol=rtol)
        arrayclose(numpy.array(quantity), expected, f'numpy.array({name})',
                   rtol=rtol)
        for dim, n in zip(array.dimensions, expected.shape):
            equal(len(array.axes[dim]), n, f'length of {dim} of {name}')


# ----------------------------------------------------------- selections

TIMES = {'day': 86400.0, 'hour': 3600.0, 's': 1.0, 'min': 60.0}
ENERGIES = {'MeV': M.MEV, 'keV': M.MEV * 1e-3, 'J': 1.0}

selection = st.tuples(
    st.sampled_from(['all', 'all', 'int', 'list', 'tuple', 'array', 'slice',
                     'negative', 'measured', 'measured', 'measurement']),
    st.lists(st.integers(0, 9), min_size=1, max_size=3),
    st.sampled_from([1, 1, 2, -1]),
    st.integers(0, 5),
)


def select(dim, size, how, model, spec):
    """The index to use along a dimension and the positions it selects."""
    kind, picks, step, u = how
    given = [p % size for p in picks]       # in any order, maybe repeated
    picks = sorted(set(given))
    if kind == 'negative' and dim == 'shell':
        kind = 'int'
    if kind in ('measured', 'measurement') and dim in ('shell', 'species'):
        kind = 'symbol' if dim == 'species' else 'list'
    if kind == 'all':
        return slice(None), list(range(size))
    if kind == 'int':
        return picks[0], picks[:1]
    if kind == 'negative':
        return picks[0] - size, picks[:1]
    if kind == 'list':
        return list(given), given
    if kind == 'tuple':
        return tuple(given), given
    if kind == 'array':
        return numpy.array(given), given
    if kind == 'slice':
        s = slice(picks[0], picks[-1] + 1, step)
        if step < 0:
            s = slice(picks[-1], picks[0] - 1 if picks[0] else None, step)
        return s, list(range(size))[s]
    if kind == 'symbol':
        return spec['species'][picks[0]], picks[:1]
    values = [float(model[dim][p]) for p in given]
    if dim == 'mu':
        unit, scale = '1', 1.0
    else:
        table = TIMES if dim == 'time' else ENERGIES
        unit = sorted(table)[u % len(table)]
        scale = table[unit]
    values = [v / scale for v in values]
    if kind == 'measurement' and dim != 'mu':
        from eprempy import quantity
        return quantity.measure(*values, unit), given
    return (*values, unit), given


@st.composite
def observations(draw):
    spec = draw(datasets.specs())
    names = draw(st.lists(st.sampled_from(usable(spec, ALL)),
                          min_size=1, max_size=4))
    asked = [(n, [draw(selection) for _ in M.DIMENSIONS[n]],
              draw(st.sampled_from([0, 0, 1])))
             for n in names]
    return spec, draw(datasets.SYSTEMS), asked


@PROPERTY.facet(observations(), quick=600, thorough=10000, shards=2)
def selections(case, t):
    """Observing part of a quantity yields that part of the whole, and its
    axes tell which part it is."""
    spec, system, asked = case
    model, q = datasets.observe(spec, system)
    for name, hows, ellipsis in asked:
        dims = M.DIMENSIONS[name]
        full = model[name]
        chosen = [select(d, n, h, model, spec)
                  for d, n, h in zip(dims, full.shape, hows)]
        positions = [p for _, p in chosen]
        args = [a for a, _ in chosen]
        if ellipsis:
            # Replace a trailing run of full slices by an ellipsis.
            kept = list(args)
            while (len(kept) > 1 and isinstance(kept[-1], slice)
                   and kept[-1] == slice(None)):
                kept.pop()
            if len(kept) < len(args):
                args = kept + [...]
                t.label('ellipsis')
        t.label(*sorted({h[0] for h in hows}))
        if any(p != list(range(n)) and p != [0]
               for p, n in zip(positions, full.shape)):
            t.nontrivial()
        key = args[0] if len(dims) == 1 else tuple(args)
        what = f'{name}[{short(key, 120)}]'
        with quiet():
            got = q[name][key]
        expected = full[numpy.ix_(*positions)]
        check(got, expected, name, system, what)
        equal(tuple(got.dimensions), dims, f'dimensions of {what}')
        ensure(got.unit == q[name].unit, f'unit of {what} is {got.unit}')
        for dim, where in zip(dims, positions):
            axis = got.axes[dim]
            if dim == 'shell':
                equal(numpy.array(axis).ravel().tolist(), where,
                      f'shells of {what}')
            elif dim == 'species':
                equal([str(s) for s in axis],
                      [spec['species'][i] for i in where],
                      f'species of {what}')
            else:
                arrayclose(numpy.array(axis).ravel(),
                           model[dim][where] * M.factor(dim, system),
                           f'{dim} of {what}')


@st.composite
def wrong(draw):
    spec = draw(datasets.specs(low=1))
    names = [n for n in usable(spec, ALL) if len(M.DIMENSIONS[n]) > 1]
    name = draw(st.sampled_from(names))
    where = draw(st.integers(0, len(M.DIMENSIONS[name]) - 1))
    how = draw(st.sampled_from(['beyond', 'unit', 'many', 'outside',
                                'empty', 'name']))
    return spec, draw(datasets.SYSTEMS), name, where, how, draw(
        st.integers(0, 3))


@PROPERTY.facet(wrong(), quick=400, thorough=5000)
def refusals(case, t):
    """An index that selects nothing never yields unrelated values: it is
    refused, or (for an empty slice) it yields an empty array."""
    spec, system, name, where, how, extra = case
    model, q = datasets.observe(spec, system)
    dims = M.DIMENSIONS[name]
    dim = dims[where]
    sizes = model[name].shape if name in M.PRIMARY else tuple(
        {'species': len(spec['species'])}.get(d) or spec[d] for d in dims)
    size = sizes[where]
    t.label(how, dim)
    t.nontrivial()
    key = [slice(None)] * len(dims)
    if how == 'name':
        for bad in ('nothing', name + 'x', 'q1', 'r * nothing'):
            raises(KeyError, q.__getitem__, bad)
        return
    if how == 'many':
        raises(Exception, q[name].__getitem__, tuple(key) + (slice(None),))
        return
    if how == 'empty':
        key[where] = slice(size + extra, None)
        try:
            with quiet():
                got = numpy.array(q[name][tuple(key)])
        except (ValueError, IndexError, TypeError, ZeroDivisionError):
            return
        ensure(got.size == 0, f'{name}[{key}] has shape {got.shape}')
        return
    if how == 'beyond':
        key[where] = size + extra
    elif how == 'unit':
        key[where] = (1.0, {'time': 'MeV', 'energy': 'day', 'mu': 'MeV',
                            'shell': 'day', 'species': 'day'}[dim])
    elif dim == 'shell':
        key[where] = (float(model['r'].max() / M.AU) * (1.1 + extra), 'au')
    elif dim == 'species':
        key[where] = ['e-', 'X+', 'H', 'He+++'][extra]
    else:
        top = float(model[dim].max())
        key[where] = (top * 1.1 + 0.1 * abs(top) + 1e-12,
                      {'time': 's', 'energy': 'J', 'mu': '1'}[dim])
    with quiet():
        raises((ValueError, IndexError, TypeError, KeyError),
               q[name].__getitem__, tuple(key), _what=f'{name}[{key}]')


# ----------------------------------------------------------- names

@PROPERTY.facet(
    st.tuples(datasets.specs(low=2), datasets.SYSTEMS,
              st.lists(st.sampled_from(ALL), min_size=1, max_size=6,
                       unique=True)),
    quick=120, thorough=2000)
def names(case, t):
    """Every alias of a quantity names the same quantity, and no other does;
    the collection lists every name that it provides, and provides every name
    that it lists."""
    spec, system, pool = case
    model, q = datasets.observe(spec, system)
    listed = list(q)
    equal(len(listed), len(q), 'number of names')
    equal(len(set(listed)), len(listed), 'number of distinct names')
    for name in usable(spec, pool):
        aliases = ALIASES.get(name, [name])
        t.nontrivial(len(aliases) > 1)
        with quiet():
            expected = numpy.array(q[name][...] if len(M.DIMENSIONS[name]) > 1
                                   else q[name][:])
        for alias in aliases:
            ensure(alias in listed, f'{alias!r} is not listed')
            other = q[alias]
            ensure(other == q[name], f'{alias!r} is not {name!r}')
            with quiet():
                arrayclose(numpy.array(other), expected, alias)
    some = usable(spec, pool)
    for one in some:
        for two in some:
            if one != two:
                ensure(q[one] != q[two] and not q[one] == q[two],
                       f'{one!r} is {two!r}')
        ensure(not q[one] == numpy.zeros(3).tolist() and q[one] != one,
               f'{one!r} equals something else')
    for name in listed:
        quantity = q[name]
        canonical = reference.OBSERVABLES.names.get(name, name)
        ensure(quantity == q[canonical], f'{name!r} is not {canonical!r}')
        if canonical in M.UNITS:
            unit = metric.unit(M.UNITS[canonical][system == 'cgs'])
            ensure(same(quantity.unit, unit),
                   f'{name!r} has unit {quantity.unit}')


def same(one, two):
    """True if these are spellings of one unit."""
    return one == two or abs(float(metric.conversion(one, two)) - 1) < 1e-9


ALIASES = {
    'time': ['time', 't', 'times'],
    'energy': ['energy', 'energies', 'E', 'egrid'],
    'v': ['v', 'speed', 'vgrid'],
    'mu': ['mu', 'pitch angle', 'pitch-angle cosine', 'pitch angles'],
    'mass': ['mass', 'm'],
    'charge': ['charge', 'q'],
    'r': ['r', 'radius', 'R'],
    'theta': ['theta', 'T'],
    'phi': ['phi', 'P'],
    'br': ['br', 'Br'],
    'btheta': ['btheta', 'bt', 'Btheta', 'Bt'],
    'bphi': ['bphi', 'bp', 'Bphi', 'Bp'],
    'ur': ['ur', 'Ur', 'Vr', 'vr'],
    'utheta': ['utheta', 'ut', 'Utheta', 'Ut', 'Vtheta', 'Vt'],
    'uphi': ['uphi', 'up', 'Uphi', 'Up', 'Vphi', 'Vp'],
    'rho': ['rho', 'Rho'],
    'f': ['f', 'dist', 'Dist'],
    'flux': ['flux', 'Flux', 'J', 'J(E)', 'j', 'j(E)'],
    'x': ['x', 'X'], 'y': ['y', 'Y'], 'z': ['z', 'Z'],
    'bmag': ['bmag', 'B', 'b', '|B|', '|b|', 'b_mag', 'b mag'],
    'umag': ['umag', 'U', 'u', '|U|', '|u|', 'u_mag', 'u mag'],
    'upara': ['upara', 'Upara', 'u_para'],
    'uperp': ['uperp', 'Uperp', 'u_perp'],
    'angle': ['angle', 'flow_angle', 'flow angle'],
    'divu': ['divu', 'div_u', 'divU', 'div U', 'div(U)', 'div(u)'],
    'rigidity': ['rigidity', 'Rg', 'R_g'],
    'mfp': ['mfp', 'mean_free_path', 'mean free path'],
    'ar': ['ar', 'acceleration_rate', 'acceleration rate'],
    'energy density': ['energy_density', 'energy density'],
    'average energy': ['average_energy', 'average energy'],
}


# ----------------------------------------------------------- algebra

LEAVES = ['r', 'x', 'br', 'bphi', 'ur', 'umag', 'rho', 'mfp', 'energy', 'v',
          'time', 'mass', 'flux', 'rigidity', 'bmag', 'theta']

tree = st.recursive(
    st.sampled_from(LEAVES),
    lambda inner: st.one_of(
        st.tuples(st.sampled_from(['*', '/']), inner, inner),
        st.tuples(st.just('**'), inner, st.sampled_from([2, -1, 3, 1])),
        st.tuples(st.sampled_from(['+', '-']), inner, inner),
    ),
    max_leaves=4)


ORDER = ('time', 'shell', 'species', 'energy', 'mu')


def expand(values, dims, target):
    """Values with one dimension per target dimension."""
    order = [d for d in target if d in dims]
    v = numpy.transpose(values, [dims.index(d) for d in order])
    shape = iter(v.shape)
    return v.reshape([next(shape) if d in dims else 1 for d in target])


class Inapplicable(Exception):
    """The operation is undefined for its operands."""


def model_of(node, model, system):
    """Values (in units of the system) and dimensions, as a set."""
    if isinstance(node, str):
        dims = M.DIMENSIONS[node]
        v = model[node] * M.factor(node, system)
        return expand(v, dims, ORDER), set(dims)
    op, a, b = node
    x, xd = model_of(a, model, system)
    if op == '**':
        return x ** float(b), xd
    y, yd = model_of(b, model, system)
    if op == '*':
        return x * y, xd | yd
    if op == '/':
        return x / y, xd | yd
    return (x + y if op == '+' else x - y), xd | yd


def evaluate(node, q):
    if isinstance(node, str):
        return q[node]
    op, a, b = node
    x = evaluate(a, q)
    if op == '**':
        return x ** b
    y = evaluate(b, q)
    if op in '+-':
        if x.unit != y.unit or x.dimensions != y.dimensions:
            raises(ValueError, (lambda: x + y) if op == '+' else
                   (lambda: x - y), _what='adding unequal quantities')
            raise Inapplicable
        return x + y if op == '+' else x - y
    return x * y if op == '*' else x / y


@PROPERTY.facet(
    st.tuples(datasets.specs(low=1), datasets.SYSTEMS, tree,
              st.integers(0, 9)),
    quick=400, thorough=6000)
def algebra(case, t):
    """Arithmetic on quantities equals arithmetic on their values, before or
    after observing them."""
    spec, system, node, pick = case
    model, q = datasets.observe(spec, system)
    t.label('leaf' if isinstance(node, str) else node[0])
    with quiet(), numpy.errstate(all='ignore'):
        try:
            result = evaluate(node, q)
        except Inapplicable:
            t.label('refused')
            return
        expected, dims = model_of(node, model, system)
        equal(set(result.dimensions), dims, 'dimensions')
        t.nontrivial(not isinstance(node, str) and len(dims) > 0)
        sizes = dict(zip(ORDER, expected.shape))
        order = tuple(result.dimensions)
        key = []
        positions = []
        for k, d in enumerate(order):
            n = sizes[d]
            if (pick + k) % 3 == 0:
                key.append((pick + k) % n)
                positions.append([(pick + k) % n])
            else:
                key.append(slice(None))
                positions.append(list(range(n)))
        got = result[tuple(key) if len(order) > 1 else key[0]]
        ensure(got.unit == result.unit, f'unit is {got.unit}')
        if not numpy.all(numpy.isfinite(expected)):
            t.label('skipped')
            return
        squeezed = numpy.transpose(
            expected, [ORDER.index(d) for d in order]
            + [i for i, d in enumerate(ORDER) if d not in order])
        squeezed = squeezed.reshape(squeezed.shape[:len(order)])
        e = squeezed[numpy.ix_(*positions)]
        if not terms_only(node):
            top = numpy.abs(e).max() if e.size else 0.0
            arrayclose(numpy.array(got), e, 'values', rtol=1e-6,
                       atol=1e-6 * top)
        else:
            arrayclose(numpy.array(got), e, 'values', rtol=1e-6)
        if terms_only(node) and not isinstance(node, str):
            named = q[spelled(node)]
            ensure(named.unit == result.unit,
                   f'{spelled(node)!r} has unit {named.unit}')
            equal(set(named.dimensions), dims,
                  f'dimensions of {spelled(node)!r}')
            again = numpy.array(named[(slice(None),) * len(dims)
                                      if len(dims) > 1 else slice(None)])
            back = numpy.transpose(
                squeezed, [order.index(d) for d in named.dimensions])
            arrayclose(again, back, spelled(node), rtol=1e-6)


def terms_only(node):
    """True if a tree has products, quotients and powers only, and does not
    cancel to nothing."""
    if isinstance(node, str):
        return node not in ('x', 'theta', 'bphi')
    op, a, b = node
    if op in '+-':
        return False
    if op == '**':
        return terms_only(a)
    return terms_only(a) and terms_only(b) and not (
        leaves(a) & leaves(b))


def leaves(node):
    if isinstance(node, str):
        return {node}
    if node[0] == '**':
        return leaves(node[1])
    return leaves(node[1]) | leaves(node[2])


def spelled(node):
    if isinstance(node, str):
        return node
    op, a, b = node
    if op == '**':
        inner = spelled(a)
        if not isinstance(a, str):
            inner = f'({inner})'
        return f'{inner}**{b}'
    left = spelled(a)
    right = spelled(b)
    if not isinstance(b, str):
        right = f'({right})'
    if not isinstance(a, str):
        left = f'({left})'
    return f'{left} {op} {right}'


SUMS = [
    (('species', 'energy'), ['J', 'erg', 'MeV', 'g cm^2 s^-2'], [
        ('/', ('*', 'mass', 'energy'), 'mass'),
        ('*', 'mass', ('**', 'v', 2)),
        ('/', ('**', ('*', 'rigidity', 'charge'), 2), 'mass')]),
    (('time', 'shell'), ['m', 'km', 'au', 'cm'], [
        'r', 'x', ('*', 'ur', 'time'), ('/', ('**', 'r', 2), 'r'),
        ('*', ('*', 'umag', 'time'), ('/', 'br', 'bmag'))]),
    (('time', 'shell'), ['m s^-1', 'km s^-1', 'au d^-1'], [
        'ur', 'umag', 'upara', ('/', 'udotb', 'bmag'),
        ('*', 'r', 'divu')]),
    (('time', 'shell', 'species'), ['J', 'erg', 'MeV', 'kg m^2 s^-2'], [
        'average energy', ('*', ('**', 'umag', 2), 'mass'),
        ('*', ('*', 'ur', 'uphi'), 'mass')]),
    (('time', 'shell', 'species'), ['J m^-3', 'erg cm^-3'], [
        'energy density',
        ('*', 'rho', ('*', ('**', 'umag', 2), 'mass'))]),
]


@PROPERTY.facet(
    st.tuples(datasets.specs(low=2), datasets.SYSTEMS,
              st.integers(0, len(SUMS) - 1), st.integers(0, 9),
              st.lists(st.tuples(st.integers(0, 9), st.sampled_from('+-'),
                                 st.booleans()), min_size=2, max_size=3)),
    quick=250, thorough=4000)
def sums(case, t):
    """Quantities in one unit can be added whatever they were computed from,
    and the sum is that of their values."""
    spec, system, group, pick, parts = case
    dims, units, members = SUMS[group]
    unit = units[pick % len(units)]
    model, q = datasets.observe(spec, system)
    with quiet(), numpy.errstate(all='ignore'):
        total = None
        expected = 0.0
        size = 0.0
        nodes = []
        for which, sign, twice in parts:
            node = members[which % len(members)]
            x = evaluate(node, q)
            if twice:
                x = x.withunit(units[(pick + 1) % len(units)])
            before = str(x.unit)
            y = x.withunit(unit)
            equal(str(x.unit), before, f'unit of {spelled(node)}')
            values, _ = model_of(node, model, system)
            ratio = float(metric.conversion(
                str(evaluate(node, q).unit), unit))
            values = values * ratio
            if total is not None:
                total = total + y if sign == '+' else total - y
                expected = (expected + values if sign == '+'
                            else expected - values)
            else:
                total, expected = y, values
            size = numpy.maximum(size, numpy.abs(values))
            nodes.append(spelled(node))
        what = f'{nodes} in {unit}'
        t.label(group)
        t.nontrivial(len(set(nodes)) > 1)
        equal(tuple(total.dimensions), dims, f'dimensions of {what}')
        ensure(total.unit == unit, f'unit of {what}: {total.unit}')
        got = total[(slice(None),) * len(dims)]
        ensure(got.unit == unit, f'unit of observed {what}: {got.unit}')
        if not numpy.all(numpy.isfinite(expected)):
            t.label('skipped')
            return
        shape = [n for d, n in zip(ORDER, expected.shape) if d in dims]
        arrayclose(numpy.array(got), expected.reshape(shape), what,
                   rtol=1e-6, atol=1e-6 * size.max())


# ----------------------------------------------------------- histories

@st.composite
def histories(draw):
    spec = draw(datasets.specs(low=2, time=3, shell=4, energy=3, mu=3))
    pool = usable(spec, ALL)
    pool = draw(st.lists(st.sampled_from(pool), min_size=2, max_size=4,
                         unique=True))
    steps = draw(st.lists(st.tuples(
        st.sampled_from(['observe', 'observe', 'part', 'convert', 'write',
                         'fail', 'array', 'combine', 'interpolate']),
        st.sampled_from(pool), st.integers(0, 7)), min_size=2, max_size=8))
    return spec, draw(datasets.SYSTEMS), steps


CONVERT = {'m': 'au', 'cm': 'au', 's': 'day', 'J': 'MeV', 'erg': 'MeV',
           'T': 'nT', 'G': 'nT', 'm s^-1': 'km s^-1', 'cm s^-1': 'km s^-1',
           'm^-3': 'cm^-3', 'cm^-3': 'm^-3', 'kg': 'g', 'g': 'kg'}


@PROPERTY.facet(histories(), quick=300, thorough=5000, shards=2)
def history(case, t):
    """What is observed does not depend on what was observed, converted,
    combined, modified or refused before."""
    spec, system, steps = case
    model, q = datasets.observe(spec, system)
    kept = []
    t.nontrivial(len({s[0] for s in steps}) > 1)
    for kind, name, n in steps:
        t.label(kind)
        dims = M.DIMENSIONS[name]
        everything = (slice(None),) * len(dims)
        key = everything if len(dims) > 1 else slice(None)
        expected = model[name]
        with quiet():
            if kind in ('observe', 'write', 'convert'):
                got = q[name][key]
                check(got, expected, name, system, name)
                if kind == 'write':
                    numpy.array(got)[...] = 0
                    numpy.asarray(got.data)
                    with_views(got)
                elif kind == 'convert':
                    unit = CONVERT.get(str(got.unit))
                    if unit:
                        other = q[name].withunit(unit)[key]
                        got.withunit(unit)
                        ratio = float(metric.conversion(
                            str(got.unit), unit))
                        arrayclose(
                            numpy.array(other),
                            expected * M.factor(name, system) * ratio,
                            f'{name} in {unit}', rtol=RTOL,
                            atol=ratio * atol(
                                name, expected * M.factor(name, system)))
                kept.append((got, expected, name))
            elif kind == 'part':
                i = n % expected.shape[-1]
                part = (0,) * (len(dims) - 1) + (i,)
                got = q[name][part if len(dims) > 1 else i]
                where = expected[part if len(dims) > 1 else i]
                check(got, numpy.reshape(where, (1,) * len(dims)), name,
                      system, f'{name}[{part}]')
            elif kind == 'fail':
                raises(Exception, q[name].__getitem__,
                       everything + (0,) * 3)
            elif kind == 'array':
                a = numpy.array(q[name])
                a *= 0
            elif kind == 'combine':
                (q[name] * q[name])[key]
                try:
                    q[f'{name} / r'][(0,) * max(2, len(dims))]
                except Exception:
                    pass
            elif kind == 'interpolate':
                middle = float(model['time'][:2].mean())
                if 'time' in dims:
                    k = ((middle, 's'),) + everything[1:]
                    q[name][k if len(dims) > 1 else k[0]]
    for got, expected, name in kept:
        check(got, expected, name, system, f'{name}, observed earlier')
    fresh = sorted({name for _, name, _ in steps})
    for name in fresh:
        dims = M.DIMENSIONS[name]
        with quiet():
            got = q[name][(slice(None),) * len(dims) if len(dims) > 1
                          else slice(None)]
        check(got, model[name], name, system, f'{name} at the end')


def with_views(got):
    """Use a result in ways that share its data."""
    got * 2
    -got
    numpy.sqrt(abs(got))
    got.withunit(str(got.unit))
