"""P04 -- results depend on the request alone."""
import atexit
import math
import os
import pickle
import shutil
import signal
import struct
import subprocess
import sys
import tempfile

import numpy
from hypothesis import strategies as st

from eprempy import (atomic, measured, metric, observable, physical, symbolic,
                     universal)
from checks import datasets
from checks.common import families, nested, positive
from checks.p02 import GAUSSIAN, expansions, pairs, spell, spelling
from checks.p03 import compounds
from vlib import dataset, env
from vlib import obsmodel as M
from vlib import unitmodel as U
from vlib.harness import HarnessError, Property, fail, quiet, short

PROPERTY = Property(
    'P04',
    rule=(
        'Cases are sets of requests (for units, quantities, conversions, '
        'constants, arrays, symbolic expressions or observable quantities of '
        'a dataset). Each request runs alone in a fresh process, after all '
        'the others in two orders, and in a process with another hash seed; '
        'all results must agree. Non-trivial: at least two different requests '
        'of which at least one has a result.'
    ),
    assumptions=[
        'A fresh process is a copy, made by fork, of one that has only '
        'imported the package.',
        'Numbers may differ by rounding errors.',
    ],
)


# ------------------------------------------------------- requests and results
def number(x):
    return ('number', float(x))


def words(x):
    return ('text', str(x))


def data(x):
    a = numpy.array(x, dtype=float)
    return ('array', a.shape, [float(i) for i in a.ravel()])


def table(x):
    return ('text', str(sorted((str(k), str(v)) for k, v in x.items())))


def unit_facts(a):
    u = metric.unit(a)
    return [words(u), table(u.dimensions), words(u.dimensionless),
            words(u.quantity), words(u.symbolic if hasattr(u, 'symbolic')
                                     else '')]


def do_unit(a):
    return unit_facts(a)


def do_named(a):
    u = metric.NamedUnit(a) if hasattr(metric, 'NamedUnit') else metric.unit(a)
    out = [words(u)]
    for name in ('name', 'symbol', 'scale', 'quantity', 'prefix', 'base'):
        out.append(words(getattr(u, name, None)))
    return out


def do_conversion(a, b):
    return [number(metric.conversion(a, b))]


def do_relation(a, b):
    u, v = metric.unit(a), metric.unit(b)
    return [words((u == v, v == u, u == b, bool(u | v), bool(u & v)))]


def do_product(a, b):
    u, v = metric.unit(a), metric.unit(b)
    return [words(u * v == metric.unit(str(u * v))), words(u / v),
            words(u ** 2), words(u * v)]


def do_normalize(a, system):
    return [words(metric.unit(a).normalize(system)),
            words(metric.system(system).get_unit(unit=a)),
            words(metric.system(system).get_dimension(a))]


def do_tonormal(a, system):
    u = metric.unit(a)
    n = u.normalize(system)
    return [words(n), number(metric.conversion(a, str(n))),
            number(metric.conversion(str(n), a))]


def do_quantity(q, system):
    p = metric.quantity(q)[system]
    return [words(p.unit), words(p.dimension),
            words(metric.system(system).get_unit(quantity=q)),
            table(metric.UNITS[q]), table(metric.DIMENSIONS[q])]


def do_tosystem(a, q, system):
    c = metric.quantity(q).convert(a).to(system)
    return [number(c), words(c.u1)]


def do_constant(name, system):
    c = universal.Constants(system)[name]
    return [number(c), words(c.unit), words(c.quantity), words(c)]


def do_species(symbol):
    s = atomic.species(symbol)
    return [words(s), number(s.mass), number(s.charge), words(s.mass.unit)]


def do_measure(values, a, b):
    x = measured.sequence(values, unit=a) if len(values) > 1 \
        else measured.value(values[0], unit=a)
    y = x.withunit(b)
    return [data(y), words(y.unit), data(x), words(x.unit)]


def do_array(values, a, b):
    x = physical.array(values, unit=a)
    y = x.withunit(b)
    z = x + y
    w = x * y
    return [data(y), words(y.unit), data(z), words(z.unit), data(w),
            words(w.unit), words(tuple(w.dimensions)),
            data(numpy.sqrt(w)), words(numpy.sqrt(w).unit)]


def do_symbolic(text):
    e = symbolic.expression(text)
    return [words(e), words(e ** 2), words(1 / e), words(e * e == e ** 2),
            words(sorted(map(str, e)))]


DO = {k[3:]: v for k, v in list(globals().items()) if k.startswith('do_')}


def perform(ops, order, where):
    """The results of requests, in order; where is the path of a dataset."""
    out = {}
    quantities = None
    for i in order:
        kind, *args = ops[i]
        try:
            with quiet(), numpy.errstate(all='ignore'):
                if kind == 'observe':
                    if quantities is None:
                        quantities = observable.quantities(*where)
                    result = look(quantities, *args)
                else:
                    result = DO[kind](*args)
        except Exception as err:
            result = [('error', type(err).__name__)]
        out.setdefault(i, []).append(result)
    return out


def look(q, name, how, indices):
    if how[0] == 'plain':
        x = q[name]
    elif how[0] == 'unit':
        x = q[name].withunit(how[1])
    elif how[0] == 'times':
        x = q[name] * q[how[1]]
    elif how[0] == 'over':
        x = q[name] / q[how[1]]
    elif how[0] == 'power':
        x = q[name] ** how[1]
    elif how[0] == 'text':
        x = q[how[1]]
    out = [words(x.unit), words(tuple(x.dimensions)), words(x.name)
           if hasattr(x, 'name') else words('')]
    n = len(x.dimensions)
    full = tuple(indices[d] for d in x.dimensions)
    y = x[full if n != 1 else full[0]]
    return out + [data(y), words(y.unit), words(tuple(y.dimensions)),
                  *[words([str(k) for k in y.axes[d]])
                    for d in y.dimensions if d == 'species'],
                  *[data(y.axes[d]) for d in y.dimensions if d != 'species']]


def agree(one, two):
    if len(one) != len(two):
        return False
    for a, b in zip(one, two):
        if a[0] != b[0]:
            return False
        if a[0] in ('text', 'error'):
            if a != b:
                return False
        elif a[0] == 'number':
            if not (math.isclose(a[1], b[1], rel_tol=1e-12)
                    or a[1] != a[1] and b[1] != b[1]):
                return False
        else:
            if a[1] != b[1]:
                return False
            x, y = numpy.array(a[2]), numpy.array(b[2])
            good = x[numpy.isfinite(x)]
            top = abs(good).max() if good.size else 0.0
            if not numpy.allclose(x, y, rtol=1e-10, atol=1e-12 * top,
                                  equal_nan=True):
                return False
    return True


# ------------------------------------------------------------------ processes
def fresh(ops, order, where=None):
    """What these requests yield in a process that did nothing else."""
    reader, writer = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(reader)
            signal.setitimer(signal.ITIMER_REAL, 0)
            payload = pickle.dumps(perform(ops, order, where))
            with os.fdopen(writer, 'wb') as stream:
                stream.write(payload)
        finally:
            os._exit(0)
    os.close(writer)
    try:
        with os.fdopen(reader, 'rb') as stream:
            payload = stream.read()
    finally:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
    if not payload:
        raise HarnessError('a process ended without a result')
    return pickle.loads(payload)


def _send(stream, thing):
    payload = pickle.dumps(thing)
    stream.write(struct.pack('>Q', len(payload)) + payload)
    stream.flush()


def _receive(stream):
    head = stream.read(8)
    if len(head) < 8:
        return None
    return pickle.loads(stream.read(struct.unpack('>Q', head)[0]))


def serve():
    """Answer requests, each in a fresh process, with another hash seed."""
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    while (job := _receive(sys.stdin.buffer)) is not None:
        _send(out, fresh(*job))


_servers = {}


def elsewhere(seed, *job):
    """Like `fresh`, but in a process with the given hash seed."""
    if seed not in _servers:
        code = ('import sys; sys.path.insert(0, sys.argv[1]); '
                'from vlib import env; env.activate(); '
                'from checks import p04; p04.serve()')
        server = subprocess.Popen(
            [sys.executable, '-c', code, env.VERIF],
            env={**os.environ, 'PYTHONHASHSEED': str(seed)},
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL)
        atexit.register(server.kill)
        _servers[seed] = server
    server = _servers[seed]
    _send(server.stdin, job)
    result = _receive(server.stdout)
    if result is None:
        del _servers[seed]
        raise HarnessError('the process with another hash seed ended')
    return result


def compare(ops, order, seed, where, t):
    alone = [fresh(ops, [i], where)[i][0] for i in range(len(ops))]
    kinds = {op[0] for op in ops}
    t.label(*kinds)
    t.nontrivial(len({repr(op) for op in ops}) > 1
                 and any(r[0][0] != 'error' for r in alone))
    for what, found in [
        ('after others', fresh(ops, list(range(len(ops))) * 2, where)),
        ('in another order', fresh(ops, order, where)),
        (f'with hash seed {seed}', elsewhere(seed, ops, order, where)),
    ]:
        for i, results in found.items():
            for result in results:
                if not agree(alone[i], result):
                    for a, b in zip(alone[i], result):
                        if not agree([a], [b]):
                            break
                    fail(f'{ops[i]} {what}: got {short(b)}, but alone '
                         f'{short(a)}')


# --------------------------------------------------------------------- facets
QUANTITIES = sorted(metric.UNITS)[:]
WORD_UNITS = sorted(u[0] for u in U.UNITS.values())
PREFIXED = [p[0] + w for p in U.PREFIXES.values() for w in WORD_UNITS] \
    + [p + s for p in U.PREFIXES for s in U.UNITS]
EXPRESSIONS = ['a*b/c', 'b*a', 'a^2 b', 'c / (a*b)', 'a^1/2', '2*a', 'b a c',
               '(a*b)^2 / c', 'a / a', 'x1 * x2^-3', '1', 'b^-1 * a']
SYSTEMS = st.sampled_from(['mks', 'cgs'])


@st.composite
def request(draw, pool):
    """A request; the pool holds texts of units that others may also use."""
    text = st.sampled_from(pool)
    kind = draw(st.sampled_from([
        'unit', 'unit', 'named', 'named', 'conversion', 'conversion',
        'relation', 'product', 'normalize', 'quantity', 'tosystem',
        'constant', 'species', 'measure', 'array', 'symbolic']))
    if kind == 'unit':
        return kind, draw(text)
    if kind == 'named':
        return kind, draw(st.one_of(
            st.sampled_from(PREFIXED),
            st.sampled_from(['cd', 'centiday', 'candela', 'min', 'h', 'Pa',
                             'us', 'μs', 'microsecond', 'mm', 'T', 'G'])))
    if kind in ('conversion', 'relation', 'product'):
        return kind, draw(text), draw(text)
    if kind == 'normalize':
        return kind, draw(text), draw(SYSTEMS)
    if kind == 'quantity':
        return kind, draw(st.one_of(
            st.sampled_from(QUANTITIES),
            st.tuples(st.sampled_from(QUANTITIES),
                      st.sampled_from(QUANTITIES)).map(' * '.join))), \
            draw(SYSTEMS)
    if kind == 'tosystem':
        return kind, draw(text), draw(st.sampled_from(QUANTITIES)), \
            draw(SYSTEMS)
    if kind == 'constant':
        return kind, draw(st.sampled_from(sorted(universal.MKS))), \
            draw(SYSTEMS)
    if kind == 'species':
        return kind, draw(st.sampled_from(['H+', 'He++', 'O-', 'Fe', 'C+']))
    if kind in ('measure', 'array'):
        return kind, draw(st.lists(positive, min_size=1, max_size=3)), \
            draw(text), draw(text)
    return kind, draw(st.sampled_from(EXPRESSIONS))


def _families():
    """Names and symbols of units that share some spelling."""
    by = {}
    for prefix, (long, _) in U.PREFIXES.items():
        for symbol, (name, *_) in U.UNITS.items():
            family = by.setdefault(prefix + symbol, [prefix + symbol])
            family.append(long + name)
            if prefix == 'μ':
                family.append('u' + symbol)
    # The symbol of the candela would also be that of the centiday.
    by['cd'] = ['cd', 'cd', 'centiday', 'centiday', 'candela', 'd', 'day']
    micro = [x for x in by.values() if len(x) == 3 and x[0][0] == 'μ']
    clashes = [x for k, x in by.items() if len(x) > 2 and x not in micro]
    return clashes, micro


CLASHES, MICRO = _families()

# Units that reduce to fundamental ones differently in each metric system, and
# others with which they make compound units.
AMBIGUOUS = ['e', 'G', 'Oe', 'Mx', 'C', 'T', 'statC', 'statV', 'statA', 'V',
             'A', 'Ω', 'F', 'H', 'Wb', 'N', 'Pa', 'J', 'W', 'dyn', 'erg',
             'Gy', 'Sv', 'rad', 'eV', 'MeV', 'day', 's', 'cm', 'm', 'kg',
             'K', 'Hz', 'lx', 'cd', 'sr', 'mol']


@st.composite
def ambiguous(draw):
    """Text of a compound of ambiguous units."""
    bases = draw(st.lists(st.sampled_from(AMBIGUOUS), min_size=1, max_size=2,
                          unique=True))
    if draw(st.booleans()) and 'e' not in bases:
        bases.insert(draw(st.integers(0, len(bases))), 'e')
    powers = draw(st.lists(st.sampled_from([1, 1, -1, 2, -2]),
                           min_size=len(bases), max_size=len(bases)))
    return ' '.join(f'{b}^{p}' for b, p in zip(bases, powers))


@st.composite
def programs(draw):
    theme = draw(st.sampled_from(
        ['mixed', 'mixed', 'mixed', 'expansions', 'family', 'gaussian',
         'ambiguous']))
    if theme == 'family':
        pool = draw(st.one_of(st.sampled_from(CLASHES),
                              st.sampled_from(MICRO)))
        one = st.tuples(st.sampled_from(['named', 'named', 'unit']),
                        st.sampled_from(pool))
        two = st.tuples(st.sampled_from(['conversion', 'relation']),
                        st.sampled_from(pool), st.sampled_from(pool))
        ops = draw(st.lists(st.one_of(one, one, two), min_size=2, max_size=6))
    elif theme == 'expansions':
        pool = [spell(x, draw(spelling)) for x in draw(expansions())]
        pool += [U.text(x) for x in draw(expansions())]
        text = st.sampled_from(pool)
        ops = draw(st.lists(st.one_of(
            st.tuples(st.sampled_from(['conversion', 'conversion',
                                       'relation', 'product']), text, text),
            st.tuples(st.just('unit'), text),
            st.tuples(st.just('normalize'), text, SYSTEMS)),
            min_size=2, max_size=6))
    elif theme == 'ambiguous':
        ops = draw(st.lists(st.tuples(st.just('tonormal'), ambiguous(),
                                      SYSTEMS), min_size=12, max_size=24))
    elif theme == 'gaussian':
        rows = draw(st.lists(st.sampled_from(sorted(GAUSSIAN)), min_size=1,
                             max_size=3))
        texts = st.sampled_from(sorted({x for r in rows
                                        for x in GAUSSIAN[r][:2]}))
        ops = draw(st.lists(st.one_of(
            st.tuples(st.just('conversion'), texts, texts),
            st.tuples(st.just('tosystem'), texts, st.sampled_from(rows),
                      SYSTEMS),
            st.tuples(st.just('quantity'), st.sampled_from(rows), SYSTEMS),
            st.tuples(st.just('relation'), texts, texts),
            st.tuples(st.just('normalize'), texts, SYSTEMS)),
            min_size=2, max_size=6))
    else:
        one, two = draw(pairs())
        three = draw(compounds())
        pool = [spell(one, draw(spelling)), spell(two, draw(spelling)),
                U.text(three), *map(U.text, draw(families()))]
        pool += draw(st.lists(st.sampled_from(
            ['cd', 'centiday', 'candela', 'lx', 'J', 'erg', 'm', 'cm',
             'km / s', 'm s^-1', 'nuc', 'MeV / nuc', '1', '#', 'G', 'T', 's',
             'day']), max_size=3))
        ops = draw(st.lists(request(pool), min_size=2, max_size=7))
    order = draw(st.permutations(range(len(ops))))
    return ops, list(order), draw(st.sampled_from([1, 2, 5]))


@PROPERTY.facet(programs(), quick=400, thorough=10000, shards=3,
                thorough_shards=8)
def operations(case, t):
    """What units, quantities, constants and arrays are does not depend on
    what happened before, nor on the order of sets."""
    ops, order, seed = case
    compare(ops, order, seed, None, t)


INDEX = st.one_of(
    st.just(slice(None)), st.just(slice(None)), st.just(0),
    st.just(-1), st.just([0]), st.just(slice(0, 1)),
    st.just(slice(None, None, 2)))
OTHER = {'r': ['au', 'km', 'cm'], 'time': ['day', 's'], 'br': ['nT', 'G'],
         'bmag': ['nT', 'T'], 'umag': ['km/s', 'cm/s'], 'ur': ['km/s'],
         'rho': ['cm^-3', 'm^-3'], 'energy': ['MeV', 'J'],
         'x': ['au', 'm'], 'vparticle': ['km/s']}
NAMES = sorted(M.DIMENSIONS)


@st.composite
def observations(draw):
    spec = draw(datasets.specs(low=2, shell=4))
    names = datasets.names_in(spec, NAMES)
    ops = []
    for _ in range(draw(st.integers(2, 6))):
        name = draw(st.sampled_from(names))
        how = draw(st.sampled_from(
            ['plain', 'plain', 'unit', 'times', 'over', 'power', 'text']))
        if ops and draw(st.booleans()):
            # Return to a quantity that another request involves.
            name = ops[0][1]
        if how == 'text':
            other = draw(st.sampled_from(names))
            how = (how, draw(st.sampled_from([
                f'{name}**2', f'{name}**-1', f'{name} / {other}',
                f'{name} * {other}', f'{name} * {other}**2',
                f'({name} / {other})**2'])))
        elif how == 'unit':
            name = draw(st.sampled_from([n for n in names if n in OTHER]))
            how = (how, draw(st.sampled_from(OTHER[name])))
        elif how in ('times', 'over'):
            how = (how, draw(st.sampled_from(names)))
        elif how == 'power':
            how = (how, draw(st.sampled_from([2, -1, 3])))
        else:
            how = (how,)
        indices = {
            'time': draw(INDEX), 'shell': draw(INDEX.filter(
                lambda x: x != -1)), 'species': draw(INDEX),
            'energy': draw(INDEX), 'mu': draw(INDEX)}
        ops.append(('observe', name, how, indices))
    order = list(draw(st.permutations(range(len(ops)))))
    return spec, draw(SYSTEMS), ops, order, draw(st.sampled_from([2, 5]))


@PROPERTY.facet(observations(), quick=150, thorough=4000, shards=3,
                thorough_shards=8)
def observed(case, t):
    """What an observable quantity is does not depend on what was observed
    before, nor on the order of sets."""
    spec, system, ops, order, seed = case
    top = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
    try:
        path = os.path.join(top, 'obs000000.nc')
        dataset.write(spec, path)
        config = dataset.configure(os.path.join(top, 'eprem.cfg'))
        compare(ops, order, seed, (path, config, system), t)
    finally:
        shutil.rmtree(top, ignore_errors=True)
