"""P25 -- operations leave their operands alone and repeat themselves."""
import copy
import math
import operator
import pickle
import re

import numpy
from hypothesis import strategies as st

from eprempy import (aliased, atomic, measured, metric, numeric, physical,
                     quantity, real, symbolic, universal)
from vlib.harness import Property, ensure, fail, quiet

PROPERTY = Property(
    'P25',
    rule=(
        'Cases are histories: a pool of objects of all kinds of the package '
        '(and plain numpy arrays and numbers), then operations on members of '
        'the pool, whose results join it. After each operation every member '
        'must look as it did when it joined, and at the end every operation '
        'is repeated, in another order, and must give what it gave before '
        '(or be refused again). Equal hashable members of one type must have '
        'equal hashes. Non-trivial: at least three operations that yield '
        'results.'
    ),
    assumptions=['Operations whose purpose is to change an object in place '
                 '(mutable mappings, arrays of numpy) are left out.'],
)

# ---------------------------------------------------------------- the members
UNITS = ['m', 'km', 'cm', 's', 'km / s', 'nT', 'G', '1', 'MeV', 'erg', 'au',
         'm^2 s^-1', 'MeV / nuc', 'deg', 'rad', 'cm^-3']
NUMBERS = st.integers(-8, 8).map(lambda n: n / 4)


def kinds():
    u = st.sampled_from(UNITS)
    n = st.integers(1, 3)
    values = st.lists(NUMBERS, min_size=1, max_size=4)
    arrays = st.tuples(
        st.lists(n, min_size=1, max_size=3), st.integers(0, 99),
        st.permutations(['time', 'r', 'species']), u, st.booleans())
    return st.one_of(
        st.tuples(st.just('scalar'), NUMBERS, u),
        st.tuples(st.just('vector'), values, u),
        st.tuples(st.just('tensor'), st.tuples(n, n), st.integers(0, 99), u),
        st.tuples(st.just('array'), arrays),
        st.tuples(st.just('array'), arrays),
        st.tuples(st.just('real'), arrays),
        st.tuples(st.just('value'), NUMBERS, u),
        st.tuples(st.just('sequence'), values, u),
        st.tuples(st.just('measurement'), values, u),
        st.tuples(st.just('coordinates'), values, u),
        st.tuples(st.just('symbols'),
                  st.lists(st.sampled_from(['H+', 'He+', 'O+']), min_size=1,
                           max_size=3, unique=True)),
        st.tuples(st.just('points'),
                  st.lists(st.integers(0, 9), min_size=1, max_size=3,
                           unique=True)),
        st.tuples(st.just('axes'), arrays),
        st.tuples(st.just('dimensions'),
                  st.lists(st.sampled_from('abcd'), min_size=1, max_size=4,
                           unique=True)),
        st.tuples(st.just('unit'), u),
        st.tuples(st.just('named'), st.sampled_from(['m', 'km', 'G', 'erg'])),
        st.tuples(st.just('dimension'), st.sampled_from(
            ['L', 'M L T^-2', 'L^1/2 T', '1'])),
        st.tuples(st.just('metric'), st.sampled_from(
            ['length', 'charge', 'speed', 'magnetic field'])),
        st.tuples(st.just('system'), st.sampled_from(['mks', 'cgs'])),
        st.tuples(st.just('expression'), st.sampled_from(
            ['a', 'a^2 b', 'a / b', 'a b^-1', '2 a^1/2', '1', 'sqrt(a) b'])),
        st.tuples(st.just('term'), st.sampled_from([(1, 'a', 1), (3, 'a', 2), (1, 'b', '-1/2')])),
        st.tuples(st.just('index'), st.lists(st.integers(0, 2), min_size=1,
                                             max_size=3)),
        st.tuples(st.just('constant'), st.sampled_from(['c', 'k', 'mp', 'e'])),
        st.tuples(st.just('species'), st.sampled_from(['H+', 'He++', 'O+'])),
        st.tuples(st.just('group'), st.lists(
            st.sampled_from('xyz'), min_size=1, max_size=3)),
        st.tuples(st.just('aliased'), st.lists(
            st.sampled_from(['p', 'q', 'r']), min_size=1, unique=True)),
        st.tuples(st.just('numpy'), values),
        st.tuples(st.just('number'), NUMBERS),
    )


def numbers(shape, seed):
    n = math.prod(shape)
    return numpy.array([((7 * i + seed) % 17 - 4) / 4
                        for i in range(n)]).reshape(shape)


def axis(name, n, reverse=False):
    if name == 'species':
        return physical.symbols(['H+', 'He+', 'O+'][:n])
    u = 'au' if name == 'r' else 'day'
    values = [1.0 + i / 2 for i in range(n)]
    return physical.coordinates(measured.sequence(
        values[::-1] if reverse else values, unit=u))


def make(kind, *args):
    if kind in ('array', 'real', 'axes'):
        shape, seed, names, u, reverse = args[0]
        names = names[:len(shape)]
        if kind == 'real':
            return real.array(numbers(shape, seed), dimensions=names)
        axes = {k: axis(k, n, reverse) for k, n in zip(names, shape)}
        if kind == 'axes':
            return physical.axes(**axes)
        return physical.array(numbers(shape, seed), unit=u, axes=axes)
    if kind == 'tensor':
        return physical.tensor(numbers(args[0], args[1]), unit=args[2])
    if kind in ('scalar', 'vector'):
        return getattr(physical, kind)(args[0], unit=args[1])
    if kind in ('value', 'sequence'):
        return getattr(measured, kind)(args[0], unit=args[1])
    if kind == 'measurement':
        return quantity.measure(*args[0], args[1])
    if kind == 'coordinates':
        return physical.coordinates(measured.sequence(args[0], unit=args[1]))
    if kind in ('symbols', 'points'):
        return getattr(physical, kind)(args[0])
    if kind == 'dimensions':
        return numeric.array.dimensions(*args[0]) \
            if hasattr(numeric, 'array') and hasattr(numeric.array,
                                                     'dimensions') \
            else physical.axes(**{k: axis('r', 1) for k in args[0]}).dimensions
    if kind == 'unit':
        return metric.unit(args[0])
    if kind == 'named':
        return metric.NamedUnit(args[0])
    if kind == 'dimension':
        return metric.dimension(args[0])
    if kind == 'metric':
        return metric.quantity(args[0])
    if kind == 'system':
        return metric.system(args[0])
    if kind == 'expression':
        return symbolic.expression(args[0])
    if kind == 'term':
        coefficient, base, exponent = args[0]
        return symbolic.term(coefficient, base, exponent)
    if kind == 'index':
        return numeric.index.sequence(args[0]) if len(args[0]) > 1 \
            else numeric.index.value(args[0][0])
    if kind == 'constant':
        return universal.Constants('mks')[args[0]]
    if kind == 'species':
        return atomic.species(args[0])
    if kind == 'group':
        return aliased.Group(*args[0])
    if kind == 'aliased':
        return aliased.Mapping({(k, k * 2): i
                                for i, k in enumerate(args[0])})
    if kind == 'numpy':
        return numpy.array(args[0])
    return args[0]


# ------------------------------------------------------------------ snapshots
def plain(x):
    """Numbers as nested tuples, if these are numbers."""
    try:
        a = numpy.array(x, dtype=float)
    except Exception:
        return None
    return ('numbers', a.shape, tuple(a.ravel().tolist()))


def look(x, depth=0):
    """What can be observed of an object, without relying on equality."""
    if x is None or isinstance(x, (bool, str, type, slice)):
        return repr(x)
    if isinstance(x, (int, float, complex, numpy.number)):
        return ('number', complex(x).real, complex(x).imag)
    if isinstance(x, numpy.ndarray):
        return ('numpy', plain(x) or str(x.tolist()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, *(look(i, depth + 1) for i in x))
    if isinstance(x, (set, frozenset)):
        return ('set', *sorted(map(str, x)))
    if isinstance(x, dict):
        return ('dict', *((str(k), look(v, depth + 1))
                          for k, v in x.items()))
    out = [type(x).__name__]
    if isinstance(x, (physical.Array, real.Array)):
        out += [plain(x), tuple(x.dimensions), tuple(x.shape)]
        if isinstance(x, physical.Array):
            out += [plain(x.squeezed), tuple(map(str, x.shapemap.items()))]
    elif isinstance(x, physical.Axes):
        out += [(k, look(v)) for k, v in x.items()]
    elif isinstance(x, (physical.Symbols, physical.Points)):
        out += [tuple(map(str, x)), tuple(map(int, x.indices))]
    elif isinstance(x, physical.Coordinates):
        out += [plain(x), tuple(map(int, x.indices))]
    elif isinstance(x, aliased.Mapping):
        out += [str(sorted((str(sorted(k)) if not isinstance(k, str) else k,
                            str(v)) for k, v in x.items(aliased=True)))]
    elif isinstance(x, aliased.Group):
        out += [tuple(sorted(map(str, x)))]
    else:
        if not isinstance(x, metric.System):
            out.append(plain(x))
        out.append(re.sub(r' at 0x[0-9a-f]+', '', str(x)))
    for name in ('unit', 'axes', 'dimension', 'mass', 'charge'):
        if isinstance(x, (metric.System, metric.Unit)) or depth > 3:
            break
        try:
            v = getattr(x, name)
        except Exception:
            continue
        if not callable(v):
            out.append((name, look(v, depth + 1)))
    if isinstance(x, metric.NamedUnit):
        out.append(str(sorted(map(str, x.norm.items()))))
    if isinstance(x, metric.Unit):
        out.append(str(sorted(map(str, x.dimensions.items()))))
    return tuple(out)


def same(a, b):
    """Do two snapshots agree, up to rounding?"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or \
            math.isclose(a, b, rel_tol=1e-12)
    return a == b


# ----------------------------------------------------------------- operations
def filled(x):
    """Change a copy as numpy array."""
    a = numpy.array(x)
    if a.dtype == object:
        raise TypeError(x)
    a[...] = 99
    return None


def scribble(x):
    """Change what is observable of a copy."""
    y = copy.copy(x)
    for f in (lambda: y.withunit('erg'), lambda: y[0], lambda: y.transpose()):
        try:
            f()
        except Exception:
            pass
    return y


ONE = {
    'neg': operator.neg, 'pos': operator.pos, 'abs': abs,
    'round': lambda x: round(x, 1), 'copy': copy.copy,
    'deepcopy': copy.deepcopy, 'scribble': scribble, 'filled': filled,
    'sqrt': numpy.sqrt, 'square': numpy.square, 'negative': numpy.negative,
    'sum': numpy.sum, 'mean': numpy.mean, 'min': numpy.min, 'max': numpy.max,
    'sum0': lambda x: numpy.sum(x, axis=0),
    'mean-1': lambda x: numpy.mean(x, axis=-1),
    'squeeze': numpy.squeeze, 'ravelled': lambda x: numpy.array(x).ravel(),
    'gradient': numpy.gradient, 'trapz1': numpy.trapz,
    'first': lambda x: x[0], 'last': lambda x: x[-1], 'all': lambda x: x[...],
    'reversed': lambda x: x[::-1], 'listed': lambda x: x[[0]],
    'inner': lambda x: x[..., 0], 'sliced': lambda x: x[0:2],
    'transpose': lambda x: x.transpose(),
    'swap': lambda x: x.transpose(*range(x.ndim)[::-1]),
    'hash': hash, 'str': str, 'repr': repr, 'list': list, 'len': len,
    'float': float, 'bool': bool, 'dims': lambda x: x.dimensions,
    'axes': lambda x: x.axes, 'unit': lambda x: x.unit,
    'data': lambda x: look(x.data), 'keys': lambda x: list(x.keys()),
    'values': lambda x: list(x.values()), 'items': lambda x: list(x.items()),
    'power': lambda x: x ** 2, 'root': lambda x: x ** 0.5,
    'inverse': lambda x: 1 / x, 'twice': lambda x: 2 * x,
    'half': lambda x: x / 2, 'powered': lambda x: 2 ** x,
    'increment': lambda x: operator.iadd(x, x) if not isinstance(
        x, numpy.ndarray) else None,
    'scale': lambda x: operator.imul(x, 3) if not isinstance(
        x, numpy.ndarray) else None,
    'divide': lambda x: operator.itruediv(x, 4) if not isinstance(
        x, numpy.ndarray) else None,
    'mks': lambda x: x.normalize('mks'), 'cgs': lambda x: x.normalize('cgs'),
    'in mks': lambda x: x['mks'], 'in cgs': lambda x: x['cgs'],
    'reduced': lambda x: x.reduce(), 'indices': lambda x: x.indices,
    'quantity': lambda x: x.quantity, 'format': lambda x: x.format(),
    'tex': lambda x: x.format(style='tex'),
    'mass': lambda x: x.mass, 'charge': lambda x: x.charge,
    'shift': lambda x: x.shift(1, ceil=3), 'squeezed': lambda x: x.squeezed,
    'get': lambda x: x['p'], 'asdict': lambda x: x.as_dict,
    'measure': quantity.measure, 'unwrap': lambda x: measured.sequence(x),
    'pickle': lambda x: pickle.loads(pickle.dumps(x)) if isinstance(
        x, (numpy.ndarray, float)) else None,
    'index all': lambda x: x.index(*list(x)),
    'index back': lambda x: x.index(*list(x)[::-1]),
    'locate': lambda x: x.index(*x.data[::-1]),
    'permute': lambda x: x.permute(*list(x)[::-1]),
    'extract': lambda x: x.extract(*list(x)[-1:]),
    'without': lambda x: x.without(list(x)[0]),
    'replaced': lambda x: x.replace(list(x)[0], new=physical.points([1])),
    'before': lambda x: x.insert('new', physical.points([1]), index=0),
    'shift back': lambda x: x.shift(-1, floor=0),
    'dimensions of': lambda x: x.dimensions['mks'],
    'axis 0': lambda x: x.axes[0], 'axis r': lambda x: x.axes['r'],
    'by name': lambda x: x.transpose(*list(x.dimensions)[::-1]),
    'decomposed': lambda x: x.decomposed, 'norm': lambda x: x.norm['mks'],
    'norm changed': lambda x: x.norm.clear(),
    'quantity in': lambda x: x.get_unit(quantity='length'),
    'terms': lambda x: list(x.terms), 'system': lambda x: x['length'],
    'std': numpy.std, 'cumsum': lambda x: numpy.cumsum(x, axis=0),
    'moved': lambda x: numpy.moveaxis(x, 0, -1),
    'sin': numpy.sin, 'log': numpy.log, 'exp': numpy.exp,
    'cumtrapz': lambda x: numpy.trapz(x, axis=0),
    'unit of': metric.unit, 'conversion': lambda x: x.convert('cm').to('mks'),
}
UNITARY = {'withunit': lambda x, u: x.withunit(u)}
TWO = {
    **{k: getattr(operator, k) for k in
       ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'eq', 'ne',
        'lt', 'le', 'gt', 'ge', 'and_', 'or_', 'xor')},
    'contains': lambda x, y: y in x,
    'getitem': lambda x, y: x[y],
    'numpy add': numpy.add, 'numpy multiply': numpy.multiply,
    'numpy divide': numpy.divide, 'numpy maximum': numpy.maximum,
    'numpy equal': numpy.array_equal,
    'trapz': numpy.trapz, 'gradient2': numpy.gradient,
    'index': lambda x, y: x.index(y), 'conv': metric.conversion,
    'ratio': lambda x, y: x >> y, 'scaled': lambda x, y: x << y,
    'replace': lambda x, y: x.replace('r', y),
    'insert': lambda x, y: x.insert('new', y),
    'remove': lambda x, y: x.remove('a'),
    'with': lambda x, y: x.withunit(y.unit),
    'with unit': lambda x, y: x.withunit(y),
    'remesh': lambda x, y: x.remesh(y),
    'isdisjoint': lambda x, y: x.isdisjoint(y),
    'merge': lambda x, y: x | y,
}
STEP = st.one_of(
    st.tuples(st.sampled_from(sorted(ONE)), st.integers(0, 9)),
    st.tuples(st.just('withunit'), st.integers(0, 9), st.sampled_from(UNITS)),
    st.tuples(st.sampled_from(sorted(TWO)), st.integers(0, 9),
              st.integers(0, 9)),
    st.tuples(st.sampled_from(['add', 'sub', 'mul', 'truediv', 'mul', 'eq']),
              st.integers(0, 9), st.integers(0, 9)),
)


def perform(step, pool, n, show=look):
    """The result of a step, as an object and as a snapshot."""
    name, i, *rest = step
    args = [pool[i % n]]
    try:
        with quiet(), numpy.errstate(all='ignore'):
            if name == 'withunit':
                result = UNITARY[name](args[0], rest[0])
            elif name in ONE:
                result = ONE[name](args[0])
            else:
                args.append(pool[rest[0] % n])
                if all(isinstance(a, (float, numpy.ndarray)) for a in args):
                    return None, 'skipped'
                result = TWO[name](*args)
            return result, show(result)
    except RecursionError:
        raise
    except Exception as err:
        return None, f'{type(err).__name__}'


IDENTITY = {'eq', 'ne', 'contains', 'numpy equal', 'isdisjoint', 'and_', 'or_',
            'xor', 'sub', 'merge'}


def settle(step, pool, n, show=look):
    """Make a step with the first member, from the given one on, for which it
    is defined."""
    name, i, *rest = step
    for k in range(min(n, 5)):
        chosen = (name, (i + k) % n, *rest)
        result, seen = perform(chosen, pool, n, show=show)
        if seen not in ('TypeError', 'AttributeError'):
            break
    return chosen, result, seen


CASES = st.tuples(
    st.lists(kinds(), min_size=2, max_size=4),
    st.lists(STEP, min_size=8, max_size=20),
    st.randoms(use_true_random=False).map(lambda r: r.random()))


def members(given):
    with quiet(), numpy.errstate(all='ignore'):
        return [make(*g) for g in given]


def joins(result, pool):
    """Does this result of a step become a member?"""
    return result is not None and not isinstance(
        result, (bool, str, list, tuple, dict, int, set)) and \
        len(pool) < 10 and not any(result is x for x in pool)


@PROPERTY.facet(CASES, quick=3000, thorough=60000, shards=4,
                thorough_shards=8)
def histories(case, t):
    """No operation changes its operands, or anything else; every operation
    gives the same result whenever it is made; equal objects have equal
    hashes."""
    given, steps, order = case
    pool = members(given)
    with quiet(), numpy.errstate(all='ignore'):
        first = [look(x) for x in pool]
    done = []
    results = 0
    for step in steps:
        n = min(len(pool), 10)
        step, result, seen = settle(step, pool, n)
        done.append((step, n, seen))
        if seen != 'skipped' and not isinstance(seen, str):
            results += 1
            t.label(step[0])
        with quiet(), numpy.errstate(all='ignore'):
            for i, x in enumerate(pool):
                now = look(x)
                if not same(now, first[i]):
                    fail(f'after {[s[0] for s in done]} on {given}, member '
                         f'{i} is {now}, not {first[i]}')
        if joins(result, pool):
            pool.append(result)
            first.append(seen)
    t.nontrivial(results > 2)
    k = int(order * len(done))
    for step, n, seen in [*done[k:], *reversed(done[:k])]:
        _, again = perform(step, pool, n)
        if not same(again, seen):
            fail(f'{step} on {given} with {[s[0] for s in done]} gave {seen} '
                 f'and then {again}')
    for i, x in enumerate(pool):
        for j, y in enumerate(pool[:i]):
            if type(x) is not type(y):
                continue
            try:
                hx, hy = hash(x), hash(y)
                equal = x == y
            except Exception:
                continue
            if equal is True:
                ensure(hx == hy, f'{x!r} == {y!r} with different hashes')
            if isinstance(equal, bool):
                ensure((y == x) is equal, f'{x!r} == {y!r} is not symmetric')


@PROPERTY.facet(CASES, quick=2000, thorough=40000, shards=4,
                thorough_shards=8)
def isolation(case, t):
    """What an operation gives does not depend on what else was done with its
    operands before: it is what it gives when only they are made, anew."""
    given, steps, _ = case
    # Species are equal to nothing but themselves, and the hash of an object
    # is that of its identity, often.
    species = any(g[0] == 'species' for g in given)
    pool = members(given)
    origins = [None for _ in pool]
    done = []
    for step in steps:
        n = len(pool)
        step, result, seen = settle(step, pool, n, show=lambda x: ())
        done.append((step, n, result, seen))
        if joins(result, pool):
            pool.append(result)
            origins.append((step, n))
    t.nontrivial(sum(seen == () for *_, seen in done) > 2)

    def remake(i):
        if origins[i] is None:
            return members([given[i]])[0]
        return redo(*origins[i], show=lambda x: ())[0]

    def redo(step, n, show=look):
        wanted = {step[1] % n}
        if step[0] in TWO:
            wanted.add(step[2] % n)
        fresh = {i: remake(i) for i in sorted(wanted)}
        return perform(step, fresh, n, show=show)

    for step, n, result, seen in done:
        if step[0] == 'hash' or step[0] in IDENTITY and species:
            continue
        with quiet(), numpy.errstate(all='ignore'):
            now = look(result) if seen == () else seen
        _, alone = redo(step, n)
        if not same(now, alone):
            fail(f'{step} on {given} after {[d[0] for d in done]} gave {now}, '
                 f'but {alone} by itself')
