"""P12 -- containers and helpers for iteration."""
from hypothesis import strategies as st

from eprempy import container
from vlib.harness import Property, ensure, equal, raises

PROPERTY = Property(
    'P12',
    rule=(
        'Cases are nested lists and tuples, pairs of sequences, tables of '
        'entries with requests, one-to-one mappings, graphs and histories of '
        'registrations. The oracle is a direct definition of each result. '
        'Non-trivial: more than one item takes part.'
    ),
    assumptions=[
        'A request with the iterative search may repeat keys of an entry '
        'that an earlier pair already determines.',
    ],
)

ITEMS = st.one_of(st.integers(-3, 5), st.sampled_from(
    ['a', 'b', 'word', '', None, 1.5]))


def nests(depth=3):
    if not depth:
        return ITEMS
    inner = nests(depth - 1)
    return st.one_of(ITEMS, st.lists(inner, max_size=3),
                     st.lists(inner, max_size=3).map(tuple))


def flat(x):
    return sum((flat(i) for i in x), []) if isinstance(x, (list, tuple)) \
        else [x]


@PROPERTY.facet(st.tuples(nests(), nests()), quick=1500, thorough=20000)
def nesting(case, t):
    """Unwrapping, wrapping, counting and distributing nested sequences."""
    x, y = case
    t.nontrivial(isinstance(x, (list, tuple)) and len(flat(x)) > 1)
    core = x
    while isinstance(core, (list, tuple)) and len(core) == 1:
        core = core[0]
    equal(container.unwrap(x), core, f'unwrap({x!r})')
    wrapped = [] if core is None else \
        list(core) if isinstance(core, (list, tuple)) else [core]
    for kind in (list, tuple):
        got = container.unwrap(x, newtype=kind)
        equal(got, kind(wrapped), f'unwrap({x!r}, {kind})')
        got = container.unwrap([[x]], newtype=kind)
        equal(got, kind(wrapped), f'unwrap([[{x!r}]], {kind})')
    expected = [] if x is None else \
        list(x) if isinstance(x, (list, tuple)) else [x]
    equal(container.wrap(x), expected, f'wrap({x!r})')
    w = container.Wrapper(x)
    equal(list(w), expected, f'Wrapper({x!r})')
    equal(len(w), len(expected), f'length of Wrapper({x!r})')
    separable = isinstance(x, (list, tuple))
    equal(container.isseparable(x), separable, f'isseparable({x!r})')
    equal(container.isiterable(x), separable or isinstance(x, str),
          f'isiterable({x!r})')
    if not separable:
        raises(TypeError, container.size, x)
    elif not any(isinstance(i, str) for i in flat(x)):
        equal(container.size(x), len(flat(x)), f'size({x!r})')
    equal(container.isshapelike(x) if not isinstance(x, str) else False,
          bool(separable and len(x)
               and all(isinstance(i, int) for i in x)),
          f'isshapelike({x!r})')
    other = isinstance(y, (list, tuple))
    if separable and other:
        expected = [(a, b) for a in x for b in y]
    elif separable:
        expected = [(a, y) for a in x]
    elif other:
        expected = [(x, b) for b in y]
    else:
        raises(TypeError, container.distribute, x, y)
        return
    equal(list(container.distribute(x, y)), expected,
          f'distribute({x!r}, {y!r})')


@PROPERTY.facet(
    st.tuples(st.lists(st.integers(0, 9), max_size=7),
              st.lists(st.integers(0, 9), max_size=7),
              st.booleans()), quick=1500, thorough=20000)
def sequences(case, t):
    """Removing repeated items, and merging sequences, respect order."""
    a, b, common = case
    firsts = [v for i, v in enumerate(a) if v not in a[:i]]
    equal(container.unique(a), firsts, f'unique({a})')
    equal(container.unique(a, strict=True), [a], f'unique({a}, strict)')
    if len(a) > 1:
        equal(container.unique(*a), firsts, f'unique(*{a})')
        equal(container.unique(*a, strict=True), firsts,
              f'unique(*{a}, strict)')
    x = firsts
    y = [v for i, v in enumerate(b) if v not in b[:i]]
    if common:
        # Shared items in the same order.
        places = {v: i for i, v in enumerate(x)}
        shared = iter(sorted((v for v in y if v in places), key=places.get))
        y = [next(shared) if v in places else v for v in y]
    both = [v for v in x if v in y]
    t.nontrivial(len(x) > 1 and len(y) > 1 and bool(both))
    if both != [v for v in y if v in x]:
        t.label('refused')
        raises(container.MergeError, container.merge, x, y)
        return
    got = container.merge(x, tuple(y))
    t.label('merged')
    equal(sorted(got), sorted({*x, *y}), f'members of merge({x}, {y})')
    equal([v for v in got if v in x], x, f'order of merge({x}, {y}) in {x}')
    equal([v for v in got if v in y], y, f'order of merge({x}, {y}) in {y}')
    # Of items between shared ones, those of the first come first.
    rank = {v: sum(got.index(s) < got.index(v) for s in both) for v in got}
    for i, v in enumerate(got):
        for w in got[i + 1:]:
            if rank[v] == rank[w] and v not in both and w not in both:
                ensure(not (v not in x and w in x),
                       f'merge({x}, {y}) is {got}')
    equal(container.merge(x, []), x, 'merge with nothing')
    equal(container.merge([], y), y, 'merge of nothing')
    equal(container.merge(x, x), x, 'merge with itself')


ENDS = st.one_of(st.none(), st.integers(-4, 9))
THINGS = st.one_of(ITEMS, st.lists(ITEMS, max_size=3),
                   st.lists(ITEMS, max_size=3).map(tuple))


@PROPERTY.facet(
    st.tuples(ENDS, ENDS, st.one_of(st.none(), st.sampled_from([1, 2, -1])),
              ENDS, st.lists(THINGS, max_size=4)), quick=1500, thorough=20000)
def slices(case, t):
    """A slice becomes the range with its start, stop and step, or with the
    default of each; the types of objects and of their members are found."""
    start, stop, step, default, things = case
    s = slice(start, stop, step)
    end = default if stop is None else stop
    if end is None:
        t.label('no end')
        raises(TypeError, container.slice2range, s, _what=str(s))
    else:
        t.nontrivial(stop is not None or start is not None)
        expected = range(start or 0, end, step or 1)
        got = container.slice2range(s) if default is None \
            else container.slice2range(s, stop=default)
        equal(got, expected, f'slice2range({s}, {default})')
    for kind in (str, int, list, tuple):
        known = [x for x in things if isinstance(x, kind)]
        first = container.find_first(kind, *things)
        ensure(first is (known[0] if known else None),
               f'first {kind} of {things} is {first!r}')
        for x in things:
            inner = x if isinstance(x, (list, tuple)) else ()
            any_ = isinstance(x, kind) or any(isinstance(i, kind)
                                              for i in inner)
            all_ = isinstance(x, kind) or isinstance(x, (list, tuple)) \
                and all(isinstance(i, kind) for i in inner)
            equal(container.hastype(x, kind), isinstance(x, kind),
                  f'{x!r} has type {kind}')
            equal(container.hastype(x, kind, list, tuple), any_,
                  f'{x!r} or members have type {kind}')
            equal(container.hastype(x, kind, list, tuple, strict=True), all_,
                  f'{x!r} or all members have type {kind}')
    for x in things:
        equal(container.length(x), len(x) if isinstance(x, (str, list, tuple))
              else 0, f'length of {x!r}')


# -------------------------------------------------------------------- tables

KEYS = ['name', 'kind', 'size']


@st.composite
def tables(draw):
    n = draw(st.integers(1, 6))
    values = {'name': ['n0', 'n1', 'n2', 'n3'], 'kind': ['cat', 'dog'],
              'size': [1, 2, 3]}
    rows = [{k: draw(st.sampled_from(values[k])) for k in KEYS}
            for _ in range(n)]
    for i, row in enumerate(rows):
        if draw(st.integers(0, 3)) == 0:
            row['extra'] = draw(st.sampled_from(
                ['e0', 'e1', '', 0, None, False]))
        if draw(st.integers(0, 9)) == 0:
            del row['size']
    keys = draw(st.permutations(KEYS))[:draw(st.integers(1, 3))]
    if draw(st.integers(0, 9)) == 0:
        keys.append(draw(st.sampled_from(['extra', 'missing'])))
    request = {}
    target = draw(st.sampled_from(rows))
    for k in keys:
        other = draw(st.integers(0, 5)) == 0
        request[k] = draw(st.sampled_from(values.get(k, ['e0']))) \
            if other or k not in target else target[k]
    return rows, request


@PROPERTY.facet(tables(), quick=1500, thorough=20000)
def tables_(case, t):
    """A table finds the entry that a request determines."""
    rows, request = case
    x = container.Table(rows)
    common = set.intersection(*(set(r) for r in rows))
    equal(len(x), len(rows), 'length')
    equal(list(x), rows, 'entries')
    equal(set(x.keys), common, 'common keys')
    for k in [*KEYS, 'extra']:
        if k in common:
            equal(x[k], tuple(r[k] for r in rows), f'table[{k!r}]')
        else:
            raises(container.TableKeyError, x.__getitem__, k)
        equal(x.get(k, -1), tuple(r.get(k, -1) for r in rows),
              f'table.get({k!r})')
    for v in ['n0', 'n3', 'cat', 1, 'nothing']:
        found = [r for r in rows if v in r.values()]
        if not found:
            raises(container.MissingValueError, x.find, v)
            continue
        equal(x.find(v), found, f'find({v!r})')
        if len(found) == 1:
            equal(x.find(v, unique=True), found[0], f'find unique {v!r}')
        else:
            raises(container.AmbiguousValueError, x.find, v, unique=True)
    t.nontrivial(len(rows) > 1 and len(request) > 1)
    refusals = (container.TableKeyError, container.TableLookupError,
                container.AmbiguousRequestError)
    # The strict search.
    matches = [r for r in rows if all(r.get(k, ...) == v
                                      for k, v in request.items())]
    if set(request) - common:
        t.label('unknown key')
        raises(container.TableKeyError, x, strict=True, **request)
    elif len(matches) == 1:
        t.label('unique')
        ensure(x(strict=True, **request) is matches[0], f'strict {request}')
    else:
        t.label('none' if not matches else 'ambiguous')
        raises(container.TableLookupError, x, strict=True, **request)
    # The iterative search stops at the first pair that decides.
    subset = rows
    for k, v in request.items():
        if k not in common:
            raises(container.TableKeyError, x, **request)
            return
        subset = [r for r in subset if r[k] == v]
        if len(subset) == 1:
            ensure(x(**request) is subset[0], f'{request} in {rows}')
            return
    raises(refusals[1:], x, **request, _what=f'{request} in {rows}')


# ------------------------------------------------------------------ mappings

@PROPERTY.facet(
    st.dictionaries(st.sampled_from('abcdef'), st.integers(0, 9), max_size=6),
    quick=500, thorough=5000)
def bijections(case, t):
    """A bijection maps back; anything else is refused."""
    t.nontrivial(len(case) > 1)
    if len(set(case.values())) < len(case):
        t.label('refused')
        raises(container.InjectiveTypeError, container.Bijection, case)
        return
    x = container.Bijection(case)
    equal(dict(x), case, 'items')
    y = x.invert()
    equal(dict(y), {v: k for k, v in case.items()}, 'inverse')
    equal(dict(y.invert()), case, 'inverse of the inverse')
    for k, v in case.items():
        equal(x.find(v), k, f'find({v})')
        equal(x.find(v, 'none'), k, f'find({v}, default)')
    raises(KeyError, x.find, 10)
    raises(KeyError, x.__getitem__, 'z')
    equal(x.find(10, 'none'), 'none', 'default')
    equal(x.find(10, None), None, 'default')
    equal(dict(x), case, 'items afterwards')


EDGES = st.lists(st.tuples(
    st.sampled_from('abcde'), st.sampled_from('abcde'),
    st.one_of(st.none(), st.sampled_from([2.0, 0.5, 4.0, 10.0, 3, 1e-3]))),
    max_size=8)


@PROPERTY.facet(st.tuples(EDGES, EDGES), quick=500, thorough=5000)
def graphs(case, t):
    """A graph has each link with its weight, and the inverse link with the
    inverse weight; links that exist are kept."""
    base, added = case
    x = container.Graph({(a, b): w for a, b, w in base})
    model = {}

    def add(a, b, w):
        model.setdefault((a, b), w)
        model.setdefault((b, a), None if w is None else 1 / w)

    for (a, b), w in {(a, b): w for a, b, w in base}.items():
        add(a, b, w)
    for a, b, w in added:
        x.add_connection(a, b, w)
        add(a, b, w)
    t.nontrivial(len(model) > 2)
    equal(x.connections, model, 'connections')
    equal(set(x), set(model), 'links')
    equal(len(x), len(model), 'number of links')
    equal(x.nodes, {n for e in model for n in e}, 'nodes')
    for a in 'abcdef':
        equal(x.get_adjacencies(a),
              {e: w for (s, e), w in model.items() if s == a},
              f'adjacencies of {a}')
        for b in 'abcdef':
            equal((a, b) in x, (a, b) in model, f'{a} to {b}')
            if (a, b) in model:
                equal(x.get_weight(a, b), model[(a, b)], f'{a} to {b}')
            else:
                raises(KeyError, x.get_weight, a, b)


REGISTRATIONS = st.lists(st.one_of(
    st.tuples(st.just('add'), st.sampled_from('abcd'), st.booleans(),
              st.booleans(), st.integers(0, 3)),
    st.tuples(st.just('reset')), st.tuples(st.just('copy')),
), max_size=8)


@PROPERTY.facet(st.tuples(
    st.dictionaries(st.sampled_from('ab'), st.integers(0, 9)),
    REGISTRATIONS, st.sampled_from(['object', 'f'])), quick=500,
    thorough=5000)
def registries(case, t):
    """A registry keeps each object with its metadata; a name in use is not
    overwritten unless requested; it resets to its start."""
    base, steps, key = case
    kw = {} if key == 'object' else {'object_key': key}
    x = container.ObjectRegistry(base, **kw)
    start = {k: {key: v} for k, v in base.items()}
    m = {k: dict(v) for k, v in start.items()}
    equal(dict(x), m, 'start')
    twins = []
    for i, (kind, *args) in enumerate(steps):
        t.label(kind)
        if kind == 'add':
            name, overwrite, decorate, meta = args

            def f():
                return i
            f.__qualname__ = f.__name__ = f'function{i}'
            if decorate:
                got = x.register(name=name, overwrite=overwrite,
                                 meta=meta)(f)
            else:
                got = x.register(f, name=name, overwrite=overwrite, meta=meta)
            ensure(got is f, 'register returns another object')
            where = name if overwrite or name not in m else f'function{i}'
            m[where] = {key: f, 'meta': meta}
        elif kind == 'reset':
            x.reset()
            m = {k: dict(v) for k, v in start.items()}
        else:
            twins.append((x.copy(), dict(m)))
        equal(dict(x), m, f'content after {i} steps')
        equal(len(x), len(m), 'size')
        for k in 'abcd':
            equal(k in x, k in m, f'{k} contained')
    t.nontrivial(len(steps) > 1)
    for y, n in twins:
        equal(dict(y), n, 'content of a copy')
