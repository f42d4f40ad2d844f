"""P11 -- names that are aliases of each other."""
from hypothesis import strategies as st

from eprempy import aliased
from vlib.harness import Property, ensure, equal, raises

PROPERTY = Property(
    'P11',
    rule=(
        'Cases are partitions of names into groups of aliases, in every form '
        'and order that the constructors accept, and histories of '
        'assignments, deletions, new aliases, groups, copies, merges and '
        'conversions. The oracle is a list of sets of names, each with one '
        'value. Non-trivial: some item has more than one name.'
    ),
    assumptions=['Names are strings; values are compared by equality.'],
)

NAMES = list('abcdefgh') + ['A', 'B', 'long name', 'x_1', '']
VALUES = st.one_of(st.integers(-9, 9), st.sampled_from(
    ['v', None, 0, (), {'n': 1}, {'aliases': 'zz', 'n': 1}]))


@st.composite
def partitions(draw, names=NAMES, size=5):
    """Disjoint lists of names, in the order of the items."""
    pool = draw(st.permutations(names))
    out = []
    for _ in range(draw(st.integers(0, size))):
        n = draw(st.integers(1, 3))
        if len(pool) >= n:
            out.append(tuple(pool[:n]))
            pool = pool[n:]
    return out


def check(x, model, what):
    """Compare a mapping with a list of pairs of a set and a value."""
    flat = {k: v for names, v in model for k in names}
    equal(len(x), len(flat), f'length of {what}')
    keys = list(x)
    equal(len(keys), len(flat), f'number of names of {what}')
    equal(set(keys), set(flat), f'names of {what}')
    equal(dict(x.items()), flat, f'items of {what}')
    equal(x.flat, flat, f'flat form of {what}')
    equal(list(x.keys()), keys, f'order of the keys of {what}')
    equal(list(x.values()), [flat[k] for k in keys], f'values of {what}')
    equal(list(x.items()), [(k, flat[k]) for k in keys],
          f'order of the items of {what}')
    for name in NAMES:
        equal(name in x, name in flat, f'{name!r} in {what}')
        if name in flat:
            equal(x[name], flat[name], f'{what}[{name!r}]')
            equal(x.get(name, 'none'), flat[name], f'{what}.get({name!r})')
            group = next(g for g, _ in model if name in g)
            equal(set(x.alias(name, include=True)), set(group),
                  f'aliases of {name!r} in {what}')
            equal(set(x.alias(name)), set(group) - {name},
                  f'other aliases of {name!r} in {what}')
            ensure(all(x[other] is x[name] for other in group),
                   f'aliases of {name!r} in {what} are different objects')
            equal(x[aliased.Group(*group)], flat[name],
                  f'{what}[Group{tuple(group)}]')
            equal(x[aliased.Group(*reversed(sorted(group)))], flat[name],
                  f'{what}[reversed Group{tuple(group)}]')
            # A group is only that item if it has the same aliases.
            for other in NAMES:
                pair = aliased.Group(name, other)
                equal(pair in x, set(pair) == set(group),
                      f'{pair} in {what}')
                if set(pair) != set(group):
                    raises(KeyError, x.__getitem__, pair)
        else:
            raises(KeyError, x.__getitem__, name)
            equal(x.get(name, 'none'), 'none', f'{what}.get({name!r})')
    grouped = list(x.items(aliased=True))
    equal(len(grouped), len(model), f'number of items of {what}')
    equal({(frozenset(k), repr(v)) for k, v in grouped},
          {(frozenset(k), repr(v)) for k, v in model},
          f'grouped items of {what}')
    equal([frozenset(k) for k in x.keys(aliased=True)],
          [frozenset(k) for k, _ in grouped], f'grouped keys of {what}')
    equal(list(x.values(aliased=True)), [v for _, v in grouped],
          f'grouped values of {what}')
    for f in (x.keys, x.values, x.items):
        equal(len(f(aliased=True)), len(model), f'length of {f} of {what}')
        equal(len(f()), len(flat), f'length of flat {f} of {what}')


# ------------------------------------------------------------------ building

@st.composite
def builds(draw):
    groups = draw(partitions())
    values = [draw(VALUES) for _ in groups]
    form = draw(st.sampled_from(
        ['tuples', 'aliases', 'key', 'groups', 'mapping', 'dict', 'mutable',
         'frozenset']))
    orders = [draw(st.permutations(g)) for g in groups]
    return groups, values, form, orders, draw(st.booleans())


def build(groups, values, form, orders, mutable=False):
    """A mapping in the given form, and its model."""
    cls = aliased.MutableMapping if mutable else aliased.Mapping
    model = [(frozenset(g), v) for g, v in zip(groups, values)]
    if form in ('tuples', 'frozenset', 'mutable'):
        # Explicit aliases in values would take part.
        model = [(g, {'n': 2} if isinstance(v, dict) else v)
                 for g, v in model]
        key = (lambda o: o[0] if len(o) == 1 else tuple(o)) \
            if form != 'frozenset' else (lambda o: aliased.Group(*o))
        given = {key(o): v for o, (_, v) in zip(orders, model)}
        if form == 'mutable':
            return cls(aliased.MutableMapping(given)), model
        return cls(given), model
    if form in ('aliases', 'key'):
        word = 'aliases' if form == 'aliases' else 'k'
        given, model = {}, []
        for i, o in enumerate(orders):
            first, *rest = o
            inner = {'n': i, 'other': [i]}
            if form == 'key':
                # The default key has no meaning then.
                inner['aliases'] = f'zz{i}'
            model.append((frozenset(o), dict(inner)))
            if rest:
                inner[word] = rest[0] if len(rest) == 1 else tuple(rest)
            given[first] = inner
        if form == 'aliases':
            return cls(given), model
        return cls(given, aliases=word), model
    plain = {o[0]: v for o, (_, v) in zip(orders, model)}
    if form == 'groups':
        return cls(plain, aliases=aliased.Groups(*map(list, orders),
                                                 ['unused', 'u'])), model
    if form == 'mapping':
        other = aliased.Mapping({tuple(o): i for i, o in enumerate(orders)})
        return cls(plain, aliases=other), model
    return cls(plain, aliases={o[0]: o[1] if len(o) == 2 else tuple(o[1:])
                               for o in orders}), model


@PROPERTY.facet(builds(), quick=1500, thorough=20000)
def mappings(case, t):
    """Every name of an item gives access to its one value, however the
    mapping was built; copies and equality preserve names and values."""
    groups, values, form, orders, mutable = case
    t.label(form)
    t.nontrivial(any(len(g) > 1 for g in groups))
    if form == 'dict' and not groups:
        t.label('skipped')
        return
    if form in ('groups', 'mapping', 'dict') and not groups:
        return
    if form in ('groups', 'mapping', 'dict'):
        values = [{'n': 3} if isinstance(v, dict) else v for v in values]
    x, model = build(groups, values, form, orders, mutable)
    check(x, model, 'the mapping')
    for name, f in {
        'copy': lambda: x.copy(),
        'new instance': lambda: type(x)(x),
        'immutable instance': lambda: aliased.Mapping(x),
    }.items():
        y = f()
        check(y, model, name)
        ensure(y == x and x == y, f'{name} differs')
        ensure(not (x != y), f'{name} is unequal')
    flat = {k: v for g, v in model for k in g}
    ensure(x == flat and flat == x, 'differs from its flat form')
    if flat:
        smaller = dict(flat)
        smaller.popitem()
        ensure(x != smaller, 'equals a smaller mapping')
    keys = aliased.Mapping.fromkeys(x, value=7)
    check(keys, [(g, 7) for g, _ in model], 'mapping from keys')
    keys = aliased.Mapping.fromkeys(
        [tuple(o) for o in orders], value=None)
    check(keys, [(g, None) for g, _ in model], 'mapping from groups')
    keys = aliased.Mapping.fromkeys(
        aliased.Groups(*map(tuple, orders)), value=0)
    check(keys, [(g, 0) for g, _ in model], 'mapping from a Groups')
    if form in ('aliases',) and model:
        given = [(g, {'k': v['n']}) for g, v in model]
        y = aliased.Mapping({aliased.Group(*g): v for g, v in given})
        check(y.copy().squeeze(), [(g, v['k']) for g, v in given],
              'squeezed mapping')
        check(y.copy().squeeze(strict=True),
              [(g, v['k']) for g, v in given], 'squeezed mapping')
        # One entry with more values, or none, keeps all of them.
        for k in {0, len(given) // 2, len(given) - 1}:
            for new in ({}, {'k': 1, 'l': 2}):
                mixed = [(g, new if i == k else v)
                         for i, (g, v) in enumerate(given)]
                z = aliased.Mapping({aliased.Group(*g): v for g, v in mixed})
                for strict in (False, True):
                    check(z.copy().squeeze(strict=strict), mixed,
                          'mapping that cannot be squeezed')
        if len(given) > 1:
            other = [(g, {'j': v['k']} if i else v)
                     for i, (g, v) in enumerate(given)]
            z = aliased.Mapping({aliased.Group(*g): v for g, v in other})
            raises(TypeError, z.copy().squeeze, strict=True)
            check(z.copy().squeeze(), [(g, v['k']) for g, v in given],
                  'mapping squeezed in spite of different keys')


# ----------------------------------------------------------------- histories

names = st.sampled_from(NAMES[:8])
values_ = st.integers(-9, 9)
STEPS = st.lists(st.one_of(
    st.tuples(st.just('set'), names, values_),
    st.tuples(st.just('set'), names, values_),
    st.tuples(st.just('delete'), names),
    st.tuples(st.just('alias'), names, st.lists(names, min_size=1,
                                                max_size=2)),
    st.tuples(st.just('alias'), names, st.lists(names, min_size=1,
                                                max_size=2)),
    st.tuples(st.just('update'), st.dictionaries(names, values_,
                                                 max_size=3)),
    st.tuples(st.just('pop'), names),
    st.tuples(st.just('setdefault'), names, values_),
    st.tuples(st.just('popitem')),
    st.tuples(st.just('clear')),
    st.tuples(st.just('group'), st.sampled_from(['G', 'H']),
              st.lists(names, min_size=1, max_size=3)),
    st.tuples(st.just('copy')),
    st.tuples(st.just('freeze')),
    st.tuples(st.just('merge'), partitions(NAMES[:8], 3), values_),
), max_size=10)


class Model:
    def __init__(self, items):
        self.items = [[set(g), v] for g, v in items]
        self.groups = {}

    def find(self, name):
        return next((i for i in self.items if name in i[0]), None)

    def pairs(self):
        return [(frozenset(g), v) for g, v in self.items]


@PROPERTY.facet(st.tuples(partitions(NAMES[:8], 4), STEPS), quick=1500,
                thorough=30000, shards=2)
def histories(case, t):
    """Updates, deletions and new aliases apply to all names of an item."""
    start, steps = case
    x = aliased.MutableMapping({g: i for i, g in enumerate(start)})
    m = Model((g, i) for i, g in enumerate(start))
    check(x, m.pairs(), 'the start')
    done = []
    for step in steps:
        kind, *args = step
        done.append(step)
        t.label(kind)
        frozen = m.pairs()
        if kind == 'set':
            k, v = args
            x[k] = v
            item = m.find(k)
            if item:
                item[1] = v
            else:
                m.items.append([{k}, v])
        elif kind == 'delete':
            item = m.find(args[0])
            if item:
                del x[args[0]]
                m.items.remove(item)
            else:
                raises(KeyError, x.__delitem__, args[0])
        elif kind == 'alias':
            k, new = args
            item = m.find(k)
            fresh = [n for n in new if n != k]
            if item is None:
                # Nothing to alias.
                continue
            if any(m.find(n) for n in fresh) or len(set(fresh)) < len(fresh):
                # Names in use are refused; earlier ones may be added.
                if m.find(fresh[0]):
                    raises(KeyError, x.alias, k, *new)
                continue
            x.alias(k, *new)
            item[0].update(new)
        elif kind == 'update':
            x.update(args[0])
            for k, v in args[0].items():
                item = m.find(k)
                if item:
                    item[1] = v
                else:
                    m.items.append([{k}, v])
        elif kind == 'pop':
            item = m.find(args[0])
            got = x.pop(args[0], 'none')
            equal(got, item[1] if item else 'none', f'pop after {done}')
            if item:
                m.items.remove(item)
        elif kind == 'setdefault':
            k, v = args
            item = m.find(k)
            equal(x.setdefault(k, v), item[1] if item else v,
                  f'setdefault after {done}')
            if not item:
                m.items.append([{k}, v])
        elif kind == 'popitem':
            if not m.items:
                raises(KeyError, x.popitem)
                continue
            k, v = x.popitem()
            item = m.find(k)
            ensure(item is not None and item[1] == v,
                   f'popped {k!r}: {v!r} after {done}')
            m.items.remove(item)
        elif kind == 'clear':
            x.clear()
            m.items.clear()
        elif kind == 'group':
            g, keys = args
            if all(m.find(k) for k in keys):
                x.group(g, *keys)
                m.groups[g] = tuple(keys)
        elif kind == 'copy':
            old, x = x, x.copy()
            old['a'] = 'changed'
            old.alias('a', 'new name')
            old.group('only in the original', 'a')
            raises(KeyError, x.group, 'only in the original')
            raises(KeyError, x.__getitem__, 'only in the original')
            equal(old.group('only in the original'), ('a',),
                  f'group of an original after {done}')
        elif kind == 'merge':
            other, v = args
            taken = {k for g, _ in m.pairs() for k in g}
            other = [g for g in other
                     if not taken & set(g) or
                     any(set(g) == s for s, _ in m.pairs())]
            y = aliased.Mapping({g: v for g in other})
            z = x | y
            expected = [(g, v if any(set(o) == g for o in other) else w)
                        for g, w in frozen]
            expected += [(frozenset(g), v) for g in other
                         if not any(set(g) == s for s, _ in frozen)]
            check(z, expected, f'union with {other} after {done}')
            check(y, [(frozenset(g), v) for g in other],
                  f'operand of a union after {done}')
        if kind == 'freeze':
            check(x.freeze(), m.pairs(), f'frozen mapping after {done}')
        check(x, m.pairs(), f'mapping after {done}')
        live = {}
        for g, keys in m.groups.items():
            equal(x.group(g), keys, f'group {g} after {done}')
            found = [m.find(k) for k in keys]
            if all(found):
                live[g] = tuple(i[1] for i in found)
                equal(x[g], live[g], f'values of {g} after {done}')
        if kind == 'freeze' and len(live) == len(m.groups):
            y = x.freeze(groups=True)
            check(y, [*m.pairs(), *((frozenset([g]), v)
                                    for g, v in live.items())],
                  f'frozen mapping with groups after {done}')
    t.nontrivial(any(len(g) > 1 for g, _ in m.pairs()))


# -------------------------------------------------------------------- groups

@PROPERTY.facet(
    st.tuples(st.lists(names, min_size=1, max_size=4),
              st.lists(names, min_size=1, max_size=4),
              st.randoms(use_true_random=False).map(lambda r: r.random())),
    quick=800, thorough=8000)
def groups(case, t):
    """A group acts as the set of its aliases."""
    one, two, _ = case
    a, b = set(one), set(two)
    x, y = aliased.Group(*one), aliased.Group(two)
    t.nontrivial(len(a & b) > 0 and a != b)
    equal(set(x), a, 'members')
    equal(len(x), len(a), 'size')
    for form in (tuple(one), list(one), a, x, aliased.Group(*reversed(one))):
        z = aliased.Group(form)
        ensure(x == z and z == x, f'differs from the group of {form}')
        equal(hash(x), hash(z), f'hash of the group of {form}')
        ensure(x == form, f'differs from {form}')
    equal(x == y, a == b, 'equality')
    equal(x != y, a != b, 'inequality')
    if a == b:
        equal(hash(x), hash(y), 'hash')
    equal(set(x | y), a | b, 'union')
    if a & b:
        equal(set(x & y), a & b, 'intersection')
    if a - b:
        equal(set(x - y), a - b, 'difference')
    if a ^ b:
        equal(set(x ^ y), a ^ b, 'symmetric difference')
    equal(x.isdisjoint(y), a.isdisjoint(b), 'disjoint')
    for name in NAMES:
        equal(name in x, name in a, f'{name!r} in group')
    equal(set(x), a, 'members afterwards')


def union(sets):
    """Merge the sets that overlap."""
    out = []
    for s in map(set, sets):
        rest = []
        for o in out:
            if o & s:
                s |= o
            else:
                rest.append(o)
        out = [*rest, s]
    return {frozenset(s) for s in out}


COLLECTION = st.lists(st.one_of(
    st.tuples(st.just('update'), st.lists(
        st.lists(names, min_size=1, max_size=3), min_size=1, max_size=2)),
    st.tuples(st.just('update with'), partitions(NAMES[:8], 3)),
    st.tuples(st.just('merge'), partitions(NAMES[:8], 3)),
    st.tuples(st.just('add'), st.lists(names, min_size=1, max_size=6,
                                       unique=True)),
    st.tuples(st.just('discard'), names),
    st.tuples(st.just('remove'), names),
    st.tuples(st.just('without'), st.lists(names, max_size=3)),
), max_size=8)


@PROPERTY.facet(st.tuples(partitions(NAMES[:8], 4), COLLECTION), quick=1000,
                thorough=15000)
def collections(case, t):
    """Groups of aliases stay disjoint: adding an alias of a member extends
    its group and joins the groups that it connects."""
    start, steps = case
    x = aliased.Groups(*start)
    m = {frozenset(g) for g in start}
    done = []
    for kind, arg in [('start', None), *steps]:
        done.append((kind, arg))
        t.label(kind)
        if kind == 'update':
            x.update(*(list(g) for g in arg))
            m = union([*m, *arg])
        elif kind == 'update with':
            x.update(aliased.Groups(*arg))
            m = union([*m, *arg])
        elif kind == 'merge':
            y = x.merge(aliased.Groups(*arg))
            equal({frozenset(g) for g in y}, union([*m, *arg]),
                  f'groups merged after {done}')
            equal(len(y), len(union([*m, *arg])),
                  f'number of groups merged after {done}')
        elif kind == 'add':
            if any(set(arg) & g for g in m):
                raises(ValueError, x.add, tuple(arg))
            else:
                x.add(tuple(arg))
                m = m | {frozenset(arg)}
        elif kind == 'discard':
            x.discard(arg)
            m = {g for g in m if arg not in g}
        elif kind == 'remove':
            if any(arg in g for g in m):
                x.remove(arg)
                m = {g for g in m if arg not in g}
            else:
                raises(KeyError, x.remove, arg)
        elif kind == 'without':
            y = x.without(*arg)
            equal({frozenset(g) for g in y},
                  {g for g in m if not set(arg) & g},
                  f'groups without {arg} after {done}')
        equal({frozenset(g) for g in x}, m, f'groups after {done}')
        equal(len(x), len(m), f'number of groups after {done}')
        equal(sorted(x.flat), sorted(k for g in m for k in g),
              f'flat groups after {done}')
        for name in NAMES:
            found = next((g for g in m if name in g), None)
            equal(name in x, found is not None, f'{name!r} in {done}')
            if found:
                equal(set(x[name]), set(found), f'group of {name!r}')
                equal(set(x.get(name)), set(found), f'group of {name!r}')
                equal(set(x[tuple(found)]), set(found), f'group {found}')
            else:
                raises(KeyError, x.__getitem__, name)
                equal(x.get(name, 'none'), 'none', f'group of {name!r}')
        ensure(x == aliased.Groups(*map(tuple, m)), f'equality after {done}')
    t.nontrivial(any(len(g) > 1 for g in m))


@PROPERTY.facet(
    st.tuples(partitions(), st.sampled_from(
        ['iterable', 'mapping', 'nested', 'keyed']),
        st.sampled_from(['none', 'list', 'dict']),
        st.lists(st.sampled_from(['n1', 'n2']), unique=True),
        st.lists(st.sampled_from(['y1', 'y2', 'y3']), unique=True)),
    quick=600, thorough=6000)
def canonical(case, t):
    """A name map takes each alias to its canonical name."""
    groups, form, refs, extra, strange = case
    first = [g[0] for g in groups]
    if form == 'iterable' and refs == 'none':
        refs = 'list'
    t.label(form, refs)
    t.nontrivial(any(len(g) > 1 for g in groups))
    key = 'alt' if form == 'keyed' else 'aliases'
    if form == 'iterable':
        # Definitions without a canonical name say nothing.
        defs = [list(g) for g in groups]
        defs[len(defs) // 2:len(defs) // 2] = [strange] if strange else []
        t.label('strange' if strange else 'known')
    elif form == 'mapping':
        defs = {g[0]: (g[1] if len(g) == 2 else list(g[1:])) for g in groups}
    else:
        defs = {g[0]: {key: g[1] if len(g) == 2 else list(g[1:]), 'n': 1}
                for g in groups}
    expected = {k: g[0] for g in groups for k in g}
    kw = {'key': key} if form == 'keyed' else {}
    if refs != 'none':
        given = [*first, *extra]
        kw['refs'] = given if refs == 'list' else dict.fromkeys(given, 1)
        expected.update({k: k for k in extra})
    x = aliased.NameMap(defs, **kw)
    for y, what in ((x, 'name map'), (x.copy(), 'copy')):
        equal(len(y), len(expected), f'size of {what}')
        equal(set(y), set(expected), f'names of {what}')
        for k, v in expected.items():
            equal(y[k], v, f'{what}[{k!r}]')
            ensure(k in y, f'{k!r} not in {what}')
        equal(dict(y.items()), expected, f'items of {what}')
        equal(len(list(y.keys(aliased=True))), len(set(expected.values())),
              f'number of canonical names of {what}')
        raises(KeyError, y.__getitem__, 'missing')
