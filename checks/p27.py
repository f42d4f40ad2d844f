"""P27 -- the numeric framework applies the operations it is asked for."""
import math
import numbers
import operator

import numpy
from hypothesis import strategies as st

from eprempy import base
from eprempy import numeric
from eprempy import real
from vlib.harness import Property, ensure, equal, fail, raises, short

PROPERTY = Property(
    'P27',
    rule=(
        'Cases are names, aliases and groups of operators with generated '
        'operands; class hierarchies that register operators, numpy functions '
        'and factories, with histories of operations on their instances; and '
        'data for the predicates. The oracle is plain Python and numpy, and a '
        'dictionary of what each class registered. Non-trivial: operands for '
        'which the order matters, more than one class, or more than one value.'
    ),
    assumptions=[
        'Operator groups of a single argument other than the unary operators '
        'are refused by design.',
        'Values within 1e-4 but not 1e-7 of a datum are not tested for '
        'closeness.',
    ],
)

BINARY = {
    'eq': (operator.eq, ['equal']),
    'ne': (operator.ne, ['not equal', 'unequal']),
    'lt': (operator.lt, ['less than', 'less']),
    'le': (operator.le, ['less than or equal to', 'less or equal']),
    'gt': (operator.gt, ['greater than', 'greater']),
    'ge': (operator.ge, ['greater than or equal to', 'greater or equal']),
    'add': (operator.add, ['addition']),
    'sub': (operator.sub, ['subtraction', 'subtract']),
    'mul': (operator.mul, ['multiplication', 'multiply']),
    'truediv': (operator.truediv, [
        'true divide', 'true_divide', 'divide', 'division', 'true division',
        'floating-point division']),
    'floordiv': (operator.floordiv, [
        'floor divide', 'floor_divide', 'floor division']),
    'mod': (operator.mod, ['remainder']),
    'pow': (operator.pow, ['power']),
}
UNARY = {
    'abs': (abs, ['absolute']),
    'pos': (operator.pos, ['positive']),
    'neg': (operator.neg, ['negative']),
    'round': (round, []),
    'floor': (math.floor, []),
    'ceil': (math.ceil, ['ceiling']),
    'trunc': (math.trunc, ['truncate']),
    'int': (int, []),
    'float': (float, []),
    'complex': (complex, []),
}
ARITHMETIC = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow']
GROUPS = {
    'cast': ['int', 'float', 'complex'],
    'unary': ['abs', 'pos', 'neg'],
    'ordering': ['lt', 'le', 'gt', 'ge'],
    'additive': ['add', 'sub'],
    'multiplicative': ['mul', 'truediv'],
    'math': ['floor', 'ceil', 'trunc'],
    'comparative': ['lt', 'le', 'gt', 'ge', 'eq', 'ne'],
    'algebraic': ['add', 'sub', 'mul', 'truediv', 'pow'],
    'binary': ['lt', 'le', 'gt', 'ge', 'eq', 'ne', 'add', 'sub', 'mul',
               'truediv'],
}
GROUPS['real'] = [*GROUPS['comparative'], *GROUPS['algebraic'],
                  *GROUPS['unary'], 'floordiv', 'mod']
GROUPS['scalar'] = [*GROUPS['real'], 'round']

number = st.one_of(
    st.integers(-9, 9), st.floats(-50, 50, allow_subnormal=False).map(
        lambda x: round(x, 3)))


def same(got, expected, what):
    equal((type(got), got), (type(expected), expected), what)


@PROPERTY.facet(
    st.tuples(st.sampled_from(sorted(BINARY) + sorted(UNARY)),
              st.integers(0, 6), number, number),
    quick=600, thorough=6000)
def named_operators(case, t):
    """Each name and alias of an operator gives that operator, with its
    operands in the order of the method it is asked for."""
    name, k, x, y = case
    binary = name in BINARY
    f, aliases = (BINARY if binary else UNARY)[name]
    keys = [name, *aliases]
    key = keys[k % len(keys)]
    t.label(name)
    t.nontrivial(x != y)
    if binary and name in ('truediv', 'floordiv', 'mod', 'pow'):
        x, y = abs(x) + 0.5, abs(y) % 5 + 0.25
    args = (x, y) if binary else (x,)
    expected = f(*args)
    what = f'{key} of {args}'
    same(numeric.OPERATORS[key](*args), expected, what)
    same(numeric.OPERATORS(key, *args), expected, f'called {what}')
    same(numeric.FUNCTIONS[key](*args), expected, f'function {what}')
    same(numeric.CALLABLES[name](*args), expected, f'callable {what}')
    same(numeric.OPERATIONS[name]['builtin'](*args), expected,
         f'built-in {what}')
    found = list(numeric.OPERATORS.generate(key))
    equal(len(found), 1, f'generate {key}')
    same(found[0](*args), expected, f'generated {what}')
    methods = numeric.METHODS[key]
    arithmetic = name in ARITHMETIC
    equal(len(methods), 3 if arithmetic else 1, f'methods of {key}')
    same(methods[0](*args), expected, f'forward {what}')
    if arithmetic:
        same(methods[1](y, x), expected, f'reverse {what}')
        same(methods[2](*args), expected, f'inplace {what}')
    equal([m for m in numeric.IMPLEMENTATIONS[key]][1:], list(methods),
          f'implementations of {key}')
    same(numeric.IMPLEMENTATIONS[key][0](*args), expected,
         f'implementation {what}')
    dunder = f'__{name}__'
    same(numeric.DUNDER[dunder](*args), expected, f'{dunder} of {args}')
    equal(numeric.DUNDER.invert()[numeric.DUNDER[dunder]], dunder,
          f'name of {dunder}')
    if arithmetic:
        reverse = f'__r{name}__'
        same(numeric.DUNDER[reverse](y, x), expected, f'{reverse} of {args}')


@PROPERTY.facet(
    st.tuples(st.sampled_from(sorted(GROUPS)),
              st.lists(st.sampled_from(sorted(GROUPS) + sorted(BINARY)),
                       max_size=2),
              st.lists(st.sampled_from(sorted(BINARY) + sorted(UNARY)),
                       max_size=4, unique=True),
              number, number),
    quick=300, thorough=3000)
def operator_groups(case, t):
    """A group of operators has its members, leaves out those that are
    excluded, and gives the result of each of them under its own name."""
    group, more, excluded, x, y = case
    t.label(group)
    t.nontrivial(bool(more or excluded))
    x, y = abs(x) + 0.5, abs(y) % 5 + 0.25
    members = GROUPS[group]
    table = {**BINARY, **UNARY}
    operators = numeric.OPERATORS
    equal(list(operators[group]), [operators[n] for n in members], group)
    names = []
    for n in [group, *more]:
        names.extend(GROUPS.get(n, [n]))
    wanted = set(names) - set(excluded)
    found = list(operators.generate(group, *more, excluded=excluded))
    what = f'generate {[group, *more]} without {excluded}'
    equal(len(found), len(wanted), what)
    equal(set(found), {operators[n] for n in wanted}, what)
    raises(KeyError, operators.callgroup, f'no {group}', x, y)
    raises(ValueError, operators, f'no {group}', x, y)
    if group == 'unary':
        expected = {n: table[n][0](-x) for n in members}
        equal(operators.callgroup(group, -x), expected, f'{group} of {-x}')
        equal(operators(group, -x), tuple(expected.values()),
              f'{group} of {-x}')
        expected = {n: (table[n][0](-x), table[n][0](y)) for n in members}
        equal(operators.callgroup(group, -x, y), expected,
              f'{group} of {-x} and {y}')
        return
    raises(ValueError, operators.callgroup, group, x,
           _what=f'{group} of one argument')
    if group in ('cast', 'math', 'scalar'):
        return
    expected = {
        n: (table[n][0](x), table[n][0](y)) if n in UNARY
        else table[n][0](x, y) for n in members}
    got = operators.callgroup(group, x, y)
    equal(got, expected, f'{group} of {x} and {y}')
    if group != 'real':
        equal(operators(group, x, y), tuple(expected[n] for n in members),
              f'{group} called with {x} and {y}')


def make_class(name, base, own, numpy_array=False):
    """A subclass of `base` that supports operators; with `own`, it has
    registries of its own, and otherwise it shares those of `base`."""
    body = {}
    if own:
        body['_OPERATORS'] = {}
        body['_FUNCTIONS'] = {}
    if base is None:
        for n in ARITHMETIC:
            f, r = numeric.implementation.doublet(n)
            body[f'__{n}__'], body[f'__r{n}__'] = f, r
        for n in ('lt', 'le', 'gt', 'ge'):
            body[f'__{n}__'] = numeric.implementation.binary(n)
        for n in ('abs', 'neg', 'pos'):
            body[f'__{n}__'] = numeric.implementation.unary(n)
        if numpy_array:
            body['_get_numpy_array'] = lambda self: numpy.array(self.data)
        return type(name, (numeric.Object, numeric.Operators), body)
    return type(name, (base,), body)


REGISTERED = ARITHMETIC + ['lt', 'le', 'gt', 'ge', 'abs', 'neg', 'pos']
REFLECTED = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}
SPELLED = ['name', 'alias', 'callable']


@PROPERTY.facet(
    st.tuples(
        st.lists(st.booleans(), min_size=1, max_size=3),
        st.lists(st.tuples(st.integers(0, 2), st.sampled_from(REGISTERED),
                           st.sampled_from(SPELLED)), max_size=8),
        st.lists(st.tuples(st.integers(0, 2), st.sampled_from(REGISTERED),
                           st.integers(0, 3)), min_size=1, max_size=6)),
    quick=400, thorough=4000)
def custom_operators(case, t):
    """An operator applies what the class of its operand registered for it,
    under any of its names, to the operands in order; a class that registered
    nothing for it does not support it."""
    owns, registrations, uses = case
    classes, registries = [], []
    for i, own in enumerate([True, *owns[1:]]):
        base = classes[-1] if classes else None
        classes.append(make_class(f'C{i}', base, own))
        registries.append({} if own else registries[-1])
    t.nontrivial(len(registrations) > 1 and len(classes) > 1)
    for i, (c, name, spelled) in enumerate(registrations):
        c %= len(classes)
        table = {**BINARY, **UNARY}
        f, aliases = table[name]
        canonical = getattr(numeric.operators, name)
        key = {'name': name, 'callable': canonical}.get(
            spelled, aliases[i % len(aliases)] if aliases else name)
        tag = (i, name)

        def implementation(*args, tag=tag, **kwargs):
            return (tag, *args)

        equal(classes[c].implements(key)(implementation), implementation,
              f'decorated {name}')
        registries[c][name] = tag
    for c, name, how in uses:
        c %= len(classes)
        x = classes[c](3)
        tag = registries[c].get(name)
        what = f'{name} of class {c} after {registrations} ({owns})'
        equal(classes[c]._implements(name), tag is not None, f'support: {what}')
        if name in ('abs', 'neg', 'pos'):
            f = UNARY[name][0]
            if tag is None:
                raises(TypeError, f, x, _what=what)
            else:
                t.label('unary')
                equal(f(x), (tag, x), what)
            continue
        f = BINARY[name][0]
        left, right = {
            0: (x, 5), 1: (5, x), 2: (x, classes[c](7)), 3: (x, 'text'),
        }[how]
        if how == 1 and name not in ARITHMETIC:
            continue
        reflected = registries[c].get(REFLECTED.get(name))
        if tag is None and how == 2 and reflected is not None:
            # Python tries the other operand.
            t.label('reflected')
            got = f(left, right)
            ensure(got[0] == reflected and got[1] is right and got[2] is left,
                   f'{what} gives {short(got)}')
        elif tag is None:
            t.label('unsupported')
            raises(TypeError, f, left, right, _what=what)
        else:
            t.label('reverse' if how == 1 else 'forward')
            got = f(left, right)
            ensure(got[0] == tag and got[1] is left and got[2] is right,
                   f'{what} gives {short(got)}')


UFUNCS = [numpy.sqrt, numpy.square, numpy.negative, numpy.absolute,
          numpy.exp]
PAIRS = [numpy.subtract, numpy.arctan2, numpy.maximum, numpy.hypot]
PUBLIC = [numpy.mean, numpy.sum, numpy.cumsum, numpy.max]


@PROPERTY.facet(
    st.tuples(
        st.booleans(), st.booleans(),
        st.lists(st.tuples(st.integers(0, 1), st.integers(0, 12)),
                 max_size=6),
        st.lists(st.tuples(st.integers(0, 1), st.integers(0, 12),
                           st.sampled_from(['plain', 'out', 'reverse'])),
                 min_size=1, max_size=6),
        st.lists(st.integers(1, 9), min_size=1, max_size=4)),
    quick=400, thorough=4000)
def numpy_functions(case, t):
    """A numpy function of an object applies what its class registered for the
    function, and otherwise the function itself to the data of the object;
    functions that are not universal are refused without an array."""
    own, arrays, registrations, uses, values = case
    everything = [*UFUNCS, *PAIRS, *PUBLIC]
    first = make_class('A', None, True, arrays)
    classes = [first, make_class('B', first, own)]
    registries = [{}, {}]
    if not own:
        registries[1] = registries[0]
    for i, (c, k) in enumerate(registrations):
        f = everything[k % len(everything)]

        def implementation(*args, tag=i, **kwargs):
            return (tag, args, kwargs)

        classes[c].implements(f)(implementation)
        registries[c][f] = i
    t.nontrivial(bool(registrations) and len(values) > 1)
    data = numpy.array(values, dtype=float)
    for c, k, how in uses:
        f = everything[k % len(everything)]
        x = classes[c](data.copy())
        what = f'{f.__name__} of {values} ({how})'
        tag = registries[c].get(f)
        equal(classes[c]._implements(f), tag is not None, f'support: {what}')
        args, plain = (x,), (data,)
        if f in PAIRS:
            other = 2.5
            args, plain = (x, other), (data, other)
            if how == 'reverse':
                args, plain = args[::-1], plain[::-1]
        kwargs = {}
        if how == 'out' and f not in PUBLIC:
            target = numpy.zeros_like(data)
            kwargs['out'] = target
        if tag is not None:
            t.label('registered')
            got = f(*args, **kwargs)
            equal(got[0], tag, what)
            ensure(all(a is b for a, b in zip(got[1], args)), what)
            continue
        if f in PUBLIC and not arrays:
            t.label('refused')
            raises(TypeError, f, *args, _what=what)
            continue
        t.label('applied')
        got = f(*args, **kwargs)
        expected = f(*plain)
        ensure(numpy.array_equal(got, expected),
               f'{what} gives {short(got)}, not {short(expected)}')
        if kwargs:
            ensure(numpy.array_equal(target, expected), f'{what}: output')
        ensure(numpy.array_equal(x.data, data), f'{what}: the operand')
        if f in UFUNCS or f in PAIRS:
            raises(TypeError, f, *(x, {'a': 1})[:len(plain)][::-1], 'text',
                   _what=f'{what}: text')
    holder = type('H', (numeric.Object, numeric.Functions), {})
    raises(NotImplementedError, lambda: holder.implements(numpy.sqrt)(abs))
    raises(TypeError, holder.implements, 'a name')


@PROPERTY.facet(
    st.tuples(
        st.lists(st.sampled_from(['none', 'plain', 'mutable', 'both']),
                 min_size=1, max_size=4),
        st.lists(st.sampled_from(['color', 'size']), min_size=1, max_size=2,
                 unique=True),
        st.integers(-5, 5), st.booleans()),
    quick=300, thorough=3000)
def factories(case, t):
    """Objects of a class are made by the factory of that class, not of its
    base or of its subclasses; a factory does not change the attributes of an
    existing object unless they are declared to be mutable."""
    kinds, given, value, quantity = case
    t.nontrivial(len(kinds) > 1)
    root = numeric.Quantity if quantity else numeric.Object
    classes, made = [], []

    def build(cls):
        def init(self, data, color=None, size=None):
            root.__init__(self, data)
            self.color, self.size = color, size
        cls.__init__ = init

    for i, kind in enumerate(kinds):
        cls = type(f'K{i}', (classes[-1] if classes else root,), {})
        if not classes:
            build(cls)
        classes.append(cls)

        def factory(x, cls=cls, i=i, **kwargs):
            made.append(i)
            return cls(x, **kwargs)

        factory.__annotations__['return'] = cls
        if kind == 'plain':
            cls.register.factory(factory)
        elif kind in ('mutable', 'both'):
            names = ['color'] if kind == 'mutable' else ['color', 'size']
            ensure(callable(cls.register.factory(mutable=names)(factory)),
                   'decorator')
    raises(NotImplementedError, root.spawn, value,
           _what=f'spawn of {root.__qualname__}')
    metadata = {k: f'{k} of it' for k in given}
    for i, (cls, kind) in enumerate(zip(classes, kinds)):
        what = f'K{i} of {kinds}'
        for source in (cls, cls(0)):
            made.clear()
            new = source.spawn(value, **metadata)
            equal(type(new), cls, f'{what}: type')
            equal(made, [] if kind == 'none' else [i], f'{what}: factory')
            equal({k: getattr(new, k) for k in given}, metadata,
                  f'{what}: attributes')
        equal(cls.has('factory'), True, f'{what}: has a factory')
        equal(cls.has('anything'), False, f'{what}: has another attribute')
        raises(KeyError, lambda: cls.register['anything'])
        if kind == 'none' or quantity:
            continue
        old = cls(value)
        mutable = {'plain': [], 'mutable': ['color'],
                   'both': ['color', 'size']}[kind]
        if all(k in mutable for k in given):
            t.label('changed')
            new = cls.spawn(old, **metadata)
            equal({k: getattr(new, k) for k in given}, metadata,
                  f'{what}: changed')
        else:
            t.label('refused')
            raises(ValueError, cls.spawn, old, _what=what, **metadata)
        nothing = {k: None for k in given}
        equal(type(cls.spawn(old, **nothing)), cls, f'{what}: unchanged')


@PROPERTY.facet(
    st.tuples(
        st.lists(st.sampled_from(['color', 'size', 'unit']), max_size=2,
                 unique=True),
        st.sampled_from(['strict', 'strict names', 'returns', 'relaxed']),
        st.sampled_from(['number', 'object', 'list']),
        st.lists(st.tuples(st.sampled_from(['color', 'size', 'unit']),
                           st.one_of(st.none(), st.integers(0, 3))),
                 max_size=3, unique_by=lambda x: x[0])),
    quick=400, thorough=4000)
def strict_factories(case, t):
    """A strict factory refuses to change an attribute of an existing object,
    accepts all attributes for new data, and otherwise gives what the
    decorated function gives."""
    names, how, source, given = case
    cls = type('T', (numeric.Object,), {})

    def factory(x, color=None, size=None, unit=None):
        """Make one."""
        return (x, color, size, unit)

    if how == 'strict':
        wrapped, protected = numeric.factory.strict(factory), None
    elif how == 'strict names':
        if not names:
            return
        wrapped, protected = numeric.factory.strict(*names)(factory), names
    else:
        # A registered factory is strict by default; the registry of the
        # class is strict about all attributes in any case.
        decorated = numeric.factory.returns(cls, strict=how == 'returns')
        wrapped, protected = decorated(factory), None
        equal(cls.registered.factory, wrapped, 'the registered factory')
        raises(TypeError, numeric.factory.returns(int), factory,
               _what='a type that is not numeric')
    equal((wrapped.__name__, wrapped.__doc__), ('factory', 'Make one.'),
          'the wrapped function')
    kwargs = dict(given)
    x = {'number': 3, 'list': [1, 2], 'object': numeric.Object(3)}[source]
    changes = [k for k, v in given
               if v is not None and (protected is None or k in protected)]
    what = f'{how} {names}: {source} with {kwargs}'
    t.label(how)
    t.nontrivial(source == 'object' and bool(kwargs))
    if source == 'object' and changes:
        t.label('refused')
        raises(ValueError, wrapped, x, _what=what, **kwargs)
    else:
        equal(wrapped(x, **kwargs), factory(x, **kwargs), what)
    raises(TypeError, numeric.factory.strict, 3, _what='strict 3')


magnitude = st.sampled_from([1e-30, 1e-9, 1.0, 7.0, 1e12])


@PROPERTY.facet(
    st.tuples(
        st.lists(st.tuples(st.sampled_from([-3.0, -1.0, 0.0, 1.0, 2.5, 4.0]),
                           magnitude), min_size=1, max_size=5),
        st.integers(0, 4),
        st.sampled_from(['exact', 'near', 'far', 'sign', 'zero']),
        st.sampled_from(['array', 'list', 'scalar', 'rows'])),
    quick=400, thorough=4000)
def predicates(case, t):
    """A value is close to data when it agrees with one of them to a relative
    precision, whatever its magnitude; data are equal when all of their values
    are, whatever holds them; types of data are recognised."""
    values, k, how, holder = case
    values = [a * b for a, b in values]
    k %= len(values)
    target = values[k]
    if how == 'near':
        target *= 1 + 1e-7
    elif how == 'far':
        target = target * 1.01 if target else 1e-12
    elif how == 'sign':
        target = -target
    elif how == 'zero':
        target = 0.0
    t.label(f'{holder} {how}')
    t.nontrivial(len(values) > 1)
    if holder == 'scalar':
        values = [values[k]]
        data = values[0]
    elif holder == 'rows':
        data = numpy.array([values, values])
    elif holder == 'array':
        data = numpy.array(values)
    else:
        data = list(values)
    x = numeric.Object(data)
    expected = any(abs(v - target) <= 1e-6 * abs(v) for v in values)
    what = f'{target!r} in {holder} {values}'
    equal(bool(numeric.data.isclose(x, target)), expected, what)
    for other in (data, numeric.Object(data), list(data) if holder != 'scalar'
                  else float(data)):
        equal(numeric.data.isequal(x, other), True, f'equal: {what}')
        equal(numeric.data.isequal(other, x), True, f'equal: {what}')
    if holder in ('array', 'list'):
        changed = [v if i != k else v * 2 + 1e-20 for i, v in
                   enumerate(values)]
        for wrong in (changed, values[1:], [*values, 1.0]):
            equal(numeric.data.isequal(x, wrong), False, f'{wrong}: {what}')
            equal(numeric.data.isequal(numeric.Object(numpy.array(wrong)),
                                       data), False, f'{wrong}: {what}')
    for kind, yes, no in (
        ([1, 2], numpy.integer, numpy.floating),
        ([1.5, 2], numpy.floating, numpy.integer),
        ([1j], numpy.complexfloating, numpy.floating),
        (['a'], numpy.str_, numpy.number),
        ([True], numpy.bool_, numpy.integer),
    ):
        for made in (kind, numeric.Object(kind), numpy.array(kind)):
            equal(numeric.data.hasdtype(made, yes), True, f'{kind} is {yes}')
            equal(numeric.data.hasdtype(made, no), False, f'{kind} is {no}')
            equal(numeric.data.hasdtype(made, (no, yes)), True, f'{kind}')
            equal(numeric.data.hasdtype(made, (no,)), False, f'{kind}')
    for made, expected in ((3, True), (numpy.int16(3), True), (True, True),
                           (numpy.uint8(3), True), (3.0, False),
                           (numpy.float64(3), False), ('3', False),
                           ([3], False), (None, False)):
        equal(numeric.data.isintegral(made), expected, f'{made!r} is integral')


@PROPERTY.facet(
    st.tuples(st.lists(st.integers(-9, 9), max_size=4),
              st.dictionaries(st.sampled_from(['a', 'b', 'c']),
                              st.integers(0, 9), max_size=3),
              st.sampled_from(['number', 'list', 'array', 'text'])),
    quick=200, thorough=2000)
def results(case, t):
    """The result of an operation hands on its arguments, and a class that
    requires a protocol accepts only data that implement it."""
    args, kwargs, kind = case
    t.nontrivial(len(args) > 1 and bool(kwargs))
    r = numeric.Result(*args, **kwargs)
    equal((r.args, r.kwargs), (tuple(args), kwargs), 'the arguments')
    equal(r.apply(lambda *a, **k: (a, k)), (tuple(args), kwargs), 'applied')
    equal(r.apply(lambda *a, **k: len(a) - len(k)), len(args) - len(kwargs),
          'applied')

    class Holder:
        @numeric.data.implements(numbers.Real)
        def __init__(self, data, *more, **other):
            """Hold it."""
            self.all = data, more, other

    x = {'number': 3, 'list': args, 'array': numpy.array(args),
         'text': 'text'}[kind]
    equal(Holder.__init__.__doc__, 'Hold it.', 'documentation')
    if kind == 'number':
        equal(Holder(x, *args, **kwargs).all, (x, tuple(args), kwargs), kind)
    else:
        raises(TypeError, Holder, x, *args, _what=kind, **kwargs)
    equal(str(numeric.Object(x)), str(x), f'text of {kind}')


METHODS = {
    'Ordered': ['lt', 'le', 'gt', 'ge'],
    'Additive': ['add', 'radd', 'sub', 'rsub'],
    'Multiplicative': ['mul', 'rmul', 'truediv', 'rtruediv'],
    'Sequence': ['contains', 'len', 'iter', 'getitem', 'array'],
    'Measurable': ['measure'],
}
METHODS['Comparable'] = [*METHODS['Ordered'], 'eq', 'ne']
METHODS['Algebraic'] = [*METHODS['Additive'], *METHODS['Multiplicative'],
                        'pow']
METHODS['Complex'] = [*METHODS['Algebraic'], 'abs', 'pos', 'neg']
METHODS['Real'] = [*METHODS['Comparable'], *METHODS['Complex'], 'rpow',
                   'floordiv', 'rfloordiv', 'mod', 'rmod']
METHODS['Scalar'] = [*METHODS['Real'], 'int', 'float', 'round']
PROPERTIES = {'HasData': ['data'], 'HasUnit': ['unit'],
              'Array': ['size', 'ndim', 'shape']}
METHODS['Array'] = METHODS['Sequence']
METHODS['HasData'] = METHODS['HasUnit'] = []
# All objects can be tested for equality.
MISSABLE = sorted({m for ms in METHODS.values() for m in ms} - {'eq', 'ne'})


@PROPERTY.facet(
    st.tuples(st.sampled_from(sorted(METHODS)),
              st.lists(st.sampled_from(sorted(METHODS)), max_size=2),
              st.integers(0, 10**4), st.sampled_from(['all', 'less', 'class'])),
    quick=400, thorough=4000)
def protocols(case, t):
    """An object satisfies a protocol exactly when it has all of the methods
    and properties of the protocol, and an abstract class can be instantiated
    exactly when all of them are defined."""
    name, more, k, how = case
    names = [name, *more]
    has = sorted({m for n in names for m in METHODS[n]})
    props = sorted({m for n in names for m in PROPERTIES.get(n, [])})
    absent = None
    if how == 'less':
        candidates = [m for m in [*METHODS[name], *PROPERTIES.get(name, [])]
                      if m not in ('eq', 'ne')]
        absent = candidates[k % len(candidates)]
        has = [m for m in has if m != absent]
        props = [m for m in props if m != absent]
    t.label(f'{name} {how}')
    t.nontrivial(absent is not None or bool(more))
    body = {f'__{m}__': (lambda self, *args, **kwargs: 1) for m in has}
    body.update({m: property(lambda self: 1) for m in props})
    # All objects have these, so absence is explicit.
    body.update({f'__{m}__': None for m in METHODS['Ordered'] if m not in has})
    if how == 'class':
        parent = getattr(base.abc, name, None)
        if parent is None or name == 'Complex':
            return
        candidates = [m for m in [*METHODS[name], *PROPERTIES.get(name, [])]]
        absent = candidates[k % len(candidates)]
        if name == 'Scalar':
            body['__complex__'] = lambda self: 1j
        full = type('Full', (parent,), dict(body))
        ensure(isinstance(full(), parent), f'a full {name}')
        body.pop(absent, None)
        body.pop(f'__{absent}__', None)
        part = type('Part', (parent,), body)
        raises(TypeError, part, _what=f'{name} without {absent}')
        return
    this = type('This', (), body)()
    for n in sorted(METHODS):
        expected = (
            all(m in has or m in ('eq', 'ne') for m in METHODS[n])
            and all(m in props for m in PROPERTIES.get(n, [])))
        equal(isinstance(this, getattr(base, n)), expected,
              f'an object with {names} without {absent} as {n}')


@PROPERTY.facet(
    st.tuples(number, number, st.lists(st.integers(0, 3), max_size=4),
              st.integers(0, 4)),
    quick=400, thorough=4000)
def partial_implementations(case, t):
    """The operations that the mixin classes derive from a few others agree
    with each other as those of numbers do."""
    x, y, items, item = case
    t.nontrivial(x != y and len(items) > 1)

    class Ordered(base.mixins.Comparable):
        def __init__(self, v):
            self.v = v

        def __eq__(self, other):
            return self.v == other.v

        def __lt__(self, other):
            return self.v < other.v

    a, b = Ordered(x), Ordered(y)
    for n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        f = BINARY[n][0]
        equal(f(a, b), f(x, y), f'{n} of {x} and {y}')
        equal(f(a, a), f(x, x), f'{n} of {x} and itself')

    def op(f):
        return lambda self, other: type(self)(
            f(self.v, getattr(other, 'v', other)))

    def rop(f):
        return lambda self, other: type(self)(
            f(getattr(other, 'v', other), self.v))

    body = {f'__{n}__': op(BINARY[n][0])
            for n in ('add', 'mul', 'truediv', 'pow', 'floordiv', 'mod')}
    body.update({f'__r{n}__': rop(BINARY[n][0])
                 for n in ('add', 'mul', 'truediv', 'pow', 'floordiv', 'mod')})
    body['__neg__'] = lambda self: type(self)(-self.v)
    body['__pos__'] = lambda self: type(self)(+self.v)
    body['__abs__'] = lambda self: type(self)(abs(self.v))

    def init(self, v):
        self.v = v

    body['__init__'] = init
    Complex = type('Complex', (base.mixins.Complex,), dict(body))
    a, b = Complex(x), Complex(y)
    equal((a - b).v, x + (-y), f'{x} - {y}')
    equal(a.__rsub__(b).v, y + (-x), f'{y} - {x}')
    raises(TypeError, lambda: a - 'text', _what='- text')
    raises(TypeError, lambda: 'text' - a, _what='text -')

    class Items(base.mixins.Sequence):
        def __len__(self):
            return len(items)

        def __getitem__(self, i, /):
            return items[i]

        def __array__(self, *args, **kwargs):
            return numpy.asarray(items, *args, **kwargs)

    s = Items()
    equal(list(s), items, 'the items')
    equal(item in s, item in items, f'{item} in {items}')
    equal(list(zip(s, s)), list(zip(items, items)), 'two iterators')


@PROPERTY.facet(
    st.tuples(st.lists(number, min_size=1, max_size=4),
              st.sampled_from(['list', 'array', 'tuple'])),
    quick=200, thorough=2000)
def variables(case, t):
    """A variable is the sequence of its values, and is cast to a number when
    it has one value, and not otherwise."""
    values, how = case
    t.nontrivial(len(values) > 1)
    t.label(how)
    data = {'list': list, 'tuple': tuple, 'array': numpy.array}[how](values)
    v = real.variable(data)
    equal(type(v), real.Variable, 'type')
    if len(values) == 1 and how == 'list':
        equal(list(real.variable(values[0])), values, 'a number')
    for x in values:
        ensure(x in v, f'{x} in {values}')
    ensure(51 not in v, f'51 in {values}')
    raises(TypeError, real.variable, 'text', _what='text')
    raises(TypeError, real.variable, [*values, 'text'], _what='some text')
    equal((len(v), v.size, list(v), v[0], v[-1]),
          (len(values), len(values), list(data), data[0], data[-1]), 'values')
    ensure(numpy.array_equal(numpy.array(v), numpy.array(values)), 'array')
    equal(numpy.array(v, dtype=complex).dtype, numpy.dtype(complex), 'type')
    for f in (int, float, complex):
        if len(values) == 1:
            same(f(v), f(data[0]), f'{f.__name__} of {values}')
        else:
            raises(TypeError, f, v, _what=f'{f.__name__} of {values}')
