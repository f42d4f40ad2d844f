"""P01 -- symbolic expressions evaluate to the algebra they spell."""
import re
from fractions import Fraction

from hypothesis import strategies as st

from eprempy import symbolic
from vlib.harness import Property, close, ensure, equal, raises, short

PROPERTY = Property(
    'P01',
    rule=(
        'Cases are random syntax trees (numbers, variables with coefficients '
        'and rational exponents, groups, square roots, products, quotients '
        'and juxtaposition) rendered with random spacing and tokens, or '
        'sequences of algebraic operations on such expressions. The oracle '
        'evaluates the tree to one exact exponent per base and one '
        'coefficient. Non-trivial: at least two operands and at least one '
        'group, root, quotient or exponent other than one.'
    ),
    assumptions=[
        'Coefficients are compared with relative tolerance 1e-9, because the '
        'parser documents constants as floating-point numbers; exponents are '
        'compared exactly.',
    ],
)

NAMES = ['a', 'b', 'c', 'd', 'm', 's', 'km', 'cm', 'nuc', 'a_b', 'x0', 'b12',
         '_q', 'e', 'E', 'e2', '#', 'MeV', 'sr']
INTS = ['1', '2', '3', '-1', '-2', '+2', '0', '4', '-3']
RATS = ['1/2', '-1/2', '3/2', '1/12', '-5/12', '2/10', '0.5', '1.5', '-2.25',
        '1', '2', '-1', '0', '3', '+3/2', '10/3']
COEFS = ['2', '3', '10', '0.5', '2.5', '1/3', '5/12', '12', '1e3', '2.5e2',
         '1e-3', '4.0', '.5', '7/10', '1.6e+1', '25e-1', '+3']
NEGS = ['-2', '-1', '-0.5', '-3/4', '-12']


def nodes(fractional, depth):
    exps = st.one_of(st.just(''), st.sampled_from(RATS if fractional else INTS))
    coefs = st.one_of(
        st.just(''),
        st.sampled_from(COEFS if fractional else COEFS + NEGS))
    numbers = st.tuples(
        st.just('num'),
        st.sampled_from(COEFS if fractional else COEFS + NEGS),
        st.one_of(st.just(''), st.sampled_from(['2', '-1', '3', '-2', '0'])))
    variables = st.tuples(
        st.just('var'), coefs, st.sampled_from(NAMES), exps)
    leaves = st.one_of(variables, variables, variables, numbers)
    if depth == 0:
        return leaves
    inner = sequences(fractional, depth - 1)
    kinds = [leaves, leaves, st.tuples(st.just('grp'), coefs, inner, exps)]
    if fractional:
        kinds.append(st.tuples(st.just('sqrt'), inner))
    return st.one_of(*kinds)


def sequences(fractional, depth):
    return st.lists(
        st.tuples(st.sampled_from(['*', '/', ' ', '*', '/']),
                  nodes(fractional, depth)),
        min_size=1, max_size=4 if depth else 3).map(unambiguous)


def unambiguous(seq):
    """Drop spellings whose reading the documentation leaves open: a quotient
    by a group that has its own coefficient ('a / 2(b)')."""
    return [
        (op, node[:1] + ('',) + node[2:])
        if i and op == '/' and node[0] == 'grp' else (op, node)
        for i, (op, node) in enumerate(seq)
    ]


def trees(depth=2):
    return st.booleans().flatmap(lambda f: sequences(f, depth))


STANDARD = {'multiply': '*', 'divide': '/', 'opening': '(', 'closing': ')',
            'raising': '^'}
SPACES = st.lists(st.integers(0, 3), min_size=4, max_size=12)


INTEGER = re.compile(r'[-+]?\d+(?![\d.]|[eE][-+]?\d)')


def render(seq, tokens=STANDARD, spaces=(1,), counter=None):
    """Spell a syntax tree, with spacing chosen by `spaces`."""
    counter = counter if counter is not None else [0]

    def pad(at_least=0):
        counter[0] += 1
        n = spaces[counter[0] % len(spaces)]
        return ' ' * max(at_least, n)

    out = ''
    for i, (op, node) in enumerate(seq):
        text = spell(node, tokens, spaces, counter)
        if i:
            if op == ' ':
                out += pad(1)
            elif op == '/':
                # An integer on both sides of '/' spells a fraction.
                fraction = out[-1].isdigit() and INTEGER.match(text)
                out += (pad(1) if fraction else pad()) \
                    + tokens['divide'] + pad()
            else:
                out += pad() + tokens['multiply'] + pad()
        out += text
    return out


def spell(node, tokens, spaces, counter):
    kind = node[0]
    if kind == 'num':
        _, coef, exp = node
        return coef + (tokens['raising'] + exp if exp else '')
    if kind == 'var':
        _, coef, name, exp = node
        if coef and name[0] in 'eE' and name[1:].isdigit():
            name = 'v' + name       # '2e2' spells a number
        return coef + name + (tokens['raising'] + exp if exp else '')
    if kind == 'grp':
        _, coef, seq, exp = node
        inner = render(seq, tokens, spaces, counter)
        return (coef + tokens['opening'] + inner + tokens['closing']
                + (tokens['raising'] + exp if exp else ''))
    _, seq = node
    inner = render(seq, tokens, spaces, counter)
    return 'sqrt' + tokens['opening'] + inner + tokens['closing']


class Model:
    """A coefficient and one rational exponent per base."""

    def __init__(self, coef=1.0, powers=None):
        self.coef = float(coef)
        self.powers = {k: v for k, v in (powers or {}).items() if v != 0}

    def __mul__(self, other):
        powers = dict(self.powers)
        for k, v in other.powers.items():
            powers[k] = powers.get(k, 0) + v
        return Model(self.coef * other.coef, powers)

    def __pow__(self, n):
        n = Fraction(n)
        coef = self.coef ** (int(n) if n.denominator == 1 else float(n))
        return Model(coef, {k: v * n for k, v in self.powers.items()})

    def __truediv__(self, other):
        return self * other ** -1

    def __repr__(self):
        return f'{self.coef} {self.powers}'


def value(seq):
    result = Model()
    for i, (op, node) in enumerate(seq):
        operand = evaluate(node)
        result = result / operand if i and op == '/' else result * operand
    return result


def number(text):
    return float(Fraction(text))


def evaluate(node):
    kind = node[0]
    if kind == 'num':
        return Model(number(node[1])) ** Fraction(node[2] or 1)
    if kind == 'var':
        _, coef, name, exp = node
        if coef and name[0] in 'eE' and name[1:].isdigit():
            name = 'v' + name
        return (Model(number(coef or '1'))
                * Model(1, {name: 1}) ** Fraction(exp or 1))
    if kind == 'grp':
        _, coef, seq, exp = node
        return Model(number(coef or '1')) * value(seq) ** Fraction(exp or 1)
    return value(node[1]) ** Fraction(1, 2)


def agrees(expr, model, what):
    """Check an expression against the model, including canonical form."""
    powers, coef, constants = {}, 1.0, 0
    for i, term in enumerate(expr):
        if term.base == '1':
            coef *= float(term.coefficient)
            constants += 1
            ensure(i == 0, f'{what}: the constant is not first in {short(expr)}')
        else:
            ensure(term.coefficient == 1,
                   f'{what}: coefficient was not collected in {short(expr)}')
            ensure(term.base not in powers,
                   f'{what}: repeated base in {short(expr)}')
            ensure(term.exponent != 0,
                   f'{what}: zero exponent in {short(expr)}')
            powers[term.base] = Fraction(term.exponent)
    ensure(constants <= 1, f'{what}: two constants in {short(expr)}')
    ensure(powers == model.powers,
           f'{what}: powers of {short(str(expr))}: expected {model}')
    close(coef, model.coef, f'{what}: coefficient of {short(str(expr))}')
    keys = [(-Fraction(t.exponent), t.base) for t in expr if t.base != '1']
    ensure(keys == sorted(keys), f'{what}: terms out of order: {short(expr)}')


def constant(expr):
    return float(expr[0].coefficient) if expr[0].base == '1' else 1.0


def size(seq):
    total = 0
    for _, node in seq:
        total += 1
        if node[0] == 'grp':
            total += size(node[2])
        elif node[0] == 'sqrt':
            total += size(node[1])
    return total


def classify(seq, t):
    text = render(seq)
    for mark, name in (('sqrt', 'root'), ('(', 'group'), ('/', 'quotient'),
                       ('^', 'power'), ('^0', 'zero exponent')):
        if mark in text:
            t.label(name)
    if any(op == ' ' for op, _ in seq[1:]):
        t.label('juxtaposition')
    n = size(seq)
    t.label('operands:' + ('1' if n == 1 else '2-5' if n <= 5 else '6+'))
    t.nontrivial(n > 1 and any(m in text for m in '(/^'))


@PROPERTY.facet(st.tuples(trees(), SPACES), quick=1500, thorough=40000, shards=2)
def parse_evaluates(case, t):
    """Parsing a string yields the algebraic value that the string spells,
    however it is spaced."""
    seq, spaces = case
    classify(seq, t)
    text = render(seq, spaces=spaces)
    expr = symbolic.expression(text)
    agrees(expr, value(seq), f'parse {text!r}')
    equal(len(expr), len(list(expr)), 'len')
    equal(symbolic.composition(expr), True, 'composition')


TOKENS = st.sampled_from([
    {'multiply': '@', 'divide': '$', 'opening': '[', 'closing': ']', 'raising': '^'},
    {'multiply': '*', 'divide': '/', 'opening': '[', 'closing': ']', 'raising': '^'},
    {'multiply': '@', 'divide': '/', 'opening': '(', 'closing': ')', 'raising': '~'},
    {'multiply': '%', 'divide': '|', 'opening': '<', 'closing': '>', 'raising': '^'},
    {'multiply': '*', 'divide': '/', 'opening': '{', 'closing': '}', 'raising': '!'},
])


@PROPERTY.facet(st.tuples(trees(), SPACES, TOKENS), quick=500, thorough=12000)
def parse_with_other_tokens(case, t):
    """The same tree spelled with other tokens denotes the same value."""
    seq, spaces, tokens = case
    classify(seq, t)
    text = render(seq, tokens, spaces)
    expr = symbolic.expression(text, **tokens)
    agrees(expr, value(seq), f'parse {text!r} with {tokens}')


@PROPERTY.facet(st.tuples(trees(), st.sampled_from([' ', ' * ', '*', '  '])),
                quick=800, thorough=20000)
def format_round_trip(case, t):
    """The text form of an expression parses back to the same expression, and
    equal expressions have equal hashes."""
    seq, separator = case
    classify(seq, t)
    text = render(seq)
    expr = symbolic.expression(text)
    model = value(seq)
    for name, again in (
        ('str', symbolic.expression(str(expr))),
        ('format', symbolic.expression(expr.format(separator=separator))),
        ('terms', symbolic.expression(list(expr.terms))),
        ('strings', symbolic.expression([str(i) for i in expr])),
        ('self', symbolic.expression(expr)),
    ):
        agrees(again, model, f'{name} round trip of {text!r}')
        if again == expr:
            ensure(hash(again) == hash(expr), f'{name} of {text!r}: hash differs')
        else:
            # Rounding may separate two coefficients, but nothing else may.
            ensure(again.terms and again.terms[0].base == '1' or
                   expr.terms[0].base == '1', f'{name} of {text!r} is unequal')
            t.label('rounded')
        close(constant(again), constant(expr),
              f'{name} round trip of {text!r}: constant', rtol=4e-16)
    tex = expr.format('tex')
    parts = []
    for i in expr:
        if i.base == '1':
            parts.append(str(i))
        else:
            p = '' if i.exponent == 1 else f'^{{{i.exponent}}}'
            b = '#' if i.base == '#' else rf'\mathrm{{{i.base}}}'
            parts.append(f'${b}{p}$')
    equal(tex, ' '.join(parts), 'TeX form')


OPS = st.lists(
    st.tuples(
        st.sampled_from(['mul', 'div', 'rmul', 'rdiv', 'pow', 'imul', 'idiv',
                         'product', 'ratio', 'power', 'strmul', 'strdiv']),
        trees(1),
        st.sampled_from(['2', '-1', '3', '-2', '1', '1/2', '3/2', '-1/2', '1/3'])),
    min_size=1, max_size=5)


def positive(seq):
    """Drop signs so that fractional powers stay real."""
    out = []
    for op, node in seq:
        if node[0] == 'num':
            node = ('num', node[1].lstrip('-'), node[2])
        elif node[0] == 'var':
            node = ('var', node[1].lstrip('-'), node[2], node[3])
        elif node[0] == 'grp':
            node = ('grp', node[1].lstrip('-'), positive(node[2]), node[3])
        else:
            node = ('sqrt', positive(node[1]))
        out.append((op, node))
    return out


@PROPERTY.facet(st.tuples(trees(1), OPS), quick=700, thorough=16000, shards=2)
def algebra(case, t):
    """Products, quotients and powers of expressions equal those of their
    values, and leave their operands unchanged."""
    seq, ops = case
    seq = positive(seq)
    expr = symbolic.expression(render(seq))
    model = value(seq)
    for name, other, exponent in ops:
        other = positive(other)
        text = render(other)
        that = symbolic.expression(text)
        b = value(other)
        n = Fraction(exponent)
        before = (str(expr), str(that))
        old = expr
        if name == 'mul':
            expr, model = expr * that, model * b
        elif name == 'rmul':
            expr, model = text * expr, b * model
        elif name == 'div':
            expr, model = expr / that, model / b
        elif name == 'rdiv':
            expr, model = text / expr, b / model
        elif name == 'pow':
            expr, model = expr ** n, model ** n
        elif name == 'imul':
            expr *= that
            model = model * b
        elif name == 'idiv':
            expr /= that
            model = model / b
        elif name == 'product':
            expr, model = symbolic.product(expr, text), model * b
        elif name == 'ratio':
            expr, model = symbolic.ratio(expr, text), model / b
        elif name == 'power':
            expr, model = symbolic.power(expr, n if n.denominator > 2 else float(n)), model ** n
        elif name == 'strmul':
            expr, model = expr * text, model * b
        else:
            expr, model = expr / text, model / b
        if not 1e-200 < model.coef < 1e200:
            t.label('stopped:magnitude')
            return
        agrees(expr, model, name)
        equal((str(old), str(that)), before, f'{name} changed an operand')
        t.label(name)
    t.nontrivial(len(model.powers) > 0)


@PROPERTY.facet(st.tuples(trees(1), trees(1), SPACES), quick=500, thorough=12000)
def equality_is_algebraic(case, t):
    """Two expressions are equal exactly when their values are, whatever the
    order or grouping of their parts."""
    one, two, spaces = case
    a = symbolic.expression(render(one))
    b = symbolic.expression(render(two))
    x, y = value(one), value(two)
    rel = abs(x.coef - y.coef) / max(abs(x.coef), abs(y.coef))
    if x.powers == y.powers and rel < 1e-9:
        # Equal up to rounding: defer to the coefficients as parsed.
        same = constant(a) == constant(b)
        t.label('same value')
    else:
        same = False
    ensure((a == b) == same, f'{a} == {b} should be {same}')
    ensure((b == a) == same, f'{b} == {a} should be {same}')
    ensure((a != b) != same, f'{a} != {b} should be {not same}')
    ensure((a == render(two)) == same, f'{a} == {render(two)!r} should be {same}')
    if same:
        equal(hash(a), hash(b), 'hash')
    # Move the first operand to the end, as far as that keeps the value.
    if len(one) > 1 and one[1][0] != '/':
        rotated = [('*', one[1][1])] + one[2:] + [('*', one[0][1])]
        c = symbolic.expression(render(rotated, spaces=spaces))
        agrees(c, x, 'reordered')
        ensure(c == a or constant(c) != constant(a), f'{c} != {a}')
        t.label('reordered')
        t.nontrivial()
    # Group everything and divide by the reciprocal.
    d = symbolic.expression('1 / (' + render(one) + ')')
    agrees(d ** -1, x, 'reciprocal')
    diff = a.difference(b)
    equal({(i.base, i.exponent) for i in diff if i.base != '1'},
          {k for k in x.powers.items() if k not in y.powers.items()},
          'difference')
    both = a.difference(b, symmetric=True)
    equal(both, a.difference(b) | b.difference(a), 'symmetric difference')
    equal(a.difference(b, split=True), [a.difference(b), b.difference(a)],
          'split difference')


@PROPERTY.facet(
    st.tuples(
        st.lists(st.tuples(st.sampled_from('*/'), st.sampled_from(NAMES)),
                 min_size=1, max_size=5),
        st.integers(0, 3), SPACES),
    quick=300, thorough=4000)
def strict_operator_order(case, t):
    """In strict mode the parser rejects exactly the ambiguous quotients: a '/'
    or '*' right after a '/' at one level, wherever that level is nested."""
    ops, nest, spaces = case
    seq = [(op, ('var', '', name, '')) for op, name in ops]
    text = render(seq, spaces=spaces)
    for i in range(nest):
        text = ['d * ({})', '({})^2', '2({}) c'][i % 3].format(text)
    expected = None
    for (p, _), (q, _) in zip(ops[1:], ops[2:]):
        if p == '/':
            expected = (symbolic.RatioError if q == '/' else
                        symbolic.ProductError)
            break
    t.nontrivial(len(ops) > 2)
    if expected is None:
        t.label('accepted')
        strict = symbolic.expression(text, operator_order='error')
        ensure(strict == symbolic.expression(text), 'strict mode changed the value')
    else:
        t.label(expected.__name__)
        raises(expected, symbolic.expression, text, operator_order='error',
               _what=repr(text))
        symbolic.expression(text)


@PROPERTY.facet(st.tuples(trees(), st.integers(0, 60),
                          st.sampled_from(['drop', 'open', 'close', 'tail'])),
                quick=400, thorough=8000)
def rejects_malformed(case, t):
    """Unbalanced separators and dangling operators are rejected."""
    seq, where, kind = case
    text = render(seq)
    if kind == 'drop':
        spots = [i for i, c in enumerate(text) if c in '()']
        if not spots:
            return
        i = spots[where % len(spots)]
        bad = text[:i] + text[i+1:]
    elif kind == 'open':
        bad = '(' + text
    elif kind == 'close':
        bad = text + ')'
    else:
        bad = text + ['*', ' / ', '/'][where % 3]
    t.label(kind)
    t.nontrivial()
    raises((symbolic.ParsingValueError, symbolic.OperandValueError),
           symbolic.expression, bad, _what=f'parse {bad!r}')


@PROPERTY.facet(
    st.tuples(st.sampled_from(COEFS + NEGS), st.sampled_from(NAMES),
              st.sampled_from(INTS), st.sampled_from(INTS),
              st.floats(0.1, 10)),
    quick=300, thorough=6000)
def terms(case, t):
    """A term evaluates, scales, raises and prints as the monomial it is."""
    coef, base, exp, power, x = case
    c = number(coef)
    term = symbolic.term(Fraction(coef), base, Fraction(exp))
    close(float(term(x)), c * x ** int(exp), 'evaluate')
    close(float((term ** int(power))(x)), (c * x ** int(exp)) ** int(power), 'power')
    close(float((3 * term)(x)), 3 * c * x ** int(exp), 'scale')
    close(float((term * 2.5)(x)), 2.5 * c * x ** int(exp), 'scale')
    if int(exp) and base != 'e2':       # '2e2' spells a number
        again = symbolic.expression(str(term))
        agrees(again, Model(c, {base: Fraction(exp)}), f'print {term}')
    constant = symbolic.term(coefficient=c)
    close(float(constant), c, 'float')
    equal(int(constant), int(c), 'int')
    raises(TypeError, float, symbolic.term(base=base))
    raises(TypeError, constant, x)
    t.nontrivial(c != 1 and int(exp) != 1)


@PROPERTY.facet(st.tuples(trees(1), st.integers(-6, 6), st.integers(-6, 6)),
                quick=200, thorough=4000)
def sequence_protocol(case, t):
    """An expression behaves as an immutable sequence of its terms."""
    seq, i, j = case
    expr = symbolic.expression(render(seq))
    terms = list(expr.terms)
    equal(len(expr), len(terms), 'len')
    equal(list(expr), terms, 'iter')
    equal(list(expr[i:j]), terms[i:j], 'slice')
    try:
        expected = terms[i]
    except IndexError:
        raises(IndexError, lambda: expr[i])
        t.label('out of range')
    else:
        equal(expr[i], expected, 'index')
        t.nontrivial(len(terms) > 1)
    upper = expr.apply(lambda s: symbolic.expression(
        s if s == '1' else f'{s}' if s in '#' else f'(p{s})'))
    model = value(seq)
    powers = {(k if k == '#' else f'p{k}'): v for k, v in model.powers.items()}
    equal({k.base: k.exponent for k in upper if k.base != '1'}, powers, 'apply')
