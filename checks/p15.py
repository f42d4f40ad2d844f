"""P15 -- default values read from EPREM source code."""

import os
import pathlib
import re

from hypothesis import strategies as st

from eprempy import metric
from eprempy import parameter
from eprempy import paths
from vlib import parameters as F
from vlib.harness import Property, close, ensure, equal, raises
from checks import datasets

PROPERTY = Property(
    'P15',
    rule=(
        'Cases are generated versions of `baseTypes.h` and `configuration.c`: '
        'constants defined by literals, products, quotients, groups and '
        'square roots of other constants, in any order; reads of integers, '
        'numbers, strings and arrays whose default values are literals, '
        'constants, other parameters, or sums and products of them; between '
        'comments and unrelated code, with varied white space. The oracle '
        'evaluates the generated expressions as C does. Non-trivial: a value '
        'depends on another.'
    ),
    assumptions=[
        'Constants are products, quotients, groups and square roots, default '
        'values also sums and differences without groups: what EPREM uses.',
        'A statement is on one line.',
    ],
)

CONSTANTS = ['AU', 'C', 'MP', 'MEV', 'PI', 'TAU', 'LARGEFLOAT', 'OM', 'DAY',
             'MY_NORM', 'K2', 'EPS']
PARAMETERS = ['lamo', 'mfpRadialPower', 'rScale', 'simStartTime', 'kperxkpar',
              'minInjectionEnergy', 'newNumber', 'alpha2', 'idw_p',
              'new_value', 'idealShock']
INTEGERS = ['numNodesPerStream', 'numRowsPerFace', 'useDegrees', 'newCount',
            'gammaEle']
STRINGS = ['prefix', 'mhdDirectory', 'newText']
ARRAYS = ['mass', 'charge', 'obsR', 'newList']
LITERALS = ['1.0', '2.0', '0.5', '1.0e-3', '2.5E+2', '3', '1.495978707e13',
            '240', '1e-1', '0.1', '.5', '4.']


def spaces(draw, op):
    return draw(st.sampled_from([op, f' {op} ', f'{op} ', f' {op}']))


@st.composite
def constant(draw, names, depth=2):
    """The text of an expression that defines a constant."""
    kinds = ['literal', 'literal']
    if names:
        kinds += ['name'] * 2
    if depth:
        kinds += ['product'] * 3 + ['group', 'sqrt']
    kind = draw(st.sampled_from(kinds))
    if kind == 'literal':
        return draw(st.sampled_from(LITERALS))
    if kind == 'name':
        return draw(st.sampled_from(names))
    inner = constant(names, depth - 1)
    if kind == 'group':
        pad = draw(st.sampled_from(['', ' ']))
        return f'({pad}{draw(inner)}{pad})'
    if kind == 'sqrt':
        return f'sqrt({draw(inner)})'
    return draw(product([inner, inner.map(lambda s: f'({s})')]))


@st.composite
def product(draw, operands, size=3):
    operand = st.one_of(operands)
    text = draw(operand)
    # Of several operators in a row, a quotient is only the last: symbolic
    # expressions refuse repeated division.
    for _ in range(draw(st.integers(1, size - 1))):
        op = draw(st.sampled_from('**/'))
        if op == '/' or not any(c in text for c in '*/'):
            text = text + spaces(draw, op) + wrapped(draw(operand))
        else:
            text = text + spaces(draw, op) + draw(operand)
    return text


def wrapped(text):
    return f'({text})' if any(c in text for c in '*/') else text


@st.composite
def header(draw):
    """Definitions of constants, in the order of the file."""
    chosen = draw(st.lists(st.sampled_from(CONSTANTS), unique=True,
                           max_size=7))
    out = []
    for i, name in enumerate(chosen):
        text = draw(constant(chosen[:i]))
        if draw(st.integers(0, 2)) == 0:
            text = f'({text})'
        out.append((name, text))
    if draw(st.booleans()):
        out.append(('LARGEINT', draw(st.sampled_from(['7', '2147483647']))))
    return draw(st.permutations(out))


@st.composite
def number(draw, constants, numbers, integers):
    """The text of a default value of a number."""
    references = [f'config.{k}' for k in [*numbers, *integers]]
    signed = st.sampled_from(
        [*LITERALS, '0.0', '0', '-1.0', '-2.5e-3', '1.0e-10'])
    atoms = [st.sampled_from(LITERALS)]
    if constants:
        atoms.append(st.sampled_from(constants))
    if references:
        atoms.append(st.sampled_from(references))
    kind = draw(st.sampled_from(
        ['literal', 'atom', 'sum', 'sum', 'product', 'product', 'third']))
    if kind == 'literal':
        return draw(signed)
    if kind == 'third':
        return 'third'
    if kind == 'atom':
        return draw(atoms[-1])
    if kind == 'product':
        return draw(product(atoms, 3))
    text = draw(st.one_of(signed, *atoms))
    for _ in range(draw(st.integers(1, 3))):
        term = st.one_of(*atoms, product(atoms, 2))
        text += spaces(draw, draw(st.sampled_from('+-'))) + draw(term)
    return text


def divides(constants, statements):
    """True if the latest parameter is safely different from zero."""
    m = model((constants, statements, None))
    _, name, text, *_ = statements[-1]
    terms = re.sub(r'(?<![eE])-', '+', text)
    largest = F.arithmetic(terms, lambda k: abs(m.lookup(k)))
    return abs(m.default(name)) > 1e-6*abs(largest)


@st.composite
def source(draw):
    """A pair of files, as lists of items."""
    constants = draw(header())
    # Constants that are used must differ from zero.
    names = [k for k, _ in constants]
    statements = []
    numbers, integers = [], []
    bounds = st.sampled_from(['0.0', 'LARGEFLOAT', '-1.0*LARGEFLOAT', '1.0'])
    count = draw(st.integers(0, 8))
    pool = draw(st.permutations(
        [('readDouble', k) for k in PARAMETERS]
        + [('readInt', k) for k in INTEGERS]
        + [('readString', k) for k in STRINGS]
        + [('readDoubleArray', k) for k in ARRAYS]))[:count]
    for mode, name in pool:
        if mode == 'readDouble':
            value = draw(number(names, numbers, integers))
            statements.append((mode, name, value, draw(bounds), draw(bounds)))
            if divides(constants, statements):
                numbers.append(name)
        elif mode == 'readInt':
            value = draw(st.sampled_from(
                ['0', '1', '5', '100', '-3', 'N_PROCS', '2.0', '6*7']))
            if integers and draw(st.booleans()):
                value = f'config.{draw(st.sampled_from(integers))}' + draw(
                    st.sampled_from(['', '*4', ' * 3', ' + 2', ' - 1']))
            m = model((constants, [*statements, (mode, name, value)], None))
            if value != 'N_PROCS' and m.default(name):
                integers.append(name)
            statements.append((mode, name, value, '0', draw(
                st.sampled_from(['LARGEINT', '1', '100']))))
        elif mode == 'readString':
            statements.append((mode, name, draw(st.sampled_from(
                ['', 'mhd', 'a/b', './x.y', 'two words', 'a,b', '12',
                 'rScale', 'x=1', '// no', '/* x */']))))
        else:
            values = draw(st.lists(st.sampled_from(LITERALS), min_size=1,
                                   max_size=3))
            statements.append((mode, name, values, draw(bounds),
                               draw(bounds)))
    statements = draw(st.permutations(statements))
    style = draw(st.lists(st.integers(0, 9), min_size=24, max_size=24))
    return constants, statements, style


NOISE_H = ['', '#ifndef BASETYPES_H', '/* constants */', '// note',
           'typedef double Scalar_t;', '#define FLAG', '#include <math.h>',
           '#define LOWER(x) ((x)*2)', '// #define AU 1.0', '#endif']
NOISE_C = ['', '  /* readInt("x", 1, 0, 1) */', '// comment', '{', '}',
           '#include "configuration.h"',
           '// config.lamo = readDouble("lamo", 9.0, 0.0, 1.0);',
           '  int i = 0;', '  Scalar_t x;', '  checkParams();']
TAILS = ['', '', '', '  // the value', ' /* info */', ' // config.x = 1;',
         ' // say "x // y"', ' /* "" */ // "z"']


def render(constants, statements, style):
    """The texts of the two files."""
    k = iter(range(10**6))

    def pick(options):
        return options[style[next(k) % len(style)] % len(options)]

    lines = []
    for name, text in constants:
        lines.append(pick(NOISE_H))
        lines.append(pick(['#define ', '#define\t', '#define   '])
                     + name + pick([' ', '\t', '    ']) + text + pick(TAILS))
    lines.append(pick(NOISE_H))
    out = []
    for n, (mode, name, value, *bounds) in enumerate(statements):
        out.append(pick(NOISE_C))
        pad = pick(['  ', '', '\t'])
        eq = pick([' = ', '=', ' =  '])
        sep = pick([', ', ',', ' , '])
        if mode == 'readString':
            cast = pick(['(char*)', ''])
            args = [f'"{name}"', f'"{value}"']
        elif mode == 'readDoubleArray':
            cast = ''
            size = len(value)
            comma = pick([', ', ','])
            out.append(f'{pad}Scalar_t default{n}[{size}]{eq}'
                       f'{{{comma.join(value)}}};' + pick(TAILS))
            args = [f'"{name}"', str(size), f'&config.n{n}', f'default{n}',
                    *bounds]
        else:
            cast = ''
            args = [f'"{name}"', value, *bounds]
        target = pick(['config.', 'config.', ''])
        out.append(f'{pad}{target}{name}{eq}{cast}{mode}({sep.join(args)});'
                   + pick(TAILS))
    out.append(pick(NOISE_C))
    return '\n'.join(lines) + '\n', '\n'.join(out) + '\n'


KINDS = {'readInt': 'int', 'readDouble': 'float', 'readString': 'str',
         'readDoubleArray': 'list'}


def write(case):
    header, code = render(*case)
    top = os.path.join(datasets.scratch(), 'src')
    os.makedirs(top, exist_ok=True)
    for name, text in (('baseTypes.h', header), ('configuration.c', code)):
        with open(os.path.join(top, name), 'w') as f:
            f.write(text)
    return top


def model(case):
    constants, statements, _ = case
    parameters = {
        name: (KINDS[mode],
               f"[{','.join(value)}]" if mode == 'readDoubleArray' else value)
        for mode, name, value, *_ in statements
    }
    return F.Model(dict(constants), parameters)


def dependent(case):
    constants, statements, _ = case
    names = [k for k, _ in constants]
    return (any(n in v for _, v in constants for n in names)
            or any('config.' in s[2] for s in statements))


@PROPERTY.facet(st.tuples(source(), st.booleans()), quick=400, thorough=6000)
def constants(case, t):
    """Each constant that baseTypes.h defines has the value of its
    definition."""
    src, direct = case
    top = write(src)
    x = parameter.BaseTypesH(
        os.path.join(top, 'baseTypes.h') if direct else pathlib.Path(top))
    expected = dict(src[0])
    t.nontrivial(any(n in v for v in expected.values() for n in expected))
    t.label(f'{len(expected)} constants')
    equal(set(x), set(expected), 'names')
    equal(len(x), len(expected), 'number of constants')
    equal(str(x.origin), os.path.realpath(os.path.join(top, 'baseTypes.h')),
          'origin')
    m = model(src)
    full = x.todict(mode='full')
    raw = x.todict(mode='raw', sort=True)
    equal(list(raw), sorted(expected), 'order of raw definitions')
    for k in expected:
        close(x[k], m.constant(k), f'{k} = {expected[k]}', 1e-12)
        kind = F.CONSTANTS.get(k, {}).get('type', 'float')
        equal(type(x[k]).__name__, kind, f'type of {k}')
        equal(raw[k], expected[k].strip(), f'raw definition of {k}')
        close(full[k]['value'], m.constant(k), f'full {k}', 1e-12)
        if k in F.CONSTANTS:
            equal(full[k]['unit'], F.CONSTANTS[k]['unit'], f'unit of {k}')
            equal(full[k]['type'], kind, f'described type of {k}')
    raises(KeyError, x.__getitem__, 'MISSING')
    space = {}
    exec(x.tostring(mode='full'), {}, space)
    got = space['BASETYPES_H']
    equal(set(got), set(expected), 'names in the text')
    for k in expected:
        close(got[k]['value'], m.constant(k), f'{k} in the text', 1e-12)


def matches(got, expected, what):
    """The type and value of a parameter."""
    if isinstance(expected, list):
        equal(len(got), len(expected), f'length of {what}')
        for i, (a, b) in enumerate(zip(got, expected)):
            close(float(a), b, f'{what}, item {i}', 1e-12)
    elif isinstance(expected, float):
        ensure(isinstance(got, float), f'{what} is {got!r}')
        # Sums may cancel.
        close(got, expected, what, 1e-11, 1e-13)
    else:
        equal(got, expected, what)
        equal(type(got), type(expected), f'type of {what}')


@PROPERTY.facet(st.tuples(source(), st.booleans()), quick=600, thorough=10000,
                shards=2)
def parameters(case, t):
    """Each parameter that configuration.c reads has the type, bounds and
    default value of its definition."""
    src, aspath = case
    top = write(src)
    where = pathlib.Path(top) if aspath else top
    m = model(src)
    statements = {s[1]: s for s in src[1]}
    t.nontrivial(any('config.' in s[2] for s in src[1]))
    t.label(*sorted({s[0] for s in src[1]}))
    x = parameter.ConfigurationC(where)
    d = parameter.defaults(where)
    everything = parameter.interface(srcdir=where)
    equal(set(x), set(statements), 'names')
    equal(set(d), set(statements), 'names of defaults')
    equal(len(d), len(statements), 'number of defaults')
    raw = x.todict(mode='raw')
    full = x.todict(mode='full')
    equal(list(full), [s[1] for s in src[1]], 'order of the parameters')
    equal(list(x.todict(sort=True)), sorted(statements),
          'order of the sorted parameters')
    large = [v for v in map(m.default, statements) if isinstance(v, float)
             and abs(v) > 1e3]
    for k, (mode, _, value, *bounds) in statements.items():
        kind = KINDS[mode]
        equal(x[k]['type'].__name__, kind, f'type of {k}')
        if kind == 'list':
            text = x[k]['defaultVal']
            equal([s.strip() for s in text.strip('[]').split(',')], value,
                  f'definition of {k}')
        else:
            equal(x[k]['defaultVal'], value, f'definition of {k}')
        if bounds:
            equal((x[k]['minVal'], x[k]['maxVal']), tuple(bounds),
                  f'bounds of {k}')
        equal(raw[k]['mode'], mode, f'mode of {k}')
        equal(raw[k]['defaultVal'], x[k]['defaultVal'], f'raw {k}')
        equal(full[k]['type'], kind, f'described type of {k}')
        equal(full[k]['defaultVal'], x[k]['defaultVal'], f'full {k}')
        if k in F.PARAMETERS:
            equal(set(full[k].get('aliases', ())),
                  set(F.PARAMETERS[k]['aliases']), f'aliases of {k}')
        expected = m.default(k)
        what = f'{k} = {value} with {src[:2]}'
        if large and isinstance(expected, float):
            # Rounding of the large terms.
            tol = 1e-12 * max(map(abs, large))
            close(d[k], expected, what, 1e-11, tol)
        else:
            matches(d[k], expected, what)
        ensure(k in everything, f'{k} is not contained in the interface')
        unit = F.PARAMETERS.get(k, {}).get('unit')
        got = everything[k]
        if unit is None:
            equal(got, d[k], f'{k} of the interface')
        else:
            ensure(isinstance(got, parameter.Variable), f'{k} is {got!r}')
            if unit == 'rad' and m.parameters.get('useDegrees') \
                    and m.default('useDegrees'):
                unit = 'deg'
            ensure(got.unit == metric.unit(unit), f'unit of {k}')
            wanted = d[k] if isinstance(d[k], list) else [d[k]]
            equal([float(i) for i in got.data], [float(i) for i in wanted],
                  f'{k} of the interface')
    raises(KeyError, x.__getitem__, 'missing')
    raises(KeyError, d.__getitem__, 'missing')
    space = {}
    exec(x.tostring(mode='full'), {}, space)
    got = space['CONFIGURATION_C']
    equal(set(got), set(statements), 'names in the text')
    for k in statements:
        for j in ('defaultVal', 'minVal', 'maxVal'):
            equal(got[k].get(j), x[k].get(j), f'{j} of {k} in the text')
        equal(got[k]['type'], x[k]['type'], f'type of {k} in the text')


@PROPERTY.facet(st.tuples(source(), st.sampled_from(['h', 'c', 'both'])),
                quick=60, thorough=400)
def missing(case, t):
    """Without a source file, the values are those of the package."""
    src, which = case
    top = write(src)
    t.label(which)
    t.nontrivial()
    for letter, name in (('h', 'baseTypes.h'), ('c', 'configuration.c')):
        if which in (letter, 'both'):
            os.remove(os.path.join(top, name))
    m = F.Model()
    if which != 'c':
        x = parameter.BaseTypesH(top)
        equal(set(x), set(F.CONSTANTS), 'constants')
        for k in x:
            close(x[k], m.constant(k), k, 1e-14)
        equal(str(x.origin), parameter.DB_PATH, 'origin')
    if which != 'h':
        x = parameter.ConfigurationC(top)
        equal(set(x), set(F.PARAMETERS), 'parameters')
        for k, facts in F.PARAMETERS.items():
            equal(x[k]['defaultVal'], facts['raw'], f'definition of {k}')
            equal(x[k]['type'].__name__, facts['type'], f'type of {k}')
            equal((x[k].get('minVal'), x[k].get('maxVal')),
                  (facts.get('min'), facts.get('max')), f'bounds of {k}')
        equal(str(x.origin), parameter.DB_PATH, 'origin')
    if which == 'both':
        d = parameter.defaults(top)
        for k in F.PARAMETERS:
            matches(d[k], m.default(k), k)
    raises(paths.NonExistentPathError, parameter.defaults,
           os.path.join(top, 'nowhere'))
