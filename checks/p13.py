"""P13 -- configuration files and runtime parameters."""
import math
import os
import pathlib

import numpy
from hypothesis import strategies as st

from eprempy import metric
from eprempy import parameter, paths
from eprempy import physical
from vlib import parameters as F
from vlib.harness import Property, close, ensure, equal, raises
from checks import datasets
from checks.common import arrayclose

PROPERTY = Property(
    'P13',
    rule=(
        'Cases are configuration files spelled in many ways (white space, '
        'blank lines, comments in line and at the end of lines, any comment '
        'markers, repeated keys, lists, numbers in every notation), pairs of '
        'them for comparison, and requests for every parameter by each of '
        'its names. The oracle is the list of pairs that was written, and an '
        'independent table of the types, defaults and units of all '
        'parameters. Non-trivial: the file sets at least one parameter.'
    ),
    assumptions=[
        'A comment marker starts a comment wherever it appears, quoted or '
        'not.',
        'Integers are written without a fraction.',
    ],
)

WORDS = ['a', 'b', 'c', 'lamo', 'key_1', 'mass', 'x y', 'File', 'useDegrees']
VALUES = ['1', '2.50', '-3e-4', '[1.0, 2.0]', '"name"', "'quoted'", '/a/b.nc',
          'x=1', 'k=v=w', 'a,b', 'two words', '', '[ ]', 'a;b', '5 % 3',
          'run#3', 'a # b', 'no!', 'http://x']
MARKERS = ['#', '!', ';', '%', '//']
SPACES = ['', ' ', '  ', '\t', ' \t ']


@st.composite
def lines(draw, markers=None):
    """Lines of a file, and the pair that each of them defines."""
    markers = markers or draw(st.lists(st.sampled_from(MARKERS), min_size=1, max_size=2,
                            unique=True))
    out = []
    space = st.sampled_from(SPACES)
    for _ in range(draw(st.integers(0, 8))):
        kind = draw(st.sampled_from(
            ['pair', 'pair', 'pair', 'inline', 'comment', 'indented',
             'blank', 'white']))
        if kind in ('pair', 'inline'):
            k = draw(st.sampled_from(WORDS))
            v = draw(st.sampled_from(VALUES))
            if any(m in v for m in markers):
                v = '7'
            s = [draw(space) for _ in range(4)]
            text = f'{s[0]}{k}{s[1]}={s[2]}{v}{s[3]}'
            if kind == 'inline':
                m = draw(st.sampled_from(markers))
                text += m + draw(st.sampled_from(
                    ['', ' note', ' b=2', f' {m} {m}']))
            out.append((text, (k, v)))
        elif kind in ('comment', 'indented'):
            m = draw(st.sampled_from(markers))
            pad = '' if kind == 'comment' else draw(st.sampled_from(
                [' ', '\t', '   ']))
            out.append((pad + m + draw(st.sampled_from(
                ['', ' text', 'lamo = 9', ' ===', m])), None))
        else:
            out.append(('' if kind == 'blank' else draw(space), None))
    end = draw(st.sampled_from(['\n', '\n', '\r\n']))
    return markers, out, end, draw(st.booleans())


def written(case, name='eprem.cfg'):
    markers, rows, end, final = case
    path = os.path.join(datasets.scratch(), name)
    text = end.join(r for r, _ in rows)
    if final and rows:
        text += end
    with open(path, 'w', newline='') as f:
        f.write(text)
    return path, dict(p for _, p in rows if p)


@PROPERTY.facet(st.tuples(lines(), st.booleans(), st.booleans()),
                quick=1000, thorough=20000)
def files(case, t):
    """A configuration file maps each key to the text of its last value."""
    rows, default, aspath = case
    path, expected = written(rows)
    t.label(*rows[0])
    t.nontrivial(len(expected) > 0 and len(rows[1]) > len(expected))
    kw = {} if default and rows[0] == ['#'] else {'comments': rows[0]}
    got = parameter.configfile(pathlib.Path(path) if aspath else path, **kw)
    equal(dict(got), expected, f'content of {rows[1]}')
    equal(len(got), len(expected), 'size')
    equal(set(got), set(expected), 'keys')
    for k, v in expected.items():
        equal(got[k], v, f'value of {k}')
        ensure(k in got, f'{k} is not contained')
    raises(KeyError, got.__getitem__, 'missing')
    equal(got.get('missing'), None, 'value of a missing key')
    equal(pathlib.Path(got.source), pathlib.Path(path).resolve(), 'source')
    for missing in (path + '.missing', os.path.dirname(path) + '/no/file'):
        raises(paths.NonExistentPathError, parameter.configfile, missing,
               _what='a missing file')


@st.composite
def pairs(draw):
    one = draw(lines())
    return one, draw(lines(one[0]))


@PROPERTY.facet(st.tuples(pairs(), st.sampled_from(
    ['object', 'str', 'path'])), quick=500, thorough=8000)
def differences(case, t):
    """Comparing two files shows the keys that only one of them has, and both
    values of every key."""
    (one, two), how = case
    first, a = written(one)
    second, b = written(two)
    t.label(how)
    t.nontrivial(bool(a) and bool(b))
    x = parameter.configfile(first, comments=one[0])
    kw = {}
    if how == 'object':
        y = parameter.configfile(second, comments=one[0])
    else:
        y = second if how == 'str' else pathlib.Path(second)
        kw = {'comments': one[0]}
    diff = x.diff(y, **kw)
    equal(set(diff.keys[0]), set(a) - set(b), 'keys of the first only')
    equal(set(diff.keys[1]), set(b) - set(a), 'keys of the second only')
    equal(dict(diff.full[0]), a, 'first file')
    equal(dict(diff.full[1]), b, 'second file')
    got = x.compare(y, **kw)
    equal(dict(got), {k: (a.get(k), b.get(k)) for k in {*a, *b}},
          'comparison')
    equal(list(got), sorted({*a, *b}), 'order of the comparison')
    raises(TypeError, x.diff, 1.5)


# ------------------------------------------------------------- parameters

NAMES = sorted(F.PARAMETERS)
# The unit of this one does not follow from its definition.
UNCLEAR = {'idealShockScale'}


def spelled(draw, x, kind):
    if kind == 'int':
        return draw(st.sampled_from([f'{x}', f' {x}', f'{x} ']))
    return draw(st.sampled_from([
        repr(float(x)), f'{x:.6e}', f'{x:.6E}', f'{x:.6f}', f' {x!r} ']))


@st.composite
def settings(draw):
    """Some parameters with the text and value to set them to."""
    chosen = draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=6))
    if draw(st.booleans()):
        chosen = [*chosen, 'useDegrees']
    out = {}
    number = st.floats(-9e4, 9e4, allow_nan=False).map(
        lambda x: round(x, 4))
    for name in chosen:
        kind = F.PARAMETERS[name]['type']
        if name == 'useDegrees':
            v = draw(st.integers(0, 2))
            out[name] = (str(v), v)
        elif kind == 'int':
            v = draw(st.integers(-5, 10**6))
            out[name] = (spelled(draw, v, kind), v)
        elif kind == 'float':
            text = spelled(draw, draw(number), kind)
            out[name] = (text, float(text))
        elif kind == 'str':
            v = draw(st.sampled_from(['data', './in/mhd', 'a.txt', 'x=y',
                                      '"q"', '12']))
            out[name] = (v, v)
        else:
            texts = [spelled(draw, draw(number), 'float').strip()
                     for _ in range(draw(st.integers(1, 4)))]
            sep = draw(st.sampled_from([',', ', ', ' , ']))
            out[name] = (f'[{sep.join(texts)}]', [float(x) for x in texts])
    return out


def same(got, value, name, unit, what):
    if unit is None:
        equal(got, value, what)
        if isinstance(value, (int, float)) and not isinstance(value, bool):
            equal(type(got), type(value), f'type of {what}')
        return
    ensure(isinstance(got, parameter.Variable), f'{what} is {got!r}')
    if name not in UNCLEAR:
        ensure(got.unit == metric.unit(unit), f'{what} is in {got.unit}')
    values = value if isinstance(value, list) else [value]
    arrayclose(numpy.array(got.data), numpy.array(values, float), what, 1e-12)
    if len(values) == 1 and values[0] is not None:
        close(float(got), float(values[0]), f'float of {what}', 1e-12)


@PROPERTY.facet(st.tuples(settings(), st.sampled_from(
    ['positional', 'keyword', 'path', 'none'])), quick=300, thorough=5000,
    shards=2)
def interfaces(case, t):
    """Each parameter has the value that the file sets, converted to its type
    and with its unit, or else its default value; by each of its names."""
    chosen, how = case
    if how == 'none':
        chosen = {}
        x = parameter.interface()
    else:
        path = os.path.join(datasets.scratch(), 'run.cfg')
        with open(path, 'w') as f:
            f.write('# a run\n\n')
            for i, (k, (text, _)) in enumerate(chosen.items()):
                f.write(f'{k} = {text}' + (' # set' if i % 2 else '') + '\n')
            f.write('unknownParameter = 3\n')
        x = {'positional': lambda: parameter.interface(path),
             'keyword': lambda: parameter.interface(config=path),
             'path': lambda: parameter.interface(pathlib.Path(path)),
             }[how]()
        equal(str(x.config), str(pathlib.Path(path).resolve()), 'config')
    t.label(how)
    t.nontrivial(bool(chosen))
    model = F.Model()
    degrees = chosen.get('useDegrees', (None, 0))[1]
    for name in NAMES:
        facts = F.PARAMETERS[name]
        value = chosen[name][1] if name in chosen else model.default(name)
        unit = facts['unit']
        if degrees and unit == 'rad':
            unit = 'deg'
        for alias in [name, *facts['aliases']]:
            what = f'{alias} with {chosen}'
            ensure(alias in x, f'{what}: not contained')
            same(x[alias], value, name, unit, what)
    ensure(float(x['minimum_energy']) == 0.0
           and x['Emin'].unit == 'MeV', 'minimum energy')
    for bad in ('unknownParameter', 'foo', 'LAMO'):
        ensure(bad not in x, f'{bad} is contained')
        raises(KeyError, x.__getitem__, bad)
    for name, facts in F.CONSTANTS.items():
        close(x.basetypes[name], model.constant(name), f'constant {name}',
              1e-14)


@PROPERTY.facet(
    st.tuples(st.lists(st.one_of(
        st.integers(-99, 99),
        st.floats(-1e4, 1e4, allow_nan=False)), min_size=1, max_size=5),
        st.sampled_from(['1', 'm', 'rad', 'MeV', 'nuc^-1 km']),
        st.integers(-6, 6), st.integers(-6, 6)),
    quick=500, thorough=6000)
def variables(case, t):
    """A variable is a physical vector; one that holds a single value acts as
    that number."""
    values, unit, i, j = case
    x = parameter.variable(values, unit=unit)
    n = len(values)
    t.label(f'size {n}')
    t.nontrivial(n > 1 or values[0] != 0)
    ensure(x.unit == unit, f'unit {x.unit}')
    arrayclose(numpy.array(x.data), numpy.array(values), 'data', 1e-15)
    equal(len(x), n, 'length')
    if -n <= i < n:
        got = x[i]
        ensure(isinstance(got, physical.Scalar), f'x[{i}] is {got!r}')
        equal(float(got), float(values[i]), f'x[{i}]')
        ensure(got.unit == unit, f'x[{i}].unit')
    else:
        raises(IndexError, x.__getitem__, i, _what=f'x[{i}] of {n}')
    part = x[i:j]
    arrayclose(numpy.array(part.data), numpy.array(values[i:j], float),
               f'x[{i}:{j}]')
    ensure(part.unit == unit, f'x[{i}:{j}].unit')
    functions = {'round': round, 'floor': math.floor, 'ceil': math.ceil,
                 'trunc': math.trunc}
    if n == 1:
        v = values[0]
        equal(int(x), int(v), 'int')
        equal(float(x), float(v), 'float')
        equal(complex(x), complex(v), 'complex')
        for name, f in functions.items():
            got = f(x)
            equal(float(got), float(f(v)), name)
            ensure(not isinstance(got.data, float),
                   f'{name} is not integral: {got.data!r}')
            ensure(got.unit == unit, f'unit of {name}')
        for digits in (1, 2):
            got = round(x, digits)
            close(float(got), round(float(v), digits), f'round to {digits}',
                  1e-14)
            ensure(got.unit == unit, f'unit of round to {digits}')
        y = parameter.variable(v, unit=unit)
        ensure(y == x, 'from a bare number')
    else:
        for f in (int, float, complex, round, math.floor, math.ceil,
                  math.trunc):
            raises(TypeError, f, x, _what=f'{f.__name__} of {n} values')
    ensure(parameter.variable(x) == x, 'copy')
    ensure(parameter.variable(physical.vector(values, unit=unit)) == x,
           'from a vector')
    scaled = x * 2
    arrayclose(numpy.array(scaled.data), 2 * numpy.array(values, float),
               'twice', 1e-14)
    ensure(scaled.unit == unit, f'unit of twice: {scaled.unit}')
    raises(ValueError, parameter.variable, x, unit=unit)
