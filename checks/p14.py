"""P14 -- the command-line interface to configuration files."""
import contextlib
import io
import os
import re
import subprocess
import sys

import numpy
from hypothesis import strategies as st

from eprempy import cli
from eprempy import metric
from eprempy import parameter
from eprempy import paths
from vlib import env
from vlib import parameters as F
from vlib.harness import Property, close, ensure, equal, raises
from checks import datasets, p13, p15

PROPERTY = Property(
    'P14',
    rule=(
        'Cases are requests to generate a default configuration file, from '
        'the package or from generated source code, and to compare one to '
        'three generated configuration files, with and without the options '
        'to show differences only and file names. The oracle reads the file '
        'or the printed table, and compares it with the independent table '
        'of parameters and the settings that were written. Non-trivial: a '
        'file sets a parameter, or source code was given.'
    ),
    assumptions=[
        'A parameter that a file sets to its default value may count as '
        'different from one that another file does not set.',
    ],
)


def captured(f, *args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f(*args)
    return out.getvalue()


def options(**given):
    base = {'generate': None, 'files': None, 'source': None,
            'verbose': False, 'diff': False, 'names': False}
    return {**base, **given}


# ------------------------------------------------------------------ generate

def contents(path):
    """The active and the commented definitions in a file."""
    active, passive = [], []
    with open(path) as f:
        for line in f:
            line = line.strip()
            if line.startswith('#'):
                line = line.lstrip('# ')
                if re.match(r'\w+=', line):
                    passive.append(tuple(line.split('=', 1)))
            elif line:
                active.append(tuple(line.split('=', 1)))
    return active, passive


def numbers(text):
    return [float(s) for s in re.findall(
        r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?', text)]


@PROPERTY.facet(
    st.tuples(st.one_of(st.none(), p15.source()), st.booleans()),
    quick=200, thorough=3000)
def generate(case, t):
    """A generated file sets each parameter to its default value, so reading
    it back changes nothing."""
    src, verbose = case
    top = p15.write(src) if src else None
    path = os.path.join(datasets.scratch(), 'default.cfg')
    if os.path.exists(path):
        os.remove(path)
    printed = captured(cli.run, 'configfile', options(
        generate=path, source=top, verbose=verbose))
    t.label('source' if src else 'package')
    t.nontrivial(src is not None and len(src[1]) > 0)
    ensure((path in printed) if verbose else not printed,
           f'printed {printed!r}')
    if src:
        model = p15.model(src)
        facts = {k: kind for k, (kind, _) in model.parameters.items()}
    else:
        model = F.Model()
        facts = {k: v['type'] for k, v in F.PARAMETERS.items()}
    active, passive = contents(path)
    keys = [k for k, _ in active]
    equal(len(set(keys)), len(keys), 'number of distinct definitions')
    expected = {k: model.default(k) for k in facts}
    equal(keys, sorted(k for k, v in expected.items() if v is not None),
          'parameters that the file sets')
    equal({k for k, _ in passive},
          {k for k, v in expected.items() if v is None},
          'parameters that the file mentions')
    for k, text in active:
        kind, value = facts[k], expected[k]
        what = f'{k} in the file'
        if kind == 'str':
            equal(text, value, what)
        elif kind == 'list':
            ensure(text.startswith('[') and text.endswith(']'),
                   f'{what} is {text!r}')
            got = [float(s) for s in text[1:-1].split(',')]
            equal(len(got), len(value), f'length of {what}')
            for a, b in zip(got, value):
                close(a, b, what, 1e-12)
        elif kind == 'int':
            equal(int(text), value, what)
        else:
            close(float(text),
                  value, what, 1e-9, 1e-12 * max(
                      [1e-3, *(abs(v) for v in expected.values()
                               if isinstance(v, float))]))
    one = parameter.interface(srcdir=top)
    two = parameter.interface(path, top)
    for k in facts:
        a, b = one[k], two[k]
        what = f'{k} after reading {dict(active).get(k)!r}'
        if isinstance(a, parameter.Variable):
            ensure(isinstance(b, parameter.Variable), f'{what} is {b!r}')
            ensure(a.unit == b.unit, f'unit of {what}')
            equal([float(i) for i in b.data], [float(i) for i in a.data], what)
        else:
            equal(b, a, what)


# ------------------------------------------------------------------- compare

NAMES = ['a.cfg', 'run/eprem.cfg', 'other/eprem.cfg', 'run/deep/x']


@st.composite
def requests(draw):
    files = [(name, draw(p13.settings())) for name in draw(st.lists(
        st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))]
    if len(files) > 1 and draw(st.booleans()):
        # Some settings in common.
        k = draw(st.integers(0, len(files) - 2))
        files[k + 1] = (files[k + 1][0], {**files[k][1], **files[k + 1][1]})
    return files, draw(st.booleans()), draw(st.booleans())


def blocks(text):
    """The parts of a printed table, as (key, default, rows)."""
    out = []
    for part in re.split(r'\n\s*\n', text.strip('\n')):
        lines = [line for line in part.split('\n') if line.strip()]
        if not lines:
            continue
        head = lines[0].strip()
        m = re.fullmatch(r'(\w+) \(default: (.*)\)', head)
        ensure(m, f'heading {head!r}')
        ensure(set(lines[1].strip()) == {'-'}, f'rule {lines[1]!r}')
        rows = [tuple(line.strip().split(None, 1)) for line in lines[2:]]
        ensure(all(len(r) == 2 for r in rows), f'rows {rows}')
        out.append((m[1], m[2], [(a, b.strip()) for a, b in rows]))
    return out


def displayed(text, name, value, degrees, what):
    """Check the text of a value."""
    unit = F.PARAMETERS[name]['unit']
    if degrees and unit == 'rad':
        unit = 'deg'
    if value is None:
        equal(text, 'None', what)
        return
    if unit not in (None, '1'):
        m = re.fullmatch(r"(.*\S)\s+'([^']*)'", text)
        ensure(m, f'{what} has no unit: {text!r}')
        if name not in p13.UNCLEAR:
            ensure(metric.unit(m[2]) == metric.unit(unit),
                   f'unit of {what}: {m[2]!r}')
        text = m[1]
    if isinstance(value, str):
        equal(text, value, what)
        return
    got = numbers(text)
    values = value if isinstance(value, list) else [value]
    equal(len(got), len(values), f'number of values of {what}: {text!r}')
    for a, b in zip(got, values):
        close(a, b, f'{what}: {text!r}', 1e-7, 1e-7 * max(map(abs, values)))


def prepare(files):
    top = datasets.scratch()
    out = []
    for name, chosen in files:
        path = os.path.join(top, 'cfg', name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write('# settings\n')
            for k, (text, _) in chosen.items():
                f.write(f'{k} = {text}\n')
        out.append(path)
    return out


def verify(printed, files, diff, names, paths_):
    model = F.Model()
    table = blocks(printed) if printed.strip() else []
    keys = [k for k, _, _ in table]
    if names:
        common = os.path.commonpath(paths_)
        labels = [os.path.relpath(p, common) for p in paths_]
    else:
        labels = [str(i) for i in range(len(files))]
    degrees = [c.get('useDegrees', (0, 0))[1] for _, c in files]
    if diff:
        needed, allowed = set(), set()
        for k in F.PARAMETERS:
            values = [c[k][1] if k in c else model.default(k)
                      for _, c in files]
            angle = F.PARAMETERS[k]['unit'] == 'rad'
            if any(v != values[0] for v in values):
                needed.add(k)
            given = [k in c for _, c in files]
            if k in needed or len(set(given)) > 1 or (
                    angle and len(set(degrees)) > 1):
                allowed.add(k)
        ensure(needed <= set(keys), f'not shown: {needed - set(keys)}')
        ensure(set(keys) <= allowed, f'shown: {set(keys) - allowed}')
        equal(keys, sorted(keys), 'order')
    else:
        equal(keys, sorted(F.PARAMETERS), 'parameters')
    for key, default, rows in table:
        displayed(default, key, model.default(key), 0, f'default of {key}')
        equal([a for a, _ in rows], labels, f'labels of {key}')
        for (label, text), (_, chosen), deg in zip(rows, files, degrees):
            if key in chosen:
                displayed(text, key, chosen[key][1], deg, f'{key} of {label}')
            else:
                equal(text, '(default)', f'{key} of {label}')
    return table


@PROPERTY.facet(requests(), quick=300, thorough=4000, shards=2)
def compare(case, t):
    """The table shows every parameter (or those that differ) with its
    default value and the value that each file gives it."""
    files, diff, names = case
    where = prepare(files)
    t.label(f'{len(files)} files', 'diff' if diff else 'all',
            'names' if names else 'indices')
    t.nontrivial(any(c for _, c in files))
    printed = captured(cli.run, 'configfile', options(
        files=where, diff=diff, names=names))
    verify(printed, files, diff, names, where)
    raises(paths.NonExistentPathError, captured, cli.run, 'configfile',
           options(files=[*where, where[0] + '.missing']))
    raises(cli.CLIError, cli.run, 'unknown', options())


@PROPERTY.facet(st.tuples(p15.source(), p15.source(), st.booleans()),
                quick=120, thorough=1500)
def versions(case, t):
    """With source code, the table shows the parameters and default values
    of that code; a file that was generated from it differs in no value."""
    src, other, diff = case
    top = p15.write(src)
    model = p15.model(src)
    path = os.path.join(datasets.scratch(), 'run.cfg')
    kinds = {k: kind for k, (kind, _) in model.parameters.items()}
    # Settings from other source code: some of them are parameters here.
    chosen = {s[1]: str(i) for i, s in enumerate(other[1])
              if s[0] in ('readInt', 'readDouble')}
    with open(path, 'w') as f:
        for k, v in chosen.items():
            f.write(f'{k}={v}\n')
    second = os.path.join(datasets.scratch(), 'empty.cfg')
    open(second, 'w').close()
    printed = captured(cli.run, 'configfile', options(
        files=[path, second], source=top, diff=diff))
    table = blocks(printed) if printed.strip() else []
    set_here = set(chosen) & set(kinds)
    t.nontrivial(bool(set_here))
    expected = sorted(set_here if diff else kinds)
    equal([k for k, _, _ in table], expected, 'parameters')
    for key, default, rows in table:
        value = model.default(key)
        if isinstance(value, str):
            equal(default, value, f'default of {key}')
        elif value is None:
            equal(default, 'None', f'default of {key}')
        elif isinstance(value, list):
            equal(len(numbers(default.split("'")[0])), len(value),
                  f'default of {key}')
        (_, first), (_, last) = rows
        equal(last, '(default)', f'{key} of the empty file')
        if key in set_here:
            if kinds[key] in ('int', 'float'):
                equal(numbers(first)[0], float(chosen[key]), key)
        else:
            equal(first, '(default)', f'{key} of the file')


@PROPERTY.facet(st.tuples(requests(), st.booleans(), st.integers(0, 99)),
                quick=10, thorough=80)
def programs(case, t):
    """The program does what the functions do, in any process."""
    (files, diff, names), generate, seed = case
    where = prepare(files)
    t.label('generate' if generate else 'compare')
    t.nontrivial()
    path = os.path.join(datasets.scratch(), 'program.cfg')
    args = ['-g', path, '-v'] if generate else ['-c', *where]
    if not generate:
        args += ['--diff'] * diff + ['--names'] * names
    done = subprocess.run(
        [sys.executable, '-m', 'eprempy', 'configfile', *args],
        capture_output=True, text=True, timeout=50,
        env={**os.environ, 'PYTHONHASHSEED': str(seed),
             'PYTHONPATH': os.path.join(env.REPO, 'src')})
    equal(done.returncode, 0, f'status with {done.stderr[-300:]}')
    if generate:
        ensure(path in done.stdout, f'printed {done.stdout!r}')
        twin = path + '2'
        cli.run('configfile', options(generate=twin))
        with open(path) as f, open(twin) as g:
            one, two = ([x for x in h if 'Generated' not in x]
                        for h in (f, g))
        equal(one, two, 'generated file')
        return
    verify(done.stdout, files, diff, names, where)
    equal(done.stdout, captured(cli.run, 'configfile', options(
        files=where, diff=diff, names=names)), 'output')
