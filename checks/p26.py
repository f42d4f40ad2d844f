"""P26 -- files are found as asked, and the helpers keep their contracts."""
import contextlib
import io
import os
import pathlib
import re
import shutil
import sys
import tempfile

import numpy
from hypothesis import strategies as st

from eprempy import container, etc, exceptions, interfaces, paths
from vlib.harness import Property, ensure, equal, fail, raises

PROPERTY = Property(
    'P26',
    rule=(
        'Cases are trees of files, directories and links with paths to look '
        'up in them; texts with comments; callables that raise; command '
        'lines; classes; and tables. Each result is compared with that of '
        'the operating system or of a model of a few lines. Non-trivial: '
        'the path is not already in its final form, more than one place '
        'holds the file, an exception is raised, or a collection has at '
        'least two members.'
    ),
    assumptions=['Everything is created below a scratch directory of the '
                 'check.'],
)


@contextlib.contextmanager
def scratch():
    """A scratch directory that is home and current directory meanwhile."""
    base = pathlib.Path(tempfile.mkdtemp(
        dir=os.environ.get('VERIF_SCRATCH'))).resolve()
    before = os.getcwd()
    kept = {k: os.environ.get(k) for k in ('HOME', 'PATH')}
    os.environ['HOME'] = str(base)
    os.chdir(base)
    try:
        yield base
    finally:
        os.chdir(before)
        for key, value in kept.items():
            if value is None:
                os.environ.pop(key, None)
            else:
                os.environ[key] = value
        shutil.rmtree(base)


# ------------------------------------------------------------------ the trees
NAMES = ['a', 'b', 'data', 'run.cfg', 'obs 1', 'x.y.z', '.hidden']
PLACES = st.lists(st.sampled_from(NAMES[:4]), min_size=0, max_size=3).map(
    lambda parts: '/'.join(parts))
ENTRIES = st.lists(
    st.tuples(PLACES, st.sampled_from(NAMES),
              st.sampled_from(['file', 'file', 'directory', 'link'])),
    min_size=1, max_size=8)
SEGMENTS = st.lists(
    st.sampled_from([*NAMES, '.', '..', '']), min_size=0, max_size=5)


def build(base, entries):
    """Create the entries, in order, as far as they are possible."""
    made = []
    for place, name, kind in entries:
        parent = base / place
        try:
            parent.mkdir(parents=True, exist_ok=True)
            target = parent / name
            if kind == 'directory':
                target.mkdir()
            elif kind == 'file':
                if not os.path.lexists(target):
                    target.write_text(place)
            elif made and made[-1] != target:
                target.symlink_to(made[-1])
        except (FileExistsError, NotADirectoryError, OSError):
            continue
        if os.path.lexists(target):
            made.append(target)
    return made


@PROPERTY.facet(st.tuples(
    ENTRIES, st.sampled_from(['', '~/', './', '/']), SEGMENTS,
    st.booleans(), st.booleans()), quick=400, thorough=4000)
def resolved(case, t):
    """Paths are expanded and resolved as by the operating system."""
    entries, start, parts, whole, aspath = case
    with scratch() as base:
        build(base, entries)
        if start == '/':
            text = str(base) + '/' + '/'.join(parts)
        else:
            text = start + '/'.join(parts) or '.'
        if not start and text.startswith('/'):
            text = '.' + text
        given = pathlib.Path(text) if aspath else text
        try:
            expected = os.path.realpath(os.path.expanduser(text))
            os.stat(expected)
            there = True
        except OSError as err:
            if 'Too many' in str(err):
                t.label('loop')
                return
            there = False
        # nothing outside of the scratch directory is of interest
        equal(str(paths.fullpath(given)), expected, f'fullpath({text!r})')
        equal(str(paths.normalize(given)), expected, f'normalize({text!r})')
        ensure(isinstance(paths.fullpath(given), pathlib.Path)
               and isinstance(paths.normalize(given), pathlib.Path),
               'the result is not a path')
        if there:
            equal(str(paths.fullpath(given, strict=True)), expected,
                  f'fullpath({text!r}, strict)')
        else:
            err = raises(paths.NonExistentPathError, paths.fullpath, given,
                         strict=True, _what=f'fullpath({text!r}, strict)')
            ensure(text in str(err) or str(given) in str(err),
                   f'the error {err} does not name {text!r}')
        local = paths.localize(given)
        equal(local, pathlib.Path(pathlib.Path(text).name),
              f'localize({text!r})')
        equal(paths.localize(given, normalized=True),
              pathlib.Path(os.path.basename(expected)),
              f'localize({text!r}, normalized)')
        t.label('there' if there else 'missing')
        t.nontrivial(expected != text)


@PROPERTY.facet(st.tuples(
    ENTRIES, st.sampled_from(NAMES), st.lists(PLACES, max_size=4), PLACES,
    st.booleans()), quick=300, thorough=3000)
def searched(case, t):
    """A search finds the file in the first of the places that has it."""
    entries, name, places, here, aspath = case
    with scratch() as base:
        build(base, entries)
        current = base / here
        if not current.is_dir():
            current = base
        os.chdir(current)
        places = [base / p for p in places]
        given = places if aspath else [str(p) for p in places]
        missing = []
        expected = None
        for place in [*places, current]:
            if not place.exists():
                missing.append(place)
                break
            if place.is_dir() and (place.resolve() / name).exists():
                expected = place.resolve() / name
                break
        if missing:
            raises(paths.NonExistentPathError, paths.search, name, *given,
                   _what=f'search of {places}')
        else:
            equal(paths.search(name, *given), expected,
                  f'search({name!r}, {places})')
        holders = {p.resolve() for p in [*places, current]
                   if p.is_dir() and (p.resolve() / name).exists()}
        t.label('missing' if missing else 'found' if expected else 'absent')
        t.nontrivial([len(holders) > 1])


TEMPLATES = [
    ('{}', lambda name: name),
    ('{}.cfg', lambda name: f'{name}.cfg'),
    ('obs {}', lambda name: f'obs {name}'),
    ('.{}', lambda name: f'.{name}'),
    ('{}/b', lambda name: pathlib.Path(name) / 'b'),
]
STEMS = st.sampled_from(['a', 'run', '1', 'hidden', 'b'])


@PROPERTY.facet(st.tuples(
    ENTRIES, st.lists(st.integers(0, 4), max_size=5), STEMS, PLACES,
    st.sampled_from(['given', 'path', 'current'])), quick=300, thorough=3000)
def templates(case, t):
    """The first template that a file conforms to names the file."""
    entries, chosen, name, place, how = case
    with scratch() as base:
        build(base, entries)
        where = base / place
        functions = [TEMPLATES[i][1] for i in chosen]
        if how == 'current':
            if not where.is_dir():
                where = base
            os.chdir(where)
            args = ()
        else:
            args = (str(where) if how == 'given' else where,)
        if not where.exists():
            raises(paths.NonExistentPathError, paths.find_file_by_template,
                   functions, name, *args, _what=f'templates in {where}')
            t.label('no directory')
            return
        found = [where.resolve() / str(f(name)) for f in functions]
        found = [p for p in found if p.exists()]
        equal(paths.find_file_by_template(functions, name, *args),
              found[0] if found else None, f'template of {name!r}')
        t.label('found' if found else 'absent')
        t.nontrivial([len(set(found)) > 1 or how == 'current'])


@PROPERTY.facet(st.tuples(
    ENTRIES, st.sampled_from(['a', 'b', 'data', 'tool-x']), PLACES,
    st.sampled_from(['none', 'file', 'missing', 'other']),
    st.booleans()), quick=300, thorough=3000)
def located(case, t):
    """A program comes from the environment, the place, or the system path."""
    entries, name, place, how, installed = case
    with scratch() as base:
        made = build(base / 'tree', entries)
        tools = base / 'tools'
        tools.mkdir()
        if installed:
            tool = tools / name
            tool.write_text('#!/bin/sh\n')
            tool.chmod(0o755)
        os.environ['PATH'] = str(tools)
        environment = {'unrelated': str(tools)}
        location = base / 'tree' / place / name
        if how == 'file' and made:
            location = made[0]
            environment[name] = str(location)
        elif how == 'missing':
            location = base / 'nowhere' / name
            environment[name] = str(location)
        try:
            there = location.exists()
        except OSError:
            t.label('loop')
            return
        result = paths.locate(name, base / 'tree' / place, environment)
        if there:
            expected = pathlib.Path(os.path.realpath(location))
        elif installed:
            expected = tools / name
        else:
            expected = pathlib.Path(name)
        equal(result, expected, f'locate({name!r}) with {environment}')
        t.label('there' if there else 'installed' if installed else 'nowhere')
        t.nontrivial([how != 'none' or not there])


# -------------------------------------------------------------------- the text
LINES = st.lists(st.text(
    st.sampled_from('abc =1.2#!/;\t'), max_size=16), max_size=12)


@PROPERTY.facet(st.tuples(
    LINES, st.booleans(), st.sets(st.sampled_from('#!;'), max_size=3),
    st.sampled_from(['plain', 'relative', 'home'])),
    quick=300, thorough=3000)
def text_files(case, t):
    """Lines, matches and comments of a file are those of its text."""
    lines, closed, comments, how = case
    text = '\n'.join(lines) + ('\n' if closed else '')
    with scratch() as base:
        file = base / 'file.txt'
        file.write_text(text)
        given = {'plain': file, 'relative': 'file.txt',
                 'home': '~/file.txt'}[how]
        expected = text.splitlines(keepends=True)
        this = paths.TextFile(given)
        equal(this.lines, expected, 'lines')
        equal(this.path, file, 'path')
        equal(str(this), str(file), 'text of a text file')
        if how != 'home':
            equal(paths.file_lines(given), len(expected), 'number of lines')
        pattern = re.compile(r'\s*([abc]+)\s*=\s*([\d.]+)')
        got = this.extract(pattern.match, lambda m: (m[1], m[2]))
        model = {}
        for line in expected:
            found = pattern.match(line)
            if found:
                model[found[1]] = found[2]
        equal(list(got.items()), list(model.items()), 'extracted')
        equal(this.lines, expected, 'lines, again')
    for line in lines:
        at = min((line.find(c) for c in comments if c in line),
                 default=len(line))
        equal(paths.strip_inline_comments(line, sorted(comments)),
              line[:at].strip(), f'{line!r} without comments {comments}')
    t.nontrivial([len(model) > 0 and len(expected) > 1])


# ------------------------------------------------------------- the exceptions
class Base(Exception):
    """An exception with subtypes."""


class Derived(Base):
    """A subtype."""


class Furthest(Derived):
    """A subtype of a subtype."""


KINDS = {
    'ValueError': ValueError, 'UnicodeError': UnicodeError,
    'LookupError': LookupError, 'KeyError': KeyError,
    'IndexError': IndexError, 'TypeError': TypeError,
    'ArithmeticError': ArithmeticError,
    'ZeroDivisionError': ZeroDivisionError,
    'Base': Base, 'Derived': Derived, 'Furthest': Furthest,
}
KIND = st.sampled_from(sorted(KINDS))
VALUES = st.one_of(
    st.none(), st.integers(-3, 3), st.sampled_from(['', 'bad']),
    st.lists(st.integers(0, 3), max_size=2), st.just('...'),
    st.just('absent'), st.just('array'))


@PROPERTY.facet(st.tuples(
    st.lists(st.tuples(KIND, VALUES), max_size=4), st.one_of(st.none(), KIND),
    st.lists(st.integers(0, 5), max_size=3),
    st.dictionaries(st.sampled_from(['x', 'y']), st.integers(0, 5)),
    ), quick=400, thorough=4000)
def substitutions(case, t):
    """A known exception yields its value; every other one is raised."""
    known, kind, args, kwargs = case

    def function(*a, **k):
        if kind is not None:
            raise KINDS[kind]('raised')
        return ('result', a, k)

    array = numpy.array([1.0, 2.0])
    wrapper = exceptions.Wrapper(function)
    registered = {}
    for name, value in known:
        if value == 'absent':
            got = wrapper.catch(KINDS[name])
            value = None
        else:
            actual = (... if value == '...' else
                      array if value == 'array' else value)
            got = wrapper.catch(KINDS[name], actual)
        ensure(got is wrapper, 'catch does not return the wrapper')
        registered[name] = value
    for _ in range(2):
        if kind is None:
            equal(wrapper.compute(*args, **kwargs),
                  ('result', tuple(args), kwargs), 'result')
            t.label('no exception')
            continue
        # an exception registered by its own type takes precedence; among
        # several of its supertypes any may apply
        matching = [n for n in registered
                    if issubclass(KINDS[kind], KINDS[n])]
        if kind in matching:
            matching = [kind]
        if not matching:
            raises(KINDS[kind], wrapper.compute, *args, _what='unknown',
                   **kwargs)
            t.label('unknown exception')
            continue
        allowed = []
        for name in matching:
            value = registered[name]
            if value != '...':
                allowed.append(array if value == 'array' else value)
            elif kwargs and args:
                allowed.append((tuple(args), kwargs))
            elif kwargs:
                allowed.append(kwargs)
            elif len(args) == 1:
                allowed.append(args[0])
            else:
                allowed.append(tuple(args))
        result = wrapper.compute(*args, **kwargs)
        ensure(any(result is a if a is array else
                   result is not array and type(result) is type(a)
                   and result == a for a in allowed),
               f'{kind} yields {result!r} with {registered}')
        t.label('own' if matching == [kind] else 'supertype')
    t.nontrivial([kind is not None and len(registered) > 0])


@PROPERTY.facet(st.tuples(
    KIND, st.one_of(KIND, VALUES), st.one_of(st.none(), st.just('message')),
    st.one_of(st.none(), KIND), st.integers(0, 9)), quick=200, thorough=2000)
def converted(case, t):
    """An expected exception becomes a value or another exception."""
    expected, replacement, message, kind, x = case
    if isinstance(replacement, str) and replacement in KINDS:
        other, value = KINDS[replacement], None
    else:
        other, value = None, replacement

    def function(y, *, z=1):
        """Some function."""
        if kind is not None:
            raise KINDS[kind]('raised')
        return y + z

    given = other or value
    if message is None:
        new = exceptions.convert(KINDS[expected], given)(function)
    else:
        new = exceptions.convert(
            KINDS[expected], given, message=message)(function)
    equal(new.__name__, 'function', 'name')
    equal(new.__doc__, 'Some function.', 'documentation')
    if kind is None:
        equal(new(x), x + 1, 'result')
        equal(new(x, z=3), x + 3, 'result')
    elif not issubclass(KINDS[kind], KINDS[expected]):
        err = raises(KINDS[kind], new, x, _what='another exception')
        equal(type(err), KINDS[kind], 'type of exception')
    elif other is None:
        equal(new(x), value, 'value')
    else:
        err = raises(other, new, x, _what='the replacement')
        equal(type(err), other, 'type of exception')
        equal(type(err.__cause__), KINDS[kind], 'its cause')
        if message:
            ensure(message in str(err), f'{err!r} has no message')
    t.nontrivial([kind is not None])
    equal(exceptions.isexception(given), other is not None, 'isexception')


# ------------------------------------------------------------ the command line
COMMANDS = ['alpha', 'beta', 'gamma', 'delta']
WORDS = st.sampled_from(['x', 'yy', '1', 'file.cfg', 'alpha'])


@PROPERTY.facet(st.tuples(
    st.lists(st.sampled_from(COMMANDS), min_size=1, max_size=4, unique=True),
    st.sampled_from(COMMANDS), WORDS, st.one_of(st.none(), WORDS),
    st.booleans(), st.booleans()), quick=150, thorough=1500)
def commands(case, t):
    """A command line runs the function it names with the values it gives."""
    names, name, word, option, flag, called = case
    cli = interfaces.CLI(prog='prog', description='Some program.')
    calls = []

    def define(key):
        def function(target, option=None, flag=False):
            calls.append((key, target, option, flag))
            return key
        function.__name__ = key
        function.__doc__ = f'Run {key}.\n\nMore.\n'
        return function

    for key in names:
        function = define(key)
        new = cli.include()(function) if called else cli.include(function)
        equal(new('direct', flag=True), key, 'call of a command')
        equal(calls.pop(), (key, 'direct', None, True), 'call of a command')
        equal(new.__name__, key, 'name of a command')
        cli.subcommands[key].add_argument('target')
        cli.subcommands[key].add_argument('-o', '--option')
        cli.subcommands[key].add_argument(
            '-f', '--flag', action='store_true')
    equal(list(cli), names, 'commands')
    equal(len(cli), len(names), 'number of commands')
    for key in COMMANDS:
        equal(key in cli, key in names, f'{key} in commands')
        if key in names:
            ensure(cli[key] is cli.subcommands[key], f'commands[{key}]')
            ensure(f'Run {key}.' in cli[key].format_help(),
                   f'the help of {key} does not describe it')
        else:
            raises(KeyError, cli.__getitem__, key, _what=f'commands[{key}]')
    text = cli.parser.format_help()
    for key in names:
        ensure(re.search(rf'{key}\s+Run {key}\.', text),
               f'the help does not list {key}: {text}')
    argv = ['prog', name, word]
    if option:
        argv += ['--option', option]
    if flag:
        argv += ['-f']
    kept = sys.argv
    sys.argv = argv
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            if name in names:
                cli.run()
            else:
                raises(SystemExit, cli.run, _what='unknown command')
    finally:
        sys.argv = kept
    equal(calls, [(name, word, option, flag)] if name in names else [],
          f'calls for {argv}')
    t.nontrivial([len(names) > 1])


# ----------------------------------------------------------------- the helpers
LITERALS = st.recursive(
    st.one_of(st.none(), st.booleans(), st.integers(-99, 99),
              st.floats(allow_nan=False, allow_infinity=False),
              st.text(st.sampled_from('ab\'" ,\\'), max_size=5)),
    lambda x: st.one_of(
        st.lists(x, max_size=3), st.lists(x, max_size=3).map(tuple),
        st.dictionaries(st.sampled_from('ab'), x, max_size=2)), max_leaves=5)


@PROPERTY.facet(st.tuples(
    st.lists(LITERALS, max_size=3),
    st.dictionaries(st.sampled_from(['x', 'y', 'mode']), LITERALS,
                    max_size=3)), quick=200, thorough=2000)
def arguments(case, t):
    """The text of arguments is how they are passed."""
    args, kwargs = case
    text = etc.strargs(*args, **kwargs)
    got = eval(f'catch({text})',  # noqa: S307
               {'catch': lambda *a, **k: (a, k)})
    equal(got, (tuple(args), kwargs), f'arguments {text}')
    equal(list(got[1]), list(kwargs), 'order of keywords')
    t.nontrivial([len(args) + len(kwargs) > 1])


TEXTS = st.lists(st.text(st.sampled_from('abc'), min_size=1, max_size=4),
                 min_size=1, max_size=6)


@PROPERTY.facet(st.tuples(TEXTS, st.sampled_from(['and', 'or', 'nor', None]),
                          st.booleans()), quick=150, thorough=1500)
def joined(case, t):
    """Strings are joined in order with the conjunction before the last."""
    items, word, quoted = case
    args = () if word is None else (word,)
    got = etc.join((x for x in items), *args, quoted=quoted)
    word = word or 'and'
    shown = [f"'{x}'" if quoted else x for x in items]
    if len(shown) == 1:
        expected = shown[0]
    elif len(shown) == 2:
        expected = f'{shown[0]} {word} {shown[1]}'
    else:
        expected = ', '.join(shown[:-1]) + f', {word} {shown[-1]}'
    equal(got, expected, f'join({items})')
    if not quoted:
        equal(etc.join(items, *args), expected, f'join({items})')
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        etc.underline(items[0])
    equal(out.getvalue().strip('\n').split('\n'),
          [items[0], '-' * len(items[0])], 'underlined')
    t.nontrivial([len(items) > 2])


PLAIN = st.one_of(
    st.sampled_from([None, 0, 0.0, 1, -2.5, '', 'a', [], (), {}, [0], (0,),
                     [[]], {'a': 1}, 0j, False, True]),
    st.lists(st.integers(0, 3), max_size=3).map(lambda n: ('shape', n)))


@PROPERTY.facet(PLAIN, quick=100, thorough=400)
def nulls(case, t):
    """Empty things and None are null; numbers and arrays of zeros are not."""
    if isinstance(case, tuple) and case[:1] == ('shape',):
        shape = tuple(case[1])
        x = numpy.zeros(shape)
        expected = 0 in shape
    else:
        x = case
        expected = x is None or (
            isinstance(x, (str, list, tuple, dict)) and len(x) == 0)
    equal(etc.isnull(x), expected, f'isnull({x!r})')
    if not isinstance(x, numpy.ndarray):
        equal(etc.isnull(iter([x]).__next__()), expected, f'isnull({x!r})')
    t.nontrivial([True])


TYPES = {'int': int, 'str': str, 'float': float, 'list': list, 'bool': bool}
TARGETS = st.sampled_from([1, 2.5, 'a', '', [], [1], True, 0, None])


@PROPERTY.facet(st.tuples(
    st.lists(st.sampled_from(sorted(TYPES)), min_size=1, max_size=3),
    st.lists(TARGETS, max_size=4)), quick=150, thorough=1500)
def instances(case, t):
    """All targets are instances of the types when each of them is."""
    names, targets = case
    types = tuple(TYPES[n] for n in names)
    given = types[0] if len(types) == 1 else types
    if not targets:
        raises(TypeError, etc.allisinstance, given, _what='no targets')
        return
    equal(etc.allisinstance(given, *targets),
          all(isinstance(x, types) for x in targets),
          f'allisinstance({names}, {targets})')
    results = [None, 0, '', [], *targets]
    first = next((x for x in results if x), None)
    called = []

    def method(value):
        def f(a, b=0):
            called.append((value, a, b))
            return value
        return f

    got = etc.apply([method(x) for x in results], 7, b=2)
    equal(got, first, f'apply over {results}')
    count = next((i + 1 for i, x in enumerate(results) if x), len(results))
    equal(called, [(x, 7, 2) for x in results[:count]], 'calls of apply')
    t.nontrivial([len(targets) > 1])


class A0: ...
class A1(A0): ...
class A2(A1): ...
class X1(A1): ...
class Y1(A1): ...
class B0: ...


CLASSES = {'A0': A0, 'A1': A1, 'A2': A2, 'X1': X1, 'Y1': Y1, 'B0': B0}
CLASS = st.sampled_from(sorted(CLASSES))


@PROPERTY.facet(st.tuples(CLASS, CLASS, st.one_of(st.none(), CLASS)),
                quick=150, thorough=300)
def widest(case, t):
    """Of two related types the more derived one; else their given base."""
    a, b, base = (CLASSES[n] if n else None for n in case)
    if base is not None and not (issubclass(a, base) and issubclass(b, base)):
        raises(TypeError, etc.widest, a(), b(), base=base, _what=str(case))
        return
    if issubclass(a, b):
        expected = a
    elif issubclass(b, a):
        expected = b
    elif base is None:
        raises(ValueError, etc.widest, a(), b(), _what=str(case))
        return
    else:
        expected = base
    args = {} if base is None else {'base': base}
    equal(etc.widest(a(), b(), **args), expected, f'widest{case}')
    t.nontrivial([a is not b])


DOCS = st.tuples(
    st.booleans(), st.text(st.sampled_from('ABab `'), min_size=1,
                           max_size=12).filter(lambda s: s.strip() == s
                                               and s[0] != '`'),
    st.booleans(),
    st.lists(st.text(st.sampled_from('abc `'), max_size=50), max_size=5))


@PROPERTY.facet(st.tuples(
    DOCS, st.booleans(),
    st.sampled_from([None, {}, {'`': "'"}, {'a': 'xyz'},
                     {'`a`': 'A', '`': ''}])),
    quick=200, thorough=2000)
def help_texts(case, t):
    """Help has the words of the documentation, with their replacements."""
    (newline, summary, period, body), asobject, replacements = case
    summary += '.' if period else ''
    text = ('\n' if newline else '') + summary + '\n' + '\n'.join(
        '    ' + line for line in body)

    class Documented:
        pass

    Documented.__doc__ = text
    given = Documented if asobject else text
    kwargs = {} if replacements is None else {'replacements': replacements}
    first, rest = summary, '\n'.join(body)
    for old, new in (replacements or {}).items():
        first, rest = first.replace(old, new), rest.replace(old, new)
    equal(etc.doc2help(given, **kwargs), first, 'summary')
    equal(etc.doc2help(given, mode='summary', **kwargs), first, 'summary')
    if first.strip('.'):
        phrase = etc.doc2help(given, mode='phrase', **kwargs)
        equal(phrase, first[0].lower() + first[1:].rstrip('.'), 'phrase')
    full = etc.doc2help(given, mode='full', **kwargs)
    lines = full.split('\n')
    equal(lines[0], first, 'summary in full')
    equal(lines[1:2], [''], 'blank line after the summary')
    equal(' '.join(lines[2:]).split(), rest.split(), 'body in full')
    ensure(all(len(line) <= 70 for line in lines[1:]), 'lines are too long')
    t.nontrivial([len(rest.split()) > 2])


KEYS = st.sampled_from(['/a', '/b', 'a', './a'])


@PROPERTY.facet(st.lists(st.tuples(
    st.integers(0, 2), KEYS,
    st.sampled_from(['positional', 'keyword', 'path', 'extra'])),
    min_size=1, max_size=10), quick=200, thorough=2000)
def one_instance(case, t):
    """A class of path-based objects has one instance for each path."""

    def define(n):
        class This(metaclass=paths.PathSet):
            def __init__(self, path, option=None):
                self.path = path
                self.option = option
        This.__name__ = f'This{n}'
        return This

    classes = [define(n) for n in range(3)]
    known = {}
    for n, key, how in case:
        cls = classes[n]
        if how == 'keyword':
            new = cls(path=key)
        elif how == 'path':
            key = pathlib.Path(key)
            new = cls(key)
        elif how == 'extra':
            new = cls(key, option=1)
        else:
            new = cls(key)
        ensure(type(new) is cls, f'an instance of {cls} is a {type(new)}')
        equal(new.path, key, 'path of an instance')
        slot = (n, type(key), key)
        if slot in known:
            ensure(new is known[slot], f'two instances of {cls} for {key}')
        known[slot] = new
    for cls in classes:
        raises(TypeError, cls, 12, _what='an instance without a path')
    t.label(f'{len(known)} instances')
    t.nontrivial([len({s[0] for s in known}) > 1 and len(case) > len(known)])


CELLS = st.one_of(
    st.integers(-999, 999), st.text(st.sampled_from('abcdef'), max_size=9),
    st.none(), st.floats(-9, 9), st.lists(st.integers(0, 9), max_size=2))
COLUMNS = ['name', 'mass', 'q', 'symbol']


@PROPERTY.facet(st.tuples(
    st.lists(st.tuples(CELLS, CELLS, CELLS, CELLS), min_size=1, max_size=4),
    st.one_of(st.none(),
              st.lists(st.sampled_from([*COLUMNS, 'other']), max_size=4,
                       unique=True))), quick=200, thorough=2000)
def tables(case, t):
    """A printed table has the requested columns of all entries, aligned."""
    rows, names = case
    entries = [dict(zip(COLUMNS, row)) for row in rows]
    table = container.Table(entries)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if names is None:
            table.show()
        else:
            table.show(names)
    shown = [n for n in names or () if n in COLUMNS]
    lines = out.getvalue().split('\n')
    equal(lines.pop(), '', 'end of the last line')
    if not shown:
        ensure(not ''.join(lines).strip(), f'printed {lines} for {names}')
        return
    equal(len(lines), 2 + len(entries), 'number of lines')
    equal(len(set(map(len, lines))), 1, 'widths of lines')
    equal(lines[0].split(), shown, 'titles')
    equal(lines[1].split(), ['-' * len(n) for n in shown], 'dashes')
    # the widths of the columns follow from their contents
    start = 0
    for n in shown:
        width = 4 + max(len(n), *(len(str(e[n])) for e in entries))
        for line, entry in zip(lines[2:], entries):
            equal(line[start:start + width].strip(), str(entry[n]),
                  f'{n} of {entry}')
        start += width
    t.nontrivial([len(shown) > 1 and len(entries) > 1])


@PROPERTY.facet(st.lists(st.tuples(
    st.integers(0, 2), st.sampled_from(['get', 'getter', 'instance']),
    st.integers(0, 9)), min_size=1, max_size=6), quick=100, thorough=500)
def class_properties(case, t):
    """A property of a class belongs to the class that is asked."""
    class P0:
        value = 10
        @etc.classproperty
        def double(cls):
            return (cls.__name__, cls.value * 2)
    class P1(P0):
        value = 20
    class P2(P1):
        pass
    classes = [P0, P1, P2]
    for n, how, value in case:
        cls = classes[n]
        if how == 'instance':
            got = cls().double
        elif how == 'get':
            got = cls.double
        else:
            cls.value = value
            got = cls.double
        equal(got, (cls.__name__, cls.value * 2), f'{how} of {cls.__name__}')
    members = {'a': property(lambda self: 1), 'b': 1, 'c': len}
    for name, member in members.items():
        equal(etc.isproperty(member), name == 'a', f'isproperty({member})')

    @etc.autostr
    class Shown:
        def __init__(self, v):
            self.v = v
        def __str__(self):
            return f'v={self.v}'

    @etc.str2repr
    class Also(Shown):
        def __str__(self):
            return f'w={self.v}'

    class Child(Shown):
        def __str__(self):
            return f'x={self.v}'

    for cls, letter in ((Shown, 'v'), (Also, 'w'), (Child, 'x')):
        for _, _, v in case:
            equal(repr(cls(v)), f'{cls.__name__}({letter}={v})',
                  f'representation of {cls.__name__}')
    ensure(etc.NothingType() is etc.Nothing, 'there are two nothings')
    nothing = etc.Nothing
    equal((nothing[case], nothing(*case), len(nothing), list(nothing),
           bool(nothing), case in nothing),
          (None, None, 0, [], False, False), 'nothing')
    raises(StopIteration, next, nothing, _what='next of nothing')
    t.nontrivial([len(case) > 1])
