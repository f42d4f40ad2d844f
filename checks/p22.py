"""P22 -- projects: run directories, their log and the project's commands."""
import contextlib
import fnmatch
import io
import json
import os
import pathlib
import re
import runpy
import sys

from hypothesis import strategies as st

import eprempy
from eprempy import paths, project
from checks.contained import contained
from vlib.harness import Property, ensure, equal, fail, raises

# What a project's own script imports has to be here before the case gives up
# its privileges.
import argparse                                             # noqa: F401
with contextlib.suppress(ImportError):
    import yaml                                             # noqa: F401

PROPERTY = Property(
    'P22',
    rule=(
        'Cases are histories of operations on a project (create, run, rename '
        'or remove runs in some branches, reset, rename, copy, reopen), each '
        'through the interface or the command line, and histories of '
        'operations on a run log. The oracle is a model of the directory tree '
        'and of the log. Non-trivial: an operation that changes a project '
        'with at least one run, or a log with at least two entries.'
    ),
    assumptions=[
        'Programs that stand in for mpirun record how they were called; a '
        'run succeeds or fails with their exit status.',
        'Each case runs as an unprivileged user in a directory of its own.',
        'Names of runs hold no separators and no wildcards.',
    ],
)

NAMES = ['a', 'b', 'ab', 'run-1', 'run 2', 'x.y', 'runs']
PATTERNS = NAMES + ['*', 'a*', '?', 'run*', '[ab]', '*b', 'nothing', 'z*']
BRANCHES = ['A', 'B', 'AB', 'runs']


def subsets(names):
    return st.one_of(
        st.none(), st.none(),
        st.lists(st.sampled_from(list(names) + ['unknown']), unique=True,
                 max_size=3),
        st.sampled_from(list(names)) if names else st.none(),
    )


@st.composite
def projects(draw):
    branches = draw(st.one_of(
        st.none(), st.lists(st.sampled_from(BRANCHES), unique=True,
                            min_size=1, max_size=3)))
    options = {}
    if branches:
        options['branches'] = branches
    for key, values in {
        'config': ['my.cfg', 'eprem.ini'],
        'inputs': ['cfg', 'in puts'],
        'output': ['out.log', 'output'],
        'rundir': ['simulations', 'run'],
        'logname': ['history', 'log.json', 'a.txt', 'b.log'],
    }.items():
        if draw(st.integers(0, 3)) == 0:
            options[key] = draw(st.sampled_from(values))
    names = branches or ()
    some = subsets(names) if names else st.none()
    name = st.sampled_from(['a', 'b', *draw(st.lists(
        st.sampled_from(NAMES), max_size=2))])
    flag = st.booleans()
    pick = st.integers(0, 9)
    run = st.tuples(st.just('run'), name, some, flag, st.integers(0, 3), flag,
                    flag)
    op = st.one_of(
        run,
        st.tuples(st.just('mv'), pick, st.sampled_from(NAMES), some, flag,
                  flag),
        st.tuples(st.just('mv'), pick, st.sampled_from(NAMES), st.none(),
                  flag, flag),
        st.tuples(st.just('rm'), st.sampled_from(PATTERNS), some, flag, flag),
        st.tuples(st.just('append'), pick, some, st.integers(0, 9)),
        st.tuples(st.just('rename'), st.sampled_from(['p1', 'p2', 'p1/q']),
                  flag),
        st.tuples(st.just('copy'), st.sampled_from(
            ['nothing', 'output', 'branches', 'no branches', 'others']),
            flag),
        st.tuples(st.just('by hand'), st.sampled_from(NAMES), pick),
        st.tuples(st.just('show'), st.sampled_from(['', '*', 'one']), flag),
        st.tuples(st.just('reset'), flag),
        st.just(('reopen',)),
        st.just(('again',)),
    )
    ops = (draw(st.lists(run, min_size=1, max_size=3))
           + draw(st.lists(op, min_size=1, max_size=7)))
    return options, ops, draw(flag)


def script(path, status):
    """A program that reports how it was called."""
    path.write_text(
        '#!/bin/sh\necho "ARGS $*"\necho "CWD $(pwd)"\n'
        f'echo "problem" >&2\nexit {status}\n')
    path.chmod(0o755)
    return path


def command(module, *args):
    """Run the command line of a project, or of this module, in process."""
    old = sys.argv, list(sys.path)
    sys.argv = [str(module), *map(str, args)]
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            if module == 'project':
                project.cli.run()
            else:
                runpy.run_path(str(module), run_name='__main__')
    finally:
        sys.argv, sys.path = old
    return out.getvalue()


def chosen(pick, known, others):
    """Usually something that exists."""
    known = sorted(known)
    return known[pick % len(known)] if known and pick < 8 else others[pick % 3]


class Model:
    """What a project holds."""

    def __init__(self, root, options):
        self.root = root
        self.options = dict(options)
        self.branches = list(options.get('branches') or [])
        self.base = options.get('rundir') or 'runs'
        self.config = options.get('config') or 'eprem.cfg'
        self.output = options.get('output') or 'eprem.log'
        self.inputs = options.get('inputs') or 'inputs'
        self.runs = {b: {} for b in self.branches or [None]}

    def rundir(self, branch):
        return (self.root / branch / self.base if branch
                else self.root / self.base)

    def select(self, branches):
        if not branches:
            return list(self.runs)
        chosen = {branches} if isinstance(branches, str) else set(branches)
        return [b for b in self.runs if b in chosen]

    def summary(self):
        found = {}
        for branch, runs in self.runs.items():
            for name in runs:
                found.setdefault(name, set())
                if branch:
                    found[name].add(branch)
        return found

    def count(self):
        return sum(map(len, self.runs.values()))


def check(prj, model, when):
    """Compare a project with its model."""
    equal(bool(prj), True, f'{when}: validity')
    equal(prj.root, model.root, f'{when}: root')
    equal(prj.name, model.root.name, f'{when}: name')
    equal(str(prj), model.root.name, f'{when}: text')
    equal(prj.runs, model.summary(), f'{when}: runs')
    equal(prj.branches,
          {b: set(runs) for b, runs in model.runs.items() if b},
          f'{when}: branches')
    equal(list(prj.directories), [model.rundir(b) for b in model.runs],
          f'{when}: run directories')
    for branch, runs in model.runs.items():
        rundir = model.rundir(branch)
        equal(sorted(os.listdir(rundir)), sorted(runs),
              f'{when}: directories on disk in {branch}')
        for name, run in runs.items():
            path = rundir / name
            if run['text'] is None:
                equal(os.listdir(path), [], f'{when}: files of {name}')
                continue
            equal(sorted(os.listdir(path)),
                  sorted({model.config, model.output}),
                  f'{when}: files of run {name} in {branch}')
            equal((path / model.config).read_text(), run['text'],
                  f'{when}: configuration of run {name} in {branch}')
            equal(path.joinpath(model.output).read_text().splitlines(),
                  run['said'], f'{when}: output of run {name} in {branch}')
    logged = {
        str(model.rundir(b) / name): run['log']
        for b, runs in model.runs.items() for name, run in runs.items()
        if run['log'] is not None
    }
    entries = dict(prj.log)
    equal(entries.pop('config', None), model.config,
          f'{when}: the log\'s common configuration name')
    equal(entries.pop('output', None), model.output,
          f'{when}: the log\'s common output name')
    equal(sorted(entries), sorted(logged), f'{when}: logged runs')
    for key, expected in logged.items():
        got = dict(entries[key])
        ensure(isinstance(got.pop('time', None), str),
               f'{when}: no time in {entries[key]}')
        equal(got, expected, f'{when}: log of {key}')
    equal(sorted(os.listdir(model.root)), sorted({
        '.eprem.conf', '__main__.py', model.inputs,
        pathlib.Path(model.options.get('logname') or 'runs').with_suffix(
            '.json').name,
        *(model.branches or [model.base]),
    }), f'{when}: contents of the project')


def configure(model, name, text):
    (model.root / model.inputs / name).write_text(text)


@PROPERTY.facet(projects(), quick=400, thorough=8000, shards=2,
                thorough_shards=8)
@contained
def histories(case, t, root):
    """Any history of operations leaves directories, log and project agreed."""
    options, ops, seen = case
    top = pathlib.Path(root)
    os.mkdir(top / 'bin')
    mpirun = {True: script(top / 'bin' / 'good', 0),
              False: script(top / 'bin' / 'bad', 3)}
    eprem = script(top / 'bin' / 'eprem', 0)
    start = top / 'projects' / 'start'
    prj = project.Interface(start, **options)
    model = Model(start, options)
    check(prj, model, 'creation')
    (top / 'outside.cfg').write_text('outside=1\n')
    number = 0
    for step, op in enumerate(ops):
        kind, *args = op
        when = f'step {step} {op}'
        if seen:
            prj.name, prj.runs, len(prj.log)
        if kind == 'run':
            name, branches, good, nproc, errors, external = args
            number += 1
            text = f'number={number}\n'
            configure(model, 'case.cfg', text)
            if external:
                source, text = top / 'outside.cfg', 'outside=1\n'
            else:
                source = 'case.cfg'
            made, blocked = [], False
            for b in model.select(branches):
                if name in model.runs[b]:
                    blocked = True
                    if errors:
                        break
                    continue
                made.append(b)
            if nproc == 3:      # through the project's own script
                extra = [] if not branches else [
                    '-b', *([branches] if isinstance(branches, str)
                            else branches)]
                t.label('script run')

                def act():
                    command(model.root / '__main__.py', 'run', source,
                            '-t', name, '-n', nproc, '-m', mpirun[good],
                            '-e', eprem, *([] if errors else ['-f']), *extra)
            else:
                def act():
                    prj.run(source, name=name, branches=branches,
                            nproc=nproc or None, errors=errors,
                            silent=bool(step % 2),
                            environment={'mpirun': str(mpirun[good]),
                                         'eprem': str(eprem)})
            if blocked and errors:
                raises(paths.PathOperationError, act, _what=when)
            else:
                act()
            for b in made:
                line = (f'--mca btl_base_warn_component_unused 0 -n '
                        f'{nproc or 1} {eprem} {model.config}')
                model.runs[b][name] = {
                    'text': text,
                    'said': [f'ARGS {line}',
                             f'CWD {model.rundir(b) / name}', 'problem'],
                    'log': {'command': 'nice -n 10 ionice -c 2 -n 3 '
                            f'{mpirun[good]} {line}'} if good else None,
                }
            t.label('run', 'blocked run' if blocked else 'new run',
                    'succeeds' if good else 'fails')
        elif kind == 'mv':
            name, target, branches, errors, cli = args
            name = chosen(name, model.summary(), NAMES)
            blocked = False
            pairs = []
            for b in model.select(branches):
                if name not in model.runs[b] or target in model.runs[b]:
                    blocked = True
                    if errors:
                        break
                    continue
                pairs.append(b)
            if cli:
                extra = [] if not branches else [
                    '-b', *([branches] if isinstance(branches, str)
                            else branches)]

                def act():
                    command(model.root / '__main__.py', 'mv', name, target,
                            *([] if errors else ['-f']), *extra)
            else:
                def act():
                    prj.mv(name, target, branches=branches, errors=errors,
                           silent=bool(step % 2))
            if blocked and errors:
                raises(paths.PathOperationError, act, _what=when)
            else:
                act()
            for b in pairs:
                run = model.runs[b].pop(name)
                model.runs[b][target] = run
                t.nontrivial()
            t.label('mv', 'blocked mv' if blocked else 'mv everywhere')
        elif kind == 'rm':
            pattern, branches, errors, cli = args
            if cli:
                extra = [] if not branches else [
                    '-b', *([branches] if isinstance(branches, str)
                            else branches)]
                command(model.root / '__main__.py', 'rm', pattern,
                        *([] if errors else ['-f']), *extra)
            else:
                prj.rm(pattern, branches=branches, errors=errors,
                       silent=bool(step % 2))
            for b in model.select(branches):
                for name in list(model.runs[b]):
                    if fnmatch.fnmatchcase(name, pattern):
                        del model.runs[b][name]
                        t.nontrivial()
                        t.label('rm')
        elif kind == 'append':
            name, branches, value = args
            name = chosen(name, model.summary(), NAMES)
            for b in model.select(branches):
                path = model.rundir(b) / name
                run = model.runs[b].get(name)
                if run is None or run['log'] is None:
                    raises(project.LogKeyError, prj.log.append, path, 'note',
                           value, _what=when)
                    continue
                prj.log.append(path, 'note', value)
                run['log'] = {**run['log'], 'note': value}
                t.label('append')
        elif kind == 'rename':
            target, cli = args
            target = top / 'projects' / target
            busy = target.exists()
            lost = not target.parent.exists()
            if busy or lost or model.root in target.parents:
                if busy:
                    raises(paths.PathOperationError, prj.rename, target,
                           silent=True, _what=when)
                    t.label('blocked rename')
                continue
            t.nontrivial(model.count())
            t.label('rename')
            if cli:
                command('project', 'rename', model.root, target)
                prj = project.Interface(target)
            else:
                prj.rename(str(target), silent=bool(step % 2))
            ensure(not model.root.exists(), f'{when}: the old path remains')
            model.root = target
        elif kind == 'copy':
            override, cli = args
            other = top / 'projects' / f'copy{step}'
            configure(model, 'kept.cfg', f'kept={step}\n')
            change = {
                'nothing': {},
                'output': {'output': 'other.log'},
                'branches': {'branches': ['new', 'runs']},
                'no branches': {'branches': []},
                'others': {'config': 'new.cfg', 'rundir': 'elsewhere',
                           'logname': 'new.log'},
            }[override]
            t.label(f'copy with {override}')
            if cli and override in ('nothing', 'output'):
                extra = ['-o', 'other.log'] if change else []
                command('project', 'create', other, '--copy', model.root,
                        *extra)
                new = project.Interface(other)
            else:
                new = project.Interface(other, copy=model.root, **change)
            twin = Model(other, {**model.options, **change})
            check(new, twin, f'{when}: the copy')
            equal(sorted(os.listdir(other / twin.inputs)),
                  sorted(os.listdir(model.root / model.inputs)),
                  f'{when}: copied input files')
            equal((other / twin.inputs / 'kept.cfg').read_text(),
                  f'kept={step}\n', f'{when}: text of a copied input file')
            ensure(not new == prj, f'{when}: a copy equals its original')
            t.label('copy')
            # The copy goes away without harm to the original.
            if cli:
                command('project', 'remove', other)
            else:
                new.remove(silent=True)
                equal(bool(new), False, f'{when}: validity once removed')
            ensure(not other.exists(), f'{when}: the copy remains')
        elif kind == 'by hand':
            # Someone makes an empty directory among the runs.
            name, which = args
            b = list(model.runs)[which % len(model.runs)]
            if name not in model.runs[b]:
                os.mkdir(model.rundir(b) / name)
                model.runs[b][name] = {'text': None, 'said': None,
                                       'log': None}
                t.label('by hand')
        elif kind == 'show':
            what, cli = args
            runs = model.summary()
            names = (sorted(runs) if what == '*' else
                     (['nothing'] + sorted(runs))[-1:] if what else [])
            if cli:
                said = command(
                    'project', 'show', model.root,
                    *(['-a'] if what == '*' else
                      [x for n in names for x in ('-r', n)]))
            else:
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    prj.show(*(['*'] if what == '*' else names))
                said = out.getvalue()
            lines = said.splitlines()
            titles = [x for x in lines if x in names] if names else []
            equal(sorted(titles), sorted(names),
                  f'{when}: titles in {lines}')
            for name in names:
                if name not in runs:
                    ensure(f'No run named {name!r}' in lines,
                           f'{when}: nothing about the missing run')
                    continue
                for b, found in model.runs.items():
                    path = str(model.rundir(b) / name)
                    equal(path in lines, name in found,
                          f'{when}: is {path} in {lines}')
            if not what:
                for b in model.branches:
                    ensure(f'Branch {b}' in lines, f'{when}: no branch {b}')
                for name in runs:
                    equal(lines.count(name), max(1, len(runs[name])),
                          f'{when}: how often {name} is in {lines}')
                ensure(f'root: {model.root}' in lines, f'{when}: no root')
            t.label('show')
        elif kind == 'reset':
            t.nontrivial(model.count())
            if args[0]:
                command('project', 'reset', model.root)
            else:
                prj.reset(silent=True)
            for runs in model.runs.values():
                runs.clear()
            t.label('reset')
        elif kind == 'reopen':
            old, prj = prj, project.Interface(model.root)
            equal(prj == old, True, f'{when}: equality')
            t.label('reopen')
        elif kind == 'again':
            raises(project.ProjectExistsError, project.Interface, model.root,
                   branches=['new'], _what=when)
            t.label('again')
        check(prj, model, when)
    check(project.Interface(model.root), model, 'reopened at the end')


@PROPERTY.facet(
    st.tuples(
        st.one_of(st.none(), st.lists(st.sampled_from(BRANCHES), unique=True,
                                      min_size=1, max_size=3)),
        st.sampled_from(['environment', 'branch', 'path', 'nowhere']),
        st.sampled_from(['environment', 'branch', 'path']),
        st.sampled_from(['inputs', 'here', 'both', 'neither']),
        st.sampled_from([0, 0, 1, 7, 130, 'KILL', 'TERM']),
        st.sampled_from([None, 1, 2, 65, 1000]),
        st.booleans()),
    quick=120, thorough=2500)
@contained
def programs(case, t, root):
    """A run uses the programs that the environment names, or else those next
    to the runs, or else those on the path; the configuration file among the
    project's inputs, or else that in the working directory; and the log names
    it only if it succeeded."""
    branches, eprem, mpirun, where, status, nproc, common = case
    top = pathlib.Path(root)
    prj = project.Interface(top / 'project', branches=branches)
    t.label(eprem, f'mpirun: {mpirun}', f'config: {where}', f'{status}')
    places = {'environment': top / 'named', 'path': top / 'bin'}
    for d in (*places.values(), top / 'work'):
        d.mkdir()
    owners = [top / 'project' / b for b in branches or ['.']]
    os.environ['PATH'] = f'{places["path"]}:{os.environ["PATH"]}'
    environment = {}
    expected = [{} for _ in owners]
    for name, place in (('eprem', eprem), ('mpirun', mpirun)):
        if place == 'environment':
            environment[name] = str(places[place] / name)
        here = {'environment': [places['environment']], 'branch': owners,
                'path': [places['path']], 'nowhere': []}[place]
        # A less preferred program may be there as well.
        decoys = []
        if common and place in ('environment', 'branch'):
            decoys.append(places['path'])
        if common and place == 'environment':
            decoys.extend(owners)
        for d in (*here, *decoys):
            script(d / name, 0)
            if name == 'mpirun' and status:
                end = (f'kill -{status} $$' if isinstance(status, str)
                       else f'exit {status}')
                (d / name).write_text(f'#!/bin/sh\necho "ARGS $*"\n{end}\n')
        for i, owner in enumerate(owners):
            expected[i][name] = {
                'environment': str(places['environment'] / name),
                'branch': str((owner / name).resolve()),
                'path': str(places['path'] / name), 'nowhere': name}[place]
    if where in ('inputs', 'both'):
        (top / 'project' / 'inputs' / 'x.cfg').write_text('inputs')
    if where in ('here', 'both'):
        (top / 'work' / 'x.cfg').write_text('here')
    os.chdir(top / 'work')

    def act():
        prj.run('x.cfg', name='r', nproc=nproc, silent=True, errors=True,
                environment=environment or None)

    if where == 'neither':
        raises(paths.NonExistentPathError, act)
        equal(set(prj.log), {'config', 'output'}, 'the log')
        return
    t.nontrivial(common or where == 'both' or bool(status))
    act()
    logged = {}
    for owner, names in zip(owners, expected):
        run = owner / 'runs' / 'r'
        equal((run / 'eprem.cfg').read_text(),
              'here' if where == 'here' else 'inputs', 'the configuration')
        line = (f'--mca btl_base_warn_component_unused 0 -n {nproc or 1} '
                f'{names["eprem"]} eprem.cfg')
        said = (run / 'eprem.log').read_text().splitlines()
        equal(said[0], f'ARGS {line}', 'the arguments')
        if not status:
            logged[str(run.resolve())] = (
                f'nice -n 10 ionice -c 2 -n 3 {names["mpirun"]} {line}')
    got = {k: v['command'] for k, v in prj.log.items()
           if k not in ('config', 'output')}
    equal(got, logged, f'the log after {status}')


@PROPERTY.facet(
    st.tuples(
        st.one_of(st.none(), st.lists(st.sampled_from(BRANCHES), unique=True,
                                      min_size=1, max_size=2)),
        st.lists(st.sampled_from(NAMES), unique=True, min_size=1, max_size=4),
        st.integers(0, 9), st.integers(0, 9),
        st.sampled_from(['rm', 'rm all', 'reset', 'mv from', 'mv to', 'run']),
        st.booleans(), st.booleans()),
    quick=150, thorough=3000)
@contained
def strays(case, t, root):
    """No operation on runs overwrites, moves or removes a file that lies
    among them; it is an error, or else the others are still dealt with."""
    branches, names, i, j, kind, errors, script = case
    top = pathlib.Path(root)
    prj = project.Interface(top / 'project', branches=branches)
    owners = [top / 'project' / b for b in branches or ['.']]
    rundirs = [(o / 'runs').resolve() for o in owners]
    stray = rundirs[i % len(rundirs)] / names[0]
    rest = set()
    for d in rundirs:
        for n in names:
            if d / n == stray:
                stray.write_text('precious')
                continue
            (d / n).mkdir()
            (d / n / 'data').write_text(str(d / n))
            prj.log.create(str(d / n), {'command': n})
            rest.add(d / n)
    (top / 'project' / 'inputs' / 'x.cfg').write_text('')
    other = names[j % len(names)]
    t.label(kind, 'errors' if errors else 'forced')
    t.nontrivial(len(rest) > 0)
    moved = {}
    quiet = io.StringIO()
    act = {
        'rm': lambda: prj.rm(names[0], errors=errors),
        'rm all': lambda: prj.rm('*', errors=errors),
        'reset': lambda: prj.reset(force=not errors),
        'mv from': lambda: prj.mv(names[0], 'fresh', errors=errors),
        'mv to': lambda: prj.mv(other, names[0], errors=errors),
        'run': lambda: prj.run('x.cfg', name=names[0], errors=errors,
                               environment={'mpirun': '/bin/true',
                                            'eprem': 'eprem'}),
    }[kind]
    if script and kind != 'reset':
        words = {
            'rm': ['rm', names[0]], 'rm all': ['rm', '*'],
            'mv from': ['mv', names[0], 'fresh'],
            'mv to': ['mv', other, names[0]],
            'run': ['run', 'x.cfg', '-t', names[0], '-m', '/bin/true',
                    '-e', 'eprem']}[kind]
        act = lambda: print(command(
            top / 'project' / '__main__.py', *words, '-v',
            *([] if errors else ['-f'])), end='')
        t.label('script')
    with contextlib.redirect_stdout(quiet):
        if errors:
            raises(paths.PathOperationError, act, _what=f'{kind}')
        else:
            act()
    ensure(stray.is_file() and stray.read_text() == 'precious',
           f'{kind}: the file is no longer there')
    if not errors:
        gone = {'rm': {p for p in rest if p.name == names[0]},
                'rm all': rest, 'reset': rest}.get(kind, set())
        rest = rest - gone
        if kind == 'mv from':
            moved = {p: p.parent / 'fresh' for p in rest
                     if p.name == names[0]}
    elif kind in ('rm', 'rm all', 'reset', 'mv from'):
        # What came before the error is done.
        left = {p for p in rest if p.exists()}
        moved = {p: p.parent / 'fresh' for p in rest - left
                 if kind == 'mv from'}
        if kind != 'mv from':
            rest = left
    for p in rest:
        now = moved.get(p, p)
        equal((now / 'data').read_text(), str(p), f'{kind}: data of {p}')
    equal({k for k in prj.log if k not in ('config', 'output')},
          {str(moved.get(p, p)) for p in rest}, f'{kind}: the log')
    if not errors and kind not in ('rm', 'rm all', 'reset'):
        ensure(quiet.getvalue(), f'{kind}: nothing said')


SCRIPTED = st.lists(
    st.tuples(
        st.sampled_from(['run', 'run', 'mv', 'mv', 'rm', 'rm']),
        st.sampled_from(['a', 'b', 'run 2']),
        st.sampled_from(['a', 'b', 'run 2', '*', '?']),
        st.one_of(st.none(), st.lists(st.sampled_from(BRANCHES[:2]),
                                      unique=True, max_size=2)),
        st.sampled_from([None, None, 1, 2, 12]),
        st.sampled_from(['force', 'errors']),
        st.sampled_from(['silent', 'verbose'])),
    min_size=1, max_size=6)


@PROPERTY.facet(
    st.tuples(
        st.one_of(st.none(), st.just(['A', 'B']),
                  st.lists(st.sampled_from(BRANCHES), unique=True,
                           min_size=1, max_size=3)),
        SCRIPTED),
    quick=200, thorough=3000, shards=4)
@contained
def scripts(case, t, root):
    """Operating on a project from the command line is the same as doing it by
    its methods: what is there, what the log says and what is printed."""
    branches, operations = case
    top = pathlib.Path(root)
    projects = {}
    for which in ('left-side', 'right-side'):
        prj = projects[which] = project.Interface(
            top / which / 'project', branches=branches)
        (prj.root / 'inputs' / 'x.cfg').write_text('x')
    script(top / 'mpirun', 0)
    programs = {'mpirun': str(top / 'mpirun'), 'eprem': 'eprem'}
    known = sorted(branches or [])

    def state(which):
        prj = projects[which]
        files = sorted(str(p.relative_to(prj.root))
                       for p in prj.root.rglob('*'))
        log = {k: v if isinstance(v, str) else v['command']
               for k, v in prj.log.items()}
        return files, plain(which, json.dumps(log, sort_keys=True))

    def plain(which, text):
        text = text.replace(str((top / which).resolve()), 'TOP')
        text = text.replace(os.path.relpath(top / which), 'TOP')
        text = re.sub(r'\d{4}-\d\d-\d\dT[-:.0-9]+', 'NOW', text)
        return re.sub(r'^\[\d+\]$', '[PID]', text, flags=re.M)

    for n, (kind, name, other, chosen_, nproc, errors, said) in enumerate(
            operations):
        when = f'operation {n} ({kind} {name} {other} {chosen_} {errors})'
        some = [b for b in chosen_ or [] if b in known]
        some = some or None
        strict, silent = errors == 'errors', said == 'silent'
        words = {
            'run': ['x.cfg', '-t', name, '-m', programs['mpirun'], '-e',
                    programs['eprem']] + (['-n', nproc] if nproc else []),
            'mv': [name, other if other.isalnum() else 'new'],
            'rm': [other],
        }[kind]
        words += [*(['-b', *some] if some else []),
                  *([] if strict else ['-f']), *([] if silent else ['-v'])]
        one, two = projects['left-side'], projects['right-side']
        method = {
            'run': lambda: one.run(
                'x.cfg', name=name, branches=some, nproc=nproc,
                environment=programs, errors=strict, silent=silent),
            'mv': lambda: one.mv(
                name, other if other.isalnum() else 'new', branches=some,
                errors=strict, silent=silent),
            'rm': lambda: one.rm(other, branches=some, errors=strict,
                                 silent=silent),
        }[kind]
        results = []
        for which, act in (
            ('left-side', method),
            ('right-side', lambda: print(command(
                two.root / '__main__.py', kind, *words), end=''))):
            out = io.StringIO()
            error = None
            with contextlib.redirect_stdout(out):
                try:
                    act()
                except paths.PathOperationError as err:
                    error = plain(which, str(err))
            if error is None or which == 'left-side':
                results.append((error, plain(which, out.getvalue())))
            else:
                # What a script says before it fails is not kept.
                results.append((error, results[0][1]))
        equal(results[1], results[0], f'{when}: what is said')
        if silent:
            equal(results[1][1], '', f'{when}: silence')
        equal(state('right-side'), state('left-side'),
              f'{when}: what is there')
        t.label(kind, errors, said, 'failed' if results[0][0] else 'done')
        t.nontrivial(bool(some) and len(some) < len(known) or not silent)
    prj = projects['right-side']
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        prj.show()
    lines = out.getvalue().splitlines()
    for b in branches or ['.']:
        home = prj.root / b / 'runs'
        names = sorted(p.name for p in home.iterdir())
        start = lines.index('Runs' if b == '.' else f'Branch {b}') + 1
        start += bool(lines[start:]) and set(lines[start]) <= set('-=~_')
        equal(sorted(lines[start:start + len(names)]), names,
              f'runs shown for {b} in {lines}')
        t.label(f'{min(len(names), 3)} runs shown')


# ------------------------------------------------------------------- the log
VALUES = st.recursive(
    st.one_of(st.integers(-5, 5), st.booleans(), st.none(),
              st.sampled_from(['x', '', 'text', 'é'])),
    lambda s: st.one_of(st.lists(s, max_size=2),
                        st.dictionaries(st.sampled_from('abc'), s,
                                        max_size=2)),
    max_leaves=4)
ITEMS = st.dictionaries(st.sampled_from(['k', 'time', 'n', 'common']), VALUES,
                        max_size=3)
KEYS = st.sampled_from(['HERE/a', 'HERE/b', 'HERE/sub/a', '/else/HERE/a',
                        '/x', 'plain', 'common', 'HERElong/a',
                        'HERE/ab', 'plain2', '/xy', 'HERE/a/run'])

SOME = ['HERE/a', 'plain', '/missing', '/x']


@st.composite
def logs(draw):
    pick = st.integers(0, 9)
    op = st.one_of(
        st.tuples(st.just('create'), KEYS, ITEMS, st.booleans()),
        st.tuples(st.just('create'), KEYS, ITEMS, st.booleans()),
        st.tuples(st.just('append'), pick, st.sampled_from('kmn'), VALUES),
        st.tuples(st.just('mv'), pick, KEYS),
        st.tuples(st.just('rm'), pick),
        st.tuples(st.just('load'), KEYS, ITEMS,
                  st.sampled_from(['.json', '.JSON', 'json', '.yaml', 'yaml',
                                   '.txt'])),
        st.tuples(st.just('move'), st.sampled_from(['one', 'two', 'one/two'])),
        st.tuples(st.just('broken'), KEYS),
        st.just(('reopen',)),
    )
    return (draw(st.booleans()), draw(ITEMS),
            draw(st.lists(op, min_size=1, max_size=12)))


@PROPERTY.facet(logs(), quick=500, thorough=12000, shards=2,
                thorough_shards=4)
@contained
def records(case, t, root):
    """A run log holds what a history of operations put there."""
    aspath, common, ops = case
    top = pathlib.Path(root)
    here = top / 'one'
    for d in ['one/two', 'two']:
        (top / d).mkdir(parents=True)
    log = project.RunLog(here / 'runs.json', **common)
    model = dict(common)

    def full(key):
        key = key.replace('HERE', str(here))
        return pathlib.Path(key) if aspath else key

    def verify(when):
        equal(dict(log), model, f'{when}: the log')
        equal(len(log), len(model), f'{when}: the length of the log')
        equal(json.loads(log.path.read_text()), model, f'{when}: the file')
        equal(str(log), str(dict(log)), f'{when}: text')
        for key in model:
            equal(log[key], model[key], f'{when}: entry {key}')
        raises(project.LogKeyError, lambda: log['missing'])

    verify('creation')
    for op in ops:
        kind, *args = op
        if kind == 'create':
            key, items, keywords = args
            key = full(key)
            result = (log.create(key, **items) if keywords and items
                      else log.create(key, items))
            ensure(result is log, f'{op}: not the log itself')
            model[str(key)] = items
        elif kind == 'append':
            key, name, value = args
            key = full(chosen(key, model, SOME))
            if str(key) not in model:
                raises(project.LogKeyError, log.append, key, name, value)
            elif isinstance(model[str(key)], dict):
                log.append(key, name, value)
                model[str(key)] = {**model[str(key)], name: value}
        elif kind == 'mv':
            old = full(chosen(args[0], model, SOME))
            new = full(args[1])
            if str(old) not in model:
                raises(project.LogKeyError, log.mv, old, new)
            else:
                t.nontrivial(len(model) > 1)
                log.mv(old, new)
                model[str(new)] = model.pop(str(old))
                t.label('mv')
        elif kind == 'rm':
            key = full(chosen(args[0], model, SOME))
            log.rm(key)
            model.pop(str(key), None)
        elif kind == 'load':
            key, items, suffix = args
            key = full(key)
            dotted = suffix.startswith('.')
            source = top / ('data' + (suffix if dotted else '.txt'))
            source.write_text(json.dumps(items))
            extra = [] if dotted else [suffix]
            kind = suffix.lower().lstrip('.')
            if kind == 'txt':
                raises(ValueError, log.load, key, source, *extra)
            elif kind == 'yaml' and not project._HAVE_YAML:
                raises(project.ReadTypeError, log.load, key, source, *extra)
            else:
                log.load(key, source, *extra)
                model[str(key)] = items
                t.label('load')
        elif kind == 'move':
            target = top / args[0]
            raises(paths.PathTypeError, log.update_directory, top / 'nowhere')
            if target == here:
                continue
            os.rename(here / 'runs.json', target / 'runs.json')
            log.update_directory(target)
            equal(log.path, target / 'runs.json', f'{op}: the path')
            moved = {}
            for key, value in model.items():
                path = pathlib.PurePath(key)
                if here in path.parents:
                    key = str(target / path.relative_to(here))
                moved[key] = value
            t.nontrivial(len(model) > 1)
            t.label('moved entries' if moved.keys() != model.keys()
                    else 'moved file')
            model, here = moved, target
        elif kind == 'broken':
            key = full(args[0])
            raises((TypeError, ValueError), log.create, key,
                   {'value': object()})
        elif kind == 'reopen':
            raises(TypeError, project.RunLog, here / 'runs.json', extra=1)
            log = project.RunLog(str(here / 'runs.json'))
        verify(f'{op}')
