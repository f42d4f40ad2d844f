"""A small driver for property-based checks.

A *facet* is one executable statement of (part of) a property.  It pairs a
Hypothesis strategy, which generates a *case* made of plain Python literals,
with a function that runs the code under test on that case and compares what
it observes with an explicit oracle.  Because every case is plain data, each
shrunk failure is saved as a replay file that needs no generator.
"""
import ast
import contextlib
import dataclasses
import hashlib
import io
import os
import signal
import sys
import time
import traceback
import warnings

from . import env


class Violation(AssertionError):
    """The code under test contradicted the oracle."""


class _StopShrinking(KeyboardInterrupt):
    """Raised to end a search once shrinking has used its budget."""


class Tally:
    """What a facet records about the cases it ran."""

    def __init__(self):
        self.labels = {}
        self._current = None
        self.nontrivial_flag = False
        self.notes = []

    def begin(self):
        self._current = set()
        self.nontrivial_flag = False

    def label(self, *names):
        for name in names:
            self._current.add(str(name))

    def nontrivial(self, flag=True):
        self.nontrivial_flag = self.nontrivial_flag or bool(flag)

    def excluded(self, finding):
        """Record that a known finding excluded (part of) this case."""
        self.label(f'excluded:{finding}')

    def end(self):
        for name in self._current:
            self.labels[name] = self.labels.get(name, 0) + 1


@dataclasses.dataclass
class Facet:
    name: str
    strategy: object
    check: object
    quick: int
    thorough: int
    shards: int = 1
    thorough_shards: int = 8
    stateful: bool = False
    doc: str = ''


@dataclasses.dataclass
class Finding:
    """A genuine defect that is recorded rather than repaired."""
    ident: str
    what: str
    demo: object        # a callable that returns True while the defect is there


class Property:
    """The collection of facets that decide a property."""

    def __init__(self, ident, rule, assumptions=()):
        self.ident = ident
        self.rule = rule
        self.assumptions = list(assumptions)
        self.facets = {}
        self.findings = {}

    def facet(self, strategy, quick=200, thorough=4000, shards=1,
              thorough_shards=8):
        def wrap(function):
            name = function.__name__
            if name in self.facets:
                raise ValueError(f'duplicate facet {name!r}')
            self.facets[name] = Facet(
                name, strategy, function, quick, thorough,
                shards, thorough_shards,
                doc=(function.__doc__ or '').strip(),
            )
            return function
        return wrap

    def finding(self, ident, what):
        def wrap(function):
            self.findings[ident] = Finding(ident, what, function)
            return function
        return wrap


# --------------------------------------------------------------------- oracle
def fail(message):
    raise Violation(message)


def ensure(condition, message='condition is false', *args):
    if not condition:
        if callable(message):
            message = message()
        raise Violation(message % args if args else message)


def equal(actual, expected, what=''):
    """Fail unless two values compare equal."""
    if not (actual == expected):
        raise Violation(
            f'{what}: got {short(actual)}, expected {short(expected)}')


def close(actual, expected, what='', rtol=1e-9, atol=0.0):
    """Fail unless two real numbers (or arrays) agree within a tolerance."""
    import numpy
    a = numpy.asarray(actual, dtype=float)
    b = numpy.asarray(expected, dtype=float)
    if a.shape != b.shape:
        raise Violation(f'{what}: got shape {a.shape}, expected {b.shape}')
    if not numpy.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True):
        raise Violation(
            f'{what}: got {short(actual)}, expected {short(expected)}')


def raises(kinds, function, *args, **kwargs):
    """Fail unless the call raises one of these exceptions; return it."""
    what = kwargs.pop('_what', '')
    try:
        result = function(*args, **kwargs)
    except kinds as err:
        return err
    names = kinds.__name__ if isinstance(kinds, type) else ', '.join(
        k.__name__ for k in kinds)
    raise Violation(f'{what}: returned {short(result)} instead of raising {names}')


def short(x, limit=300):
    try:
        s = repr(x)
    except Exception as err:        # the representation may be what broke
        s = f'<unprintable {type(x).__name__}: {err}>'
    return s if len(s) <= limit else s[:limit] + '...'


@contextlib.contextmanager
def quiet():
    """Silence what the code under test prints and warns about."""
    import numpy
    out, err = io.StringIO(), io.StringIO()
    with warnings.catch_warnings(), numpy.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            yield out, err


# --------------------------------------------------------------------- running
def _from_repo(err):
    """True if this exception passed through the code under test."""
    for frame in traceback.extract_tb(err.__traceback__):
        if os.path.abspath(frame.filename).startswith(env.SRC + os.sep):
            return True
    return False


def describe(err):
    tb = traceback.extract_tb(err.__traceback__)
    where = ''
    for frame in reversed(tb):
        if os.path.abspath(frame.filename).startswith(env.SRC):
            rel = os.path.relpath(frame.filename, env.REPO)
            where = f' at {rel}:{frame.lineno} in {frame.name}'
            break
    return f'{type(err).__name__}: {err}{where}'


class HarnessError(Exception):
    """Something went wrong that says nothing about the code under test."""


class TooSlow(BaseException):
    """One case used all the time that any case may take."""


CASE_SECONDS = 60       # ordinary cases take milliseconds


@contextlib.contextmanager
def deadline(seconds):
    """Interrupt a case that does not come to an end."""
    def interrupt(*_):
        raise TooSlow()
    old = signal.signal(signal.SIGALRM, interrupt)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run_case(facet, case, tally):
    """Run one case; raise Violation if the code breaks the property."""
    tally.begin()
    try:
        with quiet(), deadline(CASE_SECONDS):
            facet.check(case, tally)
    except Violation:
        raise
    except TooSlow as err:
        raise Violation(f'no result after {CASE_SECONDS} s') from err
    except (MemoryError, RecursionError) as err:
        if isinstance(err, RecursionError) and _from_repo(err):
            raise Violation(f'unexpected {describe(err)}') from err
        raise HarnessError(describe(err)) from err
    except OSError as err:
        if _from_repo(err):
            raise Violation(f'unexpected {describe(err)}') from err
        raise HarnessError(describe(err)) from err
    except Exception as err:
        kind = type(err).__module__
        if kind.startswith('hypothesis'):
            raise
        raise Violation(f'unexpected {describe(err)}') from err
    finally:
        tally.end()


def seed_for(base, *names):
    text = ':'.join([str(base), *map(str, names)])
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:6], 'big')


def run_facet(prop, facet, *, seed, count, shard, budget, scratch):
    """Search one facet; return a picklable summary."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.errors import Flaky, Unsatisfiable
    hypothesis.configuration.set_hypothesis_home_dir(scratch)
    tally = Tally()
    state = {
        'evaluations': 0, 'failure': None, 'first': None, 'skipped': 0,
        'attempts': 0,
    }
    seen = {}
    samples = []
    history = []
    start = time.monotonic()

    def body(case):
        now = time.monotonic()
        if state['failure'] is None and now - start > budget:
            state['skipped'] += 1
            return
        if state['first'] is not None and now - state['first'] > 45:
            raise _StopShrinking()
        text = repr(case)
        if state['failure'] is None:
            state['evaluations'] += 1
            history.append(text)
            if len(history) > 3000:
                del history[:1000]
        try:
            run_case(facet, case, tally)
        except Violation as err:
            if state['first'] is None:
                state['first'] = now
                state['original'] = text
                state['history'] = list(history)
            best = state['failure']
            if best is None or len(text) <= len(best[0]):
                state['failure'] = (text, str(err))
            raise
        if tally.nontrivial_flag:
            digest = hashlib.blake2b(text.encode(), digest_size=8).hexdigest()
            if digest not in seen:
                seen[digest] = 1
                if len(samples) < 4 or (len(seen) % 97 == 0 and len(samples) < 8):
                    samples.append(text[:600])

    test = given(facet.strategy)(body)
    test = settings(
        max_examples=count, database=None, deadline=None,
        derandomize=False, report_multiple_bugs=False,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
        print_blob=False, verbosity=hypothesis.Verbosity.quiet,
    )(test)
    test = hypothesis.seed(seed_for(seed, prop.ident, facet.name, shard))(test)
    error = None
    try:
        test()
    except Violation:
        pass
    except _StopShrinking:
        pass
    except Flaky as err:
        if state['failure'] is None:
            error = f'flaky: {err}'
        else:
            state['flaky'] = True
    except Exception as err:
        if state['failure'] is None:
            error = ''.join(traceback.format_exception(err))
    result = {
        'facet': facet.name,
        'shard': shard,
        'seed': seed,
        'evaluations': state['evaluations'],
        'distinct': list(seen),
        'labels': tally.labels,
        'samples': samples,
        'skipped': state['skipped'],
        'wall': time.monotonic() - start,
        'error': error,
        'failure': None,
    }
    if state['failure'] is not None:
        text, message = state['failure']
        result['failure'] = {
            'case': text,
            'message': message,
            'original': state.get('original'),
            'flaky': state.get('flaky', False),
            'history': state.get('history', [])[-3000:],
        }
    return result


def parse_case(text):
    return ast.literal_eval(text)
