"""Run a case where nothing it does can reach beyond a scratch directory.

The case runs in a child process, as a user that owns nothing but a directory
of its own, and what removes or renames files there refuses any path outside
of that directory.
"""
import functools
import os
import pickle
import shutil
import signal
import tempfile

from vlib.harness import HarnessError, Violation, _from_repo, describe

NOBODY = 65534


class Escaped(BaseException):
    """An operation on a path outside the scratch directory."""


class Recorder:
    """Collects what a case says about itself, for the parent process."""

    def __init__(self):
        self.calls = []

    def label(self, *args):
        self.calls.append(('label', args))

    def nontrivial(self, *args):
        self.calls.append(('nontrivial', args))


def _guard(root):
    """Refuse to remove or rename anything that is not below the root."""
    def inside(path):
        full = os.path.realpath(os.path.join(os.getcwd(), os.fspath(path)))
        if not full.startswith(root + os.sep):
            raise Escaped(full)

    rmtree, rename = shutil.rmtree, os.rename

    def guarded_rmtree(path, *args, **kwargs):
        inside(path)
        return rmtree(path, *args, **kwargs)

    def guarded_rename(source, target, *args, **kwargs):
        inside(source)
        inside(target)
        return rename(source, target, *args, **kwargs)

    shutil.rmtree, os.rename = guarded_rmtree, guarded_rename


def _child(function, case, root):
    recorder = Recorder()
    try:
        os.setpgid(0, 0)
        _guard(root)
        try:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        except OSError:
            pass            # already an ordinary user: the guard remains
        os.environ['HOME'] = root
        tempfile.tempdir = root
        os.chdir(root)
        function(case, recorder, root)
        result = ('ok', '')
    except Violation as err:
        result = ('violation', str(err))
    except Escaped as err:
        result = ('violation', f'removes or renames what it must not: {err}')
    except OSError as err:
        result = ('violation' if _from_repo(err) else 'harness',
                  f'unexpected {describe(err)}')
    except (KeyboardInterrupt, MemoryError) as err:
        result = ('harness', describe(err))
    except BaseException as err:
        result = ('violation', f'unexpected {describe(err)}')
    return result, recorder.calls


def contained(function):
    """Run `function(case, t, root)` where only `root` can change."""
    @functools.wraps(function)
    def check(case, t):
        outer = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
        if os.stat(outer).st_uid == os.getuid() and outer != '/tmp':
            os.chmod(outer, 0o711)
        root = os.path.realpath(tempfile.mkdtemp(dir=outer))
        try:
            os.chown(root, NOBODY, NOBODY)
        except OSError:
            pass
        reader, writer = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                os.close(reader)
                signal.setitimer(signal.ITIMER_REAL, 0)
                payload = pickle.dumps(_child(function, case, root))
                with os.fdopen(writer, 'wb') as stream:
                    stream.write(payload)
            finally:
                os._exit(0)
        os.close(writer)
        try:
            with os.fdopen(reader, 'rb') as stream:
                payload = stream.read()
        finally:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
            shutil.rmtree(root, ignore_errors=True)
        if not payload:
            raise HarnessError('the case ended its process')
        (kind, text), calls = pickle.loads(payload)
        for name, args in calls:
            getattr(t, name)(*args)
        if kind == 'violation':
            raise Violation(text)
        if kind == 'harness':
            raise HarnessError(text)
    del check.__wrapped__
    return check
