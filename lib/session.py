"""Drives real marcel sessions inside the current (forked, unprivileged) process."""
import core, io, os, sys, time

CONFIG = 'from marcel.builtin import *\n'


def preload():
    import marcel.main, marcel.env, marcel.object.workspace, marcel.persistence.storagelayout
    import marcel.op, importlib, pkgutil
    for m in pkgutil.iter_modules(marcel.op.__path__):
        try:
            importlib.import_module('marcel.op.' + m.name)
        except Exception:
            pass
    assert os.path.realpath(marcel.__path__[0]).startswith(os.path.realpath(core.REPO) + '/'), marcel.__path__


class Result:
    def __init__(self, out, err, exc):
        self.out, self.err, self.exc = out, err, exc

    @property
    def lines(self):
        return self.out.split('\n')[:-1] if self.out.endswith('\n') else (self.out.split('\n') if self.out else [])

    def __repr__(self):
        return f'Result(out={self.out[-600:]!r}, err={self.err[-400:]!r}, exc={self.exc!r})'


class FdCapture:
    """Captures file descriptors 1 and 2, so that output of child processes is included."""

    def __init__(self, path):
        self.paths = (os.path.join(path, '.cap1'), os.path.join(path, '.cap2'))
        self.files = [os.open(p, os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o600) for p in self.paths]

    def start(self):
        sys.stdout.flush()
        sys.stderr.flush()
        self.saved = (os.dup(1), os.dup(2))
        for fd, f in zip((1, 2), self.files):
            os.ftruncate(f, 0)
            os.dup2(f, fd)

    def stop(self):
        for s in (sys.stdout, sys.stderr):
            try:
                s.flush()
            except Exception:
                pass
        out = []
        for fd, f, s in zip((1, 2), self.files, self.saved):
            os.dup2(s, fd)
            os.close(s)
            n = os.fstat(f).st_size
            out.append(os.pread(f, n, 0).decode('utf-8', 'replace') if n else '')
        return out


def plain_streams():
    """Replace sys.stdout/stderr by ordinary text streams over fds 1 and 2."""
    sys.stdout = io.TextIOWrapper(io.FileIO(1, 'w', closefd=False), encoding='utf-8', errors='surrogateescape',
                                  line_buffering=False, write_through=True)
    sys.stderr = io.TextIOWrapper(io.FileIO(2, 'w', closefd=False), encoding='utf-8', errors='surrogateescape',
                                  line_buffering=True, write_through=True)


class Session:
    """A marcel command-line session, run in this process (interactive main, jobs executed in place)."""

    def __init__(self, box, config=CONFIG, cwd=None, layout=True):
        import marcel.main, marcel.env, marcel.object.workspace, marcel.persistence.storagelayout as sl
        plain_streams()
        self.box = box
        self.cap = FdCapture(box.path)
        self.ncommands = 0
        self.cap.start()
        try:
            if layout:
                sl.ensure_current(testing=True, initial_config=config)
            self.Workspace = marcel.object.workspace.Workspace
            self.marcel = marcel
            self.main = None
            self.env = None
            self._start(self.Workspace.default(), None)
            self.chdir(cwd or box.work)
        finally:
            self.startup_out, self.startup_err = self.cap.stop()

    def _start(self, workspace, old):
        m = self.marcel
        trace = self.env.trace if self.env else None
        self.env = m.env.EnvironmentInteractive.create(workspace=workspace, trace=trace)
        self.main = m.main.MainInteractive(old, self.env, testing=True)
        self.main.run_startup_scripts()

    def chdir(self, d):
        os.chdir(d)
        self.env.dir_state().change_current_dir(d)

    def run(self, text):
        exc = None
        self.ncommands += 1
        self.cap.start()
        try:
            self.main.parse_and_run_command(text)
        except self.marcel.exception.ReconfigureException as e:
            try:
                self.main.shutdown(restart=True)
                self._start(e.workspace_to_open or self.env.workspace, self.main)
                self.env.go_to_current_dir()
            except BaseException as ex:
                exc = f'{type(ex).__name__}: {ex}'
        except KeyboardInterrupt:
            raise
        except BaseException as ex:
            exc = f'{type(ex).__name__}: {ex}'
        finally:
            out, err = self.cap.stop()
        return Result(out, err, exc)

    def close(self):
        self.cap.start()
        try:
            self.main.shutdown()
        finally:
            return self.cap.stop()


MARK = '@'
TAP = "map (*x: '" + MARK + "' + repr(x))"


def stream_text(data, var='DATA'):
    """Pipeline text producing exactly the items of the list bound to var."""
    n = len(data)
    return f'gen {n} | map (i: {var}[i])' if n else 'gen 1 | select (i: False)'


def item(x):
    """The tuple of values an operator function sees for element x of a stream."""
    return tuple(x) if type(x) in (tuple, list) else (x,)


def show(x):
    return MARK + repr(item(x))


def parse_out(result):
    """Lines of tapped output -> ['@...' | 'E' ...]"""
    return [l if l.startswith(MARK) else ('E' if 'Error(' in l or l.startswith('Error') else '?' + l) for l in result.lines]
