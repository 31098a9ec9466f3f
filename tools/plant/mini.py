"""Runs marcel commands in a session of its own, in a scratch home."""
import contextlib, io, os, shutil, sys, tempfile
sys.dont_write_bytecode = True
REPO = os.environ.get('REPO_UNDER_TEST', os.getcwd())
sys.path.insert(0, REPO)
HOME = tempfile.mkdtemp(prefix='demo.')
os.environ.update(HOME=HOME, USER='nobody', MARCEL_MULTIPROCESSING_START_METHOD='fork')
os.makedirs(os.path.join(HOME, 'work'))


class Session:
    def __init__(self, config='from marcel.builtin import *\n'):
        import marcel.main, marcel.env, marcel.object.workspace, marcel.persistence.storagelayout as sl
        assert os.path.realpath(marcel.__path__[0]).startswith(os.path.realpath(REPO)), marcel.__path__
        with contextlib.redirect_stderr(io.StringIO()):
            sl.ensure_current(testing=True, initial_config=config)
            self.env = marcel.env.EnvironmentInteractive.create(workspace=marcel.object.workspace.Workspace.default())
            self.main = marcel.main.MainInteractive(None, self.env, testing=True)
            self.main.run_startup_scripts()
        os.chdir(os.path.join(HOME, 'work'))
        self.env.dir_state().change_current_dir(os.getcwd())

    def run(self, text):
        o, e = io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
            self.main.parse_and_run_command(text)
        return o.getvalue(), e.getvalue()


def finish(ok):
    os.chdir('/')
    shutil.rmtree(HOME, ignore_errors=True)
    sys.stdout.flush()
    os._exit(0 if ok else 1)


def expect(cases, config='from marcel.builtin import *\n'):
    """cases: list of (command, expected stdout or None)"""
    ok = True
    try:
        s = Session(config)
        for command, expected in cases:
            out, err = s.run(command)
            if expected is not None and not (expected(out, err) if callable(expected) else out == expected):
                print(f'{command!r}: expected {expected!r}, got {out!r} {err!r}')
                ok = False
    except BaseException as x:
        print(f'{type(x).__name__}: {x}')
        ok = False
    finish(ok)
