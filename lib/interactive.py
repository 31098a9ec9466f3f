"""Drives a real interactive marcel process (python -m marcel.main) in which commands run as jobs. Standard input is a socket, which marcel,
like a terminal, takes for interactive use, and reads line by line."""
import core, os, select, signal, socket, subprocess, sys, time

CONFIG = 'from marcel.builtin import *\n'


class Gone(Exception):
    pass


class Timeout(Exception):
    pass


class Interactive:
    def __init__(self, box, config=CONFIG, env=None, layout=True, args=(), cwd=None, tag=''):
        self.box = box
        if layout:
            import marcel.persistence.storagelayout as sl
            sl.ensure_current(testing=True, initial_config=config)
        self.errpath = os.path.join(box.path, f'err{tag}{time.monotonic_ns()}')
        self.errpos = 0
        a, b = socket.socketpair()
        self.sock = a
        e = dict(os.environ, PYTHONPATH=core.REPO, PYTHONUNBUFFERED='1')
        e.update(env or {})
        with open(self.errpath, 'wb') as err:
            self.p = subprocess.Popen([sys.executable, '-B', '-u', '-m', 'marcel.main', *args], stdin=b, stdout=subprocess.PIPE, stderr=err, cwd=cwd or box.work, env=e,
                                      start_new_session=True)
        b.close()
        self.pid = self.p.pid
        self.n = 0
        self.buffer = b''

    def send(self, text):
        try:
            self.sock.sendall(text.encode('utf-8', 'surrogateescape') + b'\n')
        except OSError as e:
            raise Gone(str(e))

    def read_until(self, mark, timeout):
        end = time.monotonic() + timeout
        fd = self.p.stdout.fileno()
        while mark not in self.buffer:
            left = end - time.monotonic()
            if left <= 0:
                raise Timeout(f'no prompt after {timeout} s; output so far {self.buffer[-300:]!r}, errors {self.errors()[-600:]!r}')
            r, _, _ = select.select([fd], [], [], min(left, 1))
            if r:
                d = os.read(fd, 65536)
                if not d:
                    raise Gone(f'marcel ended (rc {self.p.poll()}); errors {self.errors()[-800:]!r}')
                self.buffer += d
        out, self.buffer = self.buffer.split(mark, 1)
        return out.decode('utf-8', 'surrogateescape')

    def errors(self):
        with open(self.errpath, 'rb') as f:
            f.seek(self.errpos)
            d = f.read()
        self.errpos += len(d)
        return d.decode('utf-8', 'surrogateescape')

    def run(self, text, timeout=60):
        """Enters a command, waits for the next prompt, and returns output and errors."""
        self.send(text)
        return self.sync(timeout)

    def sync(self, timeout=60):
        self.n += 1
        mark = f'----{self.n}----'
        self.send(f'("----{self.n}" "----")')
        out = self.read_until(mark.encode() + b'\n', timeout)
        return out, '\n'.join(l for l in self.errors().split('\n') if 'Input is not a terminal' not in l).strip('\n')

    def end(self, timeout=20):
        """Ends the session as ctrl-D does, and returns the exit status."""
        try:
            self.sock.shutdown(socket.SHUT_WR)
        except OSError:
            pass
        try:
            rest = self.p.communicate(timeout=timeout)[0]
        except subprocess.TimeoutExpired:
            self.kill()
            return None
        self.buffer += rest or b''
        return self.p.returncode

    def kill(self, sig=signal.SIGKILL):
        try:
            os.killpg(self.p.pid, sig)
        except OSError:
            pass
        if sig == signal.SIGKILL:
            try:
                self.p.wait(10)
            except Exception:
                pass
