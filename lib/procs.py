"""Marcel sessions in processes of their own: forked from this one, driven through pipes."""
import json, os, select, signal, struct, time, traceback
import core


class Gone(Exception):
    pass


class Timeout(Exception):
    pass


class Proc:
    """A session (session.Session) in a forked process."""

    def __init__(self, box, config, cwd=None, layout=False, protect=True, before=None):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(w1)
                os.close(r2)
                self.serve(box, config, cwd, layout, protect, before, r1, w2)
                code = 0
            except BaseException:
                try:
                    core.send(w2, ['', traceback.format_exc()[-1500:]])
                except BaseException:
                    pass
            finally:
                os._exit(code)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.alive = True
        self.startup = self.answer(60)

    @staticmethod
    def serve(box, config, cwd, layout, protect, before, r, w):
        import session

        class SubBox:
            path = os.path.join(box.path, f'p{os.getpid()}')
            home, work, tier = box.home, box.work, box.tier
        os.makedirs(SubBox.path, exist_ok=True)
        # what a new process of marcel would not know
        import marcel.object.workspace as w_
        w_.Workspace.DEFAULT = None
        if before:
            before()
        s = session.Session(SubBox, config=config, cwd=cwd, layout=layout)
        if protect:
            s.env.enforce_var_immutability()
        core.send(w, [s.startup_out, s.startup_err])
        while True:
            m = core.recv(r)
            if m is None:
                return
            if m[0] == 'run':
                a = s.run(m[1])
                core.send(w, [a.out, a.err + (('EXC ' + a.exc) if a.exc else '')])
            elif m[0] == 'close':
                core.send(w, list(s.close()))
                return

    def answer(self, timeout):
        try:
            m = core.recv(self.r, time.time() + timeout)
        except EOFError:
            m = None
        except TimeoutError as e:
            raise Timeout(str(e))
        if m is None:
            self.reap()
            raise Gone('session process ended')
        return tuple(m)

    def send(self, text):
        try:
            core.send(self.w, ['run', text])
        except OSError as e:
            raise Gone(str(e))

    def run(self, text, timeout=60):
        self.send(text)
        return self.answer(timeout)

    def close(self, timeout=60):
        core.send(self.w, ['close'])
        a = self.answer(timeout)
        self.reap()
        return a

    def kill(self, sig=signal.SIGKILL):
        if self.alive:
            os.kill(self.pid, sig)
            self.reap()

    def reap(self):
        if self.alive:
            self.alive = False
            os.waitpid(self.pid, 0)
            os.close(self.w)
            os.close(self.r)
