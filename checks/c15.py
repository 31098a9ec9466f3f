"""C15: first starts and upgrades. Homes of all earlier storage layouts (and fresh ones), with contents made by real sessions, are given to real marcel processes, some of which are killed or fail
at one of their file operations, or start at the same time; afterwards everything must be there, and further starts must change nothing."""
import json, os, random, shutil, sys, time
from c13 import contents, value, Careful
from c14 import tree, works

ID = 'C15'
LEVEL = 'exploration'
RULE = ('A home is made: fresh, or with the layouts of versions before 0.13, 0.13, 0.20, 0.24, 0.28 and 0.32, with up to four named workspaces (variables, functions, pipelines, imports, reservoirs, home, history, own startup '
        'script; also called workspace, broken, and left locked by a dead process; with properties of older versions), a customized default startup script, histories of either format or none, any VERSION, '
        'other files of the user, with and without XDG_*_HOME. Then real processes are started on it: up to three are killed at (also: in the middle of) or get an I/O error from their k-th file operation; possibly three start at '
        'the same time; then one starts undisturbed. That one must start without complaint or damage report, every file of the user must be in its new place byte for byte, all workspaces must be listed and '
        'work when opened, VERSION must be right, and two more starts must not change anything. Non-trivial: a finally undisturbed start, keyed by layout and interrupted operations.')
ASSUMPTIONS = ['the layouts are those which marcel/persistence/storagelayout.py describes; the formats of env.pickle and properties.pickle are the current ones (properties also without home, as before 0.20)',
               'histories not in the format of version 0.32 are documented to be discarded', 'a kill takes effect before, or in the middle of, an operation on one file, as seen by Python']
N = {'quick': 330, 'thorough': 9000}
LAYOUTS = ['fresh', 'original', 'xdg', 'ws1', 'ws2', 'ws3', 'pt']
REQUIRED = ['layout:' + l for l in LAYOUTS] + ['kill', 'torn', 'error', 'hit', 'concurrent', 'opened', 'restarted', 'name:workspace', 'name:broken', 'xdg_env', 'history_kept', 'history_discarded', 'old_properties',
                                              'twice_interrupted', 'version_missing']
CASE_TIMEOUT = 150
NAMES = ['wa', 'w b', 'workspace', 'broken', 'ünï', 'history2', 'data', 'marcel', '.dot', '.w x']
CONFIG = '''from marcel.builtin import *
def twice(x): return (x, x)
LIMIT = 17
'''
OLD_HISTORY = 'gen 3\nls | map (f: f.size)\n'
NEW_HISTORY = '\n# 2026-01-02 03:04:05.678901\n+(1)\n\n# 2026-01-02 03:05:05.678901\n+gen 3 | map (x: "old")\n'
HOOK = r'''
import json, os, signal, sys
c = json.loads(os.environ['VERIF_C15'])
MUTATIONS = {'os.rename', 'os.mkdir', 'os.remove', 'os.rmdir', 'os.truncate', 'os.chmod', 'shutil.rmtree', 'shutil.move', 'os.link', 'os.symlink', 'os.utime'}
state = {'busy': False, 'n': 0}
def audit(event, args):
    if state['busy'] or (event != 'open' and event not in MUTATIONS) or not args:
        return
    if type(args[0]) is int or c['home'] not in os.path.abspath(os.fsdecode(args[0])):
        return
    if event == 'open' and not (args[2] or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
        return
    state['busy'] = True
    try:
        state['n'] += 1
        if state['n'] == c['k'] or (c['mode'] == 'error' and c['k'] <= state['n'] < c['k'] + c.get('m', 1)):
            with open(c['hit'], 'a') as f:
                f.write(f'{event} {os.path.basename(os.fsdecode(args[0]))}\n')
            if c['mode'] == 'error':
                raise OSError(28, 'No space left on device')
            if c['mode'] == 'torn' and event == 'open' and (args[2] or 0) & os.O_TRUNC:
                os.close(os.open(args[0], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600))
            os.kill(os.getpid(), signal.SIGKILL)
    finally:
        state['busy'] = False
sys.addaudithook(audit)
'''


def gen(rng, i, tier):
    layout = LAYOUTS[i % len(LAYOUTS)]
    names = [] if layout in ('fresh', 'original', 'xdg') else rng.sample(NAMES, rng.choice([0, 1, 2, 2, 4]))
    n = rng.choice([0, 1, 1, 1, 2, 3])
    top = {'fresh': 26, 'original': 34, 'xdg': 32, 'ws1': 40, 'ws2': 40, 'ws3': 16, 'pt': 6}[layout]
    return {'layout': layout, 'names': names, 'interrupt': [[rng.choice(['kill', 'kill', 'torn', 'error']), rng.randrange(1, top), rng.choice([1, 1, 1, 99])] for _ in range(n)],
            'concurrent': rng.random() < .25, 'version': rng.choice([None, 'usual', 'usual', 'usual', 'garbage', 'newer']) if layout in ('ws1', 'ws2', 'ws3', 'pt') else None,
            'history': rng.choice(['old', 'old', 'new', 'none', 'empty', 'mixed']), 'locked': rng.random() < .2, 'old_properties': rng.random() < .3, 'xdg_env': rng.random() < .3, 'extra': rng.random() < .4}


def bases(box, case):
    if case['xdg_env']:
        return os.path.join(box.home, 'conf here', 'marcel'), os.path.join(box.home, 'data here', 'marcel')
    return os.path.join(box.home, '.config', 'marcel'), os.path.join(box.home, '.local', 'share', 'marcel')


def usual_version(layout):
    import marcel.version
    return {'ws1': '0.20.1', 'ws2': '0.24.4', 'ws3': '0.28.9', 'pt': '0.32.0' if os.getpid() % 2 else marcel.version.VERSION}[layout]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f:
        f.write(s)


def move(a, b):
    os.makedirs(os.path.dirname(b), exist_ok=True)
    os.rename(a, b)


class Home:
    """What the home has to contain after the upgrade."""
    def __init__(self, case, mon, box):
        self.case, self.mon, self.box = case, mon, box
        self.conf, self.data = bases(box, case)
        if case['xdg_env']:
            mon.count('xdg_env')
            os.environ['XDG_CONFIG_HOME'], os.environ['XDG_DATA_HOME'] = os.path.dirname(self.conf), os.path.dirname(self.data)
            os.makedirs(os.path.dirname(self.conf)), os.makedirs(os.path.dirname(self.data))
        self.files = {}         # new path -> contents
        self.histories = {}     # new path -> contents or None if to be discarded
        self.extra = {}
        self.version = None
        layout = case['layout']
        mon.count('layout:' + layout)
        if layout != 'fresh':
            self.build()
        if case['extra']:
            for p in ('notes.txt', '.config/other/settings', '.local/share/other/x', '.bashrc'):
                write(os.path.join(box.home, p), 'mine')
                self.extra[os.path.join(box.home, p)] = b'mine'

    def ws(self, which, name):
        return os.path.join(self.conf if which == 'c' else self.data, 'workspace', name or '__DEFAULT__')

    def build(self):
        import marcel.persistence.storagelayout as sl
        from procs import Proc
        case, mon, box = self.case, self.mon, self.box
        layout, names = case['layout'], case['names']
        sl.ensure_current(testing=True, initial_config=CONFIG)
        p = Proc(box, CONFIG)
        for n in names:
            mon.count('name:' + n)
            for t in (f"ws -n '{n}'", f"v = ('value of {n}')", 'f = (x: twice(x))', f'p = (| n: gen (n) | map (x: (x, v)) |)', 'gen 3 >$ r', 'import math', f"ws -h '/tmp/{n}'"):
                out, err = p.run(t)
                mon.check(not err, 'setup', f'{t}: {err[:300]}')
        out, err = p.close()
        mon.check(not err, 'setup', f'close: {err[:300]}')
        for f in os.listdir(self.ws('d', '')):
            if f[0].isdigit():
                os.unlink(os.path.join(self.ws('d', ''), f))
        for i, n in enumerate(names + ['']):
            c, d = self.ws('c', n), self.ws('d', n)
            if n:
                with open(os.path.join(c, 'startup.py'), 'a') as f:
                    f.write(f'OWN = {n!r}\n')
            if case['old_properties'] and n:
                import dill
                f = os.path.join(d, 'properties.pickle')
                x = dill.loads(read(f))
                del x['home']
                with open(f, 'wb') as g:
                    dill.dump(x, g)
                mon.count('old_properties')
            h = os.path.join(d, 'history')
            kind = case['history'] if case['history'] != 'mixed' else ['old', 'new', 'empty'][i % 3]
            if layout in ('original', 'xdg') and kind == 'new':
                kind = 'old'
            if layout == 'pt':
                kind = 'new'
            if kind == 'none' and layout not in ('original', 'xdg'):
                kind = 'empty'
            os.unlink(h)
            if kind != 'none' or n:
                write(h, {'old': OLD_HISTORY, 'new': NEW_HISTORY}.get(kind, ''))
            self.histories[h] = None if kind == 'old' else NEW_HISTORY.encode() if kind == 'new' else b''
            for top in (c, d):
                for f, b in tree(top).items():
                    if b is not None and '.WORKSPACE' not in f and f != 'history' and not f[0].isdigit():
                        self.files[os.path.join(top, f)] = b
            if case['locked'] and n:
                os.rename(os.path.join(c, '.WORKSPACE'), os.path.join(c, f'.WORKSPACE.{4194000 + i}'))
        # the layout
        conf, data = self.conf, self.data
        version = os.path.join(conf, 'VERSION')
        os.chmod(version, 0o600)
        v = case['version']
        if v is None:
            os.unlink(version)
            mon.count('version_missing')
        else:
            self.version = {'usual': usual_version(layout), 'garbage': 'what?', 'newer': '0.40.9' if layout == 'pt' else usual_version(layout)}[v]
            write(version, self.version + '\n')
            os.chmod(version, 0o400)
        if layout in ('original', 'xdg', 'ws1', 'ws2'):
            shutil.rmtree(os.path.join(conf, 'broken')), shutil.rmtree(os.path.join(data, 'broken'))
            for base in (conf, data):
                move(os.path.join(base, 'workspace', '__DEFAULT__'), os.path.join(base, '__DEFAULT_WORKSPACE__'))
                os.rename(os.path.join(base, 'workspace'), os.path.join(base, '__T__'))
                for n in names:
                    move(os.path.join(base, '__T__', n), os.path.join(base, n))
                os.rmdir(os.path.join(base, '__T__'))
        if layout in ('original', 'xdg', 'ws1'):
            for base in (conf, data):
                d = os.path.join(base, '__DEFAULT_WORKSPACE__')
                for f in os.listdir(d):
                    os.rename(os.path.join(d, f), os.path.join(base, f))
                os.rmdir(d)
        if layout in ('original', 'xdg'):
            os.unlink(os.path.join(conf, '.WORKSPACE'))
            shutil.rmtree(os.path.join(data, 'reservoirs'))
        if layout == 'original':
            os.rename(os.path.join(conf, 'startup.py'), os.path.join(box.home, '.marcel.py'))
            if os.path.exists(os.path.join(data, 'history')):
                os.rename(os.path.join(data, 'history'), os.path.join(box.home, '.marcel_history'))
            shutil.rmtree(os.path.dirname(conf)), shutil.rmtree(os.path.dirname(data))
            if case['xdg_env']:
                os.makedirs(os.path.dirname(conf)), os.makedirs(os.path.dirname(data))
        if layout == 'xdg' and not os.listdir(data):
            shutil.rmtree(data)


def snapshot(box):
    out = {}
    for k, v in tree(box.home).items():
        b = os.path.basename(k)
        if not b[0].isdigit() and b != 'properties.pickle':
            out[k] = v
    return out


def run(case, mon, box):
    from interactive import Interactive, Gone, Timeout
    import marcel.version
    home = Home(case, mon, box)
    hookdir = os.path.join(box.path, 'hook')
    os.makedirs(hookdir)
    write(os.path.join(hookdir, 'sitecustomize.py'), HOOK)
    import core
    hits = []
    for j, (mode, k, m) in enumerate(case['interrupt']):
        hit = os.path.join(box.path, f'hit{j}')
        env = {'PYTHONPATH': hookdir + ':' + core.REPO, 'VERIF_C15': json.dumps({'home': box.home, 'k': k, 'mode': mode, 'm': m, 'hit': hit})}
        p = Interactive(box, layout=False, env=env, tag=f'i{j}')
        try:
            p.sync()
            p.end()
        except Gone:
            p.kill()
        mon.count(mode)
        if os.path.exists(hit):
            mon.count('hit')
            hits.append(mode + ' ' + read(hit).decode().split('\n')[0])
            mon.see('interrupted', case['layout'] + ' ' + hits[-1])
    if len(hits) > 1:
        mon.count('twice_interrupted')
    where = f'{case["layout"]}, after {hits or "nothing"}'
    if case['concurrent']:
        mon.count('concurrent')
        ps = [Interactive(box, layout=False, tag=f'c{j}') for j in range(3)]
        for p in ps:
            try:
                out, err = p.sync()
                mon.check(not err, 'concurrent-start', f'{where}: several processes starting at the same time: {err[:600]!r}')
            except Gone as e:
                mon.check(False, 'concurrent-start', f'{where}: several processes starting at the same time: {e}'[:900])
        for p in ps:
            p.end()
    final = None
    for attempt in range(3):
        p = Interactive(box, layout=False, tag=f's{attempt}')
        try:
            out, err = p.sync()
        except Gone as e:
            mon.check(False, 'no-start', f'{where}: start {attempt + 1}: {e}'[:1500])
            return
        mon.check(not err, 'startup-errors', f'{where}: start {attempt + 1} reports {err[:900]!r}')
        verify(home, case, mon, box, Careful(p), where, attempt)
        rc = p.end()
        mon.check(rc == 0, 'exit', f'{where}: ended with {rc}')
        now = snapshot(box)
        if attempt:
            mon.count('restarted')
            diff = sorted(k for k in set(now) | set(final) if now.get(k, 0) != final.get(k, 0))
            mon.check(not diff, 'changed-by-restart', f'{where}: start {attempt + 1} changed {diff[:10]}')
        final = now
    mon.nontrivial((case['layout'], tuple(hits), len(case['names'])))
    mon.sample = {'layout': case['layout'], 'names': case['names'], 'interrupted': hits, 'files': len(home.files)}


def verify(home, case, mon, box, q, where, attempt):
    import marcel.version
    files = {}
    for p, b in home.files.items():
        if not (attempt and p.endswith('properties.pickle')):
            mon.check(os.path.isfile(p) and read(p) == b, 'file', f'{where}: {p[len(box.home):]} ' + (f'is {read(p)[:80]!r}, was {b[:80]!r}' if os.path.isfile(p) else 'is missing'))
    for p, b in home.histories.items():
        now = read(p) if os.path.isfile(p) else None
        if now is None:
            mon.check(False, 'history', f'{where}: {p} is missing')
        elif b is None:
            mon.check(now.startswith(b'\n# 2') and b'deleted' in now, 'history', f'{where}: {p} has {now[:200]!r}')
            mon.count('history_discarded')
        else:
            mon.check(now == b, 'history', f'{where}: {p} has {now[:200]!r}')
            mon.count('history_kept')
    for p, b in home.extra.items():
        mon.check(os.path.isfile(p) and read(p) == b, 'other-files', f'{where}: {p}')
    v = os.path.join(home.conf, 'VERSION')
    mon.check(os.path.isfile(v) and read(v).decode().strip() == ('0.40.9' if home.version == '0.40.9' else marcel.version.VERSION), 'version',
              f'{where}: VERSION is {read(v) if os.path.isfile(v) else None}, was {home.version}')
    left = [x for x in os.listdir(home.conf) if x not in ('VERSION', 'workspace', 'broken')] + [x for x in os.listdir(home.data) if x not in ('workspace', 'broken')]
    mon.check(not left, 'leftovers', f'{where}: {left}')
    broken = [x for b in (home.conf, home.data) for x in os.listdir(os.path.join(b, 'broken'))]
    mon.check(not broken, 'quarantined', f'{where}: {broken}')
    modes = {oct(os.stat(p).st_mode & 0o077) for p in [os.path.join(home.ws('d', ''), 'history'), os.path.join(home.ws('c', ''), 'startup.py')] if os.path.exists(p)}
    if case['layout'] == 'fresh':
        mon.check(modes == {'0o0'}, 'permissions', f'{where}: group and others have {modes}')
        import marcel.persistence.defaultinitialconfig as dic
        s = os.path.join(home.ws('c', ''), 'startup.py')
        mon.check(os.path.isfile(s) and read(s).decode() == dic.CONFIG, 'initial-config', f'{where}: startup.py is {read(s)[:100] if os.path.isfile(s) else None!r}')
    # the session works
    out, err = q.run('gen 3 | map (x: x + 1) | red +')
    mon.check(out == '6\n' and not err, 'works', f'{where}: {out!r} {err[:300]!r}')
    out, err = q.run('gen 2 >$ t')
    mon.check(not err and contents(q, 't') == [0, 1], 'works', f'{where}: reservoir: {err[:300]!r}')
    if case['layout'] != 'fresh':
        mon.check(value(q, 'LIMIT') == '17' and value(q, 'twice(1)') == '(1, 1)', 'config', f'{where}: LIMIT is {value(q, "LIMIT")}')
    out, err = q.run("ws -l | map (w: repr(w.name))")
    names = set(out.split('\n')) - {''}
    mon.check(names == {repr(n) for n in [''] + case['names']} and not err, 'listed', f'{where}: ws -l prints {sorted(names)} {err[:300]!r}, of {case["names"]}')
    if attempt == 2:
        return
    for n in case['names']:
        out, err = q.run(f"ws -o '{n}'")
        if mon.check(not err, 'open', f'{where}: {n} cannot be opened: {err[:400]!r}'):
            mon.count('opened')
            r = works(q, n, mon, where)
            mon.check(r == [0, 1, 2], 'reservoir', f'{where}: r in {n} is {r}')
            mon.check(value(q, 'OWN') == repr(n), 'own-config', f'{where}: OWN in {n} is {value(q, "OWN")}')
            out, err = q.run('ws | map (w: repr(w.home() and str(w.home())))')
            want = 'None' if case['old_properties'] else repr(f'/tmp/{n}')
            mon.check(out == want + '\n', 'home', f'{where}: home of {n} is {out!r} {err[:200]!r}')
    out, err = q.run('ws -c')
    mon.check(not err, 'close', f'{where}: {err[:300]!r}')
