"""C12: workspaces across closing and reopening. Random histories over several workspaces and processes, against a model with a set of variables per workspace."""
import importlib, json, os
from c11 import Value, FUNCS, PIPES, MODULES, SYMBOLS, WORD_VALUES, SIMPLE, STRS, CONTAINERS, verify, stars, CONFIG
from session import MARK, TAP

ID = 'C12'
LEVEL = 'exploration'
RULE = ('Histories of 45 steps, over five named workspaces and successive processes (each a session of its own, some of them real interactive processes), create, open '
        '(both spellings), close, delete, list and identify workspaces and set their homes, including names that are taken, missing, current or not usable, and assign, import, store to, alias and '
        'delete variables of every kind (numbers, strings, words, containers, instances of library and startup classes, functions as bodies, lambdas, builtins and closures, pipelines, reservoirs and aliases of them, modules, '
        'symbols, import *). After every opening, in the same process or a later one, all variables of the workspace are evaluated, called, invoked or '
        'loaded and compared with the model, variables of the other workspaces must be undefined, and env must list exactly the defined ones. After every step, ws and ws -l are compared with '
        'the model, and the stored files of all other workspaces must be byte for byte what they were. The default workspace keeps its variables within a '
        'process, and starts afresh in the next. Non-trivial: a verification of a workspace reopened with variables, keyed by kinds of the variables.')
ASSUMPTIONS = ['a function is stored as its source, evaluated again when the workspace is opened, with names looked up dynamically',
               'the default workspace belongs to a process and ends with it', 'import MODULE * is exercised on modules that do not define __all__']
N = {'quick': 240, 'thorough': 6000}
REQUIRED = ['reopened', 'reopened_later_process', 'reopened_default', 'evaluated', 'called', 'invoked', 'loaded', 'undefined', 'refused:new', 'refused:open', 'refused:delete', 'refused:name', 'deleted',
            'home', 'listed', 'kind:num', 'kind:none', 'kind:str', 'kind:container', 'kind:object', 'kind:func', 'kind:builtin', 'kind:pipe', 'kind:res', 'kind:append', 'kind:module', 'kind:symbol', 'kind:star',
            'kind:alias', 'kind:del', 'other_files_compared', 'interactive', 'config_class']
NAMES = ['a', 'b', 'c', 'ab', 'x1', '_u', 'value', 'Item']
WSNAMES = ['w1', 'w2', 'My Work', 'w-é.x', '-dash']
BAD = ["''", '.', '..', '__DEFAULT__', 'a/b', '/tmp/x', '../w1', 'w1/../w2', './w1', '(7)', '(None)', "('a' + chr(0))"]
# values that only need the standard library
OBJECTS = ['Ellipsis', 'slice(1, 2)', "__import__('datetime').datetime(2020, 1, 2)", "__import__('pathlib').Path('/a b')", "__import__('decimal').Decimal('1.10')", "__import__('collections').OrderedDict(a=1)",
           "__import__('fractions').Fraction(1, 3)", "__import__('re').compile('a.*')", "__import__('uuid').UUID(int=5)", "frozenset([1, 2])", "ValueError('x').args", "bytearray(b'q')"]
MODULE_VALUES = [f"__import__('{m}', fromlist=['x'])" for m in ('json.decoder', 'xml.dom.minidom', 'email.mime.text', 'os.path', 'math', 'collections.abc', 'json')]
KINDS = ['num', 'module_value', 'none', 'str', 'word', 'container', 'object', 'func', 'func', 'builtin', 'pipe', 'pipe', 'res', 'res', 'append', 'module', 'symbol', 'star', 'alias', 'alias', 'del', 'del']


def quote(n):
    return "'" + n + "'"


def gen(rng, i, tier):
    real = i % 16 == 7
    steps = []
    length = 20 if real else 45
    while len(steps) < length:
        if rng.random() < .5 or len(steps) == 0:
            c = rng.choice(['new', 'new', 'open', 'open', 'open', 'openname', 'openname', 'close', 'close', 'restart', 'restart', 'delete', 'list', 'home', 'bad', 'ident'])
            s = [c, rng.choice(WSNAMES[:3] if rng.random() < .7 else WSNAMES)]
            if c == 'home':
                s.append(rng.choice(['/tmp', 'sub', '/nonexistent/x', "'a b'"]))
            if c == 'bad':
                s += [rng.choice(BAD), rng.choice(['-n', '-o', '-d', '', '--new', '--open', '--delete'])]
            if c in ('new', 'open', 'delete'):
                s.append(rng.random() < .5)
            steps.append(s)
        else:
            for _ in range(rng.randrange(1, 4)):
                c, n = rng.choice(KINDS), rng.choice(NAMES)
                s = [c, n]
                if c in ('num', 'str', 'word', 'container', 'object'):
                    s.append(rng.choice({'num': SIMPLE, 'str': STRS, 'word': sorted(WORD_VALUES), 'container': CONTAINERS, 'object': OBJECTS}[c]))
                elif c == 'module_value':
                    s.append(rng.choice(MODULE_VALUES))
                elif c == 'func':
                    s.append(rng.randrange(len(FUNCS)))
                elif c == 'builtin':
                    s.append(rng.choice(['abs', 'str', 'repr', 'float', 'bool', 'hex']))
                elif c == 'pipe':
                    s.append(rng.randrange(len(PIPES)))
                elif c in ('res', 'append'):
                    s += [rng.randrange(0, 4), rng.choice(['store', 'arrow'])]
                elif c == 'module':
                    s.append(rng.randrange(len(MODULES)))
                elif c == 'symbol':
                    s += [rng.randrange(len(SYMBOLS)), rng.random() < .6]
                elif c == 'star':
                    s.append(rng.choice(['errno', 'cmath']))
                elif c == 'alias':
                    s.append(rng.choice(NAMES))
                steps.append(s)
    return {'kind': 'history', 'real': real, 'steps': steps}


def fixed_cases(tier):
    return [{'kind': 'config_class'}]


class Ws:
    def __init__(self):
        self.vars, self.hist, self.gone = {}, {}, set()
        self.home = None


def tree(path):
    """Contents of the files below path, but not those that belong to whole installation's current process."""
    out = {}
    for d, _, fs in os.walk(path):
        for f in fs:
            p = os.path.join(d, f)
            if f.startswith('.WORKSPACE'):
                out[os.path.relpath(p, path)] = b''     # nobody can read it
                continue
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, path)] = fh.read()
    return out


class Driver:
    """The current process, its workspace, and the model."""

    def __init__(self, case, mon, box):
        self.case, self.mon, self.box = case, mon, box
        import marcel.persistence.storagelayout as sl
        sl.ensure_current(testing=True, initial_config=CONFIG)
        self.named = {}
        self.initial = None
        self.start()

    def start(self):
        if self.case.get('real'):
            from interactive import Interactive
            self.p = Interactive(self.box, layout=False)
            self.mon.count('interactive')
        else:
            from procs import Proc
            self.p = Proc(self.box, CONFIG)
        self.default = Ws()
        self.current = ''
        if self.initial is None:
            self.initial = {l[1:] for l in self.p.run(f"env | map (k, v: '{MARK}' + k)")[0].split('\n') if l} | {'PROMPT_DIR'}
        self.base = None

    def stop(self):
        if self.case.get('real'):
            rc = self.p.end()
            self.mon.check(rc == 0, 'exit', f'the interactive process ended with {rc} {self.p.errors()[-300:]!r}')
        else:
            out, err = self.p.close()
            self.mon.check(not err, 'exit-errors', f'errors at the end of the process: {err[:400]!r}')

    def ws(self):
        return self.named[self.current] if self.current else self.default

    def run(self, text):
        return self.p.run(text)

    def others(self):
        """Files of the workspaces other than the current one."""
        out = {}
        for kind, base in (('config', '.config/marcel/workspace'), ('data', '.local/share/marcel/workspace')):
            for n in self.named:
                if n != self.current:
                    out[n, kind] = tree(os.path.join(self.box.home, base, n))
        return out


def show(d, n):
    w = d.named[n] if n else None
    return f'Workspace({n})' if not n or w.home is None else f'Workspace({n} @ {w.home})'


def check_state(d, what):
    """The current workspace, and the list, are those of the model."""
    mon = d.mon
    out, err = d.run('ws')
    mon.check(out == show(d, d.current) + '\n' and not err, 'current', f'after {what}: ws prints {out!r} {err[:200]!r}, expected {show(d, d.current)}')
    out, err = d.run('ws -l | map (w: (w.name, None if w.home() is None else str(w.home()))) | map (n, h: repr(n) + repr(h))')
    ex = ''.join(repr(n) + repr(d.named[n].home if n else None) + '\n' for n in sorted(['', *d.named]))
    mon.check(out == ex and not err, 'list', f'after {what}: ws -l prints {out!r} {err[:200]!r}, expected {ex!r}')
    mon.count('listed')


def verify_all(d, what):
    w = d.ws()
    mon = d.mon
    class Run:
        run = staticmethod(d.run)
    for v in sorted(w.vars):
        verify(Run, mon, w.vars, w.hist, v, 'eval', what)
    everywhere = set(d.default.vars) | {v for x in d.named.values() for v in x.vars} | w.gone
    for v in sorted(everywhere - set(w.vars))[:6]:
        if v not in d.initial:
            verify(Run, mon, w.vars, w.hist, v, 'eval', what)
    out, err = d.run(f"env | map (k, v: '{MARK}' + k)")
    names = {l[1:] for l in out.split('\n') if l.startswith(MARK)} - d.initial
    mon.check(names == set(w.vars), 'variables', f'after {what}: env lists {sorted(names ^ set(w.vars))} wrongly')
    if w.vars:
        mon.nontrivial((tuple(sorted({x.kind for x in w.vars.values()})), bool(d.current), what[:6]))


def assign(d, s):
    c, n = s[0], s[1]
    w, mon = d.ws(), d.mon
    ns = {}
    new, err_ok = None, False
    mon.count('kind:' + c)
    if c in ('num', 'str', 'container', 'object'):
        text = f'{n} = ({s[2]})'
        new = Value('value', eval(s[2], ns))
    elif c == 'module_value':
        text, new = f'{n} = ({s[2]})', Value('module', eval(s[2]))
    elif c == 'none':
        text, new = f'{n} = (None)', Value('value', None)
    elif c == 'word':
        text, new = f'{n} = {s[2]}', Value('value', WORD_VALUES[s[2]])
    elif c == 'func':
        t, f = FUNCS[s[2]]
        if f is None:
            return
        text, new = f'{n} = ({t})', Value('func', f)
    elif c == 'builtin':
        text, new = f'{n} = ({s[2]})', Value('func', eval(s[2]))
    elif c == 'pipe':
        t, k, f = PIPES[s[2]]
        text, new = f'{n} = {t}', Value('pipe', f, k)
    elif c in ('res', 'append'):
        old = w.vars.get(n)
        a = c == 'append'
        text = f'gen {s[2] or "3 | select (x: False)"} ' + ((f'>>$ {n}' if a else f'>$ {n}') if s[3] == 'arrow' else f'| store {"-a " if a else ""}{n}')
        items = list(range(s[2]))
        if old is not None and old.kind == 'res':
            if a:
                old.value.extend(items)
            else:
                old.value[:] = items
            new = old
        elif a and old is not None and not (old.kind == 'value' and old.value is None):
            err_ok = True
        else:
            new = Value('res', items)
    elif c == 'module':
        name, mod, bound = MODULES[s[2]]
        text = f'import {"--as " + name + " " if name else ""}{mod}'
        n, new = name or mod.split('.')[0], Value('module', importlib.import_module(bound))
    elif c == 'symbol':
        mod, sym = SYMBOLS[s[2]]
        v = getattr(importlib.import_module(mod), sym)
        if not s[3] and sym in d.initial:
            return
        text = f'import {"-a " + n + " " if s[3] else ""}{mod} {sym}'
        n = n if s[3] else sym
        new = Value('module' if type(v) is type(os) else 'symbol', v)
    elif c == 'star':
        text = f'import {s[2]} *'
        for k, v in stars(s[2]).items():
            if k not in w.vars or w.vars[k].kind != 'res':
                pass
            w.vars[k] = Value('symbol', v)
            w.hist[k] = w.hist.get(k, ()) + ('symbol',)
            w.gone.discard(k)
    elif c == 'alias':
        if s[2] not in w.vars:
            return
        text, new = f'{n} = ({s[2]})', w.vars[s[2]]
    elif c == 'del':
        text = f'env -d {n}'
        if w.vars.pop(n, None) is not None:
            w.gone.add(n)
            w.hist[n] = w.hist.get(n, ()) + ('del',)
    out, err = d.run(text)
    mon.check(bool(err) == err_ok, 'assign', f'{text!r}: {err[:200]!r}')
    if new is not None:
        w.vars[n] = new
        w.hist[n] = w.hist.get(n, ()) + (new.kind,)
        w.gone.discard(n)


def run(case, mon, box):
    if case['kind'] == 'config_class':
        return config_class(case, mon, box)
    os.makedirs(os.path.join(box.work, 'sub'))
    d = Driver(case, mon, box)
    opened_in = {}          # workspace -> process number in which it was last open
    nproc = 0
    trace = []
    for s in case['steps']:
        c, n = s[0], s[1]
        trace.append(s[:3])
        if c in ('new', 'open', 'openname', 'close', 'restart', 'delete', 'list', 'home', 'bad', 'ident'):
            before = d.current
            files = d.others()
            own = before
            refused = None
            if c == 'new':
                text = f'ws {"-n" if s[2] else "--new"} {quote(n)}'
                if n in d.named:
                    refused = 'new'
            elif c in ('open', 'openname'):
                if c == 'openname' and n.startswith('-'):
                    c = 'open'
                text = f'ws {quote(n)}' if c == 'openname' else f'ws {"-o" if s[2:] and s[2] else "--open"} {quote(n)}'
                if n not in d.named:
                    refused = 'open'
            elif c == 'close':
                text = 'ws -c'
            elif c == 'delete':
                text = f'ws {"-d" if s[2] else "--delete"} {quote(n)}'
                if n not in d.named or n == d.current:
                    refused = 'delete'
            elif c == 'home':
                text = f'ws -h {s[2]}'
                if not d.current:
                    refused = 'home'
            elif c == 'bad':
                text = f'ws {s[3]} {s[2]}'
                refused = 'name'
            elif c == 'list':
                text = 'ws -l'
            elif c == 'ident':
                text = 'ws'
            if c == 'restart':
                text = 'restart'
                d.stop()
                nproc += 1
                d.start()
            else:
                out, err = d.run(text)
                mon.check(bool(err) == bool(refused), f'refusal:{refused or c}', f'{text!r} in {before!r} with {sorted(d.named)}: printed {out[:200]!r}, error {err[:300]!r}', text=text)
                if refused:
                    mon.count('refused:' + refused)
                    mon.check(not out, 'refused-output', f'{text!r} is refused, but prints {out[:100]!r}')
                elif c == 'new':
                    d.named[n] = Ws()
                    d.current = n
                elif c in ('open', 'openname'):
                    d.current = n
                elif c == 'close':
                    d.current = ''
                elif c == 'delete':
                    del d.named[n]
                    opened_in.pop(n, None)
                    mon.count('deleted')
                elif c == 'home':
                    h = s[2].strip("'")
                    d.ws().home = os.path.join(box.work, h)
                    mon.count('home')
            after = d.others()
            for k in files.keys() & after.keys():
                if k[0] not in (own, d.current):
                    mon.count('other_files_compared')
                    if files[k] != after[k]:
                        diff = sorted(f for f in set(files[k]) | set(after[k]) if files[k].get(f) != after[k].get(f))
                        mon.check(False, 'other-workspace', f'{text!r} in {own!r} changed files of {k}: {diff}')
            check_state(d, text)
            if d.current != before or c == 'restart' or refused:
                if not refused:
                    if d.current:
                        mon.count('reopened')
                        if opened_in.get(d.current, nproc) != nproc:
                            mon.count('reopened_later_process')
                    elif before:
                        mon.count('reopened_default')
                verify_all(d, text)
            if d.current:
                opened_in[d.current] = nproc
        else:
            assign(d, s)
    # everything once more, in a later process
    d.stop()
    d.start()
    for n in sorted(d.named):
        out, err = d.run(f'ws -o {quote(n)}')
        mon.check(not err, 'open', f'ws -o {n}: {err[:300]!r}')
        d.current = n
        mon.count('reopened')
        mon.count('reopened_later_process')
        check_state(d, 'end')
        verify_all(d, 'end')
    d.stop()
    mon.sample = {'history': trace[:14], 'workspaces': {n: sorted(w.vars) for n, w in d.named.items()}}


def config_class(case, mon, box):
    d = Driver({}, mon, box)
    for t in ('ws -n w', 'b = (Box(3))', "l = ([Box(1), {'k': Box(2)}])", 'k = (Box)', 't = (twice)'):
        out, err = d.run(t)
        mon.check(not err, 'config-class', f'{t}: {err[:200]}')
    d.stop()
    d.start()
    d.run('ws -o w')
    out, err = d.run('((b.x, l[0].x, l[1]["k"].x, k(5).x, t(2)))')
    mon.check(out == '(3, 1, 2, 5, (2, 2))\n', 'config-class-values', f'{out[:200]!r} {err[:300]!r}')
    out, err = d.run('((b == Box(3), type(b) is Box))')
    mon.check(out == '(True, True)\n', 'config-class-identity', 'an instance of a class of startup.py, saved in a workspace, is not an instance of that class after reopening: '
              f'(b == Box(3), type(b) is Box) is {out.strip()}')
    d.stop()
    mon.count('config_class')
