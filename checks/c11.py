"""C11: variables. Random histories of assignments, imports, stores, aliases, deletions and attempts on protected variables, against a
dictionary model with usable values (functions and pipelines are called)."""
import errno, importlib, json, math, os, subprocess, sys
from session import Session, MARK, TAP

ID = 'C11'
LEVEL = 'exploration'
RULE = ('Histories of 30 steps assign values of every kind (numbers, None, empty and quoted strings, words, containers, sets, bytes, classes, objects, functions '
        'written as bodies, lambdas, builtins and closures, pipelines with and without parameters, reservoirs, aliases of each of these), import modules, '
        'submodules, symbols and everything, with and without --as, store streams, delete, and reassign with another kind. After each step several variables '
        '(those just touched, deleted ones and others) are evaluated, called, invoked or loaded, in expressions, inside pipelines with parameters of the same '
        'name, and as arguments, and listed by env, env VAR and env -p; all is compared with a dictionary model. Attempts to assign, store to, import to or '
        'delete a protected variable (all of those of the environment and of the startup script) must be refused with an error, leave it equal, and leave the '
        'other variables alone. A share of cases runs the history in a real interactive process with jobs. Non-trivial: a verification of a variable with '
        'history of two or more changes, keyed by the kinds.')
ASSUMPTIONS = ['a function or pipeline refers to variables by name, as in Python (dynamic lookup)', 'Python keywords are not used as variable names',
               'import MODULE * is exercised on modules that do not define __all__']
N = {'quick': 330, 'thorough': 8000}
REQUIRED = ['evaluated', 'called', 'invoked', 'loaded', 'undefined', 'listed', 'protected', 'interactive', 'aliased_reservoir', 'kind:num', 'kind:none', 'kind:str', 'kind:container',
            'kind:func', 'kind:builtin', 'kind:pipe', 'kind:res', 'kind:module', 'kind:symbol', 'kind:star', 'kind:alias', 'kind:del', 'kind:object', 'param_shadow', 'listed_pattern']

CONFIG = '''from marcel.builtin import *
class Box(object):
    def __init__(self, x): self.x = x
    def __repr__(self): return f'Box({self.x!r})'
    def __eq__(self, other): return type(other) is Box and other.x == self.x
    def __hash__(self): return hash(self.x)
def twice(x): return (x, x)
LIMIT = 17
CONFIG_LIST = [1, 2]
'''
NAMES = ['a', 'b', 'c', 'ab', 'x1', '_u', 'value', 'Item', 'path', 'cnt']
PROTECTED = ['BOLD', 'COLOR_SCHEME', 'Color', 'DIRS', 'HOME', 'HOST', 'ITALIC', 'MARCEL_VERSION', 'pos', 'PROMPT', 'PWD', 'USER', 'LIMIT', 'CONFIG_LIST', 'twice', 'Box', 'cluster', 'minutes', 'File']
SIMPLE = ['0', '1', '1.0', '0.0', 'False', '-5', '3.5', 'True', 'False', '10**20', '(1+2j)', "float('inf')"]
STRS = ["''", "' '", "'a b'", '"it\'s"', "'\\n'", "'|'", "'#x'", "'é'", '"\\"q\\""', "'{x}'", 'f"{1+1}"', "'''t'''"]
WORDS = ['word', '3', 'a.b', '/tmp/x', '-x', '~', '*.py', "'quoted word'", '"double"', "''", 'x\\ y', 'None', "'a'b", 'é']
WORD_VALUES = {'word': 'word', '3': '3', 'a.b': 'a.b', '/tmp/x': '/tmp/x', '-x': '-x', '*.py': '*.py', "'quoted word'": 'quoted word', '"double"': 'double', "''": '',
               'x\\ y': 'x y', 'None': 'None', "'a'b": 'ab', 'é': 'é'}
CONTAINERS = ['[True]', '(1.0, 0)', '(1, 0)', '[1]', '[]', '()', '{}', '[1, [2, 3]]', "{'k': [1], 2: None}", '{1}', 'set()', "b'xy'", '(1,)', '[None]', 'range(3)', "('a', 'b')", '[x for x in [1,2]]', '[()]']
OBJECTS = ['Box(1)', "Box('s')", "Box([1])", 'ValueError', 'int', 'Box', 'Ellipsis', "slice(1, 2)"]
# text, python function of one int
FUNCS = [('x: x + 1', lambda x: x + 1), ('lambda x: x * 3', lambda x: x * 3), ('x: (x, -x)', lambda x: (x, -x)), ('lambda x, y=2: x + y', lambda x: x + 2), ('*args: args', lambda x: (x,)),
         ('(lambda k: lambda x: x + k)(5)', lambda x: x + 5), ('x: "s" * x', lambda x: 's' * x), ('x: [y for y in range(x)]', lambda x: [y for y in range(x)]), ('x: None', lambda x: None),
         ('x: 7 if x > 1 else "z"', lambda x: 7 if x > 1 else 'z'), ('twice', lambda x: (x, x)), ('Box', None)]
BUILTINS = [('abs', abs), ('str', str), ('len', None), ('math_sqrt', None), ('repr', repr), ('float', float), ('bool', bool), ('hex', hex)]
# text, params, function of args -> items
PIPES = [('(| gen 3 |)', 0, lambda: [0, 1, 2]), ('(| n: gen (n) |)', 1, lambda n: list(range(n))), ('(| n, m: gen (n) | map (x: x + m) |)', 2, lambda n, m: [x + m for x in range(n)]),
         ('(| gen 3 | map (x: (x, x)) | red + . |)', 0, lambda: [(3, 0)] if False else None), ('(| a: gen 2 | map (x: (x, a)) |)', 1, lambda a: [(0, a), (1, a)]),
         ('(| map (: 5) |)', 0, lambda: [5]), ('(| gen 5 | select (x: x > 9) |)', 0, lambda: []), ('(| b: gen 2 | args (| i: map (: i * b) |) |)', 1, lambda b: [0, b])]
PIPES = [p for p in PIPES if p[2] is not None and 'red' not in p[0]]
MODULES = [(None, 'math', 'math'), ('mm', 'math', 'math'), (None, 'string', 'string'), ('osp', 'os.path', 'os.path'), (None, 'os.path', 'os'), ('col', 'collections.abc', 'collections.abc'), (None, 'json', 'json'),
           (None, 'xml.dom', 'xml'), ('Item', 'json', 'json')]
SYMBOLS = [('math', 'pi'), ('math', 'sqrt'), ('os', 'sep'), ('string', 'digits'), ('itertools', 'chain'), ('json', 'dumps'), ('os', 'path'), ('collections', 'OrderedDict'), ('marcel.object.file', 'File'), ('errno', 'ENOENT')]
STARS = ['errno', 'cmath', 'math']


def stars(module):
    return {k: v for k, v in importlib.import_module(module).__dict__.items() if not k.startswith('_')}


def gen(rng, i, tier):
    real = i % 12 == 5
    steps = []
    for k in range(14 if real else 30):
        c = rng.choice(['num', 'none', 'str', 'word', 'container', 'object', 'func', 'func', 'builtin', 'pipe', 'pipe', 'res', 'res', 'append', 'module', 'symbol', 'star', 'alias', 'alias', 'alias', 'del', 'del', 'del',
                        'protected', 'expr', 'undefined'])
        if real and c == 'object':
            c = 'num'
        n = rng.choice(NAMES)
        s = [c, n]
        if c in ('num', 'str', 'word', 'container', 'object'):
            s.append(rng.choice({'num': SIMPLE, 'str': STRS, 'word': sorted(WORD_VALUES), 'container': CONTAINERS, 'object': OBJECTS}[c]))
        elif c == 'func':
            s.append(rng.randrange(len(FUNCS)))
        elif c == 'builtin':
            s.append(rng.choice(['abs', 'str', 'repr', 'float', 'bool', 'hex']))
        elif c == 'pipe':
            s.append(rng.randrange(len(PIPES)))
        elif c in ('res', 'append'):
            s += [rng.randrange(0, 4), rng.choice(['store', 'arrow'])]
        elif c == 'module':
            s.append(rng.randrange(len(MODULES)))
        elif c == 'symbol':
            s += [rng.randrange(len(SYMBOLS)), rng.random() < .6]
        elif c == 'star':
            s.append(rng.choice(STARS))
        elif c in ('alias', 'expr'):
            s.append(rng.choice(NAMES))
        elif c == 'protected':
            s += [rng.choice(PROTECTED), rng.choice(['assign', 'word', 'delete', 'store', 'arrow', 'append', 'import', 'importsym', 'nested', 'pipe', 'func'])]
        # what to verify afterwards
        s.append([[rng.choice(NAMES), rng.choice(['eval', 'eval', 'env', 'param', 'arg', 'inpipe'])] for _ in range(1 if real else 2)] + [[n, rng.choice(['eval', 'env', 'param', 'arg', 'inpipe'])]])
        s.append(rng.random() < .15)    # list
        steps.append(s)
    return {'kind': 'history', 'real': real, 'steps': steps}


class Value:
    def __init__(self, kind, value, extra=None):
        self.kind, self.value, self.extra = kind, value, extra
        self.history = 1

    def expr(self, var):
        """An expression of the marcel language usable in a function, and the expected repr."""
        if self.kind == 'func':
            return f'({var}(2))', repr(self.value(2))
        if self.kind == 'module':
            return f'{var}.__name__', repr(self.value.__name__)
        if self.kind == 'symbol' and callable(self.value):
            return f'{var}.__name__', repr(self.value.__name__)
        if self.kind in ('pipe', 'res'):
            return f'type({var}).__name__', repr('PipelineMarcel' if self.kind == 'pipe' else 'Reservoir')
        return var, repr(self.value)


def run(case, mon, box):
    drive = Real(box) if case['real'] else InProcess(box)
    ns = {}
    exec(CONFIG.replace('from marcel.builtin import *', ''), ns)
    ns = {k: ns[k] for k in ('Box', 'twice')}
    pyns = dict(ns)
    model, hist = {}, {}
    gone = set()

    def bind(n, v):
        hist[n] = hist.get(n, ()) + (v.kind,)
        model[n] = v
        gone.discard(n)
    for si, s in enumerate(case['steps']):
        c, n = s[0], s[1]
        checks, list_all = s[-2], s[-1]
        text, want_err = None, False
        new = None
        alias_of = None
        if c in ('num', 'str', 'container', 'object'):
            text = f'{n} = ({s[2]})'
            new = Value('value', eval(s[2], dict(pyns)))
            mon.count('kind:' + c)
        elif c == 'none':
            text, new = f'{n} = (None)', Value('value', None)
            mon.count('kind:none')
        elif c == 'word':
            text, new = f'{n} = {s[2]}', Value('value', WORD_VALUES[s[2]])
        elif c == 'func':
            t, f = FUNCS[s[2]]
            text, new = f'{n} = ({t})', Value('func', f or ns['Box'])
            mon.count('kind:func')
        elif c == 'builtin':
            text, new = f'{n} = ({s[2]})', Value('func', eval(s[2]))
            mon.count('kind:builtin')
        elif c == 'pipe':
            t, k, f = PIPES[s[2]]
            text, new = f'{n} = {t}', Value('pipe', f, k)
            mon.count('kind:pipe')
        elif c in ('res', 'append'):
            old = model.get(n)
            a = c == 'append'
            text = f'gen {s[2] or "3 | select (x: False)"} ' + ((f'>>$ {n}' if a else f'>$ {n}') if s[3] == 'arrow' else f'| store {"-a " if a else ""}{n}')
            items = list(range(s[2]))
            if old is not None and old.kind == 'res':
                if a:
                    old.value.extend(items)
                else:
                    old.value[:] = items     # the reservoir, also if it has other names
                new = old
            elif a and old is not None and not (old.kind == 'value' and old.value is None):
                want_err = True
            else:
                new = Value('res', items)
            mon.count('kind:res')
        elif c == 'module':
            name, mod, bound = MODULES[s[2]]
            text = f'import {"--as " + name + " " if name else ""}{mod}'
            n, new = name or mod.split('.')[0], Value('module', importlib.import_module(bound))
            mon.count('kind:module')
        elif c == 'symbol':
            mod, sym = SYMBOLS[s[2]]
            v = getattr(importlib.import_module(mod), sym)
            text = f'import {"-a " + n + " " if s[3] else ""}{mod} {sym}'
            if not s[3]:
                n = sym
            new = Value('module' if type(v) is type(os) else 'symbol', v)
            mon.count('kind:symbol')
            if n in PROTECTED:
                want_err, new = True, None
        elif c == 'star':
            text = f'import {s[2]} *'
            mon.count('kind:star')
            new = stars(s[2])
        elif c == 'alias':
            if s[2] not in model:
                continue
            text, new = f'{n} = ({s[2]})', model[s[2]]
            mon.count('kind:alias')
            if new.kind == 'res' and s[2] != n:
                mon.count('aliased_reservoir')
        elif c == 'expr':
            if s[2] not in model or model[s[2]].kind != 'value':
                continue
            text, new = f'{n} = ([{s[2]}, 1])', Value('value', [model[s[2]].value, 1])
        elif c == 'del':
            text = f'env -d {n}' if si % 2 else f'env --delete {n}'
            mon.count('kind:del')
        elif c == 'undefined':
            if n in model:
                continue
            text, want_err = f'env {n}', True
        elif c == 'protected':
            p = s[2]
            text = {'assign': f'{p} = (3)', 'word': f'{p} = word', 'delete': f'env -d {p}', 'store': f'gen 3 | store {p}', 'arrow': f'gen 3 >$ {p}', 'append': f'gen 3 >>$ {p}',
                    'import': f'import -a {p} math', 'importsym': f'import --as {p} math pi', 'nested': f'gen 2 | args (| i: gen 2 | store {p} |)', 'pipe': f'{p} = (| gen 3 |)',
                    'func': f'{p} = (x: x + 1)'}[s[3]]
            before = drive.run(f'(repr({p})) | map (x: "{MARK}" + x)')
            want_err = True
        out, err = drive.run(text)
        if c == 'protected':
            after = drive.run(f'(repr({p})) | map (x: "{MARK}" + x)')
            mon.check(before[0] == after[0] and after[0], f'protected-changed:{s[3]}', f'{text!r} changed {p}: {before[0][:80]!r} -> {after[0][:80]!r}', text=text)
            mon.check(bool(err) and p in err, f'protected-silent:{s[3]}', f'{text!r} was not reported: {err[:150]!r}', text=text)
            mon.count('protected')
            mon.nontrivial(('protected', p, s[3]))
        else:
            mon.check(bool(err) == want_err, f'report:{c}:{"silent" if want_err else "error"}', f'{text!r}: errors {err[:200]!r}, expected {want_err}; history {hist.get(n)}', text=text)
            if c == 'del':
                if n in model:
                    mon.check(out.startswith(f"('{n}', ") or (out.startswith(f"{n}") and True) or f'{n}' in out[:len(n) + 3], 'delete-output', f'{text!r} printed {out[:100]!r}')
                    del model[n]
                    hist[n] = hist.get(n, ()) + ('del',)
                    gone.add(n)
            elif c == 'star':
                for k, v in new.items():
                    bind(k, Value('symbol', v))
            elif new is not None:
                bind(n, new)
        for v, how in checks:
            verify(drive, mon, model, hist, v, how, text)
        if c in ('module', 'symbol') and n not in NAMES and n not in PROTECTED:
            verify(drive, mon, model, hist, n, 'eval', text)
        if c == 'star':
            for k in sorted(new)[:3]:
                verify(drive, mon, model, hist, k, 'eval', text)
        if list_all:
            listing(drive, mon, model, gone)
    # everything at the end
    for v in sorted(set(NAMES) | (set(model) if not case['real'] else set())):
        verify(drive, mon, model, hist, v, 'eval', 'end')
    listing(drive, mon, model, gone)
    drive.finish(mon)
    mon.sample = {'history': [s[:3] for s in case['steps']][:12], 'variables': sorted(model)}


def verify(drive, mon, model, hist, v, how, text):
    w = model.get(v)
    key = (hist.get(v, ())[-3:], how)
    where = f'{v} after {text!r}, history {hist.get(v)}'
    if w is None:
        out, err = drive.run(f'env {v}')
        mon.check(err and not out.strip(), 'undefined-listed', f'{where}: env gives {out[:100]!r} {err[:100]!r}')
        out, err = drive.run(f"gen 1 | map (i: {v}) | map (x: '{MARK}' + repr(x))")
        mon.check(MARK not in out and 'NameError' in out, 'undefined-evaluates', f'{where}: {out[:150]!r}')
        mon.count('undefined')
        mon.nontrivial(('gone', key))
        return
    e, want = w.expr(v)
    if how == 'env':
        out, err = drive.run(f"env {v} | map (n, {v if v != 'n' else 'm'}: '{MARK}' + n + ' ' + repr({e if w.kind not in ('pipe',) else repr('PipelineMarcel')}))")
        want = v + ' ' + want
    elif how == 'param' and v not in ('q_',):
        # a parameter of the same name hides the variable, and only there
        out, err = drive.run(f"gen 1 | args (| {v}: gen 2 | map (i: '{v}' + str({v})) |) | select (x: x != '{v}0')")
        mon.check(not out and not err, 'param-shadow', f'{where}: {out[:100]!r} {err[:100]!r}')
        mon.count('param_shadow')
        out, err = drive.run(f"gen 1 | map (i: '{MARK}' + repr({e}))")
    elif how == 'inpipe':
        out, err = drive.run(f"gen 1 | args (| q_: gen 1 | map (i: '{MARK}' + repr({e})) |)")
    elif how == 'arg' and w.kind == 'value':
        out, err = drive.run(f"gen 1 | case (x: x == {v}) (| map (y: ('eq', {v})) |) (| map (y: ('ne', {v})) |) | map (a, b: '{MARK}' + repr(b))")
    else:
        out, err = drive.run(f"gen 1 | map (i: '{MARK}' + repr({e}))")
    mon.check(out == MARK + want + '\n' and not err, f'value:{w.kind}:{how}', f'{where}: want {want[:150]!r}, got {out[:150]!r} {err[:150]!r}')
    mon.count('evaluated')
    mon.nontrivial(key)
    if w.kind == 'func':
        out, err = drive.run(f'gen 3 | map (x: {v}(x)) | map (*x: "{MARK}" + repr(x))')
        ex = ''.join(MARK + repr(y if type(y) in (tuple,) else tuple(y) if type(y) is list else (y,)) + '\n' for y in map(w.value, range(3)))
        mon.check(out == ex and not err, 'call', f'{where}: want {ex!r} got {out[:200]!r} {err[:150]!r}')
        mon.count('called')
    elif w.kind == 'pipe':
        args = [3, 10][:w.extra]
        ex = ''.join(MARK + repr(y if type(y) is tuple else (y,)) + '\n' for y in w.value(*args))
        out, err = drive.run(' '.join([v] + [f'({a})' for a in args]) + f' | {TAP}')
        mon.check(out == ex and not err, 'invoke', f'{where}: want {ex!r} got {out[:200]!r} {err[:150]!r}')
        mon.count('invoked')
    elif w.kind == 'res':
        ex = ''.join(f'{MARK}({y},)\n' for y in w.value)
        out, err = drive.run(f'{v} <$ {TAP}' if how != 'inpipe' else f'load {v} | {TAP}')
        mon.check(out == ex and not err, 'load', f'{where}: want {ex!r} got {out[:200]!r} {err[:150]!r}')
        mon.count('loaded')


def listing(drive, mon, model, gone):
    out, err = drive.run(f"env | map (k, v: '{MARK}' + k)")
    names = [l[1:] for l in out.split('\n') if l.startswith(MARK)]
    drive.base = drive.base or set(names) - set(model)
    mon.check(names == sorted(set(names)), 'listing-order', f'{names}')
    mon.check(set(model) <= set(names), 'listing-missing', f'not listed: {set(model) - set(names)}')
    extra = set(names) - set(model) - drive.initial
    mon.check(not extra, 'listing-extra', f'listed but undefined: {extra}')
    simple = sorted(k for k, w in model.items() if w.kind == 'value')
    out, err = drive.run(f"env | select (k, v: k in {simple!r}) | map (k, v: '{MARK}' + k + ' ' + repr(v))")
    mon.check(out == ''.join(f'{MARK}{k} {model[k].value!r}\n' for k in simple), 'listing-values', f'{out[:300]!r} {err[:200]}')
    out, err = drive.run(f"env -p a | map (k, v: '{MARK}' + k)")
    mon.check(out == ''.join(f'{MARK}{k}\n' for k in names if 'a' in k), 'listing-pattern', f'{out[:300]!r} {err[:200]}')
    mon.count('listed')
    mon.count('listed_pattern')


class InProcess:
    def __init__(self, box):
        self.s = Session(box, config=CONFIG)
        self.s.env.enforce_var_immutability()
        self.base = None
        self.initial = {l[1:] for l in self.s.run(f"env | map (k, v: '{MARK}' + k)").lines}

    def run(self, text):
        r = self.s.run(text)
        return r.out, r.err + (r.exc or '')

    def finish(self, mon):
        pass


class Real:
    """A real interactive marcel process, in which commands run as jobs."""

    def __init__(self, box):
        from interactive import Interactive
        self.s = Interactive(box, config=CONFIG)
        self.base = None
        self.initial = {l[1:] for l in self.run(f"env | map (k, v: '{MARK}' + k)")[0].split('\n') if l} | {'PROMPT_DIR'}

    def run(self, text):
        return self.s.run(text)

    def finish(self, mon):
        rc = self.s.end()
        mon.check(rc == 0, 'exit', f'the interactive process ended with {rc}')
        mon.count('interactive')
