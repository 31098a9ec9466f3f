"""C07: variables and parameters. Random nested, parameterised, shadowing pipelines that probe, import, delete, store, fail and abort at any
depth; after every command the whole namespace is compared with a scoping model."""
from session import Session, TAP, parse_out, show

ID = 'C07'
LEVEL = 'exploration'
RULE = ('Random programs of stored and inline pipelines (positional, named and unset parameters, parameters shadowing variables, other parameters and stored '
        'pipelines, pipelines as arguments) nesting union, args, case and calls, whose bodies probe visible variables, and import, delete, store, fail on an '
        'item or abort at random depth. Each probe is compared with a direct scoping interpreter; after every command every variable of the namespace (not '
        'only those of the program) is compared with its value before, except those the command assigned or deleted, through the language and in the '
        'namespace itself, which must again have a single scope. Non-trivial: a command that runs a nested scope, keyed by text.')
ASSUMPTIONS = ['variable values are compared by equality, functions and pipelines by identity',
               'a reservoir stored by a command that aborts may or may not be created']
N = {'quick': 900, 'thorough': 20000}
REQUIRED = ['probes_compared', 'vars_compared', 'shadowed_var', 'shadowed_param', 'shadowed_pipeline', 'aborts', 'aborts_nested', 'item_errors', 'imports',
            'imports_to_param', 'deletes', 'deletes_of_param', 'stores', 'op:args', 'op:union', 'op:case', 'op:call', 'op:env', 'unset_param', 'named_param',
            'pipeline_param', 'rejected_commands', 'objects_compared']

VALS = ['a', 'b', 'c']                 # integers, probed, used in arguments
MUT = ['m', 'n']                       # probed, imported, deleted
STO = ['r', 's']                       # reservoirs
PIPES = ['p', 'q', 'f']
IMP = {'pi': 3.141592653589793, 'e': 2.718281828459045, 'tau': 6.283185307179586}


# ---- generation of program text and tree ----

class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.tag = 0

    def tagn(self):
        self.tag += 1
        return self.tag

    def names(self):
        return self.rng.sample(VALS + MUT, self.rng.randrange(1, 4))

    def body(self, depth, lower):
        """lower: stored pipelines that may be called"""
        rng = self.rng
        k = rng.choice(['probe', 'union', 'call', 'args', 'union', 'case', 'args', 'call'] if depth < 4 else ['probe'])
        if depth >= 1 and rng.random() < 0.22:
            k = rng.choice(['import', 'del', 'env', 'err', 'abort', 'store', 'import', 'del', 'env'])
        if k == 'call' and not lower:
            k = 'union'
        if k == 'probe':
            t = self.probe()
        elif k == 'union':
            t = ['union', self.body(depth + 1, lower), [self.body(depth + 1, lower) for _ in range(rng.randrange(1, 3))]]
        elif k == 'args':
            ps = rng.sample(VALS + MUT + PIPES[2:] * 0, rng.choice([1, 1, 2]))
            t = ['args', rng.randrange(1, 4), ps, self.body(depth + 1, lower)]
        elif k == 'case':
            t = ['case', rng.randrange(1, 4), self.tagn(), self.names(), self.tagn(), self.names()]
        elif k == 'call':
            t = ['call', rng.choice(lower), None, None]
            n = rng.randrange(0, 3)
            t[2] = [self.arg(depth, lower) for _ in range(n)]
            t[3] = {rng.choice(VALS + MUT): self.arg(depth, lower)} if n == 0 and rng.random() < 0.3 else {}
        elif k == 'import':
            t = ['import', rng.choice(MUT), rng.choice(sorted(IMP))]
        elif k == 'del':
            t = ['del', rng.choice(MUT)]
        elif k == 'env':
            t = ['env', rng.choice(VALS + MUT)]
        elif k == 'store':
            t = ['store', rng.choice(STO), rng.randrange(1, 4)]
        else:
            t = [k, self.tagn()]
        if k in ('call', 'args', 'union', 'probe') and rng.random() < 0.3:
            t = ['down', t, self.tagn(), self.names()]
        return t

    def probe(self):
        return ['probe', self.tagn(), self.names(), self.rng.choice(['i', 'i', 'a', 'm'])]

    def arg(self, depth, lower):
        r = self.rng.random()
        if r < 0.25:
            return ['pipe', self.body(depth + 2, [x for x in lower if x != 'f'])]
        v = self.rng.choice(VALS)
        return ['expr', v, self.rng.randrange(1, 9) * 10]

    def definition(self, name, lower):
        ps = self.rng.sample(VALS + MUT, self.rng.randrange(0, 3))
        b = self.body(1, lower)
        if name != 'f' and 'f' in lower and self.rng.random() < 0.4:
            ps = ['f'] + ps
            b = ['union', b, [['call', 'f', [], {}]]]
        return {'name': name, 'params': ps, 'body': b}


def text(t):
    k = t[0]
    if k == 'probe':
        return f'gen 1 | map ({t[3]}: ({t[1]}, {", ".join(t[2])}))'
    if k == 'down':
        return f'{text(t[1])} | map (*x: (x, {t[2]}, {", ".join(t[3])}))'
    if k == 'union':
        return text(t[1]) + ' | union ' + ' '.join(f'(| {text(b)} |)' for b in t[2])
    if k == 'args':
        return f'gen {t[1] * len(t[2])} | args (| {", ".join(t[2])}: {text(t[3])} |)'
    if k == 'case':
        return (f'gen {t[1]} | case (x: x % 2 == 0) (| map (x: ({t[2]}, x, {", ".join(t[3])})) |) '
                f'(| map (x: ({t[4]}, x, {", ".join(t[5])})) |)')
    if k == 'call':
        return ' '.join([t[1]] + [argtext(a) for a in t[2]] + [f'--{n} {argtext(a)}' for n, a in t[3].items()])
    if k == 'import':
        return f"import --as {t[1]} math {t[2]}"
    if k == 'del':
        return f'env -d {t[1]}'
    if k == 'env':
        return f'env {t[1]}'
    if k == 'store':
        return f'gen {t[2]} | store {t[1]}'
    if k == 'err':
        return f'gen 1 | map (i: {t[1]} // i)'
    if k == 'abort':
        return f"gen 2 | map (i: 'x' if i else {t[1]}) | sort"
    raise AssertionError(k)


def argtext(a):
    return f'(| {text(a[1])} |)' if a[0] == 'pipe' else f'(({a[1]} if isinstance({a[1]}, int) else 7) + {a[2]})'


# ---- model ----

class Abort(Exception):
    pass


class Pipe:
    def __init__(self, params, body):
        self.params, self.body = params, body


class Undefined(Exception):
    pass


GONE = object()


class Scope:
    def __init__(self, parent, vars):
        self.parent, self.vars = parent, vars

    def find(self, n):
        s = self
        while s is not None:
            if n in s.vars:
                return s
            s = s.parent
        return None

    def get(self, n):
        s = self.find(n)
        if s is None or s.vars[n] is GONE:
            raise Undefined(n)
        return s.vars[n]

    def top(self):
        s = self
        while s.parent is not None:
            s = s.parent
        return s

    def set(self, n, v):
        s = self.find(n) or self.top()
        s.vars[n] = v


class Model:
    def __init__(self, mon):
        self.mon = mon
        self.assigned = set()
        self.n = 0
        self.fuzzy = False

    def probe(self, sc, names, first, local=None):
        out = list(first)
        for n in names:
            if local and n == local[0]:
                out.append(local[1])
            else:
                v = sc.get(n)
                if isinstance(v, Pipe):
                    raise TooBig()
                out.append(v)
        return tuple(out)

    def emit_probe(self, emit, *a, **k):
        self.n += 1
        if self.n > 300:
            raise TooBig()
        try:
            x = self.probe(*a, **k)
        except Undefined:
            x = 'E'
        emit(x)

    def run(self, t, sc, emit, depth=0):
        k = t[0]
        mon = self.mon
        self.n += 1
        if self.n > 300 or depth > 25:
            raise TooBig()
        if k == 'probe':
            self.emit_probe(emit, sc, t[2], (t[1],), local=(t[3], 0))
        elif k == 'down':
            def down(x):
                if x == 'E':
                    return emit(x)
                self.emit_probe(emit, sc, t[3], (x, t[2]))
            self.run(t[1], sc, down, depth + 1)
        elif k == 'union':
            mon.count('op:union')
            self.run(t[1], sc, emit, depth + 1)
            for b in t[2]:
                self.run(b, sc, emit, depth + 1)
        elif k == 'args':
            mon.count('op:args')
            ps = t[2]
            for i in range(t[1]):
                vals = {p: i * len(ps) + j for j, p in enumerate(ps)}
                self.shadow(sc, vals)
                self.run(t[3], Scope(sc, vals), emit, depth + 1)
        elif k == 'case':
            mon.count('op:case')
            for i in range(t[1]):
                tag, names = (t[2], t[3]) if i % 2 == 0 else (t[4], t[5])
                self.emit_probe(emit, sc, names, (tag, i))
        elif k == 'call':
            mon.count('op:call')
            p = sc.get(t[1])
            if not isinstance(p, Pipe):
                raise TooBig()
            vals = {x: None for x in p.params}
            for x, a in zip(p.params, t[2]):
                vals[x] = self.arg(a, sc)
            if len(t[2]) > len(p.params) or set(t[3]) - set(p.params):
                self.fuzzy = True                        # rejected when the command is set up
                raise Abort('arguments')
            for x, a in t[3].items():
                mon.count('named_param')
                vals[x] = self.arg(a, sc)
            if None in vals.values():
                mon.count('unset_param')
            self.shadow(sc, vals)
            if 'f' in vals and vals['f'] is not None:
                mon.count('shadowed_pipeline')
            if any(isinstance(v, Pipe) and n != 'f' for n, v in vals.items()):
                raise TooBig()                           # a pipeline printed by a probe
            if 'f' in vals and not isinstance(vals['f'], Pipe):
                raise TooBig()
            self.run(p.body, Scope(sc, vals), emit, depth + 1)
        elif k == 'import':
            mon.count('imports')
            if sc.find(t[1]) not in (None, sc.top()):
                mon.count('imports_to_param')
            else:
                self.assigned.add(t[1])
            sc.set(t[1], IMP[t[2]])
        elif k == 'del':
            s = sc.find(t[1])
            if s is not None and s.vars[t[1]] is not GONE:
                mon.count('deletes')
                v = s.vars[t[1]]
                if isinstance(v, Pipe):
                    raise TooBig()
                if s.parent is None:
                    self.assigned.add(t[1])
                    del s.vars[t[1]]
                else:
                    mon.count('deletes_of_param')
                    s.vars[t[1]] = GONE
                emit((t[1], v))
        elif k == 'env':
            mon.count('op:env')
            try:
                v = sc.get(t[1])
            except Undefined:
                raise Abort('env')
            emit((t[1], v))
        elif k == 'store':
            mon.count('stores')
        elif k == 'err':
            mon.count('item_errors')
            emit('E')
        elif k == 'abort':
            raise Abort('abort')

    def shadow(self, sc, vals):
        for n in vals:
            s = sc.find(n)
            if s is not None:
                self.mon.count('shadowed_var' if s.parent is None else 'shadowed_param')

    def arg(self, a, sc):
        if a[0] == 'pipe':
            self.mon.count('pipeline_param')
            return Pipe([], a[1])
        try:
            v = sc.get(a[1])
        except Undefined:
            raise TooBig()
        if isinstance(v, Pipe):
            raise TooBig()
        return (v if isinstance(v, int) else 7) + a[2]


class TooBig(Exception):
    pass


def stored(t):
    """Names a tree may store to."""
    if isinstance(t, dict):
        return set().union(*[stored(x) for x in t.values()], set())
    if isinstance(t, list):
        s = {t[1]} if len(t) == 3 and t[0] == 'store' else set()
        return s.union(*[stored(x) for x in t], set())
    return set()


def mutated(t):
    if isinstance(t, dict):
        return set().union(*[mutated(x) for x in t.values()], set())
    if isinstance(t, list):
        s = {t[1]} if t and t[0] in ('import', 'del') else set()
        return s.union(*[mutated(x) for x in t], set())
    return set()


# ---- case ----

BAD = ['gen 3 | (', 'gen x y z | map', 'nosuch_op_zz 3', 'gen 3 | map (a: a', "gen 'x'", 'p (1) (2) (3) (4) (5)', 'q --zz (1)', 'gen 2 | map (x: x) (y: y)',
       'a = (1 // 0)', 'a = (nosuch_zz)', 'gen (1 // 0)', 'union (| gen 1 |)', 'gen 2 | head (a // 0)', 'load nosuch_zz', 'env nosuch_zz',
       'gen 1 | args (| a, b: import nosuch_module_zz |)', 'gen 2 | args (| a: load a |)', 'gen 2 | args (| a: gen 1 | head (1 // a) |)',
       'p = (| a, a: gen |', 'gen 2 | args (| a: nosuch_op_zz |)', 'gen 1 | union (| nosuch_op_zz |)', 'gen 4 | window -o (b // 0)']


# Values that operators could modify in place.
OBJECTS = {'ml': [[1], [2, 3], [], [4, 1], [0]], 'md': [{'x': 1}, {}, {'y': [2]}, {'x': 3}, {'z': 0}], 'ms': [{1}, {2, 3}, set(), {4}, {1}],
           'mm': [[[2], [1]], [[0]], [[], [5]], [[1], [1]], [[3, 2]]]}


def objects_command(rng):
    v = rng.choice(['ml', 'ml', 'ml', 'mm', 'md', 'ms'])
    n = rng.randrange(1, 6)
    lists = v in ('ml', 'mm')
    src = rng.choice([f'gen {n} | map (i: ({v}[i],))', f'gen {n} | map (i: (i % 2, {v}[i]))', f'gen {n} | map (i: ({v}[i], i))', f'gen 1 | map (: ({v},))']
                     + [f'gen {n} | map (i: {v}[i])', f'gen 1 | map (: {v})'] * lists)
    reds = ['+', 'max', 'min', 'concat', 'count', '^', '&', '(a, b: b if a is None else a)']
    ops = ['reverse', 'sort', 'unique', 'expand', 'expand 0', 'expand 1', 'tail 2', 'head 2', 'window -o 2', 'window -d 2', 'squish', 'squish +', 'squish concat',
           'red . +', 'red -i . +', 'red . concat', 'red -i +', 'map (*x: x)', 'map (x, *r: x)', 'args (| a: gen 2 | map (i: (a, i)) |)',
           'args --all (| a: map (*x: a) |)', 'args (| a, b: gen 1 | map (i: a) |)', 'case (*x: True) (| map (*x: x) |) (| reverse |)',
           f'union (| gen {n} | map (i: {v}[i]) |)', f'join (| gen {n} | map (i: (i, {v}[i])) |)', f'union (| gen {n} | map (i: ({v}[i],)) |)',
           'store r', 'select (*x: len(x) > 0)', 'sort (*x: str(x))', 'intersect (| gen 3 |)', f'filter (| gen {n} | map (i: ({v}[i],)) |)',
           'unique -c', 'cast str', 'cast list'] + ['red ' + r for r in reds] + ['red + +', 'red + count']
    return f'{src} | ' + ' | '.join(rng.choice(ops) for _ in range(rng.choice([1, 1, 1, 2, 3])))


def gen(rng, i, tier):
    g = Gen(rng)
    f = {'name': 'f', 'params': [], 'body': g.body(3, [])}
    q = g.definition('q', ['f'])
    p = g.definition('p', ['q', 'f'])
    cmds = []
    for _ in range(rng.randrange(4, 9)):
        r = rng.random()
        if r < 0.75:
            cmds.append({'k': 'run', 't': g.body(0, ['p', 'q', 'p', 'f'])})
        elif r < 0.85:
            cmds.append({'k': 'set', 'v': rng.choice(VALS + MUT), 'n': rng.randrange(100, 999)})
        else:
            cmds.append({'k': 'bad', 's': rng.choice(BAD)})
    return {'defs': [f, q, p], 'cmds': cmds, 'objects': [objects_command(rng) for _ in range(8)], 'init': {v: rng.randrange(1000, 9999) for v in VALS + MUT}}


VOLATILE = {'PROMPT_DIR', '__builtins__'}


def same(x, y):
    if x is y:
        return True
    try:
        return bool(x == y) and type(x) is type(y)
    except Exception:
        return False


def snapshot(s):
    return {k: v for k, v in dict(s.env.vars()).items() if k not in VOLATILE}


def run(case, mon, box):
    s = Session(box)
    top = Scope(None, {})
    for v, n in case['init'].items():
        r = s.run(f'{v} = ({n})')
        top.vars[v] = n
    defs = {}
    for d in case['defs']:
        ps = ', '.join(d['params'])
        r = s.run(f'{d["name"]} = (| {ps + ": " if ps else ""}{text(d["body"])} |)')
        if r.out or r.err or r.exc:
            raise AssertionError(('definition', d, r))
        top.vars[d['name']] = Pipe(d['params'], d['body'])
        defs[d['name']] = d
    before = snapshot(s)
    for c in case['cmds']:
        may = set()
        expected = None
        aborted = False
        fuzzy = False
        nested = False
        if c['k'] == 'run':
            m = Model(mon)
            saved = dict(top.vars)
            out = []
            try:
                m.run(c['t'], top, out.append)
            except Abort:
                aborted = True
                mon.count('aborts')
                if c['t'][0] in ('args', 'call', 'down'):
                    mon.count('aborts_nested')
            except (TooBig, Undefined):
                top.vars.clear()
                top.vars.update(saved)
                mon.count('skipped')
                continue
            may = stored([c['t'], case['defs']]) | m.assigned
            txt = text(c['t'])
            cmd = txt + ' | ' + TAP
            # an argument checked when the command is set up makes it fail before anything is done
            expected = ['E' if x == 'E' else show(x) for x in out]
            fuzzy = aborted and m.fuzzy
            nested = any(w in txt for w in ('args', '(|')) or c['t'][0] == 'call'
        elif c['k'] == 'set':
            cmd = f'{c["v"]} = ({c["n"]})'
            top.vars[c['v']] = c['n']
            may = {c['v']}
            expected = []
        else:
            cmd = c['s']
            mon.count('rejected_commands')
            aborted = True
            expected = None
        r = s.run(cmd)
        if 'Pickle file already in use' in r.err:       # the same reservoir stored twice at once
            aborted = fuzzy = True
        # an argument checked when the command is set up makes it fail before anything is done
        if aborted and c['k'] == 'run':
            may |= mutated([c['t'], case['defs']])
        what = f'command: {cmd}\nout: {r.out[-700:]}\nerr: {r.err[-700:]}\nexc: {r.exc}\n'
        if r.exc:
            mon.violation('a command raised an exception', what)
            return
        if expected is not None and not fuzzy:
            got = parse_out(r)
            if aborted:
                # The command may have failed already when it was set up
                ok = got == expected[:len(got)]
            else:
                ok = got == expected
            if not mon.check(ok, 'a variable had an unexpected value inside the command', what + f'expected: {expected}\nobserved: {got}\n'
                             + f'definitions: {[(d["name"], d["params"], text(d["body"])) for d in case["defs"]]}'):
                return
            mon.count('probes_compared', len(got))
        ns = s.env.vars()
        mon.check(ns.n_scopes() == 1, 'scopes were left behind by a command', what + f'{ns.n_scopes()}')
        after = snapshot(s)
        for v in set(before) | set(after):
            if v in may:
                continue
            mon.count('vars_compared')
            if v not in after:
                mon.violation('a command removed a variable it does not assign', what + f'{v}, was {before[v]!r}')
            elif v not in before:
                mon.violation('a command left behind a variable it does not assign', what + f'{v} = {after[v]!r}')
            elif not same(before[v], after[v]):
                mon.violation('a command changed a variable it does not assign', what + f'{v}: {before[v]!r} -> {after[v]!r}')
        # What the command assigned is visible
        for v in VALS + MUT:
            if aborted and v in may:
                if v in after:
                    top.vars[v] = after[v]
                else:
                    top.vars.pop(v, None)
                continue
            want = top.vars.get(v, GONE)
            got = after.get(v, GONE)
            mon.check((want is GONE) == (got is GONE) and (want is GONE or same(want, got)), 'a variable does not have the value a command gave it',
                      what + f'{v}: expected {want!r}, observed {got!r}')
            ev = ns.scopes[0].get(v, GONE)
            ev = ev if ev is GONE else ev.unwrap()
            mon.check((want is GONE) == (ev is GONE) and (want is GONE or same(want, ev)), 'the stored value of a variable differs from its visible value',
                      what + f'{v}: expected {want!r}, observed {ev!r}')
        defd = [v for v in VALS + MUT if v in top.vars]
        probe = s.run(f'gen 1 | map (i_: ({", ".join(defd)},)) | {TAP}')
        mon.check(parse_out(probe) == [show(tuple(top.vars[v] for v in defd))], 'the next command sees a different value of a variable',
                  what + f'{probe}\nexpected {[(v, top.vars[v]) for v in defd]}')
        v = (VALS + MUT)[len(cmd) % 5]
        probe = s.run(f'env {v} | {TAP}')
        if v in top.vars:
            mon.check(parse_out(probe) == [show((v, top.vars[v]))], 'env shows a different value of a variable', what + f'{probe}')
        else:
            mon.check(not probe.out and 'undefined' in probe.err, 'env shows a deleted variable', what + f'{probe}')
        if nested:
            mon.nontrivial(cmd)
        before = snapshot(s)
    for v, x in OBJECTS.items():
        s.run(f'{v} = ({x!r})')
        assert repr(s.env.getvar(v)) == repr(x), v
    for cmd in case['objects']:
        r = s.run(cmd)
        if r.exc:
            mon.violation('a command raised an exception', f'command: {cmd}\n{r}')
            return
        for v, x in OBJECTS.items():
            mon.count('objects_compared')
            if not mon.check(repr(s.env.getvar(v)) == repr(x), 'a command changed a value held by a variable in place',
                             f'command: {cmd}\n{v}: {x!r} -> {s.env.getvar(v)!r}'):
                return
