"""C04: pipelines as values. Random programs of stored, nested, parameterised and shared pipelines, run repeatedly and interleaved
with failing and aborted runs, against a direct interpreter of their text."""
from session import Session, TAP, parse_out, show

ID = 'C04'
LEVEL = 'exploration'
RULE = ('Random sets of stored pipelines (sources and transformers, 0-3 parameters, calling each other, taking pipelines as arguments) over integer '
        'streams, whose bodies nest case, args, union, intersect, difference, join and filter with inline and stored pipelines. Each is invoked many '
        'times, with positional and named arguments, in varied order, interleaved with failing and aborted invocations, and twice within one command. '
        'Expected output comes from an interpreter of the program written for this check. Non-trivial: an invocation repeated after other runs, keyed by text.')
ASSUMPTIONS = ['parameter names are distinct between pipelines here (shadowing is decided by C07)',
               'transformer pipelines are given input, source pipelines are not']
N = {'quick': 900, 'thorough': 16000}
REQUIRED = ['invocations', 'repeats', 'aborted_runs', 'error_runs', 'twice_in_command', 'op:case', 'op:args', 'op:args-all', 'op:union', 'op:join',
            'op:filter', 'op:intersect', 'op:difference', 'named_args', 'unset_args', 'pipeline_args', 'transformer_calls', 'nested_calls']
LIMIT = 250


class TooBig(Exception):
    pass


# ---- expressions: (text, function of environment dict) ----

def E(rng, vars, item=None):
    r = rng.random()
    if item and r < 0.75:
        base = item
    else:
        base = None
    v = rng.choice(vars) if vars and rng.random() < 0.7 else None
    k = rng.randrange(0, 6)
    parts = []
    if base:
        parts.append(rng.choice([base, f'{base} * 2', f'-{base}', f'{base} % 7']))
    if v:
        parts.append(rng.choice([f'(3 if {v} is None else {v})', f'(-4 if {v} is None else {v}) * 2', f'(1 if {v} is None else {v}) % 5', f'({v} or 3)']))
    if not parts or rng.random() < 0.3:
        parts.append(str(k))
    return ' + '.join(parts)


def P(rng, vars, item='x'):
    e = E(rng, vars, item)
    return rng.choice([f'({e}) % 2 == 0', f'({e}) % 3 != 1', f'{item} > {rng.randrange(-2, 4)}', f'{item} < ({e})', 'True', 'False'])


def ev(text, env):
    return eval(text, {}, dict(env))


# ---- operators as streaming stages ----

class Map:
    def __init__(self, e, item, env):
        self.f = eval('lambda %s: %s' % (item, e), dict(env))

    def item(self, x, emit):
        emit(self.f(x))

    def flush(self, emit):
        pass


class Select(Map):
    def item(self, x, emit):
        if self.f(x):
            emit(x)


class MapPos:
    def __init__(self):
        self.n = -1

    def item(self, x, emit):
        self.n += 1
        emit(self.n * 3 + x)

    def flush(self, emit):
        pass


class Unique:
    def __init__(self):
        self.seen = set()

    def item(self, x, emit):
        if x not in self.seen:
            self.seen.add(x)
            emit(x)

    def flush(self, emit):
        pass


class Head:
    def __init__(self, n):
        self.n = n

    def item(self, x, emit):
        if self.n > 0:
            self.n -= 1
            emit(x)

    def flush(self, emit):
        pass


class RedInc:
    def __init__(self):
        self.acc = None

    def item(self, x, emit):
        self.acc = x if self.acc is None else self.acc + x
        emit(x + 2 * self.acc)

    def flush(self, emit):
        pass


class Buffer:
    def __init__(self, f):
        self.f, self.items = f, []

    def item(self, x, emit):
        self.items.append(x)

    def flush(self, emit):
        for y in self.f(self.items):
            emit(y)


class Case:
    def __init__(self, branches, default):
        self.branches, self.default = branches, default    # [(pred, Chain)]

    def item(self, x, emit):
        for p, chain in self.branches:
            if p(x):
                return chain.item(x, emit)
        if self.default:
            return self.default.item(x, emit)

    def flush(self, emit):
        for _, chain in self.branches:
            chain.flush(emit)
        if self.default:
            self.default.flush(emit)


class Chain:
    def __init__(self, stages):
        self.stages = stages

    def push(self, i, x, emit):
        if i == len(self.stages):
            emit(x)
        else:
            self.stages[i].item(x, lambda y: self.push(i + 1, y, emit))

    def item(self, x, emit):
        self.push(0, x, emit)

    def flush(self, emit):
        for i, s in enumerate(self.stages):
            s.flush(lambda y: self.push(i + 1, y, emit))


# ---- programs ----
# pipeline: {'params': [..], 'src': node or None, 'ops': [node..]}; node: tuple(kind, ...)

class Gen:
    def __init__(self, rng, globals_):
        self.rng, self.stored, self.globals = rng, {}, globals_
        self.nparam = 0
        self.tags = []

    def params(self):
        out = []
        for _ in range(self.rng.choice([0, 1, 1, 2, 2, 3])):
            self.nparam += 1
            out.append(f'p{self.nparam}')
        return out

    def pipeline(self, vars, depth, source, params=(), pipes=()):
        rng = self.rng
        vars = list(vars) + [p for p in params if p not in pipes]
        src = self.source(vars, depth, pipes) if source else None
        ops = [self.op(vars, depth, pipes) for _ in range(rng.choice([0, 1, 1, 2, 3]) if source else rng.choice([1, 1, 2, 3]))]
        return {'params': list(params), 'src': src, 'ops': ops}

    def call(self, vars, name, params):
        rng = self.rng
        n = len(params)
        use = n if rng.random() < 0.75 else rng.randrange(0, n + 1)
        if use < n:
            self.tags.append('unset_args')
        npos = rng.randrange(0, use + 1) if rng.random() < 0.5 else use
        if npos < use:
            self.tags.append('named_args')
        pos = [E(rng, vars) for _ in range(npos)]
        named = [(p, E(rng, vars)) for p in params[npos:use]]
        rng.shuffle(named)
        return ('call', name, [(params[i], e) for i, e in enumerate(pos)], [(rng.choice(['-', '--']), p, e) for p, e in named])

    def source(self, vars, depth, pipes=()):
        rng = self.rng
        r = rng.random()
        if pipes and r < 0.6:
            p = rng.choice(pipes)
            return ('callpipe', p, E(rng, vars))
        names = [n for n, p in self.stored.items() if p['src'] and not p.get('pipes')]
        if names and r < 0.4:
            n = rng.choice(names)
            self.tags.append('nested_calls')
            return self.call(vars, n, self.stored[n]['params'])
        hnames = [n for n, p in self.stored.items() if p.get('pipes')]
        if hnames and depth > 0 and r < 0.55:
            n = rng.choice(hnames)
            p = self.stored[n]
            self.nparam += 1
            q = self.pipeline([], depth - 1, True, [f'p{self.nparam}'])
            self.tags.append('pipeline_args')
            return ('callh', n, q, [(x, E(rng, vars)) for x in p['params'][1:]])
        if r < 0.85:
            return ('gen', E(rng, vars), E(rng, vars))
        return ('expr', E(rng, vars))

    def op(self, vars, depth, pipes=(), stream=False):
        rng = self.rng
        kinds = ['map', 'map', 'select', 'pos', 'unique', 'head', 'redinc', 'reverse', 'sort', 'tail', 'red', 'count', 'window', 'window']
        if depth > 0:
            kinds += ['case', 'case', 'case', 'args', 'args', 'args', 'argsall', 'union', 'union', 'intersect', 'difference', 'join', 'filter']
        names = [n for n, p in self.stored.items() if not p['src']]
        if names:
            kinds += ['tcall'] * 4
        k = rng.choice(kinds)
        if k == 'map':
            return ('map', E(rng, vars, 'x'))
        if k == 'select':
            return ('select', P(rng, vars))
        if k in ('head', 'tail'):
            return (k, rng.randrange(1, 5))
        if k == 'window':
            return ('window', rng.choice('od'), rng.randrange(1, 4))
        if k == 'tcall':
            n = rng.choice(names)
            self.tags.append('transformer_calls')
            return self.call(vars, n, self.stored[n]['params'])
        if k == 'case':
            branches = [(P(rng, vars), self.transformer(vars, depth - 1)) for _ in range(rng.choice([1, 1, 2, 3]))]
            default = self.transformer(vars, depth - 1) if rng.random() < 0.6 else None
            return ('case', branches, default)
        if k == 'args':
            self.nparam += 1
            ps = [f'p{self.nparam}a', f'p{self.nparam}b', f'p{self.nparam}c'][:rng.choice([1, 1, 2, 3])]
            return ('args', self.pipeline(vars, depth - 1, True, ps))
        if k == 'argsall':
            self.nparam += 1
            p = f'p{self.nparam}l'
            return ('argsall', p, rng.choice([f'sum({p})', f'len({p})', f'{p}[0] - {p}[-1]', f'max({p})']), [self.op(vars, 0) for _ in range(rng.randrange(2))])
        if k == 'union':
            return (k, [self.sub(vars, depth - 1) for _ in range(rng.choice([1, 1, 2]))])
        if k in ('intersect', 'difference', 'filter', 'join'):
            return (k, self.sub(vars, depth - 1), rng.random() < 0.5)
        return (k,)

    def transformer(self, vars, depth):
        return self.pipeline(vars, depth, False)

    def sub(self, vars, depth):
        names = [n for n, p in self.stored.items() if p['src'] and not p['params']]
        if names and self.rng.random() < 0.3:
            return self.rng.choice(names)
        return self.pipeline(vars, depth, True)


def text_pipe(p, outer=True):
    parts = ([text_node(p['src'])] if p['src'] else []) + [text_node(o) for o in p['ops']]
    body = ' | '.join(parts)
    if not outer:
        return body
    return f'(| {", ".join(p["params"])}: {body} |)' if p['params'] else f'(| {body} |)'


def text_sub(s):
    return s if isinstance(s, str) else text_pipe(s)


def text_node(n):
    k = n[0]
    if k == 'gen':
        return f'gen (abs({n[1]}) % 5 + 1) ({n[2]})'
    if k == 'expr':
        return f'({n[1]})'
    if k == 'map':
        return f'map (x: {n[1]})'
    if k == 'select':
        return f'select (x: {n[1]})'
    if k == 'pos':
        return 'map (x: pos() * 3 + x)'
    if k in ('head', 'tail'):
        return f'{k} {n[1]}'
    if k == 'redinc':
        return 'red -i + | map (x, a: x + 2 * a)'
    if k == 'red':
        return 'red + | map (x: x or 0)'
    if k == 'count':
        return 'red count'
    if k == 'window':
        return f'window -{n[1]} {n[2]} | map (*t: sum(a or 0 for a in t))'
    if k in ('reverse', 'sort', 'unique'):
        return k
    if k == 'call':
        return ' '.join([n[1]] + [f'{d}{p} ({e})' for d, p, e in n[3]] + [f'({e})' for p, e in n[2]])
    if k == 'callpipe':
        return f'{n[1]} ({n[2]})'
    if k == 'callh':
        return ' '.join([n[1], text_pipe(n[2])] + [f'({e})' for p, e in n[3]])
    if k == 'case':
        return 'case ' + ' '.join(f'(x: {p}) {text_pipe(b)}' for p, b in n[1]) + (' ' + text_pipe(n[2]) if n[2] else '')
    if k == 'args':
        return 'args ' + text_pipe(n[1])
    if k == 'argsall':
        return f'args -a (| {n[1]}: ({n[2]})' + ''.join(' | ' + text_node(o) for o in n[3]) + ' |)'
    if k == 'union':
        return 'union ' + ' '.join(text_sub(s) for s in n[1])
    if k in ('intersect', 'difference'):
        return f'{k} {text_sub(n[1])} | sort'
    if k == 'filter':
        return f'filter {"-d " if n[2] else ""}{text_sub(n[1])}'
    if k == 'join':
        s = text_sub(n[1])
        s = f'(| {s} | map (y: (y % 3, y)) |)' if isinstance(n[1], str) else s[:-3] + ' | map (y: (y % 3, y)) |)'
        return f'map (x: (x % 3, x)) | join {"-k " if n[2] else ""}{s} | map (*t: sum(t))'
    raise AssertionError(k)


class Interp:
    def __init__(self, stored):
        self.stored = stored
        self.ops = []
        self.fuel = 4000

    def run(self, pipe, env):
        """Output of a source pipeline."""
        out = []
        chain = Chain(self.stages(pipe, env))
        for x in self.src(pipe['src'], env):
            chain.item(x, out.append)
            self.limit(out)
        chain.flush(out.append)
        self.limit(out)
        return out

    def limit(self, out):
        self.fuel -= 1
        if len(out) > LIMIT or self.fuel < 0 or any(abs(x) > 10 ** 9 for x in out[-5:]):
            raise TooBig

    def bind(self, node, env):
        b = {p: None for p in self.stored[node[1]]['params']}
        for p, e in node[2]:
            b[p] = ev(e, env)
        for d, p, e in node[3]:
            b[p] = ev(e, env)
        return b

    def src(self, n, env):
        k = n[0]
        if k == 'gen':
            c, s = abs(ev(n[1], env)) % 5 + 1, ev(n[2], env)
            return list(range(s, s + c))
        if k == 'expr':
            return [ev(n[1], env)]
        if k == 'call':
            return self.run(self.stored[n[1]], {**env, **self.bind(n, env)})
        if k == 'callpipe':
            q = env[n[1]]
            return self.run(q, {**env, q['params'][0]: ev(n[2], env)})
        if k == 'callh':
            h = self.stored[n[1]]
            b = {h['params'][0]: n[2]}
            b.update({p: ev(e, env) for p, e in n[3]})
            return self.run(h, {**env, **b})
        raise AssertionError(k)

    def sub(self, s, env):
        return self.run(self.stored[s] if isinstance(s, str) else s, env)

    def stages(self, pipe, env):
        out = []
        for n in pipe['ops']:
            out += self.stage(n, env)
        return out

    def stage(self, n, env):
        k = n[0]
        self.ops.append(k)
        if k == 'map':
            return [Map(n[1], 'x', env)]
        if k == 'select':
            return [Select(n[1], 'x', env)]
        if k == 'pos':
            return [MapPos()]
        if k == 'unique':
            return [Unique()]
        if k == 'head':
            return [Head(n[1])]
        if k == 'redinc':
            return [RedInc()]
        if k == 'reverse':
            return [Buffer(lambda l: l[::-1])]
        if k == 'sort':
            return [Buffer(sorted)]
        if k == 'tail':
            return [Buffer(lambda l: l[-n[1]:])]
        if k == 'red':
            return [Buffer(lambda l: [sum(l)])]
        if k == 'count':
            return [Buffer(lambda l: [len(l)])]
        if k == 'window':
            w = n[2]
            if n[1] == 'o':
                return [Overlap(w)]
            return [Disjoint(w)]
        if k == 'call':
            return self.stages(self.stored[n[1]], {**env, **self.bind(n, env)})
        if k == 'case':
            return [Case([(eval('lambda x: ' + p, dict(env)), Chain(self.stages(b, env))) for p, b in n[1]],
                         Chain(self.stages(n[2], env)) if n[2] else None)]
        if k == 'args':
            return [ArgsStage(self, n[1], env)]
        if k == 'argsall':
            def f(l):
                if not l:
                    return []
                return self.run({'params': [], 'src': ('expr', n[2]), 'ops': n[3]}, {**env, n[1]: list(l)})
            return [Buffer(f)]
        if k == 'union':
            return [UnionStage(self, n[1], env)]
        if k in ('intersect', 'difference'):
            def g(l):
                from collections import Counter
                a, b = Counter(l), Counter(self.sub(n[1], env))
                return sorted(((a & b) if k == 'intersect' else (a - b)).elements())
            return [Buffer(g)]
        if k == 'filter':
            keep = set(self.sub(n[1], env))
            e = Select('0', 'x', env)
            e.f = (lambda x: x not in keep) if n[2] else (lambda x: x in keep)
            return [e]
        if k == 'join':
            right = [(y % 3, y) for y in self.sub(n[1], env)]
            return [JoinStage(right, n[2])]
        raise AssertionError(k)


class Overlap:
    def __init__(self, w):
        self.w, self.buf = w, []

    def item(self, x, emit):
        self.buf.append(x)
        if len(self.buf) == self.w:
            emit(sum(self.buf))
            self.buf.pop(0)

    def flush(self, emit):
        while self.buf:
            emit(sum(self.buf))
            self.buf.pop(0)


class Disjoint(Overlap):
    def item(self, x, emit):
        self.buf.append(x)
        if len(self.buf) == self.w:
            emit(sum(self.buf))
            self.buf = []

    def flush(self, emit):
        if self.buf:
            emit(sum(self.buf))


class ArgsStage:
    def __init__(self, interp, pipe, env):
        self.i, self.pipe, self.env, self.buf = interp, pipe, env, []

    def go(self, emit):
        ps = self.pipe['params']
        vals = self.buf + [None] * (len(ps) - len(self.buf))
        self.buf = []
        for y in self.i.run(self.pipe, {**self.env, **dict(zip(ps, vals))}):
            emit(y)

    def item(self, x, emit):
        self.buf.append(x)
        if len(self.buf) == len(self.pipe['params']):
            self.go(emit)

    def flush(self, emit):
        if self.buf:
            self.go(emit)


class UnionStage:
    def __init__(self, interp, subs, env):
        self.i, self.subs, self.env = interp, subs, env

    def item(self, x, emit):
        emit(x)

    def flush(self, emit):
        for s in self.subs:
            for y in self.i.sub(s, self.env):
                emit(y)


class JoinStage:
    def __init__(self, right, keep):
        self.right, self.keep = right, keep

    def item(self, x, emit):
        m = [y for k, y in self.right if k == x % 3]
        for y in m:
            emit(x % 3 + x + y)
        if not m and self.keep:
            emit(x % 3 + x)

    def flush(self, emit):
        pass


ABORT = [' | sort (x: 1 // 0)', ' | expand -99 | nosuch_pipeline_ (1)', ' | map (x: x) | args (| gen 1 |)', ' | cd', ' | red + | sort (x: y9)']
ERRORS = [' | map (x: 1 // 0)', ' | select (x: x // 0)', ' | map (x: 1 // (x % 2))']


def gen(rng, i, tier):
    for _ in range(50):
        try:
            c = gen1(rng)
            if c:
                return c
        except (TooBig, RecursionError):
            continue
    raise AssertionError('generator failed')


def gen1(rng):
    globals_ = {'g1': rng.randrange(1, 5), 'g2': rng.randrange(1, 9)}
    g = Gen(rng, globals_)
    for k in range(rng.choice([2, 3, 4, 5])):
        r = rng.random()
        params = g.params()
        if r < 0.2:
            q = f'q{k}'
            p = g.pipeline(['g1', 'g2'], 1, True, [q] + params, pipes=(q,))
            p['pipes'] = [q]
        else:
            p = g.pipeline(['g1', 'g2'], rng.choice([0, 1, 2]), r < 0.7, params)
        g.stored[f'f{k}'] = p
    defs = [f'{n} = {text_pipe(p)}' for n, p in g.stored.items()]
    cands = []
    for _ in range(rng.choice([2, 3, 4])):
        p = g.pipeline(['g1', 'g2'], rng.choice([0, 1, 2]), True)
        if rng.random() < 0.7 and g.stored:
            n = rng.choice(list(g.stored))
            sp = g.stored[n]
            if sp.get('pipes'):
                g.nparam += 1
                q = g.pipeline([], 1, True, [f'p{g.nparam}'])
                g.tags.append('pipeline_args')
                p = {'params': [], 'src': ('callh', n, q, [(x, E(rng, ['g1'])) for x in sp['params'][1:]]), 'ops': p['ops'][:1]}
            elif sp['src']:
                p = {'params': [], 'src': g.call(['g1', 'g2'], n, sp['params']), 'ops': p['ops'][:1]}
                if rng.random() < 0.4:
                    p['ops'] = [('union', [{'params': [], 'src': g.call(['g1'], n, sp['params']), 'ops': []}])] + p['ops']
                    g.tags.append('twice_in_command')
            else:
                c1, c2 = g.call(['g1', 'g2'], n, sp['params']), g.call(['g1'], n, sp['params'])
                p = {'params': [], 'src': p['src'], 'ops': [c1] + ([c2] if rng.random() < 0.5 else []) + p['ops'][:1]}
                if len(p['ops']) > 1 and p['ops'][1][0] == 'call':
                    g.tags.append('twice_in_command')
                g.tags.append('transformer_calls')
        it = Interp(g.stored)
        try:
            out = it.run(p, dict(globals_))
        except TypeError:
            continue
        cands.append((text_pipe(p, outer=False), [show(x) for x in out], sorted(set(it.ops))))
    if len(cands) < 2:
        return None
    steps = []
    for _ in range(rng.choice([6, 9, 12])):
        t, out, ops = rng.choice(cands)
        r = rng.random()
        if r < 0.65:
            steps.append(['run', t, out, ops])
        elif r < 0.8:
            steps.append(['abort', t + rng.choice(ABORT)])
        else:
            steps.append(['error', t + rng.choice(ERRORS)])
    for t, out, ops in cands:
        steps.append(['run', t, out, ops])
    return {'globals': globals_, 'defs': defs, 'steps': steps, 'tags': g.tags}


# Programs with known subtle sequences.
def fixed_cases(tier):
    def steps(*ts):
        return [['run', t, [show(x) for x in out], []] for t, out in ts]
    r = [2, 1, 0]
    return [
        {'globals': {}, 'defs': ['r = (| reverse |)'], 'tags': [], 'steps': steps(('gen 3 | r', r), ('gen 3 | r | r', [0, 1, 2]), ('gen 3 | r', r))},
        {'globals': {}, 'defs': ['v = (| gen 2 200 |)', 'h = (| p: p |)'], 'tags': [],
         'steps': steps(('h (v)', [200, 201]), ('h (| gen 2 |)', [0, 1]), ('h (v) | union (| h (v) |)', [200, 201] * 2), ('v', [200, 201]))},
        {'globals': {}, 'defs': ["a = (| n: gen 1 | map (x: n) |)"], 'tags': [],
         'steps': steps(("a 'x y'", ['x y']), ('a abc', ['abc']), ('a -n "q"', ['q']), ('a', [None]), ('a --n (5)', [5]))},
    ]


def run(case, mon, box):
    s = Session(box)
    for n, v in case['globals'].items():
        s.run(f'{n} = ({v})')
    for d in case['defs']:
        r = s.run(d)
        if not mon.check(not r.out and not r.err and r.exc is None, 'definition', 'storing a pipeline failed', definition=d, got=repr(r)):
            return
    for t in set(case['tags']):
        mon.count(t)
    seen = {}
    dirty = None
    for k, st in enumerate(case['steps']):
        if st[0] == 'run':
            _, text, expect, ops = st
            r = s.run(text + ' | ' + TAP)
            got = parse_out(r)
            mon.count('invocations')
            for o in ops:
                mon.count('op:' + {'argsall': 'args-all'}.get(o, o))
            if text in seen:
                mon.count('repeats')
                mon.nontrivial((text, k, case['defs']))
            mon.see('programs', text)
            key = 'wrong-first' if text not in seen else 'wrong-repeat'
            kinds = '+'.join(o for o in ops if o in ('case', 'args', 'argsall', 'union', 'join', 'filter', 'intersect', 'difference'))[:40]
            ok = mon.check(got == expect and not r.err and r.exc is None, f'{key}:{kinds}', 'an invocation gave the wrong output', definitions=case['defs'],
                           globals=case['globals'], earlier=[x[1] for x in case['steps'][:k]][-6:], command=text, expected=expect, got=got, err=r.err, exc=r.exc)
            seen[text] = True
            if not ok:
                break
            if mon.sample is None:
                mon.sample = {'definitions': case['defs'], 'command': text, 'output': got[:8]}
        else:
            r = s.run(st[1])
            mon.count('aborted_runs' if st[0] == 'abort' else 'error_runs')
    s.close()
