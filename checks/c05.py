"""C05: errors. Random pipelines whose functions fail on some items, against a streaming model of errors."""
import functools, os
from session import Session, TAP, parse_out, stream_text, show, item, CONFIG

ID = 'C05'
LEVEL = 'exploration'
RULE = ('Random pipelines of 1-6 operators whose functions and conversions (map, select, cast, squish, red, window, case, sort, filter, args bodies, '
        'argument pipelines of union/join/filter/difference/intersect, formatted writes) raise one of several exceptions on a random subset of items, '
        'over random streams. The exact interleaving of outputs and errors is compared with a streaming model; files written midway must hold each '
        'error once. Each pipeline is followed by a plain one to see that nothing is left behind. Non-trivial: at least one error and one output.')
ASSUMPTIONS = ['the text of an error is not judged, only its presence, position and number',
               'exceptions are subclasses of Exception']
N = {'quick': 700, 'thorough': 16000}
REQUIRED = ['errors', 'op:map', 'op:select', 'op:cast', 'op:squish', 'op:red', 'op:red-group', 'op:red-incr', 'op:window', 'op:case', 'op:args',
            'op:filter', 'op:sort', 'op:union', 'op:join', 'op:difference', 'op:intersect', 'op:write-file', 'op:expand', 'op:store', 'op:call',
            'op:write-format', 'two_failing_stages', 'errors_before_buffered_output']

HELPERS = '''
class Odd(Exception):
    pass

KINDS = [ValueError, KeyError, IndexError, ZeroDivisionError, TypeError, StopIteration, AssertionError, Odd, OSError,
         RecursionError, EOFError, NotImplementedError, FileNotFoundError, AttributeError]

def code(x):
    if isinstance(x, (tuple, list)):
        return sum(code(c) + 1 for c in x)
    return len(x) if isinstance(x, str) else 1 if x is None else int(x)

def fail(m, r, k, *x):
    if code(x) % m == r:
        raise KINDS[k]('boom')
    return 0
'''
NS = {}
exec(HELPERS, NS)
NS = {k: NS[k] for k in ('fail', 'code')}


def compile_f(text):
    return eval('lambda ' + text, dict(NS))


def wrap(v):
    return v if type(v) in (tuple, list) else (v,)


class Failed(Exception):
    pass


def call(f, *args):
    try:
        return f(*args)
    except Exception:
        raise Failed


def unwrap(x):
    return x[0] if len(x) == 1 else x


class Stage:
    def flush(self, emit, err):
        pass


class Fn(Stage):
    def __init__(self, kind, f):
        self.kind, self.f = kind, f

    def recv(self, x, emit, err):
        v = call(self.f, *x)
        if self.kind == 'map':
            emit(wrap(v))
        elif v:
            emit(x)


class CastS(Stage):
    def __init__(self, types):
        self.types = types

    def recv(self, x, emit, err):
        out = []
        for i, v in enumerate(x):
            out.append(None if v is None else call(self.types[i], v) if i < len(self.types) else v)
        emit(tuple(out))


class SquishS(Stage):
    def __init__(self, f):
        self.f = f

    def recv(self, x, emit, err):
        acc = None
        for c in x:
            acc = call(self.f, acc, c)
        emit(wrap(acc))


class RedS(Stage):
    def __init__(self, fs, incr):
        self.fs, self.incr = fs, incr
        self.groups = {}
        self.grouping = any(f is None for f in fs)
        if not self.grouping:
            self.groups[()] = [None] * len(fs)

    def recv(self, x, emit, err):
        if len(x) < len(self.fs):
            raise Failed
        key = tuple(x[i] for i, f in enumerate(self.fs) if f is None)
        try:
            acc = self.groups.get(key) or [None] * len(self.fs)
        except TypeError:
            raise Failed
        new = [x[i] if f is None else call(f, acc[i], x[i]) for i, f in enumerate(self.fs)]
        self.groups[key] = new
        if self.incr:
            emit(tuple(x) + tuple(v for v, f in zip(new, self.fs) if f is not None))

    def flush(self, emit, err):
        if not self.incr:
            for g in self.groups.values():
                emit(tuple(g))


class WindowS(Stage):
    def __init__(self, f):
        self.f, self.w = f, []

    def recv(self, x, emit, err):
        if call(self.f, *x) and self.w:
            emit(tuple(self.w))
            self.w = []
        self.w.append(unwrap(x))

    def flush(self, emit, err):
        if self.w:
            emit(tuple(self.w))


class Disjoint(Stage):
    def __init__(self, n):
        self.n, self.w = n, []

    def recv(self, x, emit, err):
        self.w.append(unwrap(x))
        if len(self.w) == self.n:
            emit(tuple(self.w))
            self.w = []

    def flush(self, emit, err):
        if self.w:
            emit(tuple(self.w + [None] * (self.n - len(self.w))))


class SortS(Stage):
    def __init__(self, key):
        self.key, self.buf = key, []

    def recv(self, x, emit, err):
        self.buf.append((call(self.key, *x), x))

    def flush(self, emit, err):
        for _, x in sorted(self.buf, key=lambda p: p[0]):
            emit(x)


class Buf(Stage):
    def __init__(self, kind, n=0):
        self.kind, self.n, self.buf = kind, n, []

    def recv(self, x, emit, err):
        self.buf.append(x)

    def flush(self, emit, err):
        for x in (self.buf[::-1] if self.kind == 'reverse' else self.buf[-self.n:]):
            emit(x)


class Head(Stage):
    def __init__(self, n):
        self.n = n

    def recv(self, x, emit, err):
        if self.n > 0:
            self.n -= 1
            emit(x)


class FilterS(Stage):
    def __init__(self, key, keep, right):
        self.key, self.keep, self.right, self.done = key, keep, right, False

    def recv(self, x, emit, err):
        if not self.done:
            self.done = True
            self.set = set(evaluate(self.right[0], self.right[1], err))
        v = wrap(call(self.key, *x)) if self.key else x
        if (v in self.set) == self.keep:
            emit(x)


class Bag(Stage):
    def __init__(self, kind, right):
        self.kind, self.right, self.done = kind, right, False

    def recv(self, x, emit, err):
        if not self.done:
            self.done = True
            self.bag = {}
            for r in evaluate(self.right[0], self.right[1], err):
                self.bag[r] = self.bag.get(r, 0) + 1
        n = self.bag.get(x, 0)
        if n:
            self.bag[x] = n - 1
        if (n > 0) == (self.kind == 'intersect'):
            emit(x)


class JoinS(Stage):
    def __init__(self, keep, right):
        self.keep, self.right, self.done = keep, right, False

    def recv(self, x, emit, err):
        if not self.done:
            self.done = True
            self.rows = evaluate(self.right[0], self.right[1], err)
        m = [r for r in self.rows if r[0] == x[0]]
        for r in m:
            emit(x + r[1:])
        if not m and self.keep:
            emit(x)


class UnionS(Stage):
    def __init__(self, right):
        self.right = right

    def recv(self, x, emit, err):
        emit(x)

    def flush(self, emit, err):
        stream(self.right[0], self.right[1], emit, err)


class CaseS(Stage):
    def __init__(self, branches, default):
        self.branches, self.default = branches, default
        self.chains = None

    def chain(self, i, emit, err):
        if self.chains is None:
            self.chains = {}
        if i not in self.chains:
            body = self.branches[i][1] if i < len(self.branches) else self.default
            self.chains[i] = Chain(body)
        return self.chains[i]

    def recv(self, x, emit, err):
        for i, (p, body) in enumerate(self.branches):
            if call(p, *x):
                self.chain(i, emit, err).recv(x, emit, err)
                return
        if self.default is not None:
            self.chain(len(self.branches), emit, err).recv(x, emit, err)

    def flush(self, emit, err):
        for i in range(len(self.branches) + (self.default is not None)):
            self.chain(i, emit, err).flush(emit, err)


class ArgsS(Stage):
    def __init__(self, n, body):
        self.n, self.body = n, body

    def recv(self, x, emit, err):
        src = [(i,) for i in range(self.n)]
        f = compile_f('y, c0: ' + self.body)
        for (y,) in src:
            try:
                v = f(y, unwrap(x))
            except Exception:
                err()
                continue
            emit(wrap(v))


class Side(Stage):
    """write FILE or store, in the middle"""

    def __init__(self, log, fmt=None):
        self.log, self.fmt = log, fmt

    def recv(self, x, emit, err):
        if self.fmt:
            try:
                self.log.append(self.fmt.format(*x))
            except Exception:
                err()
        else:
            self.log.append(x)
        emit(x)


class Chain:
    def __init__(self, body):
        self.stages = [mk() for mk in body]
        self.side = next((i for i, s in enumerate(self.stages) if isinstance(s, Side) and not getattr(s, 'is_store', False)), None)

    def push(self, i, x, emit, err):
        if i == len(self.stages):
            emit(x)
            return
        s = self.stages[i]
        e = self.errs(i, err)
        try:
            s.recv(x, lambda y: self.push(i + 1, y, emit, err), e)
        except Failed:
            e()

    def errs(self, i, err):
        # A write stage absorbs the errors of the stages before it.
        if self.side is not None and i < self.side:
            return lambda: self.stages[self.side].log.append('E')
        return err

    def recv(self, x, emit, err):
        self.push(0, x, emit, err)

    def flush(self, emit, err):
        for i, s in enumerate(self.stages):
            s.flush(lambda y, i=i: self.push(i + 1, y, emit, err), self.errs(i, err))


def stream(data, body, emit, err):
    c = Chain(body)
    for x in data:
        c.recv(item(x), emit, err)
    c.flush(emit, err)


def evaluate(data, body, err):
    out = []
    stream(data, body, out.append, err)
    return [tuple(o) for o in out]


# ---- generation: case is JSON; each op is a list ----

def fexpr(rng, kind):
    """Text of a function of *x that fails on some items."""
    m, r, k = rng.randrange(2, 6), None, rng.randrange(14)
    r = rng.randrange(m)
    guard = f'fail({m}, {r}, {k}, *x)'
    val = {'map': ['x', 'x[0]', 'code(x) % 5', '(code(x) % 4, code(x))', '(x[0], 1)', '-code(x)', 'str(code(x))', '(code(x), x[-1])',
                   '(code(x) % 3, code(x), 7)'],
           'select': ['code(x) % 3 != 0', 'True', 'code(x) > 2'],
           'window': ['code(x) % 3 == 0', 'code(x) % 2', 'True', 'False'],
           'key': ['code(x)', '-code(x)', 'code(x) % 3', '(code(x) % 2, -code(x))'],
           'pred': ['code(x) % 2 == 0', 'code(x) % 3 != 1', 'code(x) < 3'],
           'cmp': ['code(x) % 3', 'x', 'code(x)']}[kind]
    v = rng.choice(val)
    style = rng.random()
    if style < 0.6:
        return f'*x: ({v}) if not {guard} else 0'
    if style < 0.75:
        return f'*x: {v}'
    if style < 0.9:
        return f'*x: (60 // (code(x) % {m} - {r}) and 0) or ({v})' if v != 'True' else f'*x: 60 // (code(x) % {m} - {r}) is not None'
    return {'map': 'x, y: (y, x)', 'select': 'x, y: x < y', 'window': 'x, y: x == y', 'key': 'x: code((x,))', 'pred': 'x: x > 1',
            'cmp': 'x: x'}[kind]


def rfun(rng):
    m, k = rng.randrange(2, 5), rng.randrange(14)
    r = rng.randrange(m)
    return rng.choice([f'a, b: (code(a) if a is not None else 0) + code(b) + fail({m}, {r}, {k}, b)',
                       f'a, b: (a or 0) + fail({m}, {r}, {k}, a, b) + code(b)',
                       f'a, b: code(b) + 60 // (code(b) % {m} - {r})',
                       'a, b: code(b) + (a or 0)',
                       'a, b: b if a is None else max(a, b)'])


def data(rng, n=None):
    n = rng.choice([0, 1, 3, 5, 8, 12]) if n is None else n
    shape = rng.random()
    if shape < 0.5:
        return [rng.randrange(-3, 9) for _ in range(n)]
    if shape < 0.75:
        return [[rng.randrange(4), rng.randrange(9)] for _ in range(n)]
    if shape < 0.9:
        return [[rng.randrange(4), rng.randrange(9), rng.randrange(3)] for _ in range(n)]
    return [rng.choice(['a', '7', '12', 'x', '3.5', '-1']) for _ in range(n)]


def small(rng, depth):
    """A short list of ops used inside case branches and argument pipelines."""
    return [gen_op(rng, depth + 1, rng.choice(['map', 'map', 'select', 'window', 'red', 'disjoint', 'cast', 'squish', 'sort', 'reverse', 'head']))
            for _ in range(rng.choice([1, 1, 2]))]


KINDS = ['map', 'map', 'map', 'select', 'select', 'cast', 'squish', 'red', 'red', 'red-group', 'red-group', 'red-incr', 'window', 'window',
         'disjoint', 'sort', 'reverse', 'tail', 'head', 'filter', 'case', 'args', 'union', 'join', 'difference', 'intersect', 'expand', 'call']


def gen_op(rng, depth=0, kind=None):
    kind = kind or rng.choice(KINDS)
    if kind in ('map', 'select', 'window'):
        return [kind, fexpr(rng, kind)]
    if kind == 'call':
        return ['call', [['map', fexpr(rng, 'map')], ['select', fexpr(rng, 'select')]][:rng.randrange(1, 3)]]
    if kind == 'cast':
        return ['cast', [rng.choice(['int', 'float', 'str', 'int']) for _ in range(rng.randrange(1, 4))]]
    if kind == 'squish':
        return ['squish', rfun(rng)]
    if kind in ('red', 'red-incr'):
        n = rng.choice([1, 1, 2, 3])
        fs = [rfun(rng) for _ in range(n)]
        if kind == 'red-incr' and rng.random() < 0.5 and n > 1:
            fs[rng.randrange(n)] = None
        return ['red', fs, kind == 'red-incr']
    if kind == 'red-group':
        n = rng.choice([2, 2, 3])
        fs = [rfun(rng) for _ in range(n)]
        fs[rng.randrange(n)] = None
        return ['red', fs, rng.random() < 0.2]
    if kind == 'disjoint':
        return ['disjoint', rng.randrange(1, 4)]
    if kind == 'sort':
        return ['sort', fexpr(rng, 'key')]
    if kind in ('tail', 'head'):
        return [kind, rng.randrange(1, 6)]
    if kind in ('reverse', 'expand'):
        return [kind]
    if kind == 'case':
        n = rng.choice([1, 1, 2])
        return ['case', [[fexpr(rng, 'pred'), small(rng, depth)] for _ in range(n)],
                small(rng, depth) if n > 1 or rng.random() < 0.6 else None]
    if kind == 'args':
        m, k = rng.randrange(2, 5), rng.randrange(14)
        return ['args', rng.randrange(1, 4), f'(y, code((c0,))) if not fail({m}, {rng.randrange(m)}, {k}, y, c0) else 0']
    d = [rng.randrange(5) if rng.random() < 0.5 else [rng.randrange(4), rng.randrange(5)] for _ in range(rng.choice([0, 2, 4, 6]))]
    ops = [['map', rng.choice([fexpr(rng, 'map'), '*x: code(x) + fail(3, %d, 2, *x)' % rng.randrange(3), '*x: x + (1 // (x[0] - 2),)'])]]
    if kind == 'filter':
        return ['filter', rng.choice([None, fexpr(rng, 'cmp')]), rng.random() < 0.5, d, ops]
    if kind == 'union':
        return ['union', d, ops]
    if kind == 'join':
        return ['join', rng.random() < 0.4, d, ops]
    return [kind, d, ops]


def gen(rng, i, tier):
    pipes = []
    for _ in range(6 if tier == 'quick' else 10):
        ops = [gen_op(rng) for _ in range(rng.randrange(1, 6))]
        if rng.random() < 0.3:
            k = rng.randrange(0, len(ops) + 1)
            side = rng.choice([['write-file'], ['store'], ['write-format', rng.choice(['{}', '{} {}', '{:d}', '{0}-{1}'])]])
            if side[0] != 'write-format':
                ops.insert(k, side)
            else:
                ops.append(side)
        pipes.append({'data': data(rng), 'ops': ops, 'literal': rng.random() < 0.4})
    return {'pipes': pipes}


TYPES = {'int': int, 'float': float, 'str': str}


class Build:
    def __init__(self, sess):
        self.s, self.vars, self.files, self.stores = sess, 0, [], []
        self.feats = []

    def bind(self, data):
        self.vars += 1
        name = f'D{self.vars}'
        self.s.env.setvar(name, [tuple(x) if isinstance(x, list) else x for x in data])
        return name

    def right(self, d, ops):
        d = [tuple(x) if isinstance(x, list) else x for x in d]
        texts, mks = zip(*[self.op(o) for o in ops])
        return '(| ' + ' | '.join((stream_text(d, self.bind(d)),) + texts) + ' |)', (d, list(mks))

    def body(self, ops):
        texts, mks = zip(*[self.op(o) for o in ops])
        return '(| ' + ' | '.join(texts) + ' |)', list(mks)

    def op(self, o):
        k = o[0]
        self.feats.append(('red-incr' if o[2] else 'red-group' if None in o[1] else 'red') if k == 'red' else k)
        if k in ('map', 'select'):
            f = compile_f(o[1])
            return f'{k} ({o[1]})', lambda: Fn(k, f)
        if k == 'window':
            f = compile_f(o[1])
            return f'window ({o[1]})', lambda: WindowS(f)
        if k == 'call':
            self.vars += 1
            name = f'p{self.vars}'
            text, mks = self.body(o[1])
            self.define(f'{name} = {text}')
            return name, lambda: Sub(mks)
        if k == 'cast':
            ts = [TYPES[t] for t in o[1]]
            return 'cast ' + ' '.join(o[1]), lambda: CastS(ts)
        if k == 'squish':
            f = compile_f(o[1])
            return f'squish ({o[1]})', lambda: SquishS(f)
        if k == 'red':
            fs = [None if t is None else compile_f(t) for t in o[1]]
            return 'red ' + ('-i ' if o[2] else '') + ' '.join('.' if t is None else f'({t})' for t in o[1]), lambda: RedS(fs, o[2])
        if k == 'disjoint':
            return f'window -d {o[1]}', lambda: Disjoint(o[1])
        if k == 'sort':
            f = compile_f(o[1])
            return f'sort ({o[1]})', lambda: SortS(f)
        if k == 'reverse':
            return 'reverse', lambda: Buf('reverse')
        if k == 'tail':
            return f'tail {o[1]}', lambda: Buf('tail', o[1])
        if k == 'head':
            return f'head {o[1]}', lambda: Head(o[1])
        if k == 'expand':
            # Make a sequence of length >= 2, so that expansion is unambiguous
            f = compile_f('*x: (x[0], 5)')
            return 'map (*x: (x[0], 5)) | expand', lambda: Expand(f)
        if k == 'filter':
            text, right = self.right(o[3], o[4])
            f = compile_f(o[1]) if o[1] else None
            return 'filter ' + ('-k ' if o[2] else '-d ') + (f'-c ({o[1]}) ' if o[1] else '') + text, lambda: FilterS(f, o[2], right)
        if k in ('difference', 'intersect'):
            text, right = self.right(o[1], o[2])
            return f'{k} {text}', lambda: Bag(k, right)
        if k == 'union':
            text, right = self.right(o[1], o[2])
            return f'union {text}', lambda: UnionS(right)
        if k == 'join':
            text, right = self.right(o[2], o[3])
            return 'join ' + ('-k ' if o[1] else '') + text, lambda: JoinS(o[1], right)
        if k == 'case':
            parts, branches = [], []
            for p, body in o[1]:
                text, mks = self.body(body)
                parts.append(f'({p}) {text}')
                branches.append((compile_f(p), mks))
            default = None
            if o[2] is not None:
                text, default = self.body(o[2])
                parts.append(text)
            return 'case ' + ' '.join(parts), lambda: CaseS(branches, default)
        if k == 'args':
            return f'map (*x: (x if len(x) > 1 else x[0],)) | args (| c0: gen {o[1]} | map (y: {o[2]}) |)', lambda: ArgsS(o[1], o[2])
        if k == 'write-file':
            path = os.path.join(self.s.box.work, f'f{len(self.files)}')
            log = []
            self.files.append((path, log))
            return f'write {path}', lambda: Side(log)
        if k == 'store':
            name = f'r{len(self.stores)}'
            log = []
            self.stores.append((name, log))

            def mk():
                s = StoreS(log)
                return s
            return f'store {name}', mk
        if k == 'write-format':
            log = []
            self.formatted = log
            return f"write -f '{o[1]}'", lambda: Side(log, o[1])
        assert False, k

    def define(self, text):
        r = self.s.run(text)
        assert not r.err and not r.out and not r.exc, (text, r)


class StoreS(Stage):
    is_store = True

    def __init__(self, log):
        self.log = log

    def recv(self, x, emit, err):
        self.log.append(x)


class Expand(Stage):
    def __init__(self, f):
        self.f = f

    def recv(self, x, emit, err):
        for c in call(self.f, *x):
            emit(wrap(c))


class Sub(Stage):
    def __init__(self, body):
        self.c = Chain(body)

    def recv(self, x, emit, err):
        self.c.recv(x, emit, err)

    def flush(self, emit, err):
        self.c.flush(emit, err)


class Skip(Exception):
    pass


def failing(o):
    return o[0] in ('map', 'select', 'window', 'cast', 'squish', 'red', 'sort', 'case', 'args', 'filter', 'call', 'union', 'join', 'difference',
                    'intersect')


def run(case, mon, box):
    s = Session(box, config=CONFIG + HELPERS)
    for p in case['pipes']:
        b = Build(s)
        d = [tuple(x) if isinstance(x, list) else x for x in p['data']]
        src = stream_text(d, b.bind(d))
        ops = [b.op(o) for o in p['ops']]
        out, n_err = [], 0
        mks = [mk for _, mk in ops]
        last_is_write = p['ops'][-1][0] == 'write-format'
        try:
            if last_is_write:
                # Both formatted lines and errors go to stdout, in order.
                log = []
                body = mks[:-1]
                fmt = p['ops'][-1][1]

                def emit(x):
                    try:
                        log.append('?' + fmt.format(*x))
                    except Exception:
                        log.append('E')
                stream(d, body, emit, lambda: log.append('E'))
                expected = log
            else:
                stream(d, mks, lambda x: out.append(show(x)), lambda: out.append('E'))
                expected = out
            for name, log in b.stores:
                pass
        except Failed:
            raise
        except Exception as e:
            # The pipeline has no defined result as a whole (e.g. sort keys that cannot be compared, unhashable items).
            mon.count('undefined')
            continue
        text = ' | '.join([src] + [t for t, _ in ops])
        if not last_is_write:
            text += ' | ' + TAP
        r = s.run(text)
        got = r.lines if last_is_write else parse_out(r)
        if last_is_write:
            got = ['E' if 'Error' in l else '?' + l for l in got]
        ne = expected.count('E')
        mon.count('errors', ne)
        for f in set(b.feats):
            mon.count('op:' + f)
        if sum(map(failing, p['ops'])) > 1 and ne:
            mon.count('two_failing_stages')
        if ne and 'E' in expected and len(expected) > ne and expected.index('E') < len(expected) - 1 and any(
                f in ('sort', 'reverse', 'red', 'tail', 'window', 'disjoint') for f in b.feats):
            mon.count('errors_before_buffered_output')
        mon.see('shape', tuple(o[0] for o in p['ops']))
        if ne and ne < len(expected):
            mon.nontrivial((text, tuple(expected)))
        if r.exc or r.err or got != expected:
            kinds = '+'.join(sorted({o[0] for o in p['ops']}))
            mon.violation(f'stream:{kinds}' if len(p['ops']) == 1 else 'stream:multi', f'a pipeline with failing functions gave the wrong stream',
                          command=text, data=d, expected=expected[:40], got=got[:40], raw=r.out[:600], err=r.err, exc=r.exc)
        else:
            mon.count('judgements')
        for path, log in b.files:
            want = ['E' if x == 'E' else ('?' + (str(x[0]) if len(x) == 1 else str(x))) for x in log]
            try:
                have = ['E' if l.startswith('Error') else '?' + l for l in open(path).read().split('\n')[:-1]]
            except OSError as e:
                have = [str(e)]
            mon.check(want == have, 'file', 'the file written midway does not hold each item and error once, in place', command=text,
                      expected=want[:40], got=have[:40])
        for name, log in b.stores:
            r2 = s.run(f'{name} <$ {TAP}')
            mon.check(parse_out(r2) == [show(x) for x in log] and not r2.err and not r2.exc, 'store',
                      'the reservoir stored midway does not hold exactly the items', command=text, expected=[show(x) for x in log][:40],
                      got=r2)
        r3 = s.run(f"gen 3 | {TAP}")
        mon.check(parse_out(r3) == ['@(0,)', '@(1,)', '@(2,)'], 'after', 'the next command is affected', command=text, got=r3)
        mon.sample = {'command': text, 'expected': expected[:8]}
    s.close()
