"""C06: the Python API and the command line agree. Each generated pipeline is rendered in both forms and run in both ways."""
import os, sys, io
from session import Session, TAP, parse_out, show, CONFIG, FdCapture

ID = 'C06'
LEVEL = 'exploration'
RULE = ('Random pipelines rendered both as command line text and as an API expression: all stream operators, nested pipelines (also as functions of '
        'arguments), reductions, errors, files and reservoirs. The items of the command line form are compared with iterating, gathering (wrapped, '
        'unwrapped, errors in a list) and taking the first item of the API form, and with running it; each API object is evaluated repeatedly, '
        'extended in several ways after being evaluated, and shared between expressions. Non-trivial: a non-empty result, keyed by text.')
ASSUMPTIONS = ['the command line result is the reference (it is itself decided by C01-C05)']
N = {'quick': 700, 'thorough': 16000}
REQUIRED = ['items_compared', 'errors_compared', 'empty_results', 'first_errors', 'infinite_first', 'shared_prefix', 'op:args', 'op:case', 'op:union',
            'op:join', 'op:filter', 'op:fork', 'op:write', 'op:nested-gather', 'op:reservoir', 'op:red', 'op:window', 'op:intersect', 'op:difference', 'op:shape']

PRE = '''
def five(*x):
    return 5
def is_odd(x, *rest):
    return x % 2 == 1
def pair(x, *rest):
    return (x, -x)
'''


class G:
    """Generates (cli, api) text pairs. The item signature is (x, *r): x is always an int."""

    def __init__(self, rng, tag):
        self.rng, self.tag = rng, tag
        self.ops = set()
        self.n = 0

    def pick(self, *xs):
        return self.rng.choice(xs)

    def name(self):
        self.n += 1
        return f'{self.tag}{self.n}'

    def fn(self, body, sig='x, *r'):
        return f'({sig}: {body})', f'lambda {sig}: {body}'

    def num(self, free):
        b = self.pick('x', 'x * 2', '-x', 'x % 4', '7 - x', 'x + len(r)', 'pos() + x', 'six // (x - 2)', 'x + base')
        if free and self.rng.random() < 0.6:
            b += ' + ' + self.pick(*free)
        return b

    def cond(self, free):
        return self.pick('x % 2 == 0', 'x > 1', 'x % 3 != 1', 'True', 'False', 'x < base', 'six // (x - 1) > 0',
                         *[f'x % 3 < {f} % 3 + 1' for f in free])

    def source(self, free):
        n = self.pick(0, 1, 2, 3, 5, 8)
        if n == 0:
            c, a = self.fn('False')
            return f'gen 2 | select {c}', f'gen(2) | select({a})'
        s = self.pick(0, 0, -2, 3)
        if free and self.rng.random() < 0.5:
            f = self.pick(*free)
            return f'gen 3 | map (x: x + {f})', f'gen(3) | map(lambda x: x + {f})'
        r = self.rng.random()
        if r < 0.6:
            return f'gen {n} {s}', f'gen({n}, {s})'
        if r < 0.8:
            return f'gen (base + {n}) ({s})', self.pick(f'gen(lambda: base + {n}, {s})', f'gen(base + {n}, start={s})')
        c1, a1 = self.fn('(x % 3, x, 1)')
        return f'gen {n} {s} | map {c1}', f'gen({n}, {s}) | map({a1})'

    def pipe(self, depth, free=(), tail_only=False):
        c, a = self.source(free)
        for _ in range(self.rng.randrange(0, 3)):
            c2, a2 = self.op(depth + 1, free)
            c, a = f'{c} | {c2}', f'{a} | {a2}'
        return c, a

    def body(self, depth, free=()):
        parts = [self.op(depth + 1, free) for _ in range(self.rng.choice([1, 1, 2]))]
        return ' | '.join(p[0] for p in parts), ' | '.join(p[1] for p in parts)

    def rfun(self):
        r = self.rng.random()
        if r < 0.6:
            return self.pick(('+', 'r_plus'), ('*', 'r_times'), ('max', 'r_max'), ('min', 'r_min'), ('count', 'r_count'), ('^', 'r_xor'),
                             ('&', 'r_bit_and'))
        return self.fn(self.pick('b if a is None else a + b', '(a or 0) * 2 + b', '(a or 1) + six // (b - 2)'), 'a, b')

    def op(self, depth, free=()):
        rng = self.rng
        kinds = ['map', 'map', 'select', 'select', 'head', 'tail', 'reverse', 'sort', 'unique', 'red', 'red-group', 'red-incr', 'squish', 'cast', 'window',
                 'window-n', 'expand', 'mapfn']
        if depth < 2:
            kinds += ['case', 'union', 'join', 'filter', 'difference', 'intersect', 'args', 'args-all', 'nested-gather', 'case', 'args', 'union']
        k = rng.choice(kinds)
        self.ops.add({'red-group': 'red', 'red-incr': 'red', 'window-n': 'window', 'args-all': 'args', 'mapfn': 'map'}.get(k, k))
        if k == 'map':
            e = self.num(free)
            if rng.random() < 0.5:
                e = f'({e}, {self.num(())})'
            c, a = self.fn(e)
            return f'map {c}', f'map({a})'
        if k == 'mapfn':
            f = self.pick('pair', 'five', 'is_odd')
            if f == 'is_odd':
                return 'select (*x: is_odd(*x))', 'select(is_odd)'
            return f'map (*x: {f}(*x))', f'map({f})'
        if k == 'select':
            c, a = self.fn(self.cond(free))
            return f'select {c}', f'select({a})'
        if k in ('head', 'tail'):
            n = rng.randrange(1, 5)
            if rng.random() < 0.3:
                return f'{k} (base + {n})', f'{k}(lambda: base + {n})'
            return f'{k} {n}', f'{k}({n})'
        if k == 'reverse':
            return 'reverse', 'reverse()'
        if k == 'sort':
            if rng.random() < 0.3:
                return 'map (x, *r: x) | sort', 'map(lambda x, *r: x) | sort()'
            c, a = self.fn(self.pick('-x', 'x % 3', '(x % 2, x)', 'six // (x - 1)'))
            return f'sort {c}', f'sort({a})'
        if k == 'unique':
            return self.pick(('unique', 'unique()'), ('unique -c', 'unique(consecutive=True)'), ('unique --consecutive', 'unique(True)'))
        if k == 'red':
            fs = [self.rfun() for _ in range(self.pick(1, 1, 2))]
            pre = ('', '') if len(fs) == 1 else ('map (x, *r: (x, x % 3)) | ', 'map(lambda x, *r: (x, x % 3)) | ')
            # An empty stream gives None
            post = (' | select (x, *r: x is not None)', ' | select(lambda x, *r: x is not None)')
            return pre[0] + 'red ' + ' '.join(f[0] for f in fs) + post[0], pre[1] + 'red(' + ', '.join(f[1] for f in fs) + ')' + post[1]
        if k == 'red-group':
            f = self.rfun()
            i = self.pick('', '-i ', '--incremental ')
            ai = ', incremental=True' if i else ''
            c, a = self.fn('(x % 3, x)')
            g = self.pick('None', 'r_group')
            return f'map {c} | red {i}. {f[0]}', f'map({a}) | red({g}, {f[1]}{ai})'
        if k == 'red-incr':
            f = self.rfun()
            return f'red -i {f[0]}', f'red({f[1]}, incremental=True)'
        if k == 'squish':
            if rng.random() < 0.3:
                return 'squish', 'squish()'
            f = self.rfun()
            return f'squish {f[0]}', f'squish({f[1]})'
        if k == 'cast':
            return self.pick(('map (x, *r: str(x)) | cast int', 'map(lambda x, *r: str(x)) | cast(int)'),
                             ('map (x, *r: (str(x), x)) | cast int float', 'map(lambda x, *r: (str(x), x)) | cast(int, float)'),
                             ("map (x, *r: 'a' if x == 2 else '1') | cast int", "map(lambda x, *r: 'a' if x == 2 else '1') | cast(int)"))
        post = (' | map (*w: sum([c if isinstance(c, int) else c[0] for c in w if c is not None]))',
                ' | map(lambda *w: sum([c if isinstance(c, int) else c[0] for c in w if c is not None]))')
        if k == 'window':
            c, a = self.fn(self.cond(()))
            return f'window {c}' + post[0], f'window({a})' + post[1]
        if k == 'window-n':
            n = rng.randrange(1, 5)
            return self.pick((f'window -o {n}' + post[0], f'window(overlap={n})' + post[1]), (f'window -d {n}' + post[0], f'window(disjoint={n})' + post[1]))
        if k == 'expand':
            return self.pick(('map (x, *r: (x, 9)) | expand', 'map(lambda x, *r: (x, 9)) | expand()'),
                             ('map (x, *r: (x, [x, 1], 2)) | expand 1', 'map(lambda x, *r: (x, [x, 1], 2)) | expand(1)'),
                             ('map (x, *r: ([1, x], x)) | expand 0', 'map(lambda x, *r: ([1, x], x)) | expand(0)'))
        if k == 'case':
            n = self.pick(1, 2)
            cs, as_ = [], []
            for _ in range(n):
                c, a = self.fn(self.cond(free))
                bc, ba = self.body(depth, free)
                cs += [c, f'(| {bc} |)']
                as_ += [a, ba]
            if rng.random() < 0.6:
                bc, ba = self.body(depth, free)
                cs.append(f'(| {bc} |)')
                as_.append(ba)
            return 'case ' + ' '.join(cs), 'case(' + ', '.join(as_) + ')'
        if k == 'union':
            ps = [self.pipe(depth, free) for _ in range(self.pick(1, 1, 2, 3))]
            return 'union ' + ' '.join(f'(| {p[0]} |)' for p in ps), 'union(' + ', '.join(p[1] for p in ps) + ')'
        if k == 'join':
            p = self.pipe(depth, free)
            keep = rng.random() < 0.4
            return f'join {"-k " if keep else ""}(| {p[0]} |)', f'join({p[1]}{", keep=True" if keep else ""})'
        if k == 'filter':
            p = self.pipe(depth, free)
            f, af = self.pick(('', ''), ('-k ', ', keep=True'), ('-d ', ', discard=True'))
            if rng.random() < 0.5:
                c, a = self.fn(self.pick('x % 3', 'x', '(x, *r)'))
                f += f'-c {c} '
                af += f', compare={a}'
            return f'filter {f}(| {p[0]} |)', f'filt({p[1]}{af})'
        if k in ('difference', 'intersect'):
            p = self.pipe(depth, free)
            return f'{k} (| {p[0]} |)', f'{k}({p[1]})'
        if k == 'args':
            ps = [f'p{depth}{i}' for i in range(self.pick(1, 1, 2))]
            inner = list(free) + ([f'({ps[0]} or 0)'] + [f'({p} or 0)' for p in ps[1:]])
            c, a = self.pipe(depth, tuple(inner))
            return (f'map (x, *r: x) | args (| {", ".join(ps)}: {c} |)', f'map(lambda x, *r: x) | args(lambda {", ".join(ps)}: {a})')
        if k == 'args-all':
            p = f'q{depth}'
            c, a = self.pipe(depth, tuple(free) + (f'len({p})',))
            return f'args --all (| {p}: {c} |)', f'args(lambda {p}: {a}, all=True)'
        if k == 'nested-gather':
            # The API form runs a pipeline inside a function
            n = rng.randrange(1, 4)
            return (f'map (x, *r: (x, sum([2 * i + x for i in range({n})])))',
                    f'map(lambda x, *r: (x, sum(gather(gen({n}) | map(lambda i: 2 * i + x)))))')
        assert False, k


def gen(rng, i, tier):
    items = []
    for j in range(5 if tier == 'quick' else 8):
        g = G(rng, f'v{j}_')
        r = rng.random()
        if r < 0.06:
            n = rng.randrange(1, 4)
            body = rng.choice(['gen 3 | map (x: (x, t))', 'gen (t + 1)', 'gen 2 | map (x: x // (t - 1))'])
            ab = {'gen 3 | map (x: (x, t))': 'gen(3) | map(lambda x: (x, t))', 'gen (t + 1)': 'gen(t + 1)',
                  'gen 2 | map (x: x // (t - 1))': 'gen(2) | map(lambda x: x // (t - 1))'}[body]
            items.append({'c': f'fork {n} (| t: {body} |)', 'a': f'fork({n}, lambda t: {ab})', 'ops': ['fork'], 'bag': True})
            continue
        c, a = g.pipe(0)
        for _ in range(rng.randrange(0, 3)):
            c2, a2 = g.op(0)
            c, a = f'{c} | {c2}', f'{a} | {a2}'
        ext = [g.op(1) for _ in range(2)]
        if rng.random() < 0.2:
            # Items of every shape: unwrapping is of exactly one level, of exactly the items with one element
            e = rng.choice(['((x,),)', '[[x]]', '[(x,)]', '(((x,),),)', '()', "''", "'a'", "('a',)", '((),)', '[[]]', 'None', '(None,)', '({},)', '{x: x}',
                            '[None]', '((x, x),)', '[[x, x]]', '(0,)', '(False,)', "[['a']]", '((x,),) if x % 2 else x', '{x}', "b''"])
            c, a = f'{c} | map (x, *r: {e})', f'{a} | map(lambda x, *r: {e})'
            g.ops.add('shape')
        items.append({'c': c, 'a': a, 'ops': sorted(g.ops), 'ext': ext})
    return {'items': items}


API_NS = {}


def api_ns(box, items):
    import marcel.api
    # A module, as a program using the API would be. (Functions are transmitted to forked processes by reference to their module.)
    with open(os.path.join(box.work, 'apiprogram.py'), 'w') as f:
        f.write('from marcel.api import *\n' + PRE + 'six = 6\nbase = 2\n')
        for i, it in enumerate(items):
            f.write(f'def e{i}(): return ({it["a"]})\n')
            for j, e in enumerate(it.get('ext', [])):
                f.write(f'def e{i}_{j}(): return ({e[1]})\n')
        f.write('def inf0(): return gen()\ndef inf1(): return gen(0, 3) | map(lambda x: x * 2) | select(lambda x: x > 20)\n')
    sys.path.insert(0, box.work)
    import apiprogram
    return apiprogram.__dict__


class Out:
    def __init__(self, box):
        self.cap = FdCapture(box.path)

    def __enter__(self):
        self.cap.start()
        return self

    def __exit__(self, *a):
        self.out, self.err = self.cap.stop()


def norm(x, wrapped):
    from marcel.object.error import Error
    if isinstance(x, Error):
        return 'E'
    return show(x) if wrapped else '=' + repr(x)


def unwrapped(line):
    """'@(3,)' -> '=3'"""
    if line == 'E':
        return line
    t = eval(line[1:])
    return '=' + repr(t[0] if len(t) == 1 else t)


def unwrapped_seq(lines):
    return [unwrapped(l) for l in lines]


def run(case, mon, box):
    import marcel.api as api
    from marcel.object.error import Error
    s = Session(box, config=CONFIG + PRE + 'six = 6\nbase = 2\n')
    cap = Out(box)
    refs = []
    for it in case['items']:
        refs.append([s.run(it['c'] + ' | ' + TAP)] + [s.run(f"{it['c']} | {e[0]} | {TAP}") for e in it.get('ext', [])] + [s.run(it['c'])])
    reft = s.run(f'gen 4 >$ res')
    s.close()
    os.chdir(box.work)
    ns = api_ns(box, case['items'])

    def ev(name):
        return ns[name]()

    for i, (it, ref) in enumerate(zip(case['items'], refs)):
        want = parse_out(ref[0])
        if ref[0].exc or ref[0].err or any(l.startswith('?') for l in want):
            # The command is rejected or killed: the API must not produce a different complete result silently.
            mon.count('killed_commands')
            with cap:
                try:
                    got = api.gather(ev(f'e{i}'), unwrap_singleton=False)
                    exc = None
                except BaseException as e:
                    got, exc = None, repr(e)
            if ref[0].err and not ref[0].exc:
                mon.check(cap.err != '' or exc, 'api-silent', 'the command line reports an error, the API gives a result without one', cli=it['c'],
                          api=it['a'], cli_result=ref[0], got=repr(got)[:300], api_err=cap.err)
            continue
        if it.get('bag'):
            want = sorted(want)
        for o in it['ops']:
            mon.count('op:' + o)
        mon.count('items_compared', len(want))
        mon.count('errors_compared', want.count('E'))
        if not want:
            mon.count('empty_results')
        else:
            mon.nontrivial((it['c'], tuple(want)))

        def expect(what, got, wanted, err=''):
            if it.get('bag'):
                got = sorted(got)
            mon.check(got == wanted and not err, f'api:{what}:' + ('fork' if it.get('bag') else 'multi'),
                      f'the API form ({what}) differs from the command line', cli=it['c'], api=it['a'], expected=wanted[:40], got=got[:40], err=err)

        def attempt(what, f, wanted):
            with cap:
                try:
                    got = f()
                except BaseException as e:
                    got = [f'!{type(e).__name__}: {e}']
            expect(what, got, wanted, cap.err)

        wu = unwrapped_seq(want)
        if it.get('bag'):
            wu = sorted(wu)
        with cap:
            try:
                p = ev(f'e{i}')
            except BaseException as e:
                p = None
                built = repr(e)
        if p is None:
            mon.violation('api:build', 'the API rejects a pipeline the command line accepts', cli=it['c'], api=it['a'], exc=built)
            continue
        attempt('gather', lambda: [norm(x, True) for x in api.gather(p, unwrap_singleton=False)], want)
        attempt('gather-again', lambda: [norm(x, False) for x in api.gather(p)], wu)
        attempt('iterate', lambda: [norm(x, False) for x in p], wu)
        attempt('iterate-again', lambda: [norm(x, False) for x in p], wu)
        errs = []
        attempt('gather-errors', lambda: [norm(x, True) for x in api.gather(p, unwrap_singleton=False, errors=errs)], [w for w in want if w != 'E'])
        mon.check(len(errs) == want.count('E') and all(isinstance(e, Error) for e in errs), 'api:errors-list', 'errors list is wrong', api=it['a'],
                  got=repr(errs)[:500], expected=want.count('E'))
        if not it.get('bag'):
            # first
            with cap:
                try:
                    f = ['=' + repr(api.first(p))]
                except Exception as e:
                    f = ['E']
            mon.check(f == (wu[:1] or ['=None']), 'api:first', 'first() does not return the first item', api=it['a'], expected=wu[:1], got=f)
            if wu[:1] == ['E']:
                mon.count('first_errors')
            errs = []
            good = [w for w in want if w != 'E']
            with cap:
                try:
                    f = repr(api.first(p, unwrap_singleton=False, errors=errs))
                except Exception as e:
                    f = 'raised ' + repr(e)
            mon.check(f == (show(eval(good[0][1:]))[1:] if good else 'None') or (good and f == repr(list(eval(good[0][1:])))), 'api:first-errors',
                      'first(errors=[]) does not return the first good item', api=it['a'], expected=good[:1], got=f)
            # run: same text as the command line
            with cap:
                try:
                    api.run(p)
                    e = None
                except BaseException as ex:
                    e = repr(ex)
            cli = ref[-1]
            if not cli.err and not cli.exc:
                norm_lines = lambda t: ['E' if l.startswith('Error') else l for l in t.split('\n')]
                mon.check(norm_lines(cap.out) == norm_lines(cli.out) and e is None, 'api:run', 'run() prints something other than the command line does',
                          api=it['a'], expected=cli.out[:400], got=cap.out[:400], exc=e)
            # Extend the evaluated object, in two ways
            mon.count('shared_prefix')
            for j, r in zip(range(len(it.get('ext', []))), ref[1:]):
                if r.err or r.exc:
                    continue
                attempt('extended', lambda: [norm(x, True) for x in api.gather(p | ev(f'e{i}_{j}'), unwrap_singleton=False)], parse_out(r))
            attempt('after-extension', lambda: [norm(x, True) for x in api.gather(p, unwrap_singleton=False)], want)
            # The same object used twice in one expression
            attempt('twice', lambda: [norm(x, True) for x in api.gather(p | api.union(p), unwrap_singleton=False)], want + want)
            # Two iterators, interleaved
            def inter():
                a, b = iter(p), iter(p)
                out = []
                for x in a.iterator if hasattr(a, 'iterator') else a:
                    out.append(norm(x, False))
                    y = next(b)
                    if norm(y, False) != out[-1]:
                        out.append('differs')
                return out
            attempt('interleaved', inter, wu)
            # Stored in a reservoir, in a file
            def store():
                r = api.reservoir('r')
                api.run(p | api.store(r))
                api.run(p | api.store(r, append=True))
                return [norm(x, True) for x in api.gather(api.load(r), unwrap_singleton=False)]
            with cap:
                try:
                    got = store()
                except BaseException as ex:
                    got = [repr(ex)]
            mon.count('op:reservoir')
            expect('reservoir', got, good + good)

            def write():
                f = os.path.join(box.work, 'out')
                api.gather(p | api.write(f))
                return open(f).read().split('\n')[:-1]
            if not cli.err and not cli.exc:
                mon.count('op:write')
                with cap:
                    try:
                        got = write()
                    except BaseException as ex:
                        got = [repr(ex)]
                got = ['E' if l.startswith('Error') else l for l in got]
                expect('write', got, ['E' if l.startswith('Error') else l for l in cli.lines])
            # Infinite source
            with cap:
                inf = [norm(api.first(ev('inf0')), False), norm(api.first(ev('inf1')), False)]
            mon.count('infinite_first')
            mon.check(inf == ['=0', '=22'], 'api:first-infinite', 'first() of an unbounded stream is wrong', got=inf)
        mon.sample = {'cli': it['c'], 'api': it['a'], 'items': want[:6]}
