"""C16: random histories of storing, appending and loading reservoirs and redirecting to and from files, compared with a model after every step."""
import ast, os
import session
from session import MARK, TAP

ID = 'C16'
LEVEL = 'exploration'
RULE = ('Histories of 4-14 commands over four variables and four files: storing and appending (arrows and store, in pipelines, in pipeline arguments run repeatedly, into variables that are undefined, have other values or '
        'were deleted), loading (arrows and load, partially, with failing functions, twice in one command, by join/union with itself), copying between reservoirs and files, and every kind of failure (an item that cannot be '
        'pickled, failing setup, reading what is being written, illegal names, missing and unwritable targets). Items are any picklable values: nested containers, None, empty tuples, unusual strings, '
        'instances of classes of the startup script, long streams, long items, the same object modified between items. After every command the affected reservoir or file and another one are loaded, at the end all; they must have what the model says. '
        'Run in an in-process session, or in a real process where commands are jobs (start methods fork and spawn). Non-trivial: a load that yields items, keyed by how they were put there.')
ASSUMPTIONS = ['items are compared by their repr', 'after a store that fails on an item, the reservoir has a prefix of the items stored (or appended), which may be empty',
               'a command reading a file to which it appends is excluded (it never ends, as in other shells)']
N = {'quick': 900, 'thorough': 24000}
REQUIRED = ['store', 'append', 'load', 'copy', 'file_store', 'file_append', 'file_load', 'self', 'unpicklable', 'setup_failure', 'nested', 'partial', 'failing_load', 'join', 'bad_target', 'other_value', 'delete', 'real_fork',
            'real_spawn', 'long', 'empty', 'to_file', 'from_file', 'case_store', 'loaded_items', 'type_error', 'modified']
CASE_TIMEOUT = 120
CONFIG = '''from marcel.builtin import *
class Box(object):
    def __init__(self, x): self.x = x
    def __repr__(self): return f'Box({self.x!r})'
def twice(x): return (x, x)
grown = []
def grow(x):
    if x == 0: grown.clear()
    grown.append(x)
    return ('g', grown)
'''
class Box(object):
    def __init__(self, x): self.x = x
    def __repr__(self): return f'Box({self.x!r})'
VARS = ['r', 's', 't', 'res_1']
FILES = ['f', "'g h'", 'sub/x.txt', '"./y"']
VALUES = ['0', '1', '-5', '10**40', "''", "'a'", "'two words'", "'é\\u4e2d\\U0001f600'", "'nl\\nx'", '"it\'s"', "'\\x00'", "' lead '", 'None', 'True', '1.5', "float('inf')", '(1, 2)', "(1, ('a', None), [2, {'k': (3,)}])",
          '()', '[]', '[1]', "{'a': [1]}", '{5}', 'frozenset([1])', "b'\\x00\\xff'", '1j', 'Box(3)', '(Box(1), 2)', "__import__('decimal').Decimal('1.10')", "__import__('datetime').date(2020, 2, 29)",
          "__import__('pathlib').PurePosixPath('/a b')", 'range(3)', 'Ellipsis', 'int', "'x' * 100000", '((),)', "ValueError('x').args", "'\\udc80'"]
LINES = ['0', '1', "'a'", "'two words'", "'é\\u4e2d'", '"it\'s"', "' lead '", "''", '1.5', 'None', '(1, 2)', "(1, ('a', None))", 'True', "'trail '", "'# x'", '[1, 2]', '()']


def source(rng, values, long=True):
    k = rng.random()
    if k < .35:
        return ['gen', rng.choice([1, 2, 3, 3, 5]), rng.choice([0, 0, 1, -2])]
    if k < .42:
        return ['empty']
    if k < .45 and long:
        return ['gen', rng.choice([3000, 20000]), 0]
    return ['items', [rng.choice(values) for _ in range(rng.randrange(1, 6))]]


def gen(rng, i, tier):
    steps = []
    for _ in range(rng.randrange(4, 15)):
        c = rng.choice(['store', 'store', 'store', 'append', 'append', 'append', 'load', 'copy', 'copy', 'file_store', 'file_append', 'file_load', 'self', 'unpicklable', 'setup_failure', 'nested', 'partial', 'failing_load',
                        'join', 'bad_target', 'other_value', 'delete', 'to_file', 'from_file', 'case_store', 'type_error', 'modified'])
        s = [c, rng.choice(VARS), rng.choice(VARS), rng.choice(FILES), source(rng, LINES if 'file' in c else VALUES), rng.randrange(1000)]
        steps.append(s)
    real = {5: 'fork', 15: 'spawn'}.get(i % 20)
    if real == 'spawn':
        steps = steps[:7]
    return {'steps': steps, 'real': real}


class InProcess:
    def __init__(self, box):
        self.s = session.Session(box, config=CONFIG)

    def run(self, text):
        r = self.s.run(text)
        return r.out, r.err + (r.exc or '')

    def finish(self, mon):
        self.s.close()


class Real:
    def __init__(self, box, method):
        from interactive import Interactive
        self.s = Interactive(box, config=CONFIG, env={'MARCEL_MULTIPROCESSING_START_METHOD': method})

    def run(self, text):
        return self.s.run(text)

    def finish(self, mon):
        rc = self.s.end()
        mon.check(rc == 0, 'exit', f'the interactive process ended with {rc}')


def items_of(src):
    if src[0] == 'gen':
        return [(x,) for x in range(src[2], src[2] + src[1])]
    if src[0] == 'empty':
        return []
    out = []
    for v in src[1]:
        x = eval(v)
        out.append(tuple(x) if type(x) in (tuple, list) else (x,))
    return out


def text_of(src):
    if src[0] == 'gen':
        return f'gen {src[1]} {src[2]}'
    if src[0] == 'empty':
        return 'gen 3 | select (x: False)'
    return f'gen {len(src[1])} | map (i: [{", ".join(src[1])}][i])'


def line_text(src):
    """What > writes."""
    if src[0] == 'gen':
        return ''.join(f'{x}\n' for x in range(src[2], src[2] + src[1]))
    out = ''
    for v in (src[1] if src[0] == 'items' else []):
        x = eval(v)
        if type(x) in (tuple, list):
            out += f'{x[0] if len(x) == 1 else x}\n'
        else:
            out += f'{x}\n'
    return out


def run(case, mon, box):
    os.makedirs(os.path.join(box.work, 'sub'))
    d = Real(box, case['real']) if case['real'] else InProcess(box)
    if case['real']:
        mon.count('real_' + case['real'])
    res = {}        # variable -> list of items, or ('value', v)
    how = {}
    files = {}      # file -> text
    prefix = {}     # variable -> (minimal, maximal contents) if not known exactly

    def path(f):
        return os.path.join(box.work, ast.literal_eval(f) if f[0] in '\'"' else f)

    def check_var(v, what):
        mon.count('load')
        want = res.get(v)
        out, err = d.run(f'load {v} | {TAP}' if len(what) % 2 else f'{v} <$ {TAP}')
        if want is None:
            mon.check('undefined' in err, 'undefined', f'after {what}: loading {v}, which does not exist: {out[:200]!r} {err[:200]!r}')
        elif type(want) is tuple:
            mon.check('is not a Reservoir' in err, 'other-value', f'after {what}: loading {v}, which has another value: {out[:200]!r} {err[:200]!r}')
        else:
            got = [l[1:] for l in out.split('\n')[:-1]]
            if v in prefix:
                lo, hi = prefix.pop(v)
                ok = got == [repr(x) for x in hi[:len(got)]] and len(got) >= len(lo)
                mon.check(ok, 'prefix', f'after {what}: {v} has {got[:8]}, not a prefix of {hi[:8]!r} including {lo[:8]!r}')
                want[:] = hi[:len(got)]
            mon.check(got == [repr(x) for x in want] and not err and all(l.startswith(MARK) for l in out.split('\n')[:-1]), how.get(v, ('',))[-1] + '-load',
                      f'after {what}, history {how.get(v)}: {v} has {len(got)} items {str(got[:8])[:300]}, expected {len(want)}: {str(want[:8])[:300]} {err[:300]!r}')
            if want:
                mon.nontrivial((how.get(v, ())[-3:], bool(case['real']), tuple(sorted({type(x[0]).__name__ if x else '()' for x in want}))))
                mon.count('loaded_items', len(want))

    def check_file(f, what):
        p = path(f)
        want = files.get(f)
        got = None
        if os.path.exists(p):
            with open(p, newline='') as x:
                got = x.read()
        mon.check(got == want, 'file', f'after {what}: file {f} has {str(got)[:200]!r}, expected {str(want)[:200]!r}')

    def step(s):
        c, v, w, f, src, x = s
        items = items_of(src)
        if len(items) > 1000:
            mon.count('long')
        if not items:
            mon.count('empty')
        t = text_of(src)
        arrow = x % 2
        mon.count(c)
        is_res = type(res.get(v)) is list
        def store(v, new, append):
            if append and type(res.get(v)) is list:
                res[v] += new
            else:
                res[v] = list(new)
            how[v] = how.get(v, ()) + ('append' if append else 'store',)
        fail = False
        # cmd, expectation
        if c in ('store', 'append'):
            a = c == 'append'
            cmd = t + ((' >>$ ' if a else ' >$ ') + v if arrow else f' | store {"-a " if a and x % 4 else "--append " if a else ""}{v}')
            if a and type(res.get(v)) is tuple:
                fail = True
            else:
                store(v, items, a)
        elif c == 'load':
            cmd = f'{v} <$'
            fail = not is_res
            out, err = d.run(cmd)
            if not fail:
                mon.check(not err, 'load', f'{cmd}: {err[:200]!r}')
                return cmd, v, f
            mon.check(bool(err), 'load', f'{cmd}: no error')
            return cmd, v, f
        elif c == 'copy':
            a = x % 3 == 0
            if v == w:
                return None
            cmd = f'{v} <$ {"" if x % 5 else "map (*y: y)"} {">>$" if a else ">$"} {w}'
            if not is_res:
                fail = True
            elif a and type(res.get(w)) is tuple:
                fail = True
            else:
                new = list(res[v])
                if x % 5 == 0:      # a tuple of one
                    new = list(new)
                store(w, new, a)
                how[w] += ('copy',)
        elif c == 'file_store':
            cmd = f'{t} > {f}'
            files[f] = line_text(src)
        elif c == 'file_append':
            cmd = f'{t} >> {f}'
            files[f] = files.get(f, '') + line_text(src)
        elif c == 'file_load':
            cmd = f'{f} < {TAP}'
            out, err = d.run(cmd)
            if f in files:
                want = [repr((l,)) for l in files[f].split('\n')[:-1]]
                got = [l[1:] for l in out.split('\n')[:-1]]
                mon.check(got == want and not err, 'file-load', f'{cmd}: {str(got[:8])[:300]} {err[:200]!r}, expected {str(want[:8])[:300]}')
            else:
                mon.check(bool(err), 'file-load', f'{cmd}: no error for a missing file: {out[:200]!r}')
            return cmd, v, f
        elif c == 'to_file':
            a = x % 3 == 0
            cmd = f'{v} <$ map (*y: len(y)) {">>" if a else ">"} {f}'
            if is_res:
                files[f] = (files.get(f, '') if a else '') + ''.join(f'{len(y)}\n' for y in res[v])
            else:
                fail = True
        elif c == 'from_file':
            a = x % 3 == 0
            cmd = f'{f} < {"" if x % 2 else "map (l: l)"} {">>$" if a else ">$"} {v}'
            if f not in files or a and type(res.get(v)) is tuple:
                fail = True
            else:
                store(v, [(l,) for l in files[f].split('\n')[:-1]], a)
        elif c == 'self':
            cmd = f'{v} <$ map (*y: y) {">$" if arrow else ">>$"} {v}'
            fail = True
        elif c == 'unpicklable':
            a = x % 3 == 0
            k = x % (len(items) + 1)
            if src[0] == 'gen' and src[1] > 100 or a and type(res.get(v)) is tuple:
                return None
            cmd = f'{t} | map (*y: y) | args (| *z: gen 1 |)' if 0 else f'gen {len(items) + 1} | map (i: (j for j in []) if i == {k} else ' + (f'i + {src[2]} - (i > {k})' if src[0] == 'gen' else f'[{", ".join(src[1])}][i - (i > {k})]' if src[0] == 'items' else 'i') + f') {">>$" if a else ">$"} {v}'
            old = list(res[v]) if is_res and a else []
            lo, hi = old, old + items[:k]
            before = res.get(v)
            out, err = d.run(cmd)
            mon.check(bool(err) or 'Error' in out, 'unpicklable', f'{cmd[:200]}: no complaint')
            # items up to the failing one, or (if nothing was there before) no reservoir at all
            o2, e2 = d.run(f"gen 1 | map (x: '{MARK}' + type({v}).__name__)")
            if o2 != f'{MARK}Reservoir\n':
                mon.check(type(before) is not list, 'unpicklable', f'{cmd[:200]}: {v}, which was a reservoir, is {o2!r}')
                return cmd, w, f
            res[v] = list(hi)
            prefix[v] = (lo, hi)
            how[v] = how.get(v, ()) + ('unpicklable',)
            check_var(v, cmd[:200])
            return cmd, w, f
        elif c == 'setup_failure':
            cmd = [f'gen (1 / 0) >$ {v}', f'{t} | head (1 / 0) >$ {v}', f'gen 3 >$ {v} | nosuchop', f'{t} | nosuchop >>$ {v}', f'{t} | sort (1 / 0 >$ {v}', f'{t} | store {v} | gen', f'{t} | head 0 1 2 >$ {v}',
                   f'{t} | tail x >> {f}', f'{t} | select (y: y >$ {v}', f'{t} | store -q {v}', f'{t} | map 5 >$ {v}'][x % 11]
            fail = True
            if 'store {v} |' in cmd:
                return None
        elif c == 'nested':
            k = 1 + x % 4
            a = '>>$'
            if type(res.get(v)) is tuple:
                return None
            cmd = f'gen {k} | args (| n: gen (n + 1) {a} {v} |)'
            store(v, [(j,) for n in range(k) for j in range(n + 1)], True)
            how[v] += ('nested',)
        elif c == 'partial':
            if not is_res:
                return None
            cmd = f'{v} <$ head {1 + x % 3} | select (*y: False)'
        elif c == 'failing_load':
            if not is_res:
                return None
            cmd = f'{v} <$ map (*y: 1 / 0) | select (*y: False)'
            out, err = d.run(cmd)
            mon.check((out + err).count('ZeroDivisionError') == len(res[v]), 'failing-load', f'{cmd}: {out[:300]!r} {err[:200]!r}')
            return cmd, v, f
        elif c == 'join':
            if not is_res or len(res[v]) > 1000:
                return None
            cmd = f'{v} <$ map (*y: (len(y), 1)) | {"union" if arrow else "join"} (| load {v} | map (*y: (len(y), 2)) |) | red count'
            out, err = d.run(cmd)
            ls = [len(y) for y in res[v]]
            want = 2 * len(ls) if arrow else sum(ls.count(l) for l in ls)
            mon.check(out == f'{want}\n' and not err, 'join', f'{cmd}: {out[:100]!r} {err[:300]!r}, expected {want}')
            return cmd, v, f
        elif c == 'case_store':
            if not is_res or v == w or any(len(y) != 1 for y in res[v]):
                return None
            cmd = f'{v} <$ case (y: type(y) is int) (| >$ {w} |) | select (y: False)'
            store(w, [y for y in res[v] if type(y[0]) is int], False)
            how[w] += ('case',)
        elif c == 'bad_target':
            cmd = [f'{t} > sub', f'{t} > nodir/x', f'{t} >$ x.y', f'{t} | store 5x', f'{t} >> {box.work}', f'nofile < >$ {v}', f'nores <$ >$ {v}', f'nores <$ > {f}', f'sub < >$ {v}', f'{t} >$ PROMPT', f'{t} >$ map'][x % 11]
            if x % 11 in (0, 1, 4) and not items or x % 11 == 8:
                return None
            fail = True
            if x % 11 == 9:
                return None
            if x % 11 == 10:
                return None
        elif c == 'modified':
            # The same object, modified between items
            a = x % 3 == 0
            if a and type(res.get(v)) is tuple:
                return None
            k = 1 + x % 5
            cmd = f'gen {k} | map grow {">>$" if a else ">$"} {v}'
            store(v, [('g', list(range(j + 1))) for j in range(k)], a)
            how[v] += ('modified',)
        elif c == 'type_error':
            if type(res.get(v)) is not tuple:
                return None
            cmd = [f'{t} >>$ {v}', f'{v} <$', f'{v} <$ > {f}', f'{v} <$ >$ {w}'][x % 4]
            fail = True
        elif c == 'other_value':
            cmd = f'{v} = (5)'
            res[v] = ('value', 5)
            how[v] = how.get(v, ()) + ('value',)
        elif c == 'delete':
            cmd = f'env -d {v}'
            res.pop(v, None)
            how[v] = how.get(v, ()) + ('delete',)
        out, err = d.run(cmd)
        ok = mon.check(bool(err) == fail, 'complaint' if fail else 'failed', f'{cmd[:300]}: printed {out[:200]!r}, errors {err[:300]!r}')
        mon.check(not out or fail or c == 'delete', 'output', f'{cmd[:300]}: printed {out[:300]!r}')
        return cmd, (w if c in ('copy', 'case_store') else v), f

    done = []
    for s in case['steps']:
        r = step(s)
        if r is None:
            continue
        cmd, v, f = r
        done.append(cmd[:80])
        check_var(v, cmd[:300])
        check_file(f, cmd[:300])
    for v in VARS:
        check_var(v, 'all')
    for f in FILES:
        check_file(f, 'all')
    d.finish(mon)
    mon.sample = {'steps': done[:6], 'real': case['real']}
