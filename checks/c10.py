"""C10: no command can end or corrupt the session."""
import json, os, pickle, re, select, signal, subprocess, sys
from session import Session, TAP

ID = 'C10'
LEVEL = 'exploration'
RULE = ('A control session runs a sequence of benign commands (variables, functions, pipelines with parameters, reservoirs, files, directories, directory stack, '
        'imports, combining operators). A second session runs the same sequence with hostile commands inserted: unknown commands, malformed text of every kind '
        '(truncations and mutations of legal commands, token soup, unbalanced quotes and parentheses, control characters, very deep or long text), illegal '
        'arguments, failing functions and expressions (at setup, run, flush; with exceptions that cannot be printed), aborts at every nesting depth (head 0 inside '
        'pipelines, StopIteration, unhashable items, failing writes), runaway recursion, and interruption. Output of every benign command must be the same in both, '
        'and after each hostile command the monitor compares variables, directory, PWD, DIRS and scope depth with those before, and that no exception left '
        'parse_and_run_command; commands that must fail have to say so on stderr or as Error items. A share of cases runs as real scripts (python -m marcel.main), '
        'where process survival and exit are observed. Non-trivial: a hostile command that raised or reported something, keyed by its text.')
ASSUMPTIONS = ['interruption is delivered at a chosen point (a function of the command raises KeyboardInterrupt), not asynchronously',
               'a hostile command only assigns names of its own']
N = {'quick': 420, 'thorough': 9000}
CASE_TIMEOUT = 120
CLASSES = ['syntax', 'unknown', 'illegal', 'setup', 'runtime', 'abort', 'recursion', 'io', 'garbage', 'mutation', 'depth', 'interrupt', 'badstr', 'resource']
REQUIRED = ['hostile', 'benign-same', 'script', 'reported'] + ['class:' + c for c in CLASSES]

CONFIG = '''from marcel.builtin import *
class BadStr(Exception):
    def __str__(self): raise ValueError('no text')
    __repr__ = __str__
class BadRepr(object):
    def __repr__(self): raise ValueError('no repr')
    __str__ = __repr__
def boom(*a, **k): raise ValueError('boom')
def bad(*a): raise BadStr()
def interrupt(*a): raise KeyboardInterrupt()
def stop(*a): raise StopIteration()
def genexit(*a): raise GeneratorExit()
def badrepr(*a): return BadRepr()
def deep(*a): return deep()
def asserts(*a): assert False
def syserr(*a): raise OSError(5, 'io')
def kill(*a): raise MemoryError()
'''

# ---- benign commands

BENIGN_SETUP = [
    'a = (10)', 'inc = (x: x + 1)', "s = 'two words'", 'p = (| gen 3 |)', 'q = (| n: map (x: x * int(n)) |)', 'lst = ([1, 2, 3])',
    'gen 4 | map (x: (x % 2, x)) >$ r', 'gen 3 | write --csv base.csv', 'nest = (| n: gen 2 | map (x: x + n) | case (x: x > 2) (| map (x: -x) |) (| map (x: x) |) |)',
    'rec = (| n: gen 1 | map (x: n) | case (x: n > 0) (| args (| k: map (x: k) |) |) (| map (x: 0) |) |)',
]


def benign(rng, k):
    """A benign command, deterministic given the ones before."""
    v = rng.choice('bcde')
    n = rng.randrange(1, 6)
    return rng.choice([
        f'{v}{k} = ({n} + a)', f'gen {n} | map (inc) | {TAP}', f'p | q {n} | {TAP}', f'nest {n} | {TAP}', f'r <$ {TAP}', f'gen {n} | map (x: (x, -x)) >>$ r', f'r{v} <$ {TAP}', f'gen {n} | store -a r{v}',
        f'gen {n} | map (x: (x, x)) >$ r{v}', 'r <$ sort (*x: repr(x)) | red . + | ' + TAP, f'gen {n} | window -d 2 | {TAP}',
        'pwd | map (d: d.as_posix()[-4:])', f'pushd d{n % 3 + 1}', 'popd', 'dirs | map (*d: str(d)[-6:])', f'cd d{n % 3 + 1}', 'cd ~/work', f"env s | {TAP}",
        f'import --as m{k} math', f'gen {n} | map (x: lst[x % 3]) | red + | {TAP}', f'gen {n} | union (| p |) | sort | {TAP}',
        f'gen {n} | map (x: (x, a)) | join (| gen 5 | map (x: (x, -x)) |) | {TAP}', f'env -d z{k}', f'lst = (lst + [{n}])', f'a = (a + {n})', f'env a | {TAP}',
        f'gen {n} | args (| i: gen 2 | map (x: (i, x)) |) | {TAP}', f'write_{k} = (| f: write --csv (f) |)', f'gen {n} | map (x: x) > f{v}.txt', f'read f{v}.txt | {TAP}',
        f'gen {n} | filter (| gen 3 |) | {TAP}', f'gen {n} | case (x: x % 2 == 0) (| map (x: \'even\') |) (| map (x: \'odd\') |) | {TAP}',
        f'gen 5 | head {n} | {TAP}', f'gen 5 | tail {n} | {TAP}', f'p | {TAP}', f'q2 = (| p | q {n} |)', 'read --csv ~/work/base.csv | ' + TAP,
        f'gen {n} | map (x: 6 // (x - 1)) | {TAP}', f'timer_{k} = (x, y: x * y)', f'gen {n} | expand | {TAP}', f'case1 = (| case (x: x > 1) (| map (x: \'big\') |) (| map (x: \'small\') |) |)',
        f'ls d{n % 3 + 1} | map (f: f.name) | {TAP}', f"gen {n} | red + | {TAP}", f'gen {n} | unique | squish + | {TAP}',
    ])


# ---- hostile commands

def hostile(rng, real):
    c = rng.choice([x for x in CLASSES if not (real and x == 'interrupt')])
    k = rng.randrange(1000)
    F = lambda: rng.choice(['*x: boom(*x)', '*x: asserts()', '*x: syserr()', 'boom', 'x: 1/0', 'x: None.foo', 'x: [][1]', 'x: {}[1]', 'x: undefined_name', 'x: int("q")', 'x: x(1)',
                            'x: "a" + 1', 'x: (yield_ := [i for i in x])', 'x, y, z: 1', ': 1', 'x: next(iter([]))'])
    wrap = lambda body: rng.choice([
        body, f'gen 2 | args (| i: {body} |)', f'gen 2 | case (x: True) (| {body.replace("gen 2 | ", "", 1)} |) (| map (x: x) |)', f'gen 2 | join (| {body} |)', f'gen 1 | union (| {body} |)',
        f'gen 2 | args (| i: gen 2 | args (| j: {body} |) |)', f'gen 2 | filter (| {body} |)', f'gen 3 | args (| i: gen 3 | union (| {body} |) | map (x: (i, x)) |)',
        f'fork 1 (| {body} |)' if rng.random() < .2 else body])
    must = True
    if c == 'syntax':
        t = rng.choice(['gen 3 |', '| gen 3', 'gen 3 | | map (x: x)', 'gen 3 | map (x: ', 'gen 3 | map x: x)', '(| gen 3', 'gen 3 |)', 'map (x: x +)', "echo 'abc", 'gen "3', '(|', '|)',
                        'gen 3 | map (lambda: )', 'h = ', 'h = (', 'h = (| gen 3', '= 3', '9h = (3)', 'h = (x: )', 'h-h = (1)', 'gen 3 >', 'gen 3 >$', '<$ map (x: x)', '> | <', 'gen 3 > > x',
                        'gen 3 | args (| x y: gen 2 |)', 'gen 3 | args (| x.y: gen 2 |)', 'gen 3 | args (| 3: gen 2 |)', 'gen 3 | args (| x, x: gen 2 |)', 'gen 3 | map (x, x: 1)', 'gen 3 | map (x: x = 2)', 'gen 3 | map (for x in y)',
                        'gen 3 | (| h: gen 2 |', 'h = (| (| gen 2 |)', 'gen 3 | h = (2)', 'gen 3 & 4', 'gen 3 | sort -', '(1', ')', '("abc)', "gen 3 | map (x: f'{x')", "gen 3 | map (x: '''abc)"])
    elif c == 'unknown':
        t = rng.choice([f'nosuch{k}', f'gen 3 | nosuch{k}', f'gen 3 | nosuch{k} (x: x)', f'gen 3 | args (| x: nosuch{k} |)', f'(nosuch{k})', f'nosuch{k} <$', f'gen 3 | case (x: x) (| nosuch{k} |) (| map (x: x) |)',
                        f'nosuch{k} | map (x: x)', f'gen (nosuch{k})', f'h{k} = (nosuch{k})', 'a 1 2', 's', 'lst 3', f'ws -o nosuch{k}' if False else f'nosuch{k} -h', f'import nosuch{k}', f'import os nosuch{k}', 'env nosuchvar | nosuch'])
    elif c == 'illegal':
        t = rng.choice(['gen x', 'gen 3 | head x', 'gen --flag 3', 'gen 1 2 3 4', 'gen 3 | window', 'gen 3 | window -o 2 -d 2', 'gen 3 | sort 1 2', 'gen 3 | map', 'gen 3 | select',
                        'gen 3 | case (x: x)', 'gen 3 | write --csv --json', 'read --nope x', 'gen 3 | args', 'gen 3 | args (| gen 2 |)', 'fork', 'fork 3', 'gen 3 | map 3', 'gen 3 | tail', 'ls --what', 'gen 3 | cast foo',
                        'gen 3 | expand x y', 'timer', 'timer -1', 'q 1 2 3', 'cd a b c', 'pushd a b', 'gen 3 | join 3', 'gen 3 | filter', 'bg x', 'ps -q', 'gen 3 | unique 1 2', 'gen 3 | map (x: x) (y: y)',
                        'gen 3 | store', 'load', 'sql', 'remote', 'jobs -x', 'history -x y', 'import', 'env -d', 'edit --nope', 'help --zz'])
        if t in ('gen 3 | window', 'q 1 2 3', 'ps -q', 'env -d', 'history -x y', 'load', 'import', 'sql', 'remote', 'gen 3 | args'):
            must = t not in ('env -d',)
    elif c == 'setup':
        t = wrap(rng.choice(['gen (1/0)', 'gen (undefined_name)', 'gen 2 | head (1/0)', 'gen 2 | window -o (boom())', 'gen 2 | write (boom())', 'ls (boom())', 'read (syserr())', 'gen 2 | q (boom())',
                             'gen (asserts())', 'gen (kill())', 'timer (boom())', 'cd (boom())', 'load (3)', 'gen ("x")', 'gen 2 | tail (None)', 'gen 2 | args (boom())', '(boom())', 'gen ([])']))
        if t.startswith('fork'):
            pass
    elif c == 'runtime':
        t = wrap(rng.choice([f'gen 2 | map ({F()})', f'gen 2 | select ({F()})', f'gen 2 | sort ({F()})', f'gen 3 | red (x, y: 1/0)', f'gen 2 | case ({F()}) (| map (x: x) |) (| map (x: x) |)',
                             f'gen 2 | window ({F()})', f'map ({F().replace("x:", ":")})', 'gen 2 | map (x: boom()) | red +', f'gen 3 | unique ({F()})' if False else f'gen 2 | map (x: "a") | sort (x: boom())',
                             'gen 2 | map (x: kill())', 'gen 2 | expand (5)', 'gen 2 | map (x: deep())']))
        must = False
    elif c == 'abort':
        t = rng.choice(['gen 2 | head 0', 'gen 2 | map (x: [x]) | unique', 'gen 2 | map (x: stop())', 'gen 2 | map (x: [x]) | intersect (| gen 2 |)', 'gen 2 | map (x: [x]) | difference (| gen 2 |)', 'gen 3 | head 1',
                             'gen 2 | join (| gen 2 | map (x: [x]) |)', 'gen 2 | map (x: ()) | join (| gen 2 |)', 'gen 2 | join (| gen 2 | map (x: ()) |)', 'gen 2 | map (x: [x]) | sort | red (x, y: y - x)',
                             'gen 2 | map (x: (x, "a")) | sort | union (| gen 1 | map (x: "z") |) | sort', 'gen 2 | map (x: [[]]) | filter (| gen 3 |)', 'gen 2 | sql "select 1"', 'gen 2 | args (| z: gen (z - 5) |)',
                             'gen 2 | args (| z: head (z - 1) |)', 'gen 2 | args (| z: ls (boom()) |)', 'gen 2 | map (x: x) | write /nonexistent/x', 'gen 2 | map (x: lambda: x) >$ hres', 'gen 2 | map (x: badrepr()) >$ hres',
                             'gen 2 | cast int', 'gen 1 | map (x: (lambda y: y)) | write --pickle ~/work/hf.p\nread --pickle ~/work/hf.p | map (f: f(1))', 'fork 2 (| gen 2 | map (x: lambda: x) |)', 'fork 1 (| gen 1 | map (: boom) |) | map (f: f())', 'gen 2 | map (x: "q") | cast int', 'gen 2 | cast (int)'])
        t = t if '\n' in t or t.startswith('fork') else wrap(t)
        must = False
    elif c == 'recursion':
        h = f'h{k}'
        t = rng.choice([f'h{k} = (| gen 1 | {h} |)\n{h}', f'{h} = (| {h} |)\n{h}', f'{h} = (| n: gen 1 | args (| m: {h} (n) |) |)\n{h} 3', f'{h} = (| map (x: x) | {h} |)\ngen 2 | {h}',
                        f'{h} = (| gen 1 | union (| {h} |) |)\n{h}', f'{h} = (x: {h}(x))\ngen 2 | map ({h})', f'{h} = (| case (x: True) (| {h} |) (| map (x: x) |) |)\ngen 2 | {h}'])
    elif c == 'io':
        t = wrap(rng.choice(['gen 2 | write /nonexistent/dir/f', 'gen 2 | write .', 'gen 2 | write --csv ~/work/d1', 'read /nonexistent/f', 'read ~/work/d1', 'read --pickle ~/work/base.csv', 'read --json ~/work/base.csv',
                             'ls /nonexistent', 'cd /nonexistent', 'pushd /nonexistent', 'cd ~/work/base.csv', 'gen 2 | write --pickle /nonexistent/p', 'gen 2 > /nonexistent/q', '/nonexistent <', '~/work/base.csv <$',
                             'nosuchres <$', 'a <$', 'rm /nonexistent', 'mv /nonexistent x', 'import /etc/passwd', 'load nosuchvar', 'load a', 'gen 2 | write --append /proc/nope',
                             'read --csv ~/work/bin.dat', 'read ~/work/bin.dat', 'read --pickle ~/work/bin.dat', 'read --tsv ~/work/bin.dat', 'ls ~/work/locked', 'read ~/work/locked/x', 'gen 2 | write ~/work/ro.txt']))
        must = False
        if 'rm /' in t or 'mv /' in t:
            must = False
    elif c == 'garbage':
        t = rng.choice([lambda: ''.join(rng.choice('()|"\'\\ \tabx:,{}[]!@#$%^&*+;?.0') for _ in range(rng.randrange(1, 40))),
                        lambda: ' '.join(rng.choice(['gen 2', 'map', '(x: x)', '|', '(|', '|)', 'args', 'head 1', 'red +', '(', ')', ',', ':', 'x', '3', '-o', '--csv', 'p', 'q', 'a', "'s'", '"', '#', 'sort', 'lambda', '+', '.', '\\'])
                                         for _ in range(rng.randrange(1, 14))),
                        lambda: ''.join(chr(rng.randrange(1, 0x3000)) for _ in range(rng.randrange(1, 12))),
                        lambda: rng.choice(['   ', '\t', '#', '# comment', '\\', '\x00', 'gen 2\x00', '\ufeffgen 2', 'gen\u00a02', '\u2028', '()', '(())', "''", '""', '(||)', '(| |)', '| |', '-', '--', '-h', '.', '..', '~', '!', '*', '?',
                                            '( )', '(#)', '(:)', '(lambda)', '(x:)', '("")', '\x1b[A', '\x7f', '\r', 'a\rb', '\x0b', '\ud7ff', '٣', 'gen ٣', 'gen ²', 'π', 'gen 2 | map (π: π)'])])()
        must = False
        # Things that are legal and mean something with effects are not hostile commands
        if any(w in t for w in ('>', '<', '=', '!', '&')) and not t.strip() == '!':
            t = re.sub('[><=!&]', '', t)
    elif c == 'mutation':
        base = rng.choice(["gen 3 | map (x: x + 1) | select (x: x > 1)", "gen 3 | args (| i: gen 2 | map (x: (x, i)) |) | red . +", "h1 = (| n: gen 2 | map (x: x * n) |)", "gen 2 | case (x: x > 1) (| map (x: 'a b') |) (| head 1 |)",
                           "gen 3 | window -o 2 | map (x, y: f'{x}-{y}')", "read --csv ~/work/base.csv | map (x: int(x)) | red +", "gen 4 | map (x: (x, x)) | join -k (| gen 2 | map (x: (x, {'a': [x]})) |)"])
        t = base
        for _ in range(rng.randrange(1, 4)):
            i = rng.randrange(len(t)) if t else 0
            op = rng.randrange(4)
            if op == 0:
                t = t[:i] + t[i + 1:]
            elif op == 1:
                t = t[:i] + rng.choice('()|"\'\\:,x3-') + t[i:]
            elif op == 2:
                t = t[:i]
            else:
                j = rng.randrange(len(t)) if t else 0
                i, j = min(i, j), max(i, j)
                t = t[:i] + t[j:]
        # gen without a count never ends
        t = re.sub(r'\bgen\b(?!\s+\d)', 'gen 2 ', t)
        t = re.sub(r'gen (\d)\d*', r'gen \1', t).replace('gen 0', 'gen 1')
        if re.search(r'\bgen [^1-9(]|\bgen$|(?<!\w)[a-gi-z]\w* *=[^=]|>\s*1|h1 =.*h1\b.*h1|[<>]', re.sub(r"x > 1", '', t)) or re.search(r'^\s*[a-gi-zA-Z_]\w*\s*=', t):
            t = t if t.startswith('h1 =') and '>' not in t else 'gen 2 | map (x: x'
        must = False
    elif c == 'depth':
        n = rng.choice([30, 200, 1200])
        t = rng.choice([lambda: 'gen 1 | map (x: ' + '(' * n + 'x' + ')' * n + ')', lambda: '(' * n, lambda: 'gen 1 | args (| x: ' * min(n, 100) + 'gen 2 | head 1' + ' |)' * min(n, 100), lambda: '(| ' * n + 'gen 2' + ' |)' * n,
                        lambda: 'gen 2' + ' | map (x: x)' * n, lambda: 'echo_no ' + 'a' * n * 50, lambda: 'gen 1 | map (x: ' + '-' * n * 3 + 'x)', lambda: 'gen 1 | map (x: [' + '[' * n + ']' * n + '])', lambda: "'" * n, lambda: '\\' * n,
                        lambda: 'gen 1 | map (x: "' + '\\\\' * n + '")', lambda: 'gen ' + '0' * n + '3 | head 1', lambda: 'gen 1 | map (x: 10**5000)'])()
        must = False
    elif c == 'interrupt':
        t = wrap(rng.choice(['gen 2 | map (x: interrupt())', 'gen 2 | select (x: interrupt())', 'gen 2 | sort (x: interrupt())', 'gen 2 | red (x, y: interrupt())', 'gen (interrupt())', 'gen 2 | map (x: interrupt()) | write ~/work/h.txt',
                             'gen 2 | map (x: interrupt()) >$ hres', 'map (: interrupt())', 'gen 2 | case (x: interrupt()) (| map (x: x) |) (| map (x: x) |)', 'gen 2 | args (| i: gen 2 | map (x: interrupt()) | write --pickle ~/work/h.p |)']))
        if t.startswith('fork'):
            t = 'gen 2 | map (x: interrupt())'
        must = False
    elif c == 'badstr':
        t = wrap(rng.choice(['gen 2 | map (x: bad())', 'gen 2 | map (x: badrepr())', 'gen (bad())', 'gen 2 | map (x: badrepr()) | sort', 'gen 2 | map (x: badrepr()) | map (boom)', 'gen 2 | map (x: badrepr()) | write ~/work/h.txt',
                             'gen 2 | select (x: bad())', 'gen 2 | map (x: badrepr()) | write --csv ~/work/h.csv', 'gen 2 | map (x: badrepr()) | expand | red (x, y: 1/0)', 'gen 2 | map (x: badrepr()) | cast int',
                             'gen 2 | map (x: badrepr()) | join (| gen 2 |)', 'gen 2 | map (x: (badrepr(), [])) | filter (| gen 2 |)', 'gen 2 | sort (x: bad())', 'head (bad())', "gen 2 | map (x: '\\ud800')", "gen 1 | map (x: '\\ud800') | write ~/work/h.txt"]))
        must = False
    elif c == 'resource':
        # Stops while a reservoir or file is being read or written
        stop = lambda: rng.choice(["args (| i: gen 3 | head (str(i)) |)", 'args (| i: gen 2 | write --pickle /nonexistent/p |)', 'map (*x: boom())', 'args (| i: ls (boom()) |)', 'sort (*x: boom())',
                                   'args (| i: nosuchop3 |)', 'map (*x: deep())', 'map (*x: kill())', 'map (*x: (lambda: 0))', 'args (| i: load nosuchres |)', 'args (| i: gen 2 | tail (None) |)', 'map (*x: [[]]) | unique',
                                   "map (*x: 'a') | sort | map (x: x) | red (x, y: boom()) | args (| i: head (i) |)", 'join (| gen (boom()) |)', 'union (| r <$ map (*x: x) | args (| i: tail (None) |) |)', 'head 1', 'red -i (x, y: boom())',
                                   *([] if real else ['map (*x: interrupt())', 'select (*x: interrupt())', 'args (| i: gen (interrupt()) |)'])])
        src = rng.choice(['r <$ ', 'r <$ ', 'r <$ ', 'load r | ', 'read ~/work/base.csv | ', 'read --csv ~/work/base.csv | ', 'ls ~/work | ', 'hfile <', 'gen 4 | '])
        if src == 'hfile <':
            src = 'read ~/work/base.csv | '
        end = rng.choice(['', '', '', ' >$ hres', ' | write ~/work/h.txt', ' | write --pickle ~/work/h.p', ' | write --csv ~/work/h.csv'])
        t = src + stop() + end
        if src == 'gen 4 | ' and rng.random() < 0.5 and not end:
            t = rng.choice(['gen 3 | map (x: x) >$ hres', 'gen 2 | map (x: (x, x)) | store hres']) + '\n' + 'hres <$ ' + stop()
        must = False
    return {'class': c, 'text': t, 'must': must}


def gen(rng, i, tier):
    real = i % 12 == 0
    seq = [{'b': b} for b in BENIGN_SETUP]
    nb = rng.randrange(4, 12)
    for k in range(nb):
        seq.append({'b': benign(rng, k)})
    out = []
    nh = 0
    for s in seq:
        while rng.random() < (.55 if tier == 'quick' else .65) and nh < 14 and len(out) > 2:
            h = hostile(rng, real)
            for t in h['text'].split('\n') if h['class'] in ('recursion', 'abort', 'resource') else [h['text']]:
                out.append({'h': t, 'c': h['class'], 'must': h['must'] and not (h['class'] == 'recursion' and ' = ' in t)})
            nh += 1
        out.append(s)
    out.append({'b': 'gen 3 | map (x: x + a) | ' + TAP})
    out.append({'b': 'nest 2 | ' + TAP})
    for t in ('gen 2 | map (x: (x, 5)) | store -a r', 'r <$ ' + TAP, 'gen 3 >$ r', 'r <$ ' + TAP, 'gen 3 >$ hres', 'hres <$ ' + TAP, 'gen 2 | write ~/work/h.txt', 'read ~/work/h.txt | ' + TAP,
              'gen 2 | write --pickle ~/work/h.p', 'read --pickle ~/work/h.p | ' + TAP, 'read --csv ~/work/base.csv | ' + TAP, 'pwd | ' + TAP):
        out.append({'b': t})
    return {'real': real, 'seq': out}


def prepare(base):
    for d in ('d1', 'd2', 'd3', 'locked'):
        os.mkdir(os.path.join(base, d))
        open(os.path.join(base, d, 'file_' + d), 'w').close()
    with open(os.path.join(base, 'bin.dat'), 'wb') as f:
        f.write(bytes(range(256)) * 4)
    with open(os.path.join(base, 'ro.txt'), 'w') as f:
        f.write('ro')
    os.chmod(os.path.join(base, 'ro.txt'), 0o400)
    os.chmod(os.path.join(base, 'locked'), 0)


def describe(v):
    try:
        r = repr(v)
    except BaseException:
        r = f'<{type(v).__name__}>'
    return re.sub(r'0x[0-9a-f]+', '0x', r)[:300]


def snapshot(session):
    env = session.env
    ns = env.workspace.namespace
    d = {}
    for k in list(ns.keys()):
        if k.startswith('h') and re.match(r'h(\d+|res)?$', k) or k in ('__builtins__', 'STARTUP_SCRIPTS', 'PREVIOUS_DIR'):
            continue
        try:
            d[k] = (id(ns[k]), describe(ns[k])) if not callable(ns[k]) else ('callable',)
        except BaseException as e:
            d[k] = ('?', type(e).__name__)
    return {'vars': {k: v[-1] for k, v in d.items()}, 'cwd': os.getcwd(), 'pwd': str(env.dir_state().current_dir()), 'scopes': env.vars().n_scopes()}


def norm(text, box):
    text = re.sub(r'0x[0-9a-f]+', '0x', text.replace(box, '$BOX')).replace('\r', '\\r')
    return re.sub(r'\d{4} [A-Z][a-z][a-z] [ \d]\d \d\d:\d\d:\d\d', '$DATE', text)


def run_session(seq, mon, box, sub, with_hostile):
    """Runs in the current process. Returns outputs of the benign commands."""
    class B:
        pass
    b = B()
    b.path = os.path.join(box.path, sub)
    b.home = os.path.join(b.path, 'home')
    b.work = os.path.join(b.home, 'work')
    b.tier = box.tier
    os.makedirs(b.work)
    prepare(b.work)
    os.environ['HOME'] = b.home
    os.environ['TMPDIR'] = b.path
    os.chdir(b.work)
    s = Session(b, config=CONFIG)
    outs = []
    for step in seq:
        if 'b' in step:
            r = s.run(step['b'])
            outs.append((norm(r.out, b.path), norm(r.err, b.path), r.exc))
            continue
        if not with_hostile:
            continue
        t = step['h']
        before = snapshot(s)
        kbd = False
        try:
            r = s.run(t)
        except KeyboardInterrupt:   # what MainInteractive.run does
            kbd = True
            from session import Result
            r = Result('', '', None)
        after = snapshot(s)
        mon.count('hostile')
        mon.count('class:' + step['c'])
        mon.see('hostile', t)
        if step['c'] == 'interrupt' and not kbd:
            mon.count('interrupt-absorbed')
        said = bool(r.err.strip()) or 'Error' in r.out or kbd
        if said or r.exc:
            mon.count('reported')
            mon.nontrivial(t)
        mon.check(r.exc is None, 'command-ends-session', f'{t!r}: {r.exc}', text=t)
        if step['must'] and r.exc is None:
            mon.check(said, 'failure-not-reported', f'{t!r}: nothing reported', text=t, out=r.out[:300])
        for what in ('cwd', 'pwd', 'scopes'):
            mon.check(before[what] == after[what], 'session-' + what + '-changed', f'{t!r}: {what} was {before[what]}, is {after[what]}', text=t)
        vb, va = before['vars'], after['vars']
        diff = [k for k in set(vb) | set(va) if vb.get(k) != va.get(k)]
        if step['c'] == 'mutation' or step['c'] == 'garbage':
            diff = [k for k in diff if k in vb]
        mon.check(not diff, 'session-variables-changed', f'{t!r}: ' + ', '.join(f'{k}: {vb.get(k)} -> {va.get(k)}' for k in diff)[:600], text=t)
    s.close()
    return outs


def in_child(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = json.dumps(fn())
        except BaseException as e:
            import traceback
            data = json.dumps({'failed': traceback.format_exc()[-2000:]})
        with os.fdopen(w, 'w') as f:
            f.write(data)
            f.flush()
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data)


def run_real(case, mon, box):
    """The same as a script, in a process of its own."""
    import marcel.persistence.storagelayout as sl
    res = []
    for sub, hostile_too in (('h', True), ('c', False)):
        home = os.path.join(box.path, 'real' + sub)
        work = os.path.join(home, 'work')
        os.makedirs(work)
        prepare(work)
        script = os.path.join(home, 'script.m')
        lines = []
        for k, step in enumerate(case['seq']):
            if 'b' in step:
                lines.append(f"gen 1 | map (x: '=== {k}')")
                lines.append(step['b'])
                lines.append(f"gen 1 | map (x: '--- {k}')")
            elif hostile_too:
                t = step['h']
                if '\n' in t or '\r' in t or not t.strip() or t.rstrip(' ').endswith('\\') or '\x00' in t or any(c in t for c in '\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'):
                    continue
                try:
                    t.encode()
                except UnicodeEncodeError:
                    continue
                lines.append(t)
                mon.count('hostile')
        with open(script, 'w', encoding='utf-8', newline='') as f:
            f.write('\n'.join(lines) + '\n')
        env = dict(os.environ, HOME=home, TMPDIR=home)
        def layout():
            os.environ['HOME'] = home
            sl.ensure_current(testing=True, initial_config=CONFIG)
            return 1
        in_child(layout)
        p = subprocess.run([sys.executable, '-m', 'marcel.main', script], cwd=work, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
        out = norm(p.stdout.decode('utf-8', 'replace'), home)
        blocks = {}
        for m in re.finditer(r'=== (\d+)\n(.*?)--- \1\n', out, re.S):
            blocks[int(m.group(1))] = m.group(2)
        res.append((p.returncode, blocks, p.stderr.decode('utf-8', 'replace')))
    (rc, blocks, err), (crc, cblocks, cerr) = res
    mon.count('script')
    for k, step in enumerate(case['seq']):
        if 'b' in step and k in cblocks:
            mon.count('benign-same')
            mon.check(k in blocks, 'script-ended-early', f'command {k} of the script ({step["b"]}) did not run: exit code {rc}', stderr=err[-1500:], hostile=[s['h'] for s in case['seq'][:k] if 'h' in s][-6:])
            if k not in blocks:
                break
            mon.check(blocks[k] == cblocks[k], 'script-output-differs', f'{step["b"]}: {cblocks[k]!r} alone, {blocks[k]!r} after hostile commands', stderr=err[-1500:],
                      hostile=[s['h'] for s in case['seq'][:k] if 'h' in s])
    mon.check(rc == crc, 'script-exit-code', f'exit code {crc} alone, {rc} with hostile commands', stderr=err[-800:])
    mon.check(len(cblocks) > 3, 'control-broken', f'control: {crc} {cerr[-500:]}')


def run(case, mon, box):
    # Random words must not name executables
    os.environ['PATH'] = os.path.join(box.path, 'nobin')
    if case['real']:
        return run_real(case, mon, box)
    control = in_child(lambda: run_session(case['seq'], None, box, 'c', False))
    if isinstance(control, dict):
        raise AssertionError(control['failed'])
    outs = run_session(case['seq'], mon, box, 'h', True)
    benigns = [(j, s['b']) for j, s in enumerate(case['seq']) if 'b' in s]
    for (j, text), o, c in zip(benigns, outs, control):
        mon.count('benign-same')
        mon.check(list(o) == list(c), 'later-command-differs', f'{text!r}: alone {c}, after hostile commands {list(o)}', hostile=[s['h'] for s in case['seq'][:j] if 'h' in s])
    mon.see('shape', [s.get('c', 'b') for s in case['seq']])
    mon.sample = {'benign': len(benigns), 'first_hostile': next((s['h'] for s in case['seq'] if 'h' in s), None)}
