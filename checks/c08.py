"""C08: strings, expressions and pipelines reach their operators verbatim; malformed commands are rejected without effect."""
import os, io, tokenize
from session import Session, MARK

ID = 'C08'
LEVEL = 'exploration'
RULE = ('Random strings over a hostile alphabet (quotes, backslashes, blanks, brackets, operators, comment characters, non-ASCII) are spelled as words '
        'of bare, single-quoted and double-quoted segments and passed as pipeline arguments, variable values, file names and redirection targets, also inside '
        'nested and stored pipelines, and joined to expressions; random Python expressions (literals of all prefixes and quotings, comprehensions, slices, lambdas, '
        'nested brackets and strings full of marcel syntax) and function forms are compared with Python evaluation of the same text; blanks and comments are '
        'varied. Commands malformed by construction, containing operations with visible effects, must report an error and leave files and variables unchanged. '
        'Non-trivial: a string or expression containing a character special to marcel, keyed by text.')
ASSUMPTIONS = ['word quoting follows the shell rules the code implements: nothing is special in single quotes, \\" and \\\\ are escapes in double quotes, '
               'backslash escapes any character elsewhere',
               'file names are free of glob characters, ~ and / (C18 decides those)',
               'f-strings reusing their own quote character inside replacement fields are not used']
N = {'quick': 1200, 'thorough': 24000}
REQUIRED = ['arg', 'var', 'file', 'redirect', 'nested', 'stored', 'joined', 'expr', 'func', 'comment', 'tight', 'malformed', 'flagvalue']

SPECIAL = ' \'"\\()|#=:,<>$@!{}[]*?~-;&%`^'
ALPHA = 'abcxyz01' + SPECIAL + ' \'"\\()|#' + '\té😀'


def rstring(rng, alpha=ALPHA, lo=0, hi=9):
    return ''.join(rng.choice(alpha) for _ in range(rng.randrange(lo, hi)))


def quote_piece(rng, s, first):
    styles = ['double', 'bare']
    if "'" not in s:
        styles.append('single')
    k = rng.choice(styles)
    if k == 'single':
        return "'" + s + "'"
    if k == 'double':
        out = ''
        for i, c in enumerate(s):
            if c == '"':
                out += '\\"'
            elif c == '\\':
                # a backslash before an ordinary character need not be doubled
                nxt = s[i + 1] if i + 1 < len(s) else '"'
                out += '\\' if nxt not in '"\\' and rng.random() < 0.3 else '\\\\'
            else:
                out += c
        return '"' + out + '"'
    out = ''
    for i, c in enumerate(s):
        if c.isspace() or c in '\'"\\()|#=:,<>' or (first and i == 0 and c in '-@!~') or (c in SPECIAL and rng.random() < 0.3):
            out += '\\'
        out += c
    return out


def spell(rng, s):
    if s == '':
        return rng.choice(["''", '""'])
    if rng.random() < 0.5:
        r = quote_piece(rng, s, True)
        return r
    parts, i = [], 0
    while i < len(s):
        n = rng.randrange(1, 5)
        parts.append(s[i:i + n])
        i += n
    return ''.join(quote_piece(rng, p, k == 0) for k, p in enumerate(parts))


# ---- Python expressions ----

def pystr(rng, s=None):
    """A Python string literal, as text"""
    s = rstring(rng, ALPHA + '\n') if s is None else s
    r = rng.random()
    if r < 0.35:
        return repr(s)
    q = rng.choice(["'", '"'])
    body = s.replace('\\', '\\\\').replace(q, '\\' + q).replace('\n', '\\n').replace('\t', rng.choice(['\t', '\\t']))
    if r < 0.6:
        return q + body + q
    if r < 0.72:
        o = '"' if q == "'" else "'"
        extra = ''.join(rng.choice([q + 'x', q * 2 + ' ', '\\' + q, '\\' + q * 2 + 'y', ')', '(', '|', '#', o, o * 3, '\\\\', 'z']) for _ in range(rng.randrange(0, 5)))
        return q * 3 + rng.choice([body, extra, body + extra, extra + body]) + rng.choice(['', '', '\\' + q, '\\' + q + ')' + '\\' + q]) + q * 3
    if r < 0.8:
        raw = s.replace('\\', '').replace(q, '').replace('\n', '')
        return rng.choice('rR') + q + raw + rng.choice(['', '\\n', '\\' + q]) + q
    if r < 0.9:
        b = s.encode('ascii', 'ignore')
        return repr(b)
    f = body.replace('{', '{{').replace('}', '}}')
    o = '"' if q == "'" else "'"
    return 'f' + q + f + rng.choice(['{1 + 2}', f'{{len({o}({o})}}', '{3:>5}', '{[1, 2][0]!r}', '{(lambda a: a)(4)}']) + q


def pyexpr(rng, d=0):
    k = rng.choice(['str', 'str', 'num', 'list', 'dict', 'tuple', 'set', 'comp', 'cond', 'call', 'slice', 'lambda', 'binop', 'cmp', 'dcomp', 'method'])
    if d > 2 and k not in ('str', 'num'):
        k = 'str'
    e = lambda: pyexpr(rng, d + 1)
    if k == 'str':
        return pystr(rng)
    if k == 'num':
        return rng.choice(['0', '17', '-3', '2.5', '1e3', '0x1f', '1_000', '3j', 'True', 'None', '~5', '5 | 2', '6 & 3', '1 << 4', '5 ^ 1', '7 // 2', '2 ** 3'])
    if k == 'list':
        return '[' + ', '.join(e() for _ in range(rng.randrange(0, 3))) + ']'
    if k == 'tuple':
        return '(' + ''.join(e() + ', ' for _ in range(rng.randrange(0, 3))) + ')'
    if k == 'dict':
        return '{' + ', '.join(f'{pystr(rng)}: {e()}' for _ in range(rng.randrange(0, 3))) + '}'
    if k == 'set':
        return 'sorted({' + ', '.join(str(rng.randrange(9)) for _ in range(3)) + '})'
    if k == 'comp':
        return f'[(i, {e()}) for i in range(3) if i != 1]'
    if k == 'dcomp':
        return f'{{i: {e()} for i in range(2)}}'
    if k == 'cond':
        return f'({e()} if {rng.choice(["1 < 2", "3 > 4", "not []"])} else {e()})'
    if k == 'call':
        return f'str({e()})'
    if k == 'slice':
        return f'[1, 2, 3, 4][{rng.choice(["1:", ":2", "::2", "-1", "1:3"])}]'
    if k == 'lambda':
        return f'(lambda a, b=2: (a, b))({e()})'
    if k == 'binop':
        return f'[{e()}] + [{e()}]'
    if k == 'cmp':
        return f'({e()} == {e()})'
    return repr(rstring(rng)) + rng.choice(['.upper()', '.replace("(", ")")', '[::-1]', '.split("|")', ' * 2'])


# (text, applied to x = 3)
def pyfunc(rng, e):
    return rng.choice([f'x: (x, {e})', f'lambda x: (x, {e})', f'*x: (x, {e})', f'lambda *x: (x, {e})', f'x, *y: (x, y, {e})', f'x, y=5: (x, y, {e})',
                       f'lambda x, y={e}: (x, y)', f'x,y=[1, (2, 3)]: (x,y,{e})', f'lambda x, *y: [x, y, {e}]', f'x : {{x: {e}}}',
                       f'x: (lambda a: (a, {e}))(x)', f'lambda x, y={{1: 2}}: (x, y, {e})'])


def as_function(text):
    t = text.strip()
    return eval(t if t.startswith('lambda') else 'lambda ' + t)


COMMENTS = [' # comment', ' #', ' # unbalanced ( [ \' " |) (|', " # it's | gen 5", '\t#x', ' # \\']

EFFECT = 'gen 2 | write side'
MALFORMED = [
    EFFECT + ' | map (x: x', EFFECT + ' | map x: x)', EFFECT + ' )', EFFECT + ' | |', EFFECT + ' |', '| ' + EFFECT, EFFECT + ' >', EFFECT + ' >$', EFFECT + ' >>',
    EFFECT + " | map 'abc", EFFECT + ' | map "abc', EFFECT + ' | map "abc\\"', EFFECT + ' | args (| x: map (x)', EFFECT + ' |)', '(| ' + EFFECT, '(| ' + EFFECT + ' |) (',
    EFFECT + ' = 3', 'v =', 'v = 3 4', 'v = (1) (2)', 'v = (| gen 3', 'v = (1', 'v = 1)', "v = 'abc", 'v = "abc', 'v = (| gen 3 |) |)', 'v = (| gen 3 |) | map (x: x)',
    EFFECT + ' , gen 3', EFFECT + ' | case (x: True) (| map (x: x) ', EFFECT + " | map (x: 'a)", EFFECT + ' | map (x: "a)', EFFECT + ' | map (x: [1, 2)',
    EFFECT + ' | map (x: )', EFFECT + ' | map (x x)', EFFECT + ' | map (x: x))', EFFECT + ' > a > b', 'v = = 3', 'v == 3', 'v = > 3', EFFECT + ' \\', 'v = 7\\',
    EFFECT + ' | union (| gen 1', EFFECT + ' | union (| gen 1 | |)', EFFECT + ' | union (| |)', EFFECT + ' | union (| gen 1 |) )', EFFECT + ' | map (x: 5 +)',
    EFFECT + " | map (x: '\\", EFFECT + ' < v', EFFECT + ' | map (x: x) : gen', 'v = (7) |', 'v = (7) > side', EFFECT + '; map (x: x', '> side >', 'gen 3 > ', 'v >$',
    EFFECT + ' | (', EFFECT + ' | )', EFFECT + ' || map (x: x)', EFFECT + ' | ! !', EFFECT + ' | (|', EFFECT + ' | |)', EFFECT + ' | map (x: {1: 2)', 'v = ()x', 'v = (',
]


def gen(rng, i, tier):
    k = rng.choice(['arg', 'arg', 'var', 'file', 'redirect', 'nested', 'stored', 'joined', 'joined', 'expr', 'expr', 'func', 'func', 'flagvalue', 'malformed', 'malformed'])
    c = {'k': k, 'comment': rng.choice(COMMENTS) if rng.random() < 0.25 else '', 'tight': rng.choice([' | ', '|', ' |', '| ', '  |\t'])}
    if k in ('arg', 'var', 'nested', 'stored'):
        c['s'] = rstring(rng, ALPHA + ('\n' if rng.random() < 0.1 else ''))
        c['t'] = spell(rng, c['s'])
        c['s2'] = rstring(rng)
        c['t2'] = spell(rng, c['s2'])
    elif k in ('file', 'redirect', 'flagvalue'):
        s = rstring(rng, [x for x in ALPHA if x not in '*?[]~'], 1, 9)
        c['s'] = 'n' + s if s in ('.', '..') or rng.random() < 0.2 else s
        c['t'] = spell(rng, c['s'])
    elif k == 'joined':
        parts = []
        for j in range(rng.randrange(2, 5)):
            if (j % 2 == 0) == (rng.random() < 0.9):
                s = rstring(rng, lo=1)
                parts.append(['s', s, spell(rng, s) if j == 0 else ''.join(quote_piece(rng, x, False) for x in [s])])
            else:
                e = rng.choice(['1 + 2', "'a)b'", 'len("((")', '[1, 2]', '{1: 2}', '1 != 2', '(3)', "'{}'", 'v0', 'f"{5}"', "'\\\\'", '"\'\'\'"', 'v0[0:2]', '{7}', '"#"'])
                parts.append(['e', e, f'({e})'])
        # a bare segment may not begin with a character that begins a symbol
        if not any(p[0] == 'e' for p in parts) or not any(p[0] == 's' for p in parts):
            parts = [['s', 'ab', 'ab'], ['e', '1 + 2', '(1 + 2)']]
        for p in parts:
            if p[0] == 's' and (p[2][0] in '@!-#' or p[2][:2] in ('\\@',)):
                p[2] = '"' + p[1].replace('\\', '\\\\').replace('"', '\\"') + '"'
        c['parts'] = parts
    elif k == 'expr':
        c['t'] = pyexpr(rng)
        c['form'] = rng.choice(['map', 'assign', 'first', 'param'])
    elif k == 'func':
        c['t'] = pyfunc(rng, pyexpr(rng, 1))
    else:
        c['t'] = rng.choice(MALFORMED)
        c['wrap'] = rng.random() < 0.2
        c['comment'] = ''
    return c


def run(case, mon, box):
    s = Session(box)
    k = case['k']
    mon.count(k)
    com = case['comment']
    bar = case['tight']
    if com:
        mon.count('comment')
    if bar != ' | ':
        mon.count('tight')

    def expect(cmd, want, what):
        r = s.run(cmd + com)
        lines = r.out[:-1] if r.out.endswith('\n') else r.out
        mon.check(lines == want and not r.exc, what, f'command: {cmd + com}\nexpected: {want!r}\nobserved: {r}')
        mon.count('values_compared')
        return r

    def quiet(cmd):
        r = s.run(cmd)
        mon.check(not r.out and not r.err and not r.exc, 'a well formed command was rejected', f'command: {cmd}\n{r}')

    rep = "map (_x: '" + MARK + "' + repr((s, t)))"
    if k in ('arg', 'nested', 'stored'):
        quiet(f'f = (| s, t: gen 1{bar}{rep} |)')
        want = MARK + repr((case['s'], case['t2' if False else 's2']))
        call = f"f {case['t']} {case['t2']}"
        if k == 'arg':
            expect(call, want, 'a string argument was altered')
        elif k == 'nested':
            expect(f'gen 1{bar}args (| _a: gen 1 | select (_q: False){bar}union (| {call} |) |)', want, 'a string argument of a nested pipeline was altered')
        else:
            quiet(f'g = (| {call} |)')
            expect('g', want, 'a string argument of a stored pipeline was altered')
            expect('g', want, 'a string argument of a stored pipeline was altered')
        if any(c in SPECIAL for c in case['s'] + case['s2']):
            mon.nontrivial(call)
    elif k == 'var':
        quiet(f"v = {case['t']}{com}")
        expect(f"('{MARK}' + repr(v))", MARK + repr(case['s']), 'a string assigned to a variable was altered')
        if any(c in SPECIAL for c in case['s']):
            mon.nontrivial(case['t'])
    elif k in ('file', 'redirect'):
        before = set(os.listdir('.'))
        quiet(f"gen 2{bar}write {case['t']}{com}" if k == 'file' else f"gen 2 > {case['t']}{com}")
        new = set(os.listdir('.')) - before
        mon.check(new == {case['s']}, 'a file name was altered', f'{case["t"]}\nexpected {case["s"]!r}, created {sorted(new)!r}')
        if new == {case['s']}:
            mon.check(open(case['s']).read() == '0\n1\n', 'the file has the wrong contents', case['t'])
        mon.nontrivial(k + case['t'])
    elif k == 'flagvalue':
        # The value of a flag: the substring env -p looks for, among variables made for the purpose
        word = ''.join(c for c in case['s'] if c.isalnum())
        if not word:
            word = 'q'
        quiet(f'zz{word}zz = 1')
        t = spell_word(case, word)
        expect(f'env -p {t}{bar}map (a, b: a)', f'zz{word}zz' if sum(1 for v in s.env.vars() if word in v) == 1 else
               '\n'.join(sorted(v for v in s.env.vars() if word in v and v != '__builtins__')), 'a flag value was altered')
        mon.nontrivial(k + t)
    elif k == 'joined':
        s.env.setvar('v0', 'pq"r')
        quiet(f"f = (| s, t: gen 1 | {rep} |)")
        want = ''.join(p[1] if p[0] == 's' else str(eval(p[1], {'v0': 'pq"r'})) for p in case['parts'])
        word = ''.join(p[2] for p in case['parts'])
        expect(f'f {word} z', MARK + repr((want, 'z')), 'a word joining strings and expressions was altered')
        mon.nontrivial(word)
    elif k == 'expr':
        value = eval(case['t'])
        want = MARK + repr(value)
        t = case['t']
        if case['form'] == 'map':
            expect(f"gen 1{bar}map (_x: '{MARK}' + repr({t}))", want, 'an expression was altered')
        elif case['form'] == 'first':
            expect(f"('{MARK}' + repr({t}))", want, 'an expression was altered')
        elif case['form'] == 'assign':
            quiet(f'v = ({t}){com}')
            expect(f"('{MARK}' + repr(v))", want, 'an expression assigned to a variable was altered')
        else:
            quiet(f"f = (| s: gen 1 | map (_x: '{MARK}' + repr(s)) |)")
            expect(f'f ({t})', want, 'an expression given as a pipeline argument was altered')
        mon.nontrivial(t)
    elif k == 'func':
        f = as_function(case['t'])
        want = MARK + repr(f(3))
        t = case['t']
        s.run(f'h = ({t})')
        expect(f"gen 1 3{bar}map (x: '{MARK}' + repr(h(x)))", want, 'a function assigned to a variable was altered')
        expect(f"gen 1 3{bar}map ({t}){bar}map (*x: '{MARK}' + repr(x if len(x) > 1 else x[0]))", MARK + repr(tuple(want_item(f(3)))) if len(want_item(f(3))) > 1
               else MARK + repr(want_item(f(3))[0]) if want_item(f(3)) else MARK + '()', 'a function written as an argument was altered')
        mon.nontrivial(t)
    else:
        s.run('v = (5)')
        s.run('a = (5)')
        r = s.run(f'p0 = (| {case["t"]} |)' if case['wrap'] and case['t'].startswith('gen') and '|)' not in case['t'] and '(|' not in case['t']
                  and "'" not in case['t'] and '"' not in case['t'] and not case['t'].endswith('\\') and ' = ' not in case['t'] and case['t'].count('(') == case['t'].count(')')
                  else case['t'])
        what = f'command: {case["t"]}\n{r}'
        mon.check(not r.exc, 'a malformed command raised an exception', what)
        mon.check(bool(r.err.strip()), 'a malformed command was not reported', what)
        mon.check(not r.out, 'a malformed command produced output', what)
        files = os.listdir('.')
        mon.check(not files, 'a malformed command had an effect', what + f'\n{files}')
        mon.check(s.env.getvar('v') == 5 and s.env.getvar('a') == 5 and s.env.getvar('p0') is None, 'a malformed command changed a variable', what)
        mon.nontrivial(case['t'])


def want_item(x):
    return tuple(x) if type(x) in (tuple, list) else (x,)


def spell_word(case, word):
    import random
    return spell(random.Random(repr(case)), word)
