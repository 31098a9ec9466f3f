"""C09: arguments mean the same however they are written, and illegal ones are rejected before anything happens."""
import os
from session import Session, MARK, TAP

ID = 'C09'
LEVEL = 'exploration'
RULE = ('A table written from the documentation gives, per operator, its flags (short, long, value kind), positional arguments, exclusive flags and illegal values. '
        'Renderings: a random legal assignment of the arguments is written in two or more ways (flag order, short, long or combined flags, values as constants, '
        'quoted, expressions, variables, functions and pipelines by name) and output, errors and files written must be identical. '
        'Rejection: an argument list made illegal in one way (unknown flag, repeated flag in any spelling, missing value, too many or too few arguments, '
        'flag after arguments, mutually exclusive flags, wrong type, out of range) is placed before and after operators that write files, store reservoirs, define '
        'variables or run functions with visible effects; nothing but an error message may come of it: no output, and files, reservoirs, variables and directory '
        'unchanged, and the next command works. Non-trivial: a rendering pair that differs, or a rejected command whose effects would be visible, keyed by text.')
ASSUMPTIONS = ['the requirement on rejection covers the operators of the command\'s own pipeline; values of arguments of operators inside a nested pipeline are checked '
               'when that pipeline starts (its flags and argument counts are checked at once)',
               'negative numbers are given as expressions on operators that have flags']
N = {'quick': 900, 'thorough': 20000}
SPECN = ['gen', 'window', 'red', 'args', 'filter', 'join', 'write', 'read', 'ls', 'unique', 'env', 'import', 'store', 'head', 'tail', 'expand', 'fork', 'cast',
         'squish', 'sort', 'map', 'select', 'case', 'pipeline', 'union', 'difference', 'intersect', 'load']
REQUIRED = ['render', 'reject', 'reject:unknown', 'reject:dup', 'reject:missing', 'reject:many', 'reject:few', 'reject:exclusive', 'reject:type', 'reject:range',
            'reject:order', 'after-effect', 'before-effect', 'combined-flags'] + ['op:' + o for o in SPECN]

SETUP = '''
n3 = (3)
n2 = (2)
sfmt = ('<{}>')
inc = (x: x + 1)
odd = (x: x % 2)
tot = (x, y: x + y)
p0 = (| gen 3 1 |)
p1 = (| a: gen 2 | map (x: (x, a)) |)
p2 = (| a, b: map (x: (x, a, b)) |)
pe = (| gen 2 |)
strA = ('A')
fname = ('data.csv')
tname = ('t.txt')
LOG = ([])
note = (x: LOG.append(x) or x)
'''
STREAM = 'gen 4'
PAIRS = 'gen 6 | map (i: (i % 3, i))'


class V:
    """A value: kind and python value; rendered as text."""

    def __init__(self, kind, value):
        self.kind, self.value = kind, value


def render_value(rng, v):
    k, x = v.kind, v.value
    if k == 'int':
        forms = [f'({x})', f'({x - 7} + 7)', f"(int('{x}'))", f'({x} if True else 0)']
        if x >= 0:
            forms += [str(x), f"'{x}'", f'"{x}"']
        if x in (2, 3):
            forms += [f'(n{x})', f'(n{x} * 1)']
        return rng.choice(forms)
    if k == 'str':
        forms = [x, f"'{x}'", f'"{x}"', f"({x!r})", f"({x[:1]!r} + {x[1:]!r})"]
        if any(c in x for c in '{}<>() '):
            forms = forms[1:]
        for name, val in (('sfmt', '<{}>'), ('strA', 'A'), ('fname', 'data.csv'), ('tname', 't.txt')):
            if x == val:
                forms.append(f'({name})')
        return rng.choice(forms)
    if k == 'word':  # must be a constant
        return rng.choice([x, f"'{x}'", f'"{x}"'][1 if set('{}<>() ') & set(x) else 0:])
    if k == 'bare':
        return x
    if k == 'fn':
        return rng.choice(x)
    if k == 'pipe':
        return rng.choice(x)
    raise AssertionError(k)


INC = ('fn', ['(x: x + 1)', '(lambda x: x + 1)', 'inc', '(x : x+1)', '(y: 1 + y)'])
ODD = ('fn', ['(x: x % 2)', '(lambda x: x%2)', 'odd'])
TOT = ('fn', ['+', '(x, y: (x or 0) + y)', '(lambda a, b: b if a is None else a + b)'])
P0 = ('pipe', ['(| gen 3 1 |)', 'p0', '(| p0 |)', '(|gen (3) (1)|)', '(| gen 3 | map (x: x + 1) |)'])
P1 = ('pipe', ['(| a: gen 2 | map (x: (x, a)) |)', 'p1', '(| q: p1 (q) |)'])


def F(short, long, value=None):
    return (short, long, value)


def ints(lo, hi):
    return lambda rng: V('int', rng.randrange(lo, hi))


def const(k, v):
    return lambda rng: V(k, v)


def choice(k, vs):
    return lambda rng: V(k, rng.choice(vs))


# op -> input pipeline (None: first), flags {name: (short, long, value or None)}, groups of exclusive flags (at most one),
# 'one': groups of which exactly one must be present, anon: list of (values, optional), rest: anon list
SPEC = {
    'gen': dict(input=None, flags={'pad': F('-p', '--pad', ints(3, 6))}, anon=[ints(1, 6), ints(0, 5)], amin=1),
    'window': dict(input=STREAM, flags={'o': F('-o', '--overlap', ints(1, 4)), 'd': F('-d', '--disjoint', ints(1, 4))}, anon=[const(*ODD)], amin=0,
                   exactly=['o', 'd', 'anon']),
    'red': dict(input=PAIRS, flags={'i': F('-i', '--incremental')}, anon=[choice('bare', ['.', '+', 'max']), const(*TOT)], amin=2),
    'args': dict(input=STREAM, flags={'a': F('-a', '--all')}, anon=[const(*P1)], amin=1),
    'filter': dict(input=STREAM, flags={'k': F('-k', '--keep'), 'd': F('-d', '--discard'), 'c': F('-c', '--compare', const(*INC))}, excl=[['k', 'd']],
                   anon=[const(*P0)], amin=1),
    'join': dict(input=PAIRS, flags={'k': F('-k', '--keep')}, anon=[const('pipe', ['(| gen 2 | map (x: (x, 9)) |)', '(| pe | map (x: (x, 9)) |)'])], amin=1),
    'write': dict(input=STREAM, flags={'c': F('-c', '--csv'), 't': F('-t', '--tsv'), 'p': F('-p', '--pickle'), 'f': F('-f', '--format', const('str', '<{}>')),
                                       'a': F('-a', '--append')}, excl=[['c', 't', 'p', 'f']], anon=[choice('str', ['out1', 'out2', 'A'])], amin=1, sink=True,
                  no_expr_flags=['f']),
    'read': dict(input=None, flags={'c': F('-c', '--csv'), 't': F('-t', '--tsv'), 'h': F('-h', '--headings'), 's': F('-s', '--skip-headings'), 'j': F('-j', '--json'),
                                    'l': F('-l', '--label'), '0': F('-0', None), '1': F('-1', None), 'r': F('-r', '--recursive')},
                 excl=[['c', 't', 'j'], ['h', 's'], ['0', '1', 'r']], needs={'h': ['c', 't'], 's': ['c', 't']}, anon=[choice('str', ['data.csv', 't.txt'])], amin=1),
    'ls': dict(input=None, flags={'f': F('-f', '--file'), 'd': F('-d', '--dir'), 's': F('-s', '--symlink'), '0': F('-0', None), '1': F('-1', None),
                                  'r': F('-r', '--recursive')}, excl=[['0', '1', 'r']], anon=[choice('str', ['data.csv', 'sub', 't.txt'])], amin=0, rest=True,
               tap="map (f: '@' + str(f))"),
    'unique': dict(input='gen 6 | map (x: x // 2 % 2)', flags={'c': F('-c', '--consecutive')}, anon=[], amin=0),
    'env': dict(input=None, flags={'d': F('-d', '--delete', choice('word', ['n3', 'strA'])), 'p': F('-p', '--pattern', choice('word', ['n3', 'str', 'fname'])),
                                   'b': F('-b', '--builtins'), 'o': F('-o', '--os')},
                excl=[['d', 'p', 'anon'], ['d', 'o'], ['b', 'o']], anon=[choice('word', ['n3', 'strA', 'HOME'])], amin=0, restrict=True,
                tap="select (k, v: k in ('n3', 'strA', 'HOME', 'fname')) | map (k, v: '@' + k + repr(v))"),
    'import': dict(input=None, flags={'as': F('-a', '--as', choice('word', ['mm', 'pp']))}, anon=[const('word', 'math'), choice('word', ['pi', 'tau'])], amin=1, sink=True),
    'store': dict(input=STREAM, flags={'a': F('-a', '--append')}, anon=[choice('word', ['res', 'newres'])], amin=1, sink=True),
    'load': dict(input=None, flags={}, anon=[const('word', 'res')], amin=1),
    'head': dict(input=STREAM, flags={}, anon=[choice('int', [1, 2, 3, -1, -2])], amin=1),
    'tail': dict(input=STREAM, flags={}, anon=[choice('int', [1, 2, 3, -1, -2])], amin=1),
    'expand': dict(input='gen 4 | map (x: (x, [x, 5], x))', flags={}, anon=[ints(0, 4)], amin=0),
    'fork': dict(input=None, flags={}, anon=[choice('int', [1, 2, 3]), const(*P1)], amin=2, tap="map (*x: '@' + repr(x)) | sort"),
    'cast': dict(input='gen 4', flags={}, anon=[choice('word', ['int', 'str', 'float'])], amin=1),
    'squish': dict(input='gen 4 | map (x: (x, 2, x))', flags={}, anon=[const(*TOT)], amin=0),
    'sort': dict(input='gen 4', flags={}, anon=[const('fn', ['(x: -x)', '(lambda x: 0 - x)', '(z: -z)'])], amin=0),
    'map': dict(input='gen 4', flags={}, anon=[const(*INC)], amin=1),
    'select': dict(input='gen 4', flags={}, anon=[const(*ODD)], amin=1),
    'case': dict(input='gen 4', flags={}, anon=[const(*ODD), const('pipe', ['(| map (x: x * 10) |)', '(| map (x: 10*x) |)']), const('pipe', ['(| map inc |)', '(| map (x: x+1) |)'])],
                 amin=2),
    'union': dict(input='gen 4', flags={}, anon=[const(*P0), const(*P0)], amin=0),
    'difference': dict(input='gen 4', flags={}, anon=[const(*P0)], amin=1),
    'intersect': dict(input='gen 4', flags={}, anon=[const(*P0)], amin=1),
}

# Illegal argument texts beyond the systematic ones: op -> [(kind, args text)]
ILLEGAL = {
    'gen': [('type', 'abc'), ('type', "('5')"), ('type', '(2.5)'), ('type', '(None)'), ('type', '5 x'), ('type', '-p x 5'), ('type', "-p ('x') 5"), ('range', '-p 1 12'),
            ('range', '-p 2 5 98'), ('range', '--pad 5 3 (-3)'), ('range', '-p 5 0'), ('range', '-p 5'), ('range', '-p (2) (200)'), ('type', '(1 // 0)'), ('type', '5 (nosuch)')],
    'window': [('type', '-o x'), ('type', "-d ('a')"), ('range', '-d (-1)'), ('range', '-o (-1)'), ('range', '-o 0'), ('range', '--overlap (0 - 2)'), ('type', 'abc'), ('type', '5'),
               ('type', '-d (2.5)')],
    'head': [('range', '0'), ('range', '(0)'), ('type', 'x'), ('type', "('x')"), ('type', '(2.0)'), ('type', '(1 // 0)'), ('type', '(| gen 3 |)')],
    'tail': [('range', '0'), ('range', '(3 - 3)'), ('type', 'x'), ('type', '(None)'), ('type', '([])')],
    'expand': [('range', '-1'), ('range', '(-1)'), ('type', 'x'), ('type', "('x')"), ('type', '(1.5)')],
    'map': [('type', '5'), ('type', 'nosuch'), ('type', 'p0'), ('type', '(| gen 3 |)'), ('type', 'n3'), ('type', "'x: x'")],
    'select': [('type', '5'), ('type', 'nosuch'), ('type', '(| gen 3 |)'), ('type', 'strA')],
    'sort': [('type', '5'), ('type', '-x'), ('type', '(| gen 3 |)')],
    'squish': [('type', '5'), ('type', 'nosuch')],
    'red': [('type', '5'), ('type', '+ nosuch'), ('type', '-i 7'), ('type', '+ (| gen 2 |)')],
    'cast': [('type', 'foo'), ('type', 'int foo'), ('type', "'in t'")],
    'args': [('type', '5'), ('type', '(5)'), ('type', 'inc'), ('type', '(| gen 2 |)'), ('type', 'p0'), ('type', '-a p2'), ('type', '--all p0'), ('type', 'nosuch')],
    'case': [('few', '(x: x)'), ('type', '(x: x) 5'), ('type', '5 p0'), ('type', '(x: x) p1'), ('type', '(x: x) (x: x)'), ('few', 'p0')],
    'union': [('type', '5'), ('type', 'p1'), ('type', '(p0)'), ('type', 'inc'), ('type', 'p0 p1'), ('type', 'nosuch')],
    'join': [('type', '5'), ('type', 'p1'), ('type', 'n3'), ('type', '-k p2')],
    'filter': [('type', '5'), ('type', 'p1'), ('type', '-c 5 p0'), ('type', '--compare p0 p0'), ('type', '-d p1')],
    'difference': [('type', '5'), ('type', 'p1'), ('type', '(x: x)')],
    'intersect': [('type', '5'), ('type', 'p1'), ('type', 'p0 p2')],
    'fork': [('range', '0 p1'), ('range', '-1 p1'), ('range', '(-2) p1'), ('range', '([]) p1'), ('type', '(1.5) p1'), ('type', '2 5'), ('type', '2 p2'), ('type', '2 inc'),
             ('type', '(None) p1'), ('few', '2'), ('few', 'p0')],
    'write': [('range', '-p'), ('range', '-a'), ('range', '--pickle --append'), ('type', '(5)'), ('type', '-c (None)')],
    'read': [('exclusive', '-h t.txt'), ('exclusive', '--skip-headings t.txt'), ('exclusive', '-hp t.txt'), ('type', '(5)'), ('range', 'nosuchfile'), ('few', '')],
    'ls': [('type', '(5)'), ('range', 'nosuchfile'), ('type', 'sub (None)')],
    'store': [('type', '(5)'), ('type', "'a b'"), ('type', '-a n3'), ('type', '--append strA'), ('type', '3x')],
    'load': [('type', 'nosuch'), ('type', 'n3'), ('type', "'a b'"), ('type', '(5)')],
    'import': [('range', 'nosuchmodule'), ('range', 'math nosuch'), ('type', '--as 5 math'), ('type', "-a 'a b' math"), ('range', 'math.nosuch')],
    'env': [('range', 'nosuchvar'), ('range', '-o NOSUCHVAR')],
    'pipeline': [('unknown', '--zz 5'), ('missing', '--a'), ('missing', '--a 1 --b'), ('dup', '--a 1 --a 2'), ('many', '1 2 3'), ('order', '1 --b 2'), ('dup', '--a 1 2 3'),
                 ('unknown', '--a 1 --zz 2')],
}


def flag_text(rng, flag, style=None):
    short, long, value = flag
    names = [n for n in (short, long) if n]
    return rng.choice(names)


def pick(rng, op):
    """A random legal assignment: list of (flag name, V or None), list of V."""
    s = SPEC[op]
    names = list(s['flags'])
    while True:
        chosen = [n for n in names if rng.random() < (0.5 if len(names) < 4 else 0.35)]
        nanon = rng.randrange(s['amin'], len(s['anon']) + 1)
        if s.get('rest'):
            nanon = rng.randrange(0, 4)
        have = set(chosen) | ({'anon'} if nanon else set())
        if any(len(have & set(g)) > 1 for g in s.get('excl', [])):
            continue
        if 'exactly' in s and len(have & set(s['exactly'])) != 1:
            continue
        if any(n in chosen and not have & set(alts) for n, alts in s.get('needs', {}).items()):
            continue
        if op == 'import' and nanon == 1 and 'as' not in chosen and rng.random() < 0.5:
            continue
        if op == 'env' and 'o' in chosen and nanon and rng.random() < 2:
            continue
        if op == 'read' and ('j' in chosen):
            continue
        break
    anons = [(s['anon'][i] if i < len(s['anon']) else s['anon'][0])(rng) for i in range(nanon)]
    return [(n, s['flags'][n][2](rng) if s['flags'][n][2] else None) for n in chosen], anons


def render(rng, op, chosen, anons, info):
    s = SPEC[op]
    toks = []
    order = list(chosen)
    rng.shuffle(order)
    i = 0
    while i < len(order):
        n, v = order[i]
        flag = s['flags'][n]
        if v is None and flag[0] and rng.random() < 0.5:
            group = [flag[0][1]]
            while i + 1 < len(order) and order[i + 1][1] is None and s['flags'][order[i + 1][0]][0] and rng.random() < 0.8:
                i += 1
                group.append(s['flags'][order[i][0]][0][1])
            if len(group) > 1:
                info['combined'] = True
            toks.append('-' + ''.join(group))
        else:
            toks.append(flag_text(rng, flag))
            if v is not None:
                if n in s.get('no_expr_flags', ()):
                    v = V('word', v.value) if v.kind == 'str' else v
                toks.append(render_value(rng, v))
        i += 1
    for v in anons:
        t = render_value(rng, v)
        toks.append(t)
    return ' '.join(toks)


def gen(rng, i, tier):
    ops = list(SPEC) + ['pipeline']
    op = ops[i % len(ops)] if rng.random() < 0.5 else rng.choice(ops)
    if rng.random() < 0.45:
        info = {}
        if op == 'pipeline':
            a, b = rng.choice([V('int', rng.randrange(5)), V('str', 'A'), V('str', 'x y')]), rng.choice([V('int', rng.randrange(5)), V('str', 'b|c')])

            def r():
                def arg(v):
                    # a bare or quoted number is a string, an expression is a number
                    return rng.choice([f'({v.value!r})', f'({v.value!r} if True else 0)']) if v.kind == 'int' else rng.choice([f"'{v.value}'", f'"{v.value}"', f'({v.value!r})'])
                forms = [f'{arg(a)} {arg(b)}', f'--a {arg(a)} --b {arg(b)}', f'--b {arg(b)} --a {arg(a)}', f'-a {arg(a)} -b {arg(b)}', f'-b {arg(b)} --a {arg(a)}', f'--a {arg(a)} {arg(b)}']
                return rng.choice(forms[:5])
            texts = [r() for _ in range(3)]
        else:
            chosen, anons = pick(rng, op)
            if op == 'ls' and anons and len(anons) != len({v.value for v in anons}):
                pass
            texts = [render(rng, op, chosen, anons, info) for _ in range(3)]
        return {'kind': 'render', 'op': op, 'texts': texts, 'combined': bool(info.get('combined'))}
    kind, args = illegal(rng, op)
    place = rng.choice(['before-file', 'before-store', 'before-pickle', 'before-redirect', 'before-append', 'after-file', 'after-pickle', 'after-note', 'after-file',
                        'after-csv', 'assign', 'alone', 'middle'])
    return {'kind': 'reject', 'op': op, 'why': kind, 'args': args, 'place': place}


def illegal(rng, op):
    if op == 'pipeline':
        return rng.choice(ILLEGAL[op])
    s = SPEC[op]
    kinds = []
    flags = s['flags']
    if flags:
        kinds += ['unknown', 'unknown', 'dup', 'order']
        if any(f[2] for f in flags.values()):
            kinds += ['missing', 'missing']
        if any(len([n for n in g if n != 'anon']) > 1 for g in s.get('excl', [])) or 'exactly' in s:
            kinds += ['exclusive', 'exclusive']
    if not (s.get('rest') or op in ('read', 'red', 'cast', 'case', 'union', 'intersect')):
        kinds.append('many')
    if s['amin'] > 0 and op not in ('intersect', 'red', 'cast', 'gen', 'write'):
        kinds.append('few')
    if op in ILLEGAL:
        kinds += ['table'] * 3
    k = rng.choice(kinds)
    if k == 'table':
        return rng.choice(ILLEGAL[op])
    for _ in range(200):
        chosen, anons = pick(rng, op)
        base = [flag_tokens(rng, flags[n], v, op) for n, v in chosen]
        an = [render_value(rng, v) for v in anons]
        pos = rng.randrange(len(base) + 1)
        if k == 'unknown':
            letters = [c for c in 'zqyxwvu9' if '-' + c not in [f[0] for f in flags.values()]]
            base.insert(pos, rng.choice(['-' + rng.choice(letters), '--zzz', '--' + 'nosuchflag', '-' + rng.choice([f[0] for f in flags.values()])[1] + letters[0]]))
            return k, ' '.join(base + an)
        if k == 'dup' and chosen:
            n, v = rng.choice(chosen)
            base.insert(pos, flag_tokens(rng, flags[n], v, op))
            return k, ' '.join(base + an)
        if k == 'order' and an:
            n = rng.choice([n for n in flags if n not in [c[0] for c in chosen]] or list(flags))
            v = flags[n][2](rng) if flags[n][2] else None
            return k, ' '.join(base + an + [flag_tokens(rng, flags[n], v, op)])
        if k == 'missing':
            valued = [n for n in flags if flags[n][2] and n not in [c[0] for c in chosen]]
            if valued:
                n = rng.choice(valued)
                novalue = [n2 for n2, v in chosen if v is None]
                if novalue and rng.random() < 0.6:
                    # followed by another flag
                    others = [flag_tokens(rng, flags[n2], v, op) for n2, v in chosen if n2 != novalue[0]]
                    return k, ' '.join(others + [flag_text(rng, flags[n]), flag_text(rng, flags[novalue[0]])] + an)
                return k, ' '.join(base + [flag_text(rng, flags[n])])
        if k == 'exclusive':
            groups = [[n for n in g if n != 'anon'] for g in s.get('excl', [])]
            groups = [g for g in groups if len(g) > 1]
            if op == 'window':
                a, b = rng.sample(['o', 'd', 'anon'], 2)
                toks = [flag_tokens(rng, flags[n], flags[n][2](rng), op) for n in (a, b) if n != 'anon']
                rng.shuffle(toks)
                return k, rng.choice([' '.join(toks + ([render_value(rng, V(*ODD))] if 'anon' in (a, b) else [])), ''])
            g = rng.sample(rng.choice(groups), 2)
            rest = [flag_tokens(rng, flags[n], v, op) for n, v in chosen if n not in g]
            toks = rest + [flag_tokens(rng, flags[n], flags[n][2](rng) if flags[n][2] else None, op) for n in g]
            rng.shuffle(toks)
            return k, ' '.join(toks + an)
        if k == 'many':
            full = [a(rng) for a in s['anon']]
            if 'exactly' in s:
                return k, ' '.join([render_value(rng, v) for v in full] * 2)
            extra = render_value(rng, full[-1] if full else V('int', 3))
            keep = [] if op == 'env' else base
            return k, ' '.join(keep + [render_value(rng, v) for v in full] + [extra])
        if k == 'few':
            n = s['amin'] - 1
            return k, ' '.join(base + [render_value(rng, a(rng)) for a in s['anon'][:n]])
    return rng.choice(ILLEGAL.get(op) or [('unknown', '--zzz a b c d e f')])


def flag_tokens(rng, flag, v, op):
    t = flag_text(rng, flag)
    if v is not None:
        if op == 'write' and v.kind == 'str':
            v = V('word', v.value)
        t += ' ' + render_value(rng, v)
    return t


def files(work):
    out = {}
    for d, _, fs in os.walk(work):
        out[d] = None
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                out[p] = fh.read()
    return out


def make_files(work):
    os.makedirs(os.path.join(work, 'sub', 'deep'), exist_ok=True)
    for n, t in (('data.csv', 'h1,h2\n1,2\n3,4\n'), ('t.txt', 'one\ttwo\nthree\tfour\n'), ('sub/s.txt', 's1\n'), ('sub/deep/d.txt', 'd1\n')):
        with open(os.path.join(work, n), 'w') as f:
            f.write(t)


def start(box):
    make_files(box.work)
    s = Session(box)
    for line in SETUP.strip().split('\n'):
        r = s.run(line)
        assert not r.err and not r.exc, (line, r)
    return s


def varstate(s):
    out = {}
    for k, v in dict(s.env.vars().items()).items():
        try:
            out[k] = repr(v) if not callable(v) else str(type(v))
        except Exception as e:
            out[k] = type(v).__name__
    return out


def tapped(op, text):
    s = SPEC.get(op, {})
    if s.get('sink'):
        return text
    return text + ' | ' + s.get('tap', TAP)


def command(op, args, sep=' | '):
    if op == 'pipeline':
        return f'gen 2 | p2 {args}'
    s = SPEC[op]
    return (s['input'] + sep if s['input'] else '') + f'{op} {args}'.strip()


def run(case, mon, box):
    op = case['op']
    mon.count('op:' + op)
    if case['kind'] == 'render':
        mon.count('render')
        if case['combined']:
            mon.count('combined-flags')
        results = []
        for text in case['texts']:
            # each rendering in the same initial state
            for f in os.listdir(box.work):
                if f not in ('data.csv', 't.txt', 'sub'):
                    os.unlink(os.path.join(box.work, f))
            with open(os.path.join(box.work, 'A'), 'w') as f:
                f.write('before\n')
            if not results:
                s = start(box)
                cwd = os.getcwd()
            else:
                for line in ('n3 = (3)', "strA = ('A')", 'env -d newres', 'env -d mm', 'env -d pp', 'env -d math', 'env -d pi', 'env -d tau'):
                    s.run(line)
            s.run('gen 3 7 >$ res')
            cmd = tapped(op, command(op, text))
            r = s.run(cmd)
            after = {}
            for v in ('res', 'newres'):
                if v in dict(s.env.vars().items()):
                    after[v] = s.run(f'{v} <$ map (*x: repr(x))').out
            for v in ('mm', 'pp', 'math', 'pi', 'tau', 'n3', 'strA'):
                try:
                    after[v] = repr(s.env.getvar(v))
                except Exception as e:
                    after[v] = type(e).__name__
            mon.check(r.exc is None and not r.err, 'legal arguments rejected', {'command': cmd, 'result': repr(r)})
            results.append((cmd, r.lines, files(box.work), after))
        first = results[0]
        for other in results[1:]:
            if other[0] != first[0]:
                mon.nontrivial((first[0], other[0]))
            for k, what in ((1, 'output'), (2, 'files'), (3, 'variables')):
                mon.check(first[k] == other[k], 'two spellings of the same arguments differ in ' + what,
                          {'a': first[0], 'b': other[0], 'a result': repr(first[k])[-800:], 'b result': repr(other[k])[-800:]})
        if mon.sample is None:
            mon.sample = {'commands': [r[0] for r in results], 'output': first[1][:4]}
        return
    mon.count('reject')
    mon.count('reject:' + case['why'])
    s = start(box)
    for line in ('gen 5 | write keep', 'gen 5 | write --pickle keepp', 'gen 7 >$ res', 'pk = (| gen 1 |)'):
        r = s.run(line)
        assert not r.err and r.exc is None, (line, r)
    place = case['place']
    takes_input = op == 'pipeline' or SPEC[op]['input'] is not None
    bad = command(op, case['args'])
    if SPEC.get(op, {}).get('sink') and place.startswith('before'):
        place = 'after-file'
    if not takes_input and (place.startswith('after') or place == 'middle'):
        place = 'before-file' if not SPEC[op].get('sink') else 'alone'
    own = f'{op} {case["args"]}'.strip() if op != 'pipeline' else f'p2 {case["args"]}'
    stream = 'gen 2' if op == 'pipeline' else SPEC[op]['input']
    cmd = {'before-file': f'{bad} | write keep',
           'before-store': f'{bad} >$ res',
           'before-pickle': f'{bad} | write --pickle keepp',
           'before-redirect': f'{bad} > keep',
           'before-append': f'{bad} >> keep',
           'after-file': f'{stream} | write keep | {own}',
           'after-pickle': f'{stream} | write -p keepp | {own}',
           'after-csv': f'{stream} | write -c newfile | {own}',
           'after-note': f'{stream} | map (*x: note(x)) | {own}',
           'middle': f'{stream} | map (*x: note(x)) | write -a keep | {own} | write --tsv newfile',
           'assign': f'{bad} | write keep',
           'alone': bad}[place]
    if SPEC.get(op, {}).get('sink') and place == 'middle':
        cmd = f'{stream} | map (*x: note(x)) | write -a keep | {own}'
    before_files, before_vars = files(box.work), varstate(s)
    mon.count('after-effect' if place.startswith('after') or place == 'middle' else 'before-effect')
    r = s.run(cmd)
    detail = {'command': cmd, 'why': case['why'], 'result': repr(r)}
    mon.nontrivial(cmd)
    mon.check(r.exc is None, 'illegal arguments ended the session', detail)
    mon.check(r.err.strip() != '', 'illegal arguments not reported', detail)
    mon.check(r.out == '', 'a command with illegal arguments produced output', detail)
    after_files, after_vars = files(box.work), varstate(s)
    mon.check(after_files == before_files, 'a command with illegal arguments changed files',
              dict(detail, changed=[k for k in set(after_files) | set(before_files) if after_files.get(k, 0) != before_files.get(k, 0)]))
    diff = {k: (before_vars.get(k), after_vars.get(k)) for k in set(before_vars) | set(after_vars) if before_vars.get(k) != after_vars.get(k)}
    mon.check(not diff, 'a command with illegal arguments changed variables', dict(detail, changed=repr(diff)[:600]))
    r2 = s.run('res <$ map (*x: repr(x))')
    mon.check(r2.lines == [f'({i},)' for i in range(7)], 'a command with illegal arguments changed a reservoir', dict(detail, reservoir=repr(r2)))
    r2 = s.run('gen 2 >$ res')
    r3 = s.run('res <$ map (x: x + 1)')
    r4 = s.run('gen 1 | write -p keepp')
    mon.check(r3.lines == ['1', '2'] and not r2.err and not r4.err, 'after a command with illegal arguments, later commands fail',
              dict(detail, later=repr((r2, r3, r4))))
