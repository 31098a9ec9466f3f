"""C02: reductions. Oracle: per-group left folds computed by an independent definition."""
import functools, operator
import model, streams
from session import Session, TAP, stream_text, parse_out, show

ID = 'C02'
LEVEL = 'exploration'
RULE = ('Random streams of tuples/lists/scalars, each component typed, through red with random vectors of predefined, lambda and named reducers and '
        'group markers (incremental or not, followed by buffering operators), and through squish. Non-trivial: two or more items reduced '
        'into some group; keyed by (command, data).')
ASSUMPTIONS = ['None is not used as a data value of a fold other than count/concat, because the folds represent "nothing yet" as None',
               'a fold over an empty, ungrouped, non-incremental stream is reported as None (0 for count)']
N = {'quick': 1500, 'thorough': 30000}
REQUIRED = ['items_observed', 'incremental', 'grouped', 'grouped_incremental', 'empty_streams', 'squish', 'list_items', 'multi_function']

FOLD = {'+': operator.add, '*': operator.mul, '^': operator.xor, '&': operator.and_, '|': operator.or_,
        'and': lambda a, b: a and b, 'or': lambda a, b: a or b, 'max': max, 'min': min}
KINDS = {'int': ['+', '*', '^', '&', '|', 'max', 'min', 'and', 'or', 'count', 'concat', 'lam_sum', 'lam_last', 'lam_list', 'named'],
         'str': ['+', 'max', 'min', 'count', 'concat', 'and', 'or', 'lam_last', 'lam_list'],
         'float': ['max', 'min', 'count', 'concat', 'lam_last'],
         'bool': ['and', 'or', 'count', 'concat', '&', '|', '^'],
         'list': ['+', 'count', 'concat'],
         'none': ['count', 'concat']}
LAM = {'lam_sum': '(a, b: b if a is None else a + b)', 'lam_last': '(a, b: b)',
       'lam_list': '(a, b: [b] if a is None else a + [b])', 'named': 'mysum'}


def value(rng, kind):
    if kind == 'int':
        return rng.choice([0, 1, 2, 3, -1, -4, 7, 255, 10 ** 15, rng.randrange(-9, 9)])
    if kind == 'str':
        return rng.choice(['', 'a', 'b', 'xyz', 'é', ' ', '.', '0'])
    if kind == 'float':
        return rng.choice([0.5, -1.25, 3.0, 1e20])
    if kind == 'bool':
        return rng.random() < 0.5
    if kind == 'list':
        return [rng.randrange(5) for _ in range(rng.randrange(0, 3))]
    return None


def fold(f, values):
    if f == 'count':
        return len(values)
    if f == 'concat':
        return list(values)
    if f in ('lam_sum', 'named'):
        return sum(values)
    if f == 'lam_last':
        return values[-1]
    if f == 'lam_list':
        return list(values)
    return functools.reduce(FOLD[f], values)


def red(items, fs, incremental):
    gpos = [i for i, f in enumerate(fs) if f == '.']
    groups = {}
    out = []
    for x in items:
        g = tuple(x[i] for i in gpos)
        groups.setdefault(g, []).append(x)
        if incremental:
            out.append(tuple(x) + tuple(fold(f, [y[i] for y in groups[g]]) for i, f in enumerate(fs) if f != '.'))
    if incremental:
        return out
    if not items:
        return [] if gpos else [tuple(0 if f == 'count' else None for f in fs)]
    return [tuple(xs[0][i] if f == '.' else fold(f, [y[i] for y in xs]) for i, f in enumerate(fs)) for xs in groups.values()]


def one(rng):
    if rng.random() < 0.2:
        kind = rng.choice(['int', 'str', 'float', 'bool', 'list'])
        fs = [f for f in KINDS[kind]]
        f = rng.choice(fs + [None] if '+' in fs else fs)
        data = []
        for _ in range(streams.length(rng)):
            comps = [value(rng, kind) for _ in range(rng.randrange(1, 6))]
            if kind == 'list' and len(comps) == 1:
                comps = comps * 2
            data.append(rng.choice([tuple, list])(comps))
        items = [model.wrap(x) for x in data]
        expect = [model.wrap(fold(f or '+', list(x))) for x in items]
        text = 'squish' + ('' if f is None else ' ' + spell(f))
        return {'data': repr(data), 'src': stream_text(data), 'op': text, 'post': '', 'expect': [show(x) for x in expect],
                'tags': ['squish'], 'nt': any(len(x) > 1 for x in items)}
    while True:
        nf = rng.choice([1, 1, 2, 2, 3, 4])
        kinds = [rng.choice(list(KINDS)) for _ in range(nf)]
        fs = []
        for k in kinds:
            if k in ('int', 'str', 'bool', 'none') and rng.random() < (0.35 if nf > 1 else 0.15):
                fs.append('.')
            else:
                fs.append(rng.choice(KINDS[k]))
        break
    extra = rng.choice([0, 0, 0, 1, 2])
    incremental = rng.random() < 0.4
    data = []
    seq = rng.choice([tuple, tuple, tuple, list])
    small = {k: [value(rng, k) for _ in range(3)] for k in KINDS}
    for _ in range(streams.length(rng, big=True) if '*' not in fs and '+' not in fs else streams.length(rng)):
        comps = [rng.choice(small[k]) if f == '.' else value(rng, k) for k, f in zip(kinds, fs)]
        comps += [rng.choice(['X', 1, None]) for _ in range(extra)]
        data.append(comps[0] if len(comps) == 1 and kinds[0] != 'list' and rng.random() < 0.5 else seq(comps))
    items = [model.wrap(x) for x in data]
    out = red(items, fs, incremental)
    text = 'red ' + (rng.choice(['-i ', '--incremental ']) if incremental else '') + ' '.join(spell(f) for f in fs)
    post, r = '', rng.random()
    if r < 0.15:
        post, out = 'reverse', out[::-1]
    elif r < 0.3:
        post, out = 'map (*x: (x,)) | red concat | expand', [x for x in out] if out else None
        if out is None:
            post, out = '', red(items, fs, incremental)
    elif r < 0.35:
        post, out = 'red count', [(len(out),)]
    tags = (['multi_function'] if nf > 1 else []) + (['incremental'] if incremental else []) + (['grouped'] if '.' in fs else []) \
        + (['grouped_incremental'] if incremental and '.' in fs else []) + (['list_items'] if seq is list and data else [])
    return {'data': repr(data), 'src': stream_text(data), 'op': text, 'post': post, 'expect': [show(x) for x in out],
            'tags': tags, 'nt': len(out) < len(data) or incremental and len(data) > 1}


def spell(f):
    return LAM.get(f, '\\|' if f == '|' else f)


def gen(rng, i, tier):
    return {'programs': [one(rng) for _ in range(5)]}


def fixed_cases(tier):
    ps = []
    for n in range(0, 4):
        items = [(i + 1,) for i in range(n)]
        for f in KINDS['int']:
            for inc in (False, True):
                ps.append({'data': repr([x[0] for x in items]), 'src': stream_text(items), 'op': f'red {"-i " if inc else ""}{spell(f)}',
                           'post': '', 'expect': [show(x) for x in red(items, [f], inc)], 'tags': [], 'nt': n > 1})
    return [{'programs': ps[k:k + 30]} for k in range(0, len(ps), 30)]


def run(case, mon, box):
    s = Session(box, config='from marcel.builtin import *\ndef mysum(a, b):\n    return b if a is None else a + b\n')
    for p in case['programs']:
        s.run(f'DATA = ({p["data"]})')
        text = ' | '.join(x for x in (p['src'], p['op'], p['post']) if x)
        r = s.run(text + ' | ' + TAP)
        got = parse_out(r)
        for t in p['tags']:
            mon.count(t)
        mon.count('empty_streams', p['src'].startswith('gen 1 | select'))
        mon.count('items_observed', len(got))
        mon.see('reducer_vectors', p['op'])
        kind = p['op'].split()[0] + (':incremental' if 'incremental' in p['tags'] else '') + (':grouped' if 'grouped' in p['tags'] else '')
        ok = mon.check(got == p['expect'] and not r.err and r.exc is None, f'wrong-fold:{kind}', 'reduction differs from the fold',
                       command=text, data=p['data'], expected=p['expect'], got=got, err=r.err, exc=r.exc)
        if ok and p['nt']:
            mon.nontrivial((text, p['data']))
        if mon.sample is None:
            mon.sample = {'data': p['data'][:300], 'command': text, 'output': got[:6]}
    s.close()
