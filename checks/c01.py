"""C01: single-input stream operators against reference definitions, on the command line, alone and composed."""
import model, streams
from session import Session, TAP, stream_text, parse_out, show

ID = 'C01'
LEVEL = 'exploration'
RULE = ('Random streams (empty to ~1500 items; scalars, tuples, lists, None, ragged, nested, duplicates) through random compositions of 1-6 '
        'operators with random legal arguments; the expected items come from independent reference definitions. Non-trivial: at least one '
        'operator changed the stream, keyed by (operator texts, input).')
ASSUMPTIONS = ['items are observed through a final repr-printing map, and in half of the cases also as written by the default output',
               'sets and lone strings are not given to expand (their expansion is unspecified)']
N = {'quick': 2600, 'thorough': 40000}
REQUIRED = ['items_observed', 'empty_streams', 'op:map', 'op:select', 'op:head', 'op:tail', 'op:reverse', 'op:sort', 'op:unique',
            'op:expand', 'op:window', 'op:cast', 'op:gen']
CASE_TIMEOUT = 90


def one(rng, first_op=None, nops=None):
    if rng.random() < 0.15:
        count, start = rng.randrange(1, 40), rng.choice([0, 1, -5, 95, 7])
        items = None
        if start >= 0 and rng.random() < 0.5:
            pad = len(str(start + count - 1)) + rng.randrange(0, 3)
            src = f'gen {rng.choice(["-p", "--pad"])} {streams.num(rng, pad)} {streams.num(rng, count)} {streams.num(rng, start)}'
            items = model.gen(count, start, pad)
        else:
            src = f'gen {streams.num(rng, count)} {streams.num(rng, start)}'
            items = model.gen(count, start)
        data = None
    else:
        data = streams.stream(rng, big=True)
        src = stream_text(data)
        items = [model.wrap(x) for x in data]
    start_items = items
    texts = []
    if first_op:
        for _ in range(30):
            try:
                t, items2 = streams.apply_op(rng, items, first_op)
                if len(items2) <= 4000:
                    texts, items = [t], items2
                    break
            except Exception:
                continue
    more, items = streams.program(rng, items, nops if nops is not None else rng.randrange(0, 5))
    texts += more
    return {'data': repr(data), 'src': src, 'ops': texts, 'expect': [show(x) for x in items],
            'raw': raw_lines(items) if rng.random() < 0.5 else None, 'changed': repr(items) != repr(start_items)}


def raw_lines(items):
    """What the default output writes for these items."""
    out = []
    for x in items:
        s = str(x[0] if len(x) == 1 else x)
        out.extend(s.split('\n'))
    return out


def gen(rng, i, tier):
    ops = sorted(set(streams.OPS))
    progs = [one(rng, ops[(i * 4 + k) % len(ops)], 0 if k < 2 else None) for k in range(4)]
    return {'programs': progs}


def fixed_cases(tier):
    """Boundary arguments around the stream length for every counted operator."""
    cases = []
    for n in range(0, 6):
        progs = []
        items = model.gen(n) if n else []
        src = f'gen {n}' if n else 'gen 1 | select (x: False)'
        for k in range(1, 8):
            for name, f in (('head', model.head), ('tail', model.tail)):
                for s in (1, -1):
                    progs.append((f'{name} {s * k}', f(items, s * k)))
            for spelled, f in (('window -o', model.window_overlap), ('window -d', model.window_disjoint)):
                progs.append((f'{spelled} {k}', f(items, k)))
        progs.append(('reverse', model.reverse(items)))
        progs.append(('sort (x: -x)', model.sort(items, lambda x: -x)))
        tails = [('', lambda x: x), ('window -o 2', lambda x: model.window_overlap(x, 2)), ('reverse', model.reverse),
                 ('sort', model.sort), ('tail 2', lambda x: model.tail(x, 2))]
        ps = []
        for t, its in progs:
            for t2, f2 in tails:
                try:
                    e = f2(its)
                except TypeError:
                    continue
                ps.append({'data': '[]', 'src': src, 'ops': [t] + ([t2] if t2 else []), 'expect': [show(x) for x in e],
                           'raw': None, 'changed': True})
        for k in range(0, len(ps), 30):
            cases.append({'programs': ps[k:k + 30]})
    return cases


def run(case, mon, box):
    s = Session(box)
    for p in case['programs']:
        judge(s, p, mon)
    s.close()


def judge(s, p, mon):
    if p['data'] not in ('None', '[]'):
        r = s.run(f'DATA = ({p["data"]})')
        mon.check(not r.out and not r.err and r.exc is None, 'assign', 'assigning the input data failed', data=p['data'], got=repr(r))
    text = ' | '.join([p['src']] + p['ops'])
    r = s.run(text + ' | ' + TAP)
    got = parse_out(r)
    for t in [p['src']] + p['ops']:
        for w in t.split(' | '):
            op = w.split()[0]
            mon.count('op:' + ('map' if op.startswith('(') else op))
    mon.count('items_observed', len(got))
    mon.count('empty_streams', p['src'].startswith('gen 1 | select'))
    mon.see('op_sequences', tuple(t.split()[0] for t in p['ops']))
    opname = p['ops'][-1].split()[0] if len(p['ops']) == 1 else 'composed'
    opname = 'map' if opname.startswith('(') else opname
    ok = mon.check(got == p['expect'] and r.exc is None and not r.err, f'wrong-output:{opname}',
                   'the output differs from the definition', command=text, data=p['data'],
                   expected=p['expect'], got=got, err=r.err, exc=r.exc)
    if p['raw'] is not None:
        r = s.run(text)
        mon.count('raw_outputs')
        mon.check(r.lines == p['raw'] and r.exc is None, f'wrong-text:{opname}', 'the written output differs from the definition',
                  command=text, data=p['data'], expected=p['raw'], got=r.lines, err=r.err, exc=r.exc)
    if ok and p['changed']:
        mon.nontrivial((p['data'], text))
    if mon.sample is None and p['ops']:
        mon.sample = {'data': p['data'][:300], 'command': text, 'output': got[:8]}
