"""C03: bag, set and relational operators over several streams, against multiset definitions."""
from collections import Counter
import model, streams
from session import Session, TAP, stream_text, parse_out, show

ID = 'C03'
LEVEL = 'exploration'
RULE = ('Random left and right streams (duplicates, empties, None, tuples, lists on the left) through union/intersect/difference/join/filter with '
        'inline, stored, and parameterised argument pipelines, nested in each other and followed or preceded by buffering operators; outputs compared as '
        'bags with multiset definitions (join and filter also in left order). Non-trivial: both sides non-empty and sharing a value.')
ASSUMPTIONS = ['order of union, intersect and difference output is unspecified and compared as a bag; join and filter keep left order',
               'items are hashable, as documented']
N = {'quick': 1500, 'thorough': 30000}
REQUIRED = ['union', 'intersect', 'difference', 'join', 'join_keep', 'filter_keep', 'filter_discard', 'filter_compare', 'nested', 'stored',
            'empty_left', 'empty_right', 'three_way', 'post', 'pre', 'list_items']

POOLS = [[1, 2, 3, 'a', 'b', None], [0, 1, 2], ['x', '', ' y', "q'"], [(1, 2), (1, 3), (2, 1), (None, 1)], [(1,), (1, 2), 3, None, ('a', None)],
         [None, 0, 7, '']]


def side(rng, pool, lists=False):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 30])
    out = [rng.choice(pool) for _ in range(n)]
    if lists:
        out = [list(x) if type(x) is tuple and rng.random() < 0.5 else x for x in out]
    return out


def kv(rng):
    return [rng.choice([(rng.choice([1, 2, 3, 'k', None]), rng.choice('abc')), (rng.choice([1, 2, 3]), rng.randrange(3), rng.choice('xyz')),
                        (rng.choice([1, 5, 6, None]),)]) for _ in range(rng.choice([0, 1, 2, 4, 8, 20]))]


def bag(items):
    return Counter(tuple(model.wrap(x)) for x in items)


def binop(rng, left, lists_ok=True):
    """(text, datas, expected items, ordered, tags) for one operator applied to the item list left"""
    op = rng.choice(['union', 'union', 'intersect', 'difference', 'join', 'filter', 'filter'])
    if any(type(x) is list for x in left) and op not in ('union', 'join'):
        raise ValueError
    datas = []

    def arg(data):
        datas.append(data)
        return stream_text(data, f'R{len(datas)}_@')
    pool = [x if type(x) is not list else tuple(x) for x in left] + [1, 'zz', None]
    if op == 'union':
        k = rng.choice([1, 1, 2, 3])
        rights = [side(rng, pool) for _ in range(k)]
        out = list(left)
        for r in rights:
            out += [tuple(model.wrap(x)) for x in r]
        return 'union ' + ' '.join('(| %s |)' % arg(r) for r in rights), datas, out, False, ['union'] + (['three_way'] if k > 1 else [])
    if op == 'intersect':
        k = rng.choice([1, 1, 2])
        rights = [side(rng, pool) for _ in range(k)]
        b = bag(left)
        for r in rights:
            b &= bag(r)
        return 'intersect ' + ' '.join('(| %s |)' % arg(r) for r in rights), datas, list(b.elements()), False, ['intersect'] + (['three_way'] if k > 1 else [])
    if op == 'difference':
        r = side(rng, pool)
        return 'difference (| %s |)' % arg(r), datas, list((bag(left) - bag(r)).elements()), False, ['difference']
    if op == 'join':
        r = [x for x in kv(rng)]
        firsts = [model.wrap(x)[0] for x in left if len(model.wrap(x))]
        if len(firsts) < len(left):
            raise ValueError
        r += [(rng.choice(firsts), rng.randrange(3)) for _ in range(rng.randrange(0, 4))] if firsts else []
        rng.shuffle(r)
        keep = rng.random() < 0.5
        out = []
        for x in left:
            x = tuple(x)
            m = [y for y in r if y[0] == x[0]]
            out += [x + y[1:] for y in m]
            if not m and keep:
                out.append(x)
        return 'join %s(| %s |)' % (rng.choice(['-k ', '--keep ']) if keep else '', arg(r)), datas, out, True, ['join_keep' if keep else 'join']
    f = rng.choice([None, None, '*x: x[0]', '*x: len(x)', '*x: (x[0], 1)', '*x: str(x[0])'])
    if f and any(len(x) == 0 for x in left):
        raise ValueError
    key = eval('lambda ' + f) if f else (lambda *x: tuple(x))
    keys = [tuple(model.wrap(key(*x))) for x in left]
    r = side(rng, keys + [1, None, ('q', 2)])
    mode = rng.choice(['', '-k ', '--keep ', '-d ', '--discard '])
    rs = {tuple(model.wrap(x)) for x in r}
    disc = 'd' in mode
    out = [tuple(x) for x, k in zip(left, keys) if (k in rs) != disc]
    ftext = f'{rng.choice(["-c", "--compare"])} ({f}) ' if f else ''
    flags = mode + ftext if rng.random() < 0.5 else ftext + mode
    return f'filter {flags}(| {arg(r)} |)', datas, out, True, ['filter_discard' if disc else 'filter_keep'] + (['filter_compare'] if f else [])


def one(rng, i):
    lists = rng.random() < 0.2
    left = side(rng, rng.choice(POOLS), lists) if rng.random() < 0.7 else kv(rng)
    tags = []
    if lists and any(type(x) is list for x in left):
        tags.append('list_items')
    items = [model.wrap(x) for x in left]
    datas, texts, ordered = [('L', left)], [stream_text(left, 'L')], True
    nt = False
    if rng.random() < 0.25:
        t, items = rng.choice([('tail 3', model.tail(items, 3)), ('reverse', model.reverse(items)), ('tail -1', model.tail(items, -1)),
                               ('window -o 2', model.window_overlap(items, 2)) if all(not isinstance(c, list) for x in items for c in x)
                               and not lists else ('reverse', model.reverse(items))])
        texts.append(t)
        tags.append('pre')
    stored = []
    for level in range(rng.choice([1, 1, 1, 2, 2, 3])):
        text, ds, out, o, tg = binop(rng, items)
        if len(out) > 3000:
            break
        if level:
            tags.append('nested')
        if rng.random() < 0.25 and not any(type(d) is str for d in ds):
            # argument pipelines held in variables
            k = 0
            while '(| ' in text:
                a = text.index('(| ')
                b = text.index(' |)') + 3
                name = f'p{level}_{k}'
                stored.append(f'{name} = ' + text[a:b].replace('_@', f'_{level}'))
                text = text[:a] + name + text[b:]
                k += 1
            tags.append('stored')
        text = text.replace('_@', f'_{level}')
        for j, d in enumerate(ds):
            datas.append((f'R{j + 1}_{level}', d))
            tags.append('empty_right' if not d else 'right')
        nt = nt or bool(items and any(ds))
        texts.append(text)
        items, ordered, tags = out, ordered and o, tags + tg
    if not left:
        tags.append('empty_left')
    if rng.random() < 0.3:
        post = rng.choice(['red count', 'map (*x: repr(x)) | sort', 'map (*x: repr(x)) | sort | window -d 3', 'map (*x: repr(x)) | sort | tail 2'])
        texts.append(post)
        tags.append('post')
        srt = [(c,) for c in sorted(repr(tuple(x)) for x in items)]
        items = [(len(items),)] if post == 'red count' else srt if post.endswith('sort') else \
            model.window_disjoint(srt, 3) if 'window' in post else model.tail(srt, 2)
        ordered = True
    return {'datas': [(n, repr(d)) for n, d in datas], 'stored': stored, 'text': ' | '.join(texts), 'expect': [show(tuple(x)) for x in items],
            'ordered': ordered, 'tags': tags, 'nt': nt}


def gen(rng, i, tier):
    ps = []
    while len(ps) < 5:
        try:
            ps.append(one(rng, i))
        except (ValueError, TypeError):
            continue
    return {'programs': ps}


def run(case, mon, box):
    s = Session(box)
    for p in case['programs']:
        for n, d in p['datas']:
            s.run(f'{n} = ({d})')
        for t in p['stored']:
            s.run(t)
        r = s.run(p['text'] + ' | ' + TAP)
        got = parse_out(r)
        exp = p['expect']
        if not p['ordered']:
            got, exp = sorted(got), sorted(exp)
        for t in p['tags']:
            mon.count(t)
        mon.count('items_observed', len(got))
        ops = '+'.join(sorted(set(t for t in p['tags'] if t in ('union', 'intersect', 'difference', 'join', 'join_keep', 'filter_keep', 'filter_discard'))))
        mon.see('op_combinations', tuple(p['tags']))
        ok = mon.check(got == exp and not r.err and r.exc is None, f'wrong-items:{ops}', 'the output differs from the bag definition',
                       command=p['text'], datas=p['datas'], stored=p['stored'], expected=exp, got=got, err=r.err, exc=r.exc)
        if ok and p['nt']:
            mon.nontrivial((p['text'], p['datas']))
        if mon.sample is None:
            mon.sample = {'command': p['text'], 'data': p['datas'], 'output': got[:6]}
    s.close()
