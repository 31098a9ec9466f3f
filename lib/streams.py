"""Random streams and random operator applications with their reference results."""
import model

STR = ['', 'a', 'b', 'abc', 'B', ' ', 'x y', "it's", '"q"', 'é', '\u4e2d', 'tab\there', 'nl\nx', '|', '(', '#', '0', '10', '\\', 'None']


def scalar(rng, kind=None):
    kind = kind or rng.choice(['int', 'int', 'str', 'float', 'none', 'bool'])
    if kind == 'int':
        return rng.choice([0, 1, 2, 3, 5, -1, -2, 7, 10, 100, 10 ** 12, rng.randrange(-20, 20)])
    if kind == 'str':
        return rng.choice(STR)
    if kind == 'float':
        return rng.choice([0.0, 1.5, -2.25, 1e30, 3.0])
    if kind == 'bool':
        return rng.random() < 0.5
    return None


def length(rng, big=False):
    r = rng.random()
    if r < 0.12:
        return 0
    if r < 0.25:
        return 1
    if r < 0.40:
        return 2
    if r < 0.90:
        return rng.randrange(3, 12)
    if r < 0.985 or not big:
        return rng.randrange(12, 60)
    return rng.randrange(200, 1500)


def stream(rng, big=False, shape=None):
    """A list of python values; each is one item of the stream."""
    n = length(rng, big)
    shape = shape or rng.choice(['int', 'int', 'str', 'mixed', 'pair', 'pair', 'triple', 'ragged', 'nested', 'list', 'dup', 'dup', 'kv'])
    s = scalar
    if shape == 'int':
        return [s(rng, 'int') for _ in range(n)]
    if shape == 'str':
        return [s(rng, 'str') for _ in range(n)]
    if shape == 'mixed':
        return [s(rng) for _ in range(n)]
    if shape == 'pair':
        return [(s(rng, 'int'), s(rng)) for _ in range(n)]
    if shape == 'triple':
        return [(s(rng, 'str'), s(rng, 'int'), s(rng)) for _ in range(n)]
    if shape == 'ragged':
        return [tuple(s(rng) for _ in range(rng.randrange(1, 4))) for _ in range(n)]
    if shape == 'nested':
        return [(s(rng), [s(rng) for _ in range(rng.randrange(0, 4))], s(rng, 'int')) for _ in range(n)]
    if shape == 'list':
        return [[s(rng, 'int') for _ in range(rng.randrange(1, 4))] for _ in range(n)]
    if shape == 'dup':
        pool = [s(rng) for _ in range(3)]
        return [rng.choice(pool) for _ in range(n)]
    if shape == 'kv':
        return [(rng.choice('abc'), rng.randrange(5)) for _ in range(n)]
    raise AssertionError(shape)


MAPS = ['*x: x', '*x: len(x)', '*x: tuple(reversed(x))', '*x: (len(x),) + tuple(x)', '*x: [x]', '*x: repr(x)',
        '*x: x[0] if x else None', '*x: (x, x)', '*x: list(x)', '*x: {"k": list(x)}', '*x: (tuple(x),)', '*x: None', '*x: ()',
        'x: x', 'x: (x, x)', 'x: str(x)', 'x: x + x', 'x: x * 2', 'x: x + 1', 'x: -x', 'x: (x % 3, x)', 'x: [x, [x], x]',
        'x, y: (y, x)', 'x, y: x', 'x, y: y', 'x, y: (x, [y, y])', 'x, y: x + y', 'x, y, z: (z, y, x)', 'x, y, z: y',
        '*x: {"p": 1, "q": x}', "*x: ','.join(str(c) for c in x)", '*x: [a for a in x if a]']
PREDS = ['*x: len(x) > 1', "*x: repr(x) < '(3'", 'x: x', 'x: x % 2 == 0', 'x: x > 2', '*x: x[0]', '*x: bool(x) and x[0] is None',
         '*x: True', '*x: False', '*x: isinstance(x[0], str)', 'x, y: x == y', 'x, y: x', '*x: hash(repr(x)) % 2 == 3', 'x: not x',
         "*x: x", "*x: len(repr(x)) % 2", "x: x is not None"]
KEYS = ['*x: repr(x)', '*x: len(x)', '*x: 0', 'x: -x', 'x: x % 3', 'x: str(x)', 'x, y: x', 'x, y: y', '*x: x[-1]', 'x: abs(x)']


def fn(text):
    return eval('lambda ' + text)


def num(rng, n):
    """Spelling of an integer argument."""
    r = rng.random()
    if r < 0.6:
        return str(n)
    if r < 0.8:
        return f'({n})'
    return f'({n - 1} + 1)'


class NotApplicable(Exception):
    pass


def apply_op(rng, items, op):
    """(text, result items) or raises."""
    n = len(items)
    if op == 'map':
        f = rng.choice(MAPS)
        return rng.choice(['map (%s)', '(%s)', 'map (lambda %s)']) % f, model.map_(items, fn(f))
    if op == 'mappos':
        return 'map (*x: (pos(),) + tuple(x))', model.map_pos(items)
    if op == 'select':
        f = rng.choice(PREDS)
        return f'select ({f})', model.select(items, fn(f))
    if op in ('head', 'tail'):
        k = rng.choice([1, 2, 3, max(1, n - 1), max(1, n), n + 1, n + 5, rng.randrange(1, 8)]) * rng.choice([1, 1, -1])
        return f'{op} {num(rng, k)}', getattr(model, op)(items, k)
    if op == 'reverse':
        return 'reverse', model.reverse(items)
    if op == 'sort':
        if rng.random() < 0.5:
            return 'sort', model.sort(items)
        k = rng.choice(KEYS)
        return f'sort ({k})', model.sort(items, fn(k))
    if op == 'unique':
        if rng.random() < 0.5:
            return 'unique', model.unique(items)
        return f'unique {rng.choice(["-c", "--consecutive"])}', model.unique(items, True)
    if op == 'expand':
        if rng.random() < 0.5:
            if any(len(x) == 1 and isinstance(x[0], (str, set)) for x in items):
                raise NotApplicable
            return 'expand', model.expand(items)
        k = rng.randrange(0, 4)
        if any(len(x) > k and isinstance(x[k], (str, set)) for x in items):
            raise NotApplicable
        return f'expand {num(rng, k)}', model.expand(items, k)
    if op == 'window':
        r = rng.random()
        k = rng.choice([1, 2, 3, 4, max(1, n), n + 1, n + 2])
        if k > 80:
            k = 7
        if r < 0.35:
            f = rng.choice(PREDS)
            return f'window ({f})', model.window_pred(items, fn(f))
        if r < 0.7:
            return f'window {rng.choice(["-o", "--overlap"])} {num(rng, k)}', model.window_overlap(items, k)
        return f'window {rng.choice(["-d", "--disjoint"])} {num(rng, k)}', model.window_disjoint(items, k)
    if op == 'cast':
        types = [rng.choice(['str', 'int', 'float', 'bool', 'repr', 'str']) for _ in range(rng.randrange(1, 4))]
        import builtins
        return 'cast ' + ' '.join(types), model.cast(items, [getattr(builtins, t) for t in types])
    raise AssertionError(op)


OPS = ['map', 'map', 'mappos', 'select', 'select', 'head', 'tail', 'reverse', 'sort', 'unique', 'expand', 'window', 'window', 'cast']


def program(rng, items, nops, ops=OPS, limit=4000):
    """A random applicable sequence of operators with reference result: ([texts], items)"""
    texts = []
    tries = 0
    while len(texts) < nops and tries < 40:
        tries += 1
        try:
            text, out = apply_op(rng, items, rng.choice(ops))
            if len(out) > limit or sum(len(repr(x)) for x in out[:50]) > 40000:
                continue
        except Exception:
            continue
        texts.append(text)
        items = out
    return texts, items
