"""Reference definitions of the single-input stream operators, written from marcel's documentation.
A stream is a list of items; an item is a tuple or a list of components."""


def wrap(x):
    return x if type(x) in (tuple, list) else (x,)


def unwrap(x):
    return x[0] if len(x) == 1 else x


def gen(count, start=0, pad=None):
    return [((f'{i:0>{pad}}' if pad else i),) for i in range(start, start + count)]


def map_(items, f):
    return [wrap(f(*x)) for x in items]


def map_pos(items):
    return [(i,) + tuple(x) for i, x in enumerate(items)]


def select(items, f):
    return [x for x in items if f(*x)]


def head(items, n):
    return items[:n] if n > 0 else items[-n:]


def tail(items, n):
    return items[max(0, len(items) - n):] if n > 0 else items[:max(0, len(items) + n)]


def reverse(items):
    return items[::-1]


def sort(items, key=None):
    return sorted(items) if key is None else sorted(items, key=lambda x: key(*x))


def unique(items, consecutive=False):
    out = []
    if consecutive:
        if len({type(x) for x in items}) > 1:
            raise TypeError('equality of a list and a tuple item is unspecified')
        for i, x in enumerate(items):
            if i == 0 or items[i - 1] != x:
                out.append(x)
    else:
        seen = set()
        for x in items:
            if tuple(x) not in seen:
                seen.add(tuple(x))
                out.append(x)
    return out


def components(x):
    """What a value expands to: a list of parts, or None if it does not expand."""
    if isinstance(x, (list, tuple)):
        return list(x)
    if isinstance(x, dict):
        return list(x.items())
    if isinstance(x, range):
        return None
    return None


def expand(items, pos=None):
    out = []
    for x in items:
        if pos is None:
            parts = components(x[0]) if len(x) == 1 else list(x)
            out.extend([x] if parts is None and len(x) == 1 else [wrap(p) for p in (parts or [])])
        elif pos >= len(x):
            out.append(x)
        else:
            parts = components(x[pos])
            parts = [x[pos]] if parts is None else parts
            for p in parts:
                mid = (p,) if type(x) is tuple else [p]
                out.append(x[:pos] + mid + x[pos + 1:])
    return out


def window_pred(items, f):
    out = []
    for x in items:
        if f(*x) or not out:
            out.append([])
        out[-1].append(unwrap(x))
    return [tuple(g) for g in out]


def window_overlap(items, n):
    u = [unwrap(x) for x in items] + [None] * (n - 1)
    return [tuple(u[i:i + n]) for i in range(len(items))]


def window_disjoint(items, n):
    u = [unwrap(x) for x in items]
    out = []
    for i in range(0, len(u), n):
        g = u[i:i + n]
        out.append(tuple(g + [None] * (n - len(g))))
    return out


def cast(items, types):
    return [tuple((None if v is None else types[i](v)) if i < len(types) else v for i, v in enumerate(x)) for x in items]
