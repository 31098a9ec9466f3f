"""C17: what is written to a file in a format, and then read in that format, is what was written; also files written by others, many files, labels, headings."""
import csv, io, json, os, pickle
import session
from session import MARK, TAP

ID = 'C17'
LEVEL = 'exploration'
RULE = ('Random streams (fields with separators, quotes, line separators, NULs, non-ASCII, empty and huge strings, any picklable value) are written in each format, to new and existing files, appending, '
        'by several writers in one command, with items that cannot be written; the stream passing through, the bytes present before, the files (parsed by the Python library) and the items read back are compared with the '
        'originals. Files not written by marcel (blank and ragged lines, no last newline, CRLF, unusual quoting, headers that are or are not identifiers, several with different headers, undecodable, damaged) are read '
        'singly and many at once, by name, pattern, directory and from ls, overlapping, with labels and headings; the records must be those of the Python csv, json and pickle modules for each file once in order, and a '
        'file that cannot be read is reported without affecting others. Non-trivial: a file read back, keyed by format, options and the kinds of values.')
ASSUMPTIONS = ['CSV and TSV represent strings (numbers are read as strings); text represents lines without line separators',
               'the order in which several files are read is not specified, the order of the records of each is', 'JSON text is produced with json_format and one document per file']
N = {'quick': 3000, 'thorough': 60000}
REQUIRED = ['csv', 'tsv', 'text', 'pickle', 'json', 'append', 'several_writers', 'unwritable_item', 'foreign_csv', 'foreign_text', 'headings', 'bad_headings', 'skip_headings', 'label', 'many', 'from_ls', 'glob', 'overlap',
            'damaged', 'embedded_newline', 'blank_line', 'huge', 'too_many_fields', 'missing_fields', 'format', 'stdout', 'empty_file', 'deep', 'records', 'tilde', 'bad_target']
CONFIG = '''from marcel.builtin import *
class Box(object):
    def __init__(self, x): self.x = x
    def __repr__(self): return f'Box({self.x!r})'
    def __eq__(self, other): return type(other) is Box and other.x == self.x
'''
class Box(object):
    def __init__(self, x): self.x = x
    def __repr__(self): return f'Box({self.x!r})'
PIECES = ['a', 'b', ' ', '  ', ',', '\t', '"', '""', "'", '\\', '\n', '\r', '\r\n', 'é', '中', '\U0001f600', '0', '1.5', '-', '#', '|', ';', '\x00', '\x1f', '\u2028', '\x85', '\ufeff', '{', '}', 'None', "','", '","', '=1+1']
LINE_PIECES = [p for p in PIECES if not set(p) & {'\n', '\r'}]
PICKLES = ['0', '10**40', "''", "'nl\\nx'", 'None', 'True', '1.5', "(1, ('a', None), [2, {'k': (3,)}])", '()', '[]', '[1, 2]', "{'a': [1]}", '{5}', "b'\\x00\\xff'", 'Box(3)', '(Box(1), 2)', "__import__('decimal').Decimal('1.10')",
           "'x' * 100000", '((),)', "'\\udc80'", '1j', 'range(3)', 'int']
NAMES = ['f', 'g.csv', 'x y', "it's", 'é', 'a,b', 'dq"', '#h', '-d', 'b;c', '.hid', 'sub/f', 'sub/g.csv', 'sub/deep/f', 'z&', '~t', 'a$b', 'tab\tx', 'p|q', '(r)', '{s}', '10']


def string(rng, pieces, lo=0):
    if rng.random() < .02:
        return rng.choice(['x', 'y,', 'q"']) * rng.choice([100, 70000])
    return ''.join(rng.choice(pieces) for _ in range(rng.randrange(lo, 5)))


def rows(rng, pieces, n=None, numbers=True):
    out = []
    for _ in range(rng.randrange(0, 6) if n is None else n):
        row = []
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
            row.append(rng.choice([0, -7, 3.25, 10 ** 20]) if numbers and rng.random() < .2 else string(rng, pieces))
        out.append(row)
    return out


def document(rng, depth=0):
    k = rng.random()
    if depth < 3 and k < .3:
        return {rng.choice(['a', 'b c', '', 'é', 'items', '__dict__', '0', 'class', 'k%d' % rng.randrange(9)]): document(rng, depth + 1) for _ in range(rng.randrange(4))}
    if depth < 3 and k < .55:
        return [document(rng, depth + 1) for _ in range(rng.randrange(4))]
    return rng.choice([None, True, False, 0, -1, 10 ** 25, 1.5, 1e300, '', 'x', string(rng, PIECES), string(rng, PIECES)])


def csv_text(rng):
    """A CSV file by someone else."""
    eol = rng.choice(['\n', '\n', '\r\n'])
    out = []
    for _ in range(rng.randrange(0, 7)):
        k = rng.random()
        if k < .15:
            out.append('')
        else:
            fields = []
            for _ in range(rng.randrange(1, 5)):
                j = rng.random()
                s = string(rng, ['a', 'b', ' ', '1', 'é', "'", '\\', 'x', 'yy'])
                if j < .35:
                    s = '"' + string(rng, ['a', ' ', ',', '\t', '""', '\n', '\r\n', 'é', "'", '\\', '1']) + '"'
                fields.append(s)
            out.append('%'.join(fields))
    t = eol.join(out)
    return t + (eol if out and rng.random() < .7 else '')


HEADERS = [['a', 'b'], ['x'], ['one', 'two', 'three'], ['a b', 'c-d'], [' pad ', 'q'], ['é', 'n'], ['b', 'a'], ['a', 'a'], ['1x', 'y'], ['class', 'z'], ['_u', 'v'], ['', 'w'], ['id', 'ID', 'Id'], ['a\nb', 'c']]


def gen(rng, i, tier):
    steps = []
    for _ in range(rng.randrange(2, 6)):
        k = rng.choice(['csv', 'csv', 'csv', 'tsv', 'text', 'text', 'pickle', 'pickle', 'json', 'several', 'format', 'stdout', 'foreign', 'foreign', 'headings', 'headings', 'headings', 'many', 'many', 'many', 'bad_target'])
        s = {'k': k, 'name': rng.choice(NAMES), 'x': rng.randrange(10000)}
        if k in ('csv', 'tsv', 'several', 'stdout'):
            s['rows'] = rows(rng, PIECES if k != 'several' else LINE_PIECES)
        elif k == 'text':
            s['rows'] = [[string(rng, LINE_PIECES)] for _ in range(rng.randrange(0, 6))]
        elif k == 'format':
            s['rows'] = [[string(rng, LINE_PIECES), rng.randrange(100), string(rng, LINE_PIECES)][:rng.choice([2, 3, 3, 3])] for _ in range(rng.randrange(0, 5))]
            s['format'] = rng.choice(['{}-{}:{}', '{0!r:>12} {2} {1:05}', 'x', '{2},{0},{1}', '{{}}{0}'])
        elif k == 'pickle':
            s['rows'] = [rng.choice(PICKLES) for _ in range(rng.randrange(0, 6))]
        elif k == 'json':
            s['doc'] = json.dumps(document(rng), ensure_ascii=rng.random() < .5, indent=rng.choice([None, None, 2]))
        elif k == 'foreign':
            s['kind'] = rng.choice(['csv', 'tsv', 'text', 'pickle'])
            s['text'] = csv_text(rng)
        elif k == 'headings':
            s['files'] = [[rng.choice(HEADERS), [[string(rng, ['a', 'b', '1', ' ', 'é', ',', '"', '\n']) for _ in range(rng.choice([1, 2, 2, 2, 3]))] for _ in range(rng.randrange(0, 4))]] for _ in range(rng.choice([1, 1, 2, 3]))]
        elif k == 'many':
            s['kind'] = rng.choice(['csv', 'text', 'pickle', 'json'])
            s['names'] = rng.sample(NAMES, rng.randrange(1, 6))
            s['texts'] = [csv_text(rng).replace('%', ',') for _ in s['names']]
            s['bad'] = rng.choice([None, None, 0, 1])
        steps.append(s)
    return {'steps': steps}


def q(name):
    """Quoted so that it denotes the name, for operators taking names and patterns."""
    if not set(name) - set('abcdefghijklmnopqrstuvwxyz./0123456789'):
        return name
    return '(' + repr(name) + ')'


def shown(items):
    return [MARK + repr(tuple(x)) for x in items]


def run(case, mon, box):
    for d in ('sub/deep',):
        os.makedirs(os.path.join(box.work, d))
    s = session.Session(box, config=CONFIG)
    P = lambda name: os.path.join(box.work, name)

    def cmd(text, rows=None):
        if rows is not None:
            s.env.setvar('DATA', [tuple(r) for r in rows])
        r = s.run(text)
        out = r.out.split('\n')[:-1]
        return r.out, [l for l in out if l.startswith(MARK)], [l for l in out if not l.startswith(MARK)], r.err + (r.exc or '')

    def source(n):
        return f'gen {n} | map (i: DATA[i])' if n else 'gen 3 | select (x: False)'

    def content(name):
        try:
            with open(P(name), 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def read_back(what, text, want, key):
        out, got, rest, err = cmd(text)
        mon.check(got == shown(want) and not rest and not err, 'read-' + key[0], f'{what}; then {text}: {str(got[:8])[:300]} {str(rest)[:200]} {err[:300]!r}, expected {str(shown(want)[:8])[:300]}')
        mon.count('records', len(want))
        if want:
            mon.nontrivial(key)

    def kinds(rows):
        t = ''.join(str(f) for r in rows for f in r)
        if '\n' in t or '\r' in t:
            mon.count('embedded_newline')
        if len(t) > 131072 / 2:
            mon.count('huge')
        return (len(rows), frozenset(c for c in t if not c.isalnum())) if len(t) < 60 else (len(rows), len(t))

    def write(op, name, rows, mark=True):
        """Writes, checks what passes through."""
        before = content(name) or b''
        text = f'{source(len(rows))} | {op}'
        if mark:
            text += ' | ' + TAP
        out, got, rest, err = cmd(text, rows)
        mon.check(got == shown(rows) and not rest and not err, 'passes-through', f'{text} with {str(rows)[:300]}: {str(got[:8])[:300]} {str(rest)[:200]} {err[:300]!r}')
        after = content(name)
        mon.check(after is not None, 'created', f'{text}: no file {name}')
        return before, after or b'', text

    for st in case['steps']:
        k, name, x = st['k'], st['name'], st['x']
        if os.path.exists(P(name)) and x % 2:
            os.unlink(P(name))
        append = x % 3 == 0
        label = x % 5 == 0
        home = False
        target = q(name)
        if x % 11 == 0 and not os.path.isabs(name):
            mon.count('tilde')
            target = f'(HOME + {"/tilde"!r})' if x % 2 else '~/tilde'
            name = box.home + '/tilde'
        L = lambda rows: [[Path(P(name)), *r] for r in rows] if label else rows

        class Path:
            def __init__(self, p): self.p = p
            def __repr__(self): return f'File({self.p})'
        def reading(op):
            if label:
                mon.count('label')
                return f"read -l {op} {target} | map (*x: ('File(' + str(x[0].path) + ')', *x[1:])) | map (*x: '{MARK}' + repr((x[0], *x[1:])).replace(repr(x[0]), x[0], 1))"
            return f'read {op} {target} | {TAP}'
        if target.startswith('('):
            # a name, not a pattern
            rtarget = target
        if k in ('csv', 'tsv'):
            f = '-c' if k == 'csv' else '-t'
            rows = st['rows']
            mon.count(k)
            old = list(csv.reader(io.StringIO((content(name) or b'').decode('utf-8', 'replace'), newline=''), delimiter=',' if k == 'csv' else '\t')) if append else []
            if append and content(name) and (not content(name).endswith(b'\n') or b'\x80' in content(name) or content(name).startswith(b'\x80')):
                os.unlink(P(name))
                old = []
            if append and content(name):
                try:
                    content(name).decode()
                    csv_ok = content(name).count(b'"') == 0
                except UnicodeDecodeError:
                    csv_ok = False
                if not csv_ok:
                    os.unlink(P(name))
                    old = []
            before, after, text = write(f'write {f} {"-a " if append else ""}{target}', name, rows)
            if append:
                mon.count('append')
                mon.check(after.startswith(before), 'append', f'{text}: what was there has changed')
                after = after[len(before):]
            parsed = list(csv.reader(io.StringIO(after.decode(), newline=''), delimiter=',' if k == 'csv' else '\t'))
            want = [[str(v) for v in r] for r in rows]
            mon.check(parsed == want, 'written', f'{text} with {str(rows)[:300]}: wrote {str(after)[:300]}')
            read_back(f'{text} with {str(rows)[:300]}', reading(f), L(old + want), (k, append, label, kinds(rows)))
        elif k == 'text':
            rows = st['rows']
            mon.count('text')
            old = content(name) if append else None
            if old is not None and (b'\x80' in old or b'\r' in old):
                os.unlink(P(name))
                old = None
            bad = x % 7 == 0
            if bad:
                # an item that cannot be written
                mon.count('unwritable_item')
                rows = rows[:2] + [['\ud800']] + rows[2:]
                text = f'{source(len(rows))} | write {"-a " if append else ""}{target} | map (*x: "{MARK}" + ascii(x))'
                out, got, rest, err = cmd(text, rows)
                mon.check(got == [MARK + ascii(tuple(r)) for r in rows] and len([l for l in rest if 'Error' in l]) == 1, 'unwritable', f'{text}: {str(got)[:300]} {str(rest)[:300]} {err[:300]!r}')
                rows = [r for r in rows if r != ['\ud800']]
                after = content(name)
                want = (old or b'').decode() + ''.join(r[0] + '\n' for r in rows)
            else:
                before, after, text = write(f'write {"-a " if append else ""}{target}', name, rows)
                want = (old or b'').decode() + ''.join(r[0] + '\n' for r in rows)
            mon.check(after.decode() == want, 'written', f'{text} with {str(rows)[:300]}: wrote {str(after)[:300]}')
            read_back(text, reading(''), L([[l] for l in want.split('\n')[:-1]] if want.endswith('\n') else [[l] for l in want.split('\n')] if want else []), ('text', append, label, bad, kinds(rows)))
        elif k == 'pickle':
            mon.count('pickle')
            if append and content(name) is not None and not content(name).startswith(b'\x80'):
                os.unlink(P(name))
            before = (content(name) or b'') if append else b''
            exprs = st['rows']
            bad = x % 4 == 0
            n = len(exprs) + bad
            at = x % n if bad else -1
            src = f'gen {n} | map (i: (j for j in []) if i == {at} else [{", ".join(exprs)}][i - ({bad} and i > {at})])' if n else 'gen 1 | select (x: False)'
            text = f'{src} | write -p {"--append " if append else ""}{target} | map (*x: "{MARK}" + ("G" if "generator" in repr(x) else repr(x)))'
            items = [eval(e) for e in exprs]
            items = [tuple(v) if type(v) in (tuple, list) else (v,) for v in items]
            through = shown(items)
            if bad:
                mon.count('unwritable_item')
                through.insert(at, MARK + 'G')
            out, got, rest, err = cmd(text)
            mon.check(got == through and len(rest) == (1 if bad else 0) and all('Error' in l for l in rest) and not err, 'passes-through', f'{text[:300]}: {str(got)[:300]} {str(rest)[:300]} {err[:300]!r}')
            after = content(name)
            mon.check(after is not None and after.startswith(before), 'append', f'{text[:300]}: what was there has changed')
            old = st.get('_', [])
            if append:
                mon.count('append')
                with open(P('sub/old'), 'wb') as f:
                    f.write(before)
                _, oldshown, rest, err = cmd(f'read -p sub/old | {TAP}')
                mon.check(not rest and not err, 'read-pickle', f'reading {before[:100]!r}: {rest} {err[:300]!r}')
            else:
                oldshown = []
            out, got, rest, err = cmd(reading('-p'))
            want = oldshown + shown(items)
            if label:
                want = [MARK + '(File(' + P(name) + '), ' + w[2:-1].rstrip(',') + ')' if w != MARK + '()' else MARK + '(File(' + P(name) + '),)' for w in want]
            mon.check(got == want and not rest and not err, 'read-pickle', f'{text[:300]}; then {reading("-p")}: {str(got)[:300]} {str(rest)[:200]} {err[:300]!r}, expected {str(want)[:300]}')
            mon.count('records', len(want))
            if want:
                mon.nontrivial(('pickle', append, label, bad, tuple(exprs)))
        elif k == 'json':
            mon.count('json')
            doc = json.loads(st['doc'])
            if doc and type(doc) in (dict, list) and ('{' in st['doc'][1:] or '[' in st['doc'][1:]):
                mon.count('deep')
            s.env.setvar('DOC', st['doc'])
            out, got, rest, err = cmd(f'gen 1 | map (i: json_format(json_parse(DOC))) | write {target} | select (x: False)')
            mon.check(not rest and not err, 'json-write', f'json_format(json_parse({st["doc"][:300]!r})): {rest} {err[:300]!r}')
            if not err and not rest:
                mon.check(json.loads(content(name)) == doc, 'json-written', f'{st["doc"][:300]!r}: written as {content(name)[:300]!r}')
            if x % 2:
                with open(P(name), 'w', encoding='utf-8', newline='') as f:
                    f.write(rng_ws(st['doc'], x))
            f = f"read -j {'-l ' if label else ''}{target} | map (*x: '{MARK}' + json_format(x{'[1:]' if label else ''}){' + str(type(x[0]).__name__)' if label else ''})"
            out, got, rest, err = cmd(f)
            if label:
                mon.count('label')
            want = doc if type(doc) is list and not label else [doc]
            ok = len(got) == 1
            if ok:
                g = got[0][1:]
                if label:
                    ok = g.endswith('File')
                    g = g[:-4]
                ok = ok and json.loads(g) == want
            mon.check(ok and not rest and not err, 'read-json', f'{st["doc"][:300]!r}: {f}: {str(got)[:300]} {str(rest)[:200]} {err[:300]!r}')
            mon.nontrivial(('json', label, st['doc'][:60]))
        elif k == 'several':
            mon.count('several_writers')
            rows = [[str(v) for v in r] or ['-'] for r in st['rows']]
            text = f'{source(len(rows))} | write w1 | write -c w2 | write -p w3 | write -t -a w4 | {TAP}'
            before = content('w4') or b''
            out, got, rest, err = cmd(text, rows)
            mon.check(got == shown(rows) and not rest and not err, 'passes-through', f'{text} with {str(rows)[:300]}: {str(got[:8])[:300]} {str(rest)[:200]} {err[:300]!r}')
            mon.check((content('w1') or b'').decode() == ''.join((r[0] if len(r) == 1 else str(tuple(r))) + '\n' for r in rows), 'written', f'{text} with {str(rows)[:300]}: {str(content("w1"))[:300]}')
            read_back(text, f'read -c w2 | {TAP}', rows, ('several', 'csv', kinds(rows)))
            read_back(text, f'read -p w3 | {TAP}', rows, ('several', 'pickle', kinds(rows)))
            after = (content('w4') or b'')
            parsed = list(csv.reader(io.StringIO(after[len(before):].decode(), newline=''), delimiter='\t'))
            mon.check(after.startswith(before) and parsed == rows, 'written', f'{text}: w4 is {str(after)[:300]}')
        elif k == 'format':
            mon.count('format')
            rows = st['rows']
            text = f'{source(len(rows))} | write -f (FORMAT) {target} | {TAP}' if 0 else f'{source(len(rows))} | write -f {st["format"]!r} {target} | {TAP}'
            want, errors = '', 0
            for r in rows:
                try:
                    want += st['format'].format(*r) + '\n'
                except IndexError:
                    errors += 1
            out, got, rest, err = cmd(text, rows)
            mon.check(got == shown(rows) and len(rest) == errors and not err, 'passes-through', f'{text} with {str(rows)[:300]}: {str(got[:8])[:300]} {str(rest)[:200]} {err[:300]!r}')
            mon.check((content(name) or b'').decode() == want, 'written', f'{text} with {str(rows)[:300]}: wrote {str(content(name))[:300]}, expected {want[:300]!r}')
        elif k == 'stdout':
            mon.count('stdout')
            rows = st['rows']
            f = '-c' if x % 2 else '-t'
            out, got, rest, err = cmd(f'{source(len(rows))} | write {f} | select (*x: False)', rows)
            try:
                parsed = list(csv.reader(io.StringIO(out, newline=''), delimiter=',' if x % 2 else '\t'))
            except csv.Error as e:
                parsed = e
            mon.check(parsed == [[str(v) for v in r] for r in rows] and not err, 'stdout', f'write {f} with {str(rows)[:300]}: printed {out[:300]!r} {err[:200]!r}')
        elif k == 'foreign':
            kind = st['kind']
            sep = '\t' if kind == 'tsv' else ','
            t = st['text'].replace('%', sep)
            if x % 13 == 0:
                t = ''
            if not t:
                mon.count('empty_file')
            with open(P(name), 'w', newline='', encoding='utf-8') as f:
                f.write(t)
            if kind in ('csv', 'tsv'):
                mon.count('foreign_csv')
                want = list(csv.reader(io.StringIO(t, newline=''), delimiter=sep))
                if [] in want:
                    mon.count('blank_line')
                skip = x % 4 == 1
                if skip:
                    mon.count('skip_headings')
                    want = want[1:]
                read_back(repr(t[:300]), reading(('-c' if kind == 'csv' else '-t') + (' -s' if skip else '')), L(want), ('foreign', kind, skip, label, t[:50]))
            elif kind == 'text':
                mon.count('foreign_text')
                want = [[l.rstrip('\n')] for l in io.StringIO(t, newline=None)]
                read_back(repr(t[:300]), reading(''), L(want), ('foreign', kind, label, t[:50]))
            else:
                items = [1, 'a', (2, 'b'), [3], None, t]
                with open(P(name), 'wb') as f:
                    for v in items:
                        pickle.dump(v, f, protocol=x % 6)
                want = [tuple(v) if type(v) in (tuple, list) else (v,) for v in items]
                read_back('pickles', reading('-p'), L(want), ('foreign', kind, label, t[:50]))
        elif k == 'headings':
            os.makedirs(P('hd'), exist_ok=True)
            for n in os.listdir(P('hd')):
                os.unlink(P('hd/' + n))
            skip = x % 5 == 1
            mon.count('skip_headings' if skip else 'headings')
            if label and not skip:
                mon.count('label')
            want, errors = [], 0
            for j, (header, rows) in enumerate(st['files']):
                with open(P(f'hd/f{j}'), 'w', newline='', encoding='utf-8') as f:
                    csv.writer(f, lineterminator='\n').writerows([header] + rows)
                if skip:
                    want += [str(tuple(r)) if len(r) != 1 else r[0] for r in rows]
                    continue
                import collections
                names = []
                for h in header:
                    h = h.strip()
                    if not h.isidentifier():
                        h = ''.join(c if c.isascii() and (c.isalnum() or c == '_') else '_' for c in h)
                    names.append(h)
                try:
                    nt = collections.namedtuple('csvtuple', names)
                except ValueError:
                    mon.count('bad_headings')
                    nt = None
                    errors += 1
                for r in rows:
                    if nt is None:
                        want.append(tuple(r))
                    elif len(r) > len(names):
                        mon.count('too_many_fields')
                        errors += 1
                    else:
                        if len(r) < len(names):
                            mon.count('missing_fields')
                        want.append(nt(*r, *[None] * (len(names) - len(r))))
            if skip:
                text = f"read -c -s hd | map (*x: '{MARK}' + ascii(tuple(x)))"
                out, got, rest, err = cmd(text)
                want = [MARK + ascii(tuple(r)) for header, rows in st['files'] for r in rows]
            else:
                # The API shows the names
                text = 'read -c -h hd | write'
                out, got, rest, err = cmd(f'read -c -h {"-l " if label else ""}hd >$ HR')
                out2, got, rest2, err2 = cmd(f"gen 1 | map (i: [HR]) | expand | map (*r: '{MARK}' + shape(r))") if 0 else ('', [], [], '')
                text = f'read -c -h {"-l " if label else ""}hd >$ HR'
                value = s.env.getvar('HR')
                got, rows = [], None
                import marcel.picklefile
                reader = value.reader()
                try:
                    while True:
                        r = reader.read()
                        if len(r) == 1 and type(r[0]).__name__ == 'csvtuple':
                            r = r[0]
                        if label:
                            r2 = getattr(r, '_fields', None)
                            mon.check(os.path.dirname(str(r[0].path)) == P('hd') and (r2 is None or r2[0] == 'LABEL'), 'label', f'{text}: {r!r}')
                            got.append((r2[1:] if r2 else None, tuple(r)[1:]))
                        else:
                            got.append((getattr(r, '_fields', None), tuple(r)))
                except EOFError:
                    reader.close()
                want = [(getattr(r, '_fields', None), tuple(r)) for r in want]
                mon.check(len(rest) == errors and all('Error' in l for l in rest), 'heading-errors', f'{text} of {str(st["files"])[:300]}: {len(rest)} errors {str(rest)[:300]}, expected {errors}')
                rest = []
            mon.check(got == want and not rest and not err, 'headings', f'{text} of {str(st["files"])[:400]}: {str(got)[:300]} {str(rest)[:200]} {err[:300]!r}, expected {str(want)[:300]}')
            mon.count('records', len(want))
            if want:
                mon.nontrivial(('headings', skip, label, str([h for h, r in st['files']])))
        elif k == 'many':
            mon.count('many')
            kind = st['kind']
            top = P('many')
            os.makedirs(top + '/sub/deep', exist_ok=True)
            flag = {'csv': '-c', 'text': '', 'pickle': '-p', 'json': '-j'}[kind]
            want, bad = {}, set()
            for j, (n, t) in enumerate(zip(st['names'], st['texts'])):
                p = f'{top}/{n}'
                if kind == 'csv':
                    data = t.encode()
                    want[p] = list(csv.reader(io.StringIO(t, newline='')))
                elif kind == 'text':
                    data = t.encode()
                    want[p] = [[l.rstrip('\n')] for l in io.StringIO(t, newline=None)]
                elif kind == 'pickle':
                    items = [[n, i] for i in range(j)]
                    data = b''.join(pickle.dumps(tuple(i)) for i in items)
                    want[p] = items
                else:
                    data = json.dumps([n, j]).encode()
                    want[p] = [[n, j]]
                if st['bad'] == j:
                    mon.count('damaged')
                    bad.add(p)
                    data = {'csv': b'a,b\n\xff\xfe,c\n', 'text': b'ok\n\xff\xff\n', 'pickle': data + b'\x80\x04\x95garbage', 'json': b'{"a": '}[kind]
                with open(p, 'wb') as f:
                    f.write(data)
            how = x % 4
            names = st['names']
            if how == 0:
                mon.count('glob')
                args = 'many/* many/.h* many/sub/* many/sub/deep/*'
                args = ' '.join(f'"{a}"' for a in args.split())
                text = f'read -0 {flag} -l "many/*" "many/sub/*" "many/sub/deep/*"'
            elif how == 1:
                text = f'read -r {flag} -l many'
            elif how == 2:
                mon.count('overlap')
                text = f'read -r {flag} -l many "many/*" ' + ' '.join(q('many/' + n) for n in names) + ' ' + q(top + '/' + names[0]) + ' ' + q('many/../many/./' + names[-1])
            else:
                mon.count('from_ls')
                text = f'ls -r many | read {flag} -l'
            tap = f"map (*x: '{MARK}' + repr((str(x[0].path), [*x[1:]])))" if kind != 'json' else f"map (f, x: '{MARK}' + repr((str(f.path), x)))"
            out, got, rest, err = cmd(f'{text} | {tap}')
            by = {p: [] for p in want}
            odd = []
            for l in got:
                p, r = eval(l[1:])
                by.get(p, odd).append(r)
            mon.check(not odd, 'many', f'{text}: unknown files {odd}')
            for p in want:
                if p in bad:
                    continue
                mon.check([list(map(tuple, [r]))[0] for r in by[p]] == [tuple(r) for r in want[p]], 'many-' + kind, f'{text}: from {p}: {str(by[p])[:300]}, expected {str(want[p])[:300]}')
                mon.count('records', len(want[p]))
            mon.check(len(rest) == len(bad) and all('Error' in l for l in rest) and not err, 'damaged', f'{text}: {len(bad)} damaged files, printed {str(rest)[:300]} {err[:300]!r}')
            if any(want.values()):
                mon.nontrivial(('many', kind, how, tuple(names), st['bad']))
            for p in want:
                os.unlink(p)
        elif k == 'bad_target':
            mon.count('bad_target')
            f = ['-p', '-c', '', '-t'][x % 4]
            a = ' -a' if x % 3 else ''
            bad = ['nodir/x', 'sub', '/dev/null/x', "('y' * 300)"][x // 4 % 4]
            text = f'gen 3 | write {f}{a} {bad} | {TAP}'
            out, got, rest, err = cmd(text)
            mon.check('Error' in out + err or 'nable' in out + err, 'bad-target', f'{text}: {out[:300]!r} {err[:300]!r}')
            mon.check('Traceback' not in out + err, 'bad-target', f'{text}: {out[:300]!r} {err[:300]!r}')
            out, got, rest, err = cmd(f'gen 3 | {TAP}')
            mon.check(got == [MARK + f'({i},)' for i in range(3)], 'bad-target', f'after {text}: {out[:300]!r} {err[:300]!r}')
    s.close()
    mon.sample = {'steps': [str(st)[:200] for st in case['steps'][:2]]}


def rng_ws(doc, x):
    return ['\n', '', '  ', '\r\n'][x % 4] + doc + ['', '\n', '\n\n'][x % 3]
