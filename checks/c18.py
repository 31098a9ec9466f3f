"""C18: ls on random directory trees, compared with what the operating system says is there."""
import fnmatch, os, re, stat, time
import session
from session import MARK

ID = 'C18'
LEVEL = 'exploration'
RULE = ('Random trees (nested directories, hidden and odd names including glob characters, quotes, backslashes, line separators, bytes that are not UTF-8; links to files, directories, ancestors, siblings, each other and '
        'nothing; modes, sizes, old and future times; unreadable and unsearchable directories) are listed with each depth and kind option, from several current directories, '
        'given any number of names and patterns, overlapping, in every form (relative, absolute, with ., .., ~, repeated slashes, quoted, escaped, as an expression, Path or File). The paths output must be the ones found '
        'with the os module: each path below the named ones without following links exactly once, contents of linked directories under at least one path, nothing else; the attributes of each must be those of lstat, and the printed '
        'lines must show them. Non-trivial: a listing with output, keyed by options, forms and kinds of entries.')
ASSUMPTIONS = ['fnmatch defines what a pattern matches, hidden names included, and a name containing pattern characters denotes also the entry with exactly that name',
               'entries that are neither files, directories nor links (e.g. sockets) are not listed, as documented', '.. is resolved lexically',
               'the contents of a directory found through a link may be output under several paths']
N = {'quick': 2000, 'thorough': 30000}
REQUIRED = ['listings', 'depth0', 'depth1', 'recursive', 'file', 'dir', 'symlink', 'broken_link', 'cyclic_link', 'linked_dir', 'hidden', 'odd', 'undecodable', 'unreadable', 'pattern', 'deep_pattern', 'literal_glob', 'overlap', 'rel', 'dot',
            'abs', 'home', 'up', 'slashes', 'path', 'fileobj', 'plain', 'escaped', 'no_args', 'missing', 'rendered', 'entries', 'odd_cwd', 'receive']
NAMES = ['a', 'b', 'ab', 'abc', 'c', 'd', '.h', '.hh', 'x y', "it's", 'a*b', '[x]', 'x', 'é', 'nl\nx', 'q?', '-d', '#c', '~', '~root', 'b\\s', 'a.txt', 'b.TXT', '..x', '{a}', '$v', 'tab\tz', '\udcff', ' lead', 'a[b]c', '\\', '"', '中', '*', '0', 'a,b',
         'x' * 200]
PATTERNS = ['*', 'a*', '*b', '?', '??', '[ab]*', '[!a]*', '.*', '*.txt', '*.*', '[[]*', '*\\*', '*x*', '[a-c]']


def gen(rng, i, tier):
    entries = []
    dirs = ['']
    for _ in range(rng.choice([0, 2, 5, 9, 9, 15, 25])):
        d = rng.choice(dirs)
        p = (d + '/' if d else '') + rng.choice(NAMES)
        if p in [e[0] for e in entries] or len(p) > 900:
            continue
        k = rng.random()
        if k < .4:
            entries.append([p, 'd', rng.choice([0o755, 0o755, 0o755, 0o755, 0o700, 0o555, 0, 0o444, 0o111, 0o311, 0o1777])])
            if p.count('/') < 5:
                dirs.append(p)
        elif k < .65:
            entries.append([p, 'l', rng.choice([('to', None), ('to', None), ('to', None), ('broken', None), ('self', None), ('up', None), ('abs', None)])[0]])
        else:
            entries.append([p, 'f', rng.choice([0o644, 0o600, 0o755, 0, 0o4755, 0o640]), rng.choice([0, 1, 10, 12345]), rng.choice([None, 0, 86400 * 365, 4e9]), None])
    links = {p: rng.random() for p, *_ in entries}
    ls = []
    for _ in range(rng.randrange(1, 5)):
        args = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            if rng.random() < .35:
                n = rng.choice([1, 1, 2, 3])
                args.append(['pattern', [rng.random() if rng.random() < .3 else rng.choice(PATTERNS) for _ in range(n)], rng.choice(['rel', 'abs', 'home', 'up', 'dot'])])
            else:
                args.append([rng.choice(['name', 'name', 'name', 'name', 'cwd', 'missing']), rng.random(), rng.choice(['rel', 'rel', 'abs', 'home', 'up', 'dot', 'slashes', 'plain', 'plain', 'path', 'fileobj', 'escaped', 'quoted'])])
        ls.append({'args': args, 'depth': rng.choice(['', '', '-0', '-1', '-r', '-r', '--recursive']), 'kinds': rng.choice(['', '', '', '-f', '-d', '-s', '-fs', '-fd', '-s -d', '--file', '--dir --symlink']),
                   'cd': rng.random() if rng.random() < .4 else None, 'how': rng.choice(['tap', 'tap', 'tap', 'print', 'case', 'args']), 'x': rng.randrange(10000)})
    return {'entries': entries, 'links': links, 'ls': ls, 'locked': rng.random() < .5}


def build(case, top, mon):
    real = []
    for e in case['entries']:
        p = os.path.join(top, e[0])
        try:
            if e[1] == 'd':
                os.mkdir(p)
            elif e[1] == 'f':
                with open(p, 'wb') as f:
                    f.write(b'x' * e[3])
                if e[4] is not None:
                    os.utime(p, (e[4], e[4]))
                os.chmod(p, e[2])
            else:
                r = case['links'][e[0]]
                if e[2] in ('to', 'abs') and real:
                    t = os.path.join(top, real[int(r * len(real))])
                    if e[2] == 'to':
                        t = os.path.relpath(t, os.path.dirname(p))
                elif e[2] == 'self':
                    t = os.path.basename(p)
                    mon.count('cyclic_link')
                elif e[2] == 'up':
                    t = '.' if r < .3 else '..' if r < .6 and '/' in e[0] else os.path.dirname(p)
                    mon.count('cyclic_link')
                else:
                    t = 'nowhere/' + str(r)
                    mon.count('broken_link')
                os.symlink(t, p)
            real.append(e[0])
        except (FileExistsError, FileNotFoundError, NotADirectoryError):
            pass
    for e in reversed(case['entries']):
        if e[1] == 'd' and e[0] in real and e[2] != 0o755:
            os.chmod(os.path.join(top, e[0]), e[2] | (0 if case['locked'] else 0o700))
    return real


def magic(s):
    return any(c in s for c in '*?[')


def expand(base, comps):
    """What the pattern matches, by the definition."""
    found = [base]
    for j, c in enumerate(comps):
        nxt = []
        for f in found:
            if magic(c):
                try:
                    names = os.listdir(f)
                except OSError:
                    continue
                nxt += [os.path.join(f, n) for n in names if fnmatch.fnmatchcase(n, c)]
            elif os.path.lexists(os.path.join(f, c)):
                nxt.append(os.path.join(f, c))
        found = nxt if j == len(comps) - 1 else [f for f in nxt if os.path.isdir(f)]
    return found


def entries(d):
    try:
        return sorted(os.listdir(d)), False
    except OSError:
        return [], True


def run(case, mon, box):
    top = os.path.join(box.work, 'top')
    os.mkdir(top)
    real = build(case, top, mon)
    s = session.Session(box)
    try:
        for n, ls in enumerate(case['ls']):
            one(case, mon, box, s, top, real, ls)
    finally:
        # Make everything removable again
        os.chdir(box.work)
        for p in sorted(real):
            p = os.path.join(top, p)
            if os.path.isdir(p) and not os.path.islink(p):
                os.chmod(p, 0o755)
    s.close()
    mon.sample = {'entries': [e[0] for e in case['entries']][:10], 'ls': case['ls'][:1]}


def one(case, mon, box, s, top, real, ls):
    # the current directory
    cwd = top
    if ls['cd'] is not None:
        ds = [p for p in real if os.path.isdir(os.path.join(top, p)) and not os.path.islink(os.path.join(top, p)) and os.access(os.path.join(top, p), os.X_OK | os.R_OK, effective_ids=True)]
        if ds:
            cwd = os.path.realpath(os.path.join(top, ds[int(ls['cd'] * len(ds))]))
    r = s.run(f'cd ({cwd!r})')
    if r.err or os.getcwd() != cwd:
        return
    if magic(cwd):
        mon.count('odd_cwd')
    texts, roots, forms = [], [], []
    for kind, what, form in ls['args']:
        if kind == 'pattern':
            names = [os.path.basename(p) for p in real]
            comps = [c if type(c) is str else (names[int(c * len(names))] if names else 'a') for c in what]
            mon.count('pattern')
            if len(comps) > 1:
                mon.count('deep_pattern')
            base = cwd
            pre = {'rel': '', 'dot': './', 'abs': None, 'home': None, 'up': '../' + os.path.basename(cwd) + '/'}[form]
            if form in ('abs', 'home') and magic(cwd) or form == 'up' and magic(os.path.basename(cwd)):
                pre, form = '', 'rel'
            if comps[0].startswith('~') and pre == '':
                pre = './'
            if form == 'abs':
                pre = cwd + '/'
            elif form == 'home':
                pre = '~/' + os.path.relpath(cwd, box.home) + '/'
            if form == 'up' and not os.path.isdir(os.path.dirname(cwd)):
                return
            text = pre + '/'.join(comps)
            texts.append('(' + repr(text) + ')')
            found = expand(base, comps)
            lit = os.path.join(base, *comps)
            if os.path.lexists(lit) and lit not in found:
                found.append(lit)
                mon.count('literal_glob')
            roots += found
            mon.count(form)
        elif kind == 'missing':
            mon.count('missing')
            texts.append('nosuch' + str(int(what * 1000)))
        else:
            cands = [p for p in real]
            p = cwd if kind == 'cwd' or not cands else os.path.join(top, cands[int(what * len(cands))])
            rel = os.path.relpath(p, cwd)
            if os.path.normpath(os.path.join(cwd, rel)) != p:
                rel, form = p, 'abs'
            if '..' in rel.split('/') and form in ('plain', 'rel', 'escaped'):
                mon.count('up')
            ok = set(rel) <= set('abcdefghijklmnopqrstuvwxyz./0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_') and not rel.startswith('-')
            if form == 'plain' and not ok:
                form = 'rel'
            if form == 'escaped':
                if any(ord(c) > 127 or c in '\n\t' for c in rel) or rel.startswith('~'):
                    form = 'rel'
                else:
                    mon.count('escaped')
            tilde = rel.startswith('~')
            if form == 'plain':
                text = rel
            elif form == 'rel':
                text = repr(('./' if tilde else '') + rel)
            elif form == 'escaped':
                text = ''.join(c if c.isalnum() or c in './_' else '\\' + c for c in rel)
            elif form == 'quoted':
                if "'" in rel or any(ord(c) > 127 or c in '\n' for c in rel) or tilde or rel.startswith('-'):
                    text, form = repr(('./' if tilde else '') + rel), 'rel'
                else:
                    text = "'" + rel + "'"
            elif form == 'dot':
                text = repr('./' + '/./'.join(rel.split('/')))
            elif form == 'slashes':
                text = repr(('.//' if ls['x'] % 2 else '//' + cwd + '//') + rel.replace('/', '//') + ('/' if os.path.isdir(p) and not os.path.islink(p) else ''))
            elif form == 'abs':
                text = repr(p)
            elif form == 'home':
                text = repr(('~/' if ls['x'] % 2 else '~//') + os.path.relpath(p, box.home))
            elif form == 'up':
                text = repr('../' + os.path.relpath(p, os.path.dirname(cwd)))
            elif form == 'path':
                text = f"__import__('pathlib').Path({('./' if tilde else '') + rel!r})" if not tilde else f'__import__("pathlib").Path({p!r})'
            elif form == 'fileobj':
                text = f'File({p!r})'
            texts.append(text if form in ('plain', 'escaped', 'quoted') else f'({text})')
            mon.count(form)
            if not os.path.lexists(p):
                # cannot be seen by this user
                pass
            else:
                roots.append(p)
            name = text if form not in ('path', 'fileobj') else rel
            # a name with pattern characters is also a pattern
            absolute = form in ('abs', 'home') or form == 'slashes' and not ls['x'] % 2 or form == 'path' and tilde
            if form != 'fileobj' and magic(p if absolute else rel):
                mon.count('literal_glob')
                if form in ('home', 'up') or not absolute and rel.startswith('..'):
                    return
                got = expand('/', p[1:].split('/')) if absolute else expand(cwd, rel.split('/'))
                roots += [g for g in got if g not in roots]
        forms.append(form if kind != 'pattern' else 'pattern-' + form)
    if not ls['args']:
        mon.count('no_args')
        roots = [cwd]
    kinds = ls['kinds']
    want_f = 'f' in kinds.replace('--file', '-f').replace('--symlink', '-s').replace('--dir', '-d') or not kinds
    want_d = '-d' in kinds.replace('--dir', '-d') or 'd' in kinds.replace('--dir', '') .replace('--symlink', '').replace('--file', '') or not kinds
    want_s = 's' in kinds.replace('--symlink', '-s').replace('--file', '').replace('--dir', '') or not kinds
    mode = 'r' if 'r' in ls['depth'] else ls['depth'][1:] or '1'
    mon.count({'0': 'depth0', '1': 'depth1', 'r': 'recursive'}[mode])
    if len(roots) > len(set(roots)):
        mon.count('overlap')
    roots = sorted(set(roots))

    def kind_ok(p):
        try:
            m = os.lstat(p).st_mode
        except OSError:
            return None
        return want_s if stat.S_ISLNK(m) else want_d if stat.S_ISDIR(m) else want_f and stat.S_ISREG(m)

    must, may_under, denied = set(), [], set()
    def add(p):
        k = kind_ok(p)
        if k is None:
            denied.add(p)
        elif k:
            must.add(p)
    maybe = set()
    def unknown(p):
        # where a link leads to may be inaccessible
        if os.path.islink(p):
            try:
                os.stat(p)
            except PermissionError:
                maybe.add(p)
            except OSError:
                pass
    def walk(d, level):
        names, bad = entries(d)
        if bad:
            denied.add(d)
        for n in names:
            p = os.path.join(d, n)
            add(p)
            unknown(p)
            if mode == 'r' and os.path.isdir(p):
                if os.path.islink(p):
                    may_under.append(p)
                else:
                    walk(p, level + 1)
    for r in roots:
        add(r)
        unknown(r)
        if os.path.isdir(r) and mode in '1r':
            if os.path.islink(r):
                may_under.append(r)
            else:
                walk(r, 0)
    # directories reached through links: (real directory, name) of what should be seen
    seen, todo, reach = set(), [os.path.realpath(p) for p in may_under], set()
    while todo:
        d = todo.pop()
        if d in seen:
            continue
        seen.add(d)
        if entries(d)[1]:
            maybe.add(d)
        for n in entries(d)[0]:
            p = os.path.join(d, n)
            unknown(p)
            if kind_ok(p) is None:
                maybe.add(p)
            if kind_ok(p):
                reach.add((d, n))
            if os.path.isdir(p) and mode == 'r':
                todo.append(os.path.realpath(p))
    if may_under:
        mon.count('linked_dir')
    if denied:
        mon.count('unreadable')
    # running it
    text = ' '.join(['ls'] + ls['depth'].split() + kinds.split() + texts)
    if ls['x'] % 3 == 0 and texts:
        text = ' '.join(['ls'] + kinds.split() + ls['depth'].split() + texts)
    tap = f"map (f: '{MARK}' + ascii((str(f.path), f.mode, f.inode, f.device, f.links, f.uid, f.gid, f.size, f.mtime, f.ctime)))"
    how = ls['how']
    if how == 'case':
        mon.count('receive')
        full = f'gen 1 | args (| n: {text} | {tap} |)'
    elif how == 'args':
        mon.count('receive')
        full = f'(| {text} | {tap} |) >$ p' if 0 else f'gen 1 | select (x: False) | union (| {text} | {tap} |)'
    else:
        full = f'{text} | {tap}'
    r = s.run(full)
    mon.count('listings')
    out = r.out.split('\n')[:-1]
    got, rest = [], []
    for l in out:
        if l.startswith(MARK):
            got.append(eval(l[1:]))
        else:
            rest.append(l)
    err = r.err + (r.exc or '')
    what = f'in {cwd!r}: {text}'
    if not roots and ls['args']:
        mon.check('No qualifying paths' in err and not got, 'none', f'{what}: no such paths, printed {out[:4]} {err[:300]!r}')
        return
    mon.check(not err, 'failed', f'{what}: {err[:400]!r}')
    paths = [g[0] for g in got]
    mon.count('entries', len(paths))
    dup = sorted({p for p in paths if paths.count(p) > 1}) if len(set(paths)) < len(paths) else []
    mon.check(not dup, 'twice', f'{what}: more than once: {dup[:5]}')
    missing = sorted(must - set(paths))
    mon.check(not missing, 'missing', f'{what}: not listed: {missing[:5]} (listed {len(paths)}) {rest[:3]}')
    extra = []
    for p in set(paths) - must:
        under = any(p.startswith(l + '/') for l in may_under)
        if not (under and kind_ok(p)):
            extra.append(p)
    mon.check(not extra, 'extra', f'{what}: listed: {sorted(extra)[:5]}')
    have = {(os.path.realpath(os.path.dirname(p)), os.path.basename(p)) for p in paths}
    lost = sorted(reach - have)
    mon.check(not lost, 'missing-linked', f'{what}: reached through links, not listed: {lost[:5]}')
    for g in got:
        st = os.lstat(g[0])
        mon.check(g[1:] == (st.st_mode, st.st_ino, st.st_dev, st.st_nlink, st.st_uid, st.st_gid, st.st_size, int(st.st_mtime), int(st.st_ctime)) or g[1:] == (st.st_mode, st.st_ino, st.st_dev, st.st_nlink, st.st_uid, st.st_gid, st.st_size, st.st_mtime, st.st_ctime),
                  'attributes', f'{what}: {g}, but lstat says {st}')
    mon.check((bool(rest) == bool(denied) or bool(rest) and bool(maybe)) and all(l.startswith('Error') for l in rest[:1]), 'errors', f'{what}: cannot be accessed: {sorted(denied)[:4]}, printed {str(rest[:4])[:400]}')
    if any(os.path.basename(p).startswith('.') for p in paths):
        mon.count('hidden')
    if any(not os.path.basename(p).isalnum() for p in paths):
        mon.count('odd')
    if any('\udcff' in p for p in paths):
        mon.count('undecodable')
    ks = sorted({('l' if os.path.islink(p) else 'd' if os.path.isdir(p) else 'f') for p in paths})
    for k in ks:
        mon.count({'l': 'symlink', 'd': 'dir', 'f': 'file'}[k])
    if paths:
        mon.nontrivial((mode, kinds, tuple(sorted(forms)), tuple(ks), bool(may_under), len(paths), bool(denied)))
    # what is printed
    if how == 'print' and not any(c in p for p in paths + [os.readlink(p) for p in paths if os.path.islink(p)] for c in ('\n', '\udcff', '  ')) and not denied and not rest:
        r = s.run(text)
        lines = r.out.split('\n')[:-1]
        mon.count('rendered')
        mon.check(len(lines) == len(paths), 'rendered', f'{what}: {len(lines)} lines for {len(paths)} entries: {lines[:4]}')
        for l, p in zip(lines, paths):
            st = os.lstat(p)
            m = ('l' if stat.S_ISLNK(st.st_mode) else 'd' if stat.S_ISDIR(st.st_mode) else '-') + stat.filemode(st.st_mode & 0o777)[1:]
            import pwd, grp
            try:
                u = pwd.getpwuid(st.st_uid).pw_name
            except KeyError:
                u = str(st.st_uid)
            try:
                g = grp.getgrgid(st.st_gid).gr_name
            except KeyError:
                g = str(st.st_gid)
            t = time.strftime('%Y %b %d %H:%M:%S', time.localtime(st.st_mtime))
            tail = f'  ->  {os.readlink(p)}' if stat.S_ISLNK(st.st_mode) else ''
            mm = re.match(re.escape(m) + r'  +' + re.escape(u) + r'  +' + re.escape(g) + r'  +' + str(st.st_size) + '  ' + re.escape(t) + '  (.*)' + re.escape(tail) + '$', l)
            ok = mm is not None
            if ok:
                n = mm.group(1)
                ok = n == '.' or ('/' + p).endswith('/' + n)
            mon.check(ok, 'rendered', f'{what}: {p} is shown as {l!r}, expected {m} {u} {g} {st.st_size} {t} ...{tail!r}')
