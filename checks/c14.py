"""C14: damage to the stored files of workspaces. Real processes are started on installations with damaged files, and what they report, keep, move and still do is compared with
what was there."""
import os, random, shutil, signal, sys, time
from session import MARK
from c13 import strip_damage, contents, value, Careful

ID = 'C14'
LEVEL = 'exploration'
RULE = ('An installation with three named workspaces (variables, functions, pipelines, reservoirs, home, history) and the default one is built by real sessions; then one to five of its files and '
        'directories are removed, emptied, truncated at a random byte, overwritten with garbage, or replaced by a directory or a file, in one or two workspaces, possibly the default one, possibly all data or all configuration. A real process is '
        'started. It must start; report exactly the workspaces whose files are unusable; what was left of those must be in quarantine, byte for byte; all files of the other workspaces must be '
        'unchanged, and their variables, functions, pipelines and reservoirs work when opened; the names of the damaged ones are free again; the default workspace works; and the next start reports nothing. Undamaged '
        'installations must not be reported or changed by any number of starts, including simultaneous ones while other processes create, use and delete workspaces. '
        'Damage done while a session runs must not end the session. Non-trivial: a start on a damaged installation, keyed by the files and kinds of damage.')
ASSUMPTIONS = ['mistakes in a startup script, and the contents of reservoirs and histories, are not damage that validation detects: only reading them is affected',
               'garbage is not a pickle']
N = {'quick': 330, 'thorough': 9000}
REQUIRED = ['started', 'reported', 'quarantined_files', 'intact_opened', 'default_damaged', 'two_damaged', 'undamaged', 'concurrent', 'live_damage', 'recreated', 'unreported_ok', 'second_start',
            'kind:remove', 'kind:empty', 'kind:truncate', 'kind:garbage', 'kind:dir', 'kind:file', 'whole_tree', 'config_value', 'unused_names', 'running']
CONFIG = '''from marcel.builtin import *
def twice(x): return (x, x)
LIMIT = 17
'''
WS = ['wa', 'w b', 'wc']
CASE_TIMEOUT = 150
# file, kinds of damage that must be detected, kinds that may or may not be
FILES = [('c', 'startup.py', ['remove', 'dir'], []),
         ('c', None, ['remove', 'file'], []),
         ('c', '.WORKSPACE', [], ['remove']),
         ('d', 'env.pickle', ['remove', 'empty', 'truncate', 'garbage', 'dir'], []),
         ('d', 'properties.pickle', ['remove', 'empty', 'truncate', 'garbage', 'dir'], []),
         ('d', 'history', ['remove', 'dir'], ['empty', 'truncate', 'garbage']),
         ('d', 'reservoirs', ['remove', 'file'], []),
         ('d', 'reservoirs/r.pickle', [], ['remove', 'empty', 'truncate', 'garbage']),
         ('d', None, ['remove', 'file'], [])]
DEFAULT_FILES = [f for f in FILES if f[1] not in ('env.pickle', 'properties.pickle', 'reservoirs/r.pickle')]


def gen(rng, i, tier):
    if i % 11 == 3:
        return {'kind': 'undamaged', 'concurrent': rng.random() < .6, 'seed': rng.randrange(10**9)}
    if i % 11 == 7:
        return {'kind': 'live', 'target': rng.choice(WS), 'damage': pick(rng, False, 1, sure=True)}
    if i % 11 == 9 and rng.random() < .4:
        return {'kind': 'tree', 'which': rng.choice(['config', 'data', 'version', 'version-garbage', 'broken', 'data-ws', 'config-ws'])}
    targets = rng.choice([[rng.choice(WS)], [rng.choice(WS)], [''], rng.sample(WS, 2), ['', rng.choice(WS)]])
    return {'kind': 'damage', 'damage': [[t, *d] for t in targets for d in pick(rng, t == '', rng.choice([1, 1, 1, 2, 4]))]}


def pick(rng, default, n, sure=False):
    files = DEFAULT_FILES if default else FILES
    out = []
    for _ in range(n):
        f = rng.choice([f for f in files if f[2] or not sure])
        k = rng.choice(f[2] if f[2] and (sure or not f[3] or rng.random() < .7) else f[3])
        out.append([f[0], f[1], k, rng.random()])
    return out


def config_home(box):
    return os.path.join(box.home, '.config/marcel')


def data_home(box):
    return os.path.join(box.home, '.local/share/marcel')


def ws_dir(box, which, ws):
    return os.path.join((config_home if which == 'c' else data_home)(box), 'workspace', ws or '__DEFAULT__')


def build(box, mon):
    import marcel.persistence.storagelayout as sl
    from procs import Proc
    sl.ensure_current(testing=True, initial_config=CONFIG)
    p = Proc(box, CONFIG)
    for n in WS:
        for t in (f"ws -n '{n}'", f"v = ('value of {n}')", 'f = (x: twice(x))', f'p = (| n: gen (n) | map (x: (x, v)) |)', 'gen 3 >$ r', 'import math', f"ws -h '/tmp/{n}'"):
            out, err = p.run(t)
            mon.check(not err, 'setup', f'{t}: {err[:300]}')
    out, err = p.close()
    mon.check(not err, 'setup', f'close: {err[:300]}')
    for n in WS + ['']:
        with open(os.path.join(ws_dir(box, 'd', n), 'history'), 'w') as f:
            f.write(f'\n# 2026-01-02 03:04:05.678901\n+(1)\n\n# 2026-01-02 03:05:05.678901\n+gen 3 | map (x: "{n}")\n')


def tree(top):
    """path -> contents (None for directories), of everything below."""
    out = {}
    for d, ds, fs in os.walk(top):
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), top)] = None
        for x in fs:
            p = os.path.join(d, x)
            try:
                with open(p, 'rb') as f:
                    out[os.path.relpath(p, top)] = f.read()
            except PermissionError:
                out[os.path.relpath(p, top)] = b''
    return out


def ws_tree(box, ws):
    return {w: (tree(ws_dir(box, w, ws)) if os.path.isdir(ws_dir(box, w, ws)) else 'file' if os.path.exists(ws_dir(box, w, ws)) else None) for w in 'cd'}


def harm(box, ws, which, name, kind, fraction):
    p = ws_dir(box, which, ws)
    if name:
        p = os.path.join(p, name)
    if kind != 'dir' and kind != 'file' and not os.path.lexists(p):
        return False
    if not os.path.isdir(os.path.dirname(p)):
        return False
    def remove():
        if os.path.isdir(p):
            shutil.rmtree(p)
        elif os.path.exists(p):
            os.unlink(p)
    if kind == 'remove':
        remove()
    elif kind == 'dir':
        remove()
        os.mkdir(p)
    elif kind == 'file':
        remove()
        with open(p, 'w') as f:
            f.write('x')
    else:
        if not os.path.isfile(p):
            return False
        os.chmod(p, 0o600)
        with open(p, 'rb') as f:
            old = f.read()
        new = b'' if kind == 'empty' else old[:int(len(old) * fraction)] if kind == 'truncate' else b'\x00garbage\xff' * 20
        with open(p, 'wb') as f:
            f.write(new)
    return True


def works(p, n, mon, where):
    """Workspace n, in which p is, has what it was built with."""
    v = value(p, 'v')
    mon.check(v == repr(f'value of {n}'), 'intact-variable', f'{where}: v in {n} is {v}')
    mon.check(value(p, 'f(3)') == '(3, 3)', 'intact-function', f'{where}: f(3) in {n} is {value(p, "f(3)")}')
    mon.check(value(p, 'math.pi') is not None, 'intact-import', f'{where}: no math in {n}')
    out, err = p.run(f"p (2) | map (*x: '{MARK}' + repr(x))")
    mon.check(out == f"{MARK}(0, 'value of {n}')\n{MARK}(1, 'value of {n}')\n" and not err, 'intact-pipeline', f'{where}: {out[:200]!r} {err[:200]!r}')
    return contents(p, 'r')


def run(case, mon, box):
    build(box, mon)
    {'undamaged': undamaged, 'live': live, 'tree': whole, 'damage': damage}[case['kind']](case, mon, box)


def start(box, mon, where):
    from interactive import Interactive, Gone
    p = Interactive(box, layout=False)
    try:
        out, err = p.sync()
    except Gone as e:
        mon.check(False, 'no-start', f'{where}: marcel does not start: {e}'[:1500])
        return None, None, None
    mon.count('started')
    rest, damaged = strip_damage('\n'.join(l for l in err.split('\n') if not l.startswith('Default workspace was damaged')))
    if 'Default workspace was damaged' in err:
        damaged.add('')
    mon.check(not rest, 'startup-errors', f'{where}: at startup: {err[:900]!r}')
    return p, {d for d in damaged}, err


def finish(p, mon, where):
    rc = p.end()
    mon.check(rc == 0, 'exit', f'{where}: the process ended with {rc}: {p.errors()[-500:]}')


def check_quarantine(box, mon, ws, left, where):
    name = ws or '__DEFAULT__'
    for w, base in (('c', config_home(box)), ('d', data_home(box))):
        if type(left[w]) is not dict or not left[w]:
            continue
        found = []
        for ts in sorted(os.listdir(os.path.join(base, 'broken'))):
            q = os.path.join(base, 'broken', ts)
            for top in (os.path.join(q, name), os.path.join(q, name, name)):
                if os.path.isdir(top):
                    found.append(tree(top))
        ok = any(all(t.get(k, 0) == v for k, v in left[w].items() if '.WORKSPACE' not in k) for t in found)
        mon.check(ok, 'quarantine', f'{where}: what was left of {ws or "the default workspace"} ({sorted(left[w])}) is not in {base}/broken: {[sorted(t) for t in found]}')
        mon.count('quarantined_files', len(left[w]))


def damage(case, mon, box):
    sure, maybe, kinds = set(), set(), []
    for ws, which, name, kind, fraction in case['damage']:
        if harm(box, ws, which, name, kind, fraction):
            f = next(f for f in FILES if f[0] == which and f[1] == name)
            (sure if kind in f[2] else maybe).add(ws)
            kinds.append((bool(ws), which, name, kind))
            mon.count('kind:' + kind)
    # a workspace of which nothing is left is just not there
    for ws in list(sure):
        if all(x is None for x in ws_tree(box, ws).values()):
            sure.discard(ws)
            maybe.add(ws)
    left = {ws: ws_tree(box, ws) for ws in WS + ['']}
    where = f'after {[d[:4] for d in case["damage"]]}'
    p, damaged, err = start(box, mon, where)
    if p is None:
        return
    judge_start(case, mon, box, p, damaged, err, sure, maybe, left, where)
    mon.nontrivial(tuple(sorted(map(repr, kinds))))


def judge_start(case, mon, box, p, damaged, err, sure, maybe, left, where):
    mon.check(sure <= damaged, 'unreported', f'{where}: damage to {sure - damaged} is not reported: {err[:500]!r}')
    mon.check(damaged <= sure | maybe, 'reported-intact', f'{where}: {damaged - sure - maybe} is reported: {err[:700]!r}')
    if '' in damaged:
        mon.count('default_damaged')
    if len(damaged) > 1:
        mon.count('two_damaged')
    for ws in damaged:
        mon.count('reported')
        check_quarantine(box, mon, ws, left[ws], where)
    for ws in WS + ['']:
        if ws not in sure | maybe:
            now = ws_tree(box, ws)
            if not ws:
                for w in 'cd':
                    now[w] = {k: v for k, v in now[w].items() if not k[0].isdigit()}
                    left[ws][w] = {k: v for k, v in left[ws][w].items() if not k[0].isdigit()}
                now['d'].pop('history', None), left[ws]['d'].pop('history', None)
            mon.check(now == left[ws], 'intact-files', f'{where}: files of {ws or "the default workspace"} changed: ' + str([k for w in 'cd' for k in set(now[w] or ()) ^ set(left[ws][w] or ())][:10]))
    # the default workspace works
    q = Careful(p)
    out, err = q.run('gen 3 | map (x: x + 1) | red +')
    mon.check(out == '6\n' and not err, 'default-works', f'{where}: {out!r} {err[:300]!r}')
    if '' not in sure | maybe:
        mon.check(value(q, 'LIMIT') == '17', 'default-config', f'{where}: LIMIT is {value(q, "LIMIT")}')
        mon.count('config_value')
    out, err = q.run("ws -l | map (w: repr(w.name))")
    names = set(out.split('\n')) - {''}
    expected = {repr(n) for n in [''] + WS}
    gone = {repr(n) for n in damaged if n}
    absent = {repr(n) for n in maybe if n and n not in damaged and all(x is None for x in left[n].values())}
    mon.check(names == expected - gone - absent, 'listed', f'{where}: ws -l prints {sorted(names)}, with {sorted(damaged)} damaged')
    for n in WS:
        if n in damaged or repr(n) in absent:
            out, err = q.run(f"ws -o '{n}'")
            mon.check('no workspace' in err, 'damaged-opened', f'{where}: {n} is damaged, ws -o prints {out!r} {err[:200]!r}')
            out, err = q.run(f"ws -n '{n}'")
            ok = mon.check(not err, 'recreate', f'{where}: {n} cannot be created: {err[:500]!r}')
            if ok:
                mon.count('recreated')
                mon.check(value(q, 'v') is None and contents(q, 'r') is None, 'recreate', f'{where}: the new {n} has variables')
                q.run("v = ('new')")
                mon.check(value(q, 'v') == "'new'", 'recreate', f'{where}: the new {n} does not work')
                mon.count('unused_names')
        else:
            out, err = q.run(f"ws -o '{n}'")
            ok = mon.check(not err, 'intact-open', f'{where}: {n} cannot be opened: {err[:500]!r}')
            if ok:
                r = works(q, n, mon, where)
                bad_r = any(d[0] == n and d[2] == 'reservoirs/r.pickle' for d in case.get('damage', ()))
                mon.check(r == [0, 1, 2] or bad_r, 'intact-reservoir', f'{where}: r in {n} is {r}')
                mon.count('intact_opened')
                if n in maybe:
                    mon.count('unreported_ok')
    out, err = q.run('ws -c')
    mon.check(not err, 'close', f'{where}: {err[:300]!r}')
    finish(p, mon, where)
    p, damaged, err = start(box, mon, where + ', second start')
    if p is not None:
        mon.check(not damaged, 'second-start', f'{where}: the second start reports {err[:500]!r}')
        mon.count('second_start')
        finish(p, mon, where)
    mon.sample = {'damage': case.get('damage') or case.get('which'), 'reported': sorted(sure | maybe)}


def whole(case, mon, box):
    w = case['which']
    mon.count('whole_tree')
    sure = set(WS) | {''}
    left = {ws: ws_tree(box, ws) for ws in WS + ['']}
    if w == 'config':
        shutil.rmtree(config_home(box))
        for x in left.values():
            x['c'] = None
        # with nothing configured, this is like a new installation with data of earlier ones
    elif w == 'data':
        shutil.rmtree(data_home(box))
    elif w == 'config-ws':
        shutil.rmtree(os.path.join(config_home(box), 'workspace'))
    elif w == 'data-ws':
        shutil.rmtree(os.path.join(data_home(box), 'workspace'))
    elif w == 'version':
        os.unlink(os.path.join(config_home(box), 'VERSION'))
    elif w == 'version-garbage':
        p = os.path.join(config_home(box), 'VERSION')
        os.chmod(p, 0o600)
        with open(p, 'wb') as f:
            f.write(b'\xff\x00 what')
    elif w == 'broken':
        shutil.rmtree(os.path.join(config_home(box), 'broken'))
        shutil.rmtree(os.path.join(data_home(box), 'broken'))
    left = {ws: ws_tree(box, ws) for ws in WS + ['']}
    where = f'after damage to {w}'
    p, damaged, err = start(box, mon, where)
    if p is None:
        return
    if w in ('version', 'version-garbage', 'broken'):
        judge_start(case, mon, box, p, damaged, err, set(), set(), left, where)
        return
    maybe = {''} if 'config' in w else set()
    judge_start(case, mon, box, p, damaged, err, sure - maybe, maybe, left, where)


def live(case, mon, box):
    """Damage done while a session runs."""
    from interactive import Interactive
    p = Careful(Interactive(box, layout=False))
    p.run("ws -n 'other'")
    p.run("v = (5)")
    t = case['target']
    for d in case['damage']:
        harm(box, t, *d)
    where = f'after {case["damage"]} of {t} while running'
    out, err = p.run(f"ws -o '{t}'")
    mon.check(bool(err), 'damaged-opened', f'{where}: opened: {out!r}')
    out, err = p.run('ws')
    mon.check(out.startswith('Workspace(other') and value(p, 'v') == '5', 'session', f'{where}: ws prints {out!r} {err[:300]!r}, v is {value(p, "v")}')
    out, err = p.run('ws -l')
    mon.check(not err, 'list', f'{where}: ws -l: {err[:300]!r}')
    for n in WS:
        if n != t:
            out, err = p.run(f"ws -o '{n}'")
            if mon.check(not err, 'intact-open', f'{where}: {n} cannot be opened: {err[:500]!r}'):
                mon.check(works(p, n, mon, where) == [0, 1, 2], 'intact-reservoir', where)
    out, err = p.run("ws -o other")
    mon.check(not err and value(p, 'v') == '5', 'session', f'{where}: {err[:300]!r} {value(p, "v")}')
    mon.check(p.damaged <= {t}, 'reported-intact', f'{where}: reported {p.damaged}')
    finish(p, mon, where)
    mon.count('live_damage')
    mon.nontrivial(('live', case['damage'][0][1], case['damage'][0][2]))
    mon.sample = {'live': case['damage']}


def undamaged(case, mon, box):
    from interactive import Interactive
    mon.count('undamaged')
    def snapshot():
        t = {**{'c/' + k: v for k, v in tree(config_home(box)).items()}, **{'d/' + k: v for k, v in tree(data_home(box)).items()}}
        return {k: v for k, v in t.items() if not os.path.basename(k)[:1].isdigit() and k != 'd/workspace/__DEFAULT__/history' and '/churn' not in k and k != 'd/workspace/wa/properties.pickle'}
    before = snapshot()
    if case['concurrent']:
        from procs import Proc
        rng = random.Random(case['seed'])
        workers = [Proc(box, CONFIG) for _ in range(2)]
        scripts = [[x for k in range(8) for x in (f'ws -n churn{w}-{k % 3}', 'v = (1)', 'gen 2 >$ r', 'ws -c', f'ws -o churn{w}-{k % 3}', 'ws -c', f'ws -d churn{w}-{k % 3}')] for w in range(2)]
        pos = [0, 0]
        for w in range(2):
            workers[w].send(scripts[w][0])
        import select
        starts = []
        for k in range(3):
            starts.append(Interactive(box, layout=False))
        end = time.monotonic() + 60
        while any(pos[w] < len(scripts[w]) for w in range(2)) and time.monotonic() < end:
            rs = [workers[w].r for w in range(2) if pos[w] < len(scripts[w])]
            for r in select.select(rs, [], [], 5)[0]:
                w = [x.r for x in workers].index(r)
                out, err = workers[w].answer(10)
                mon.check(not err, 'concurrent-errors', f'{scripts[w][pos[w]]!r} while other processes start: {err[:500]!r}')
                pos[w] += 1
                if pos[w] < len(scripts[w]):
                    workers[w].send(scripts[w][pos[w]])
        for s in starts:
            out, err = s.sync()
            mon.check(not err, 'reported-intact', f'while other processes create and delete workspaces, startup reports {err[:600]!r}')
            mon.count('started')
            mon.count('concurrent')
        for s in starts:
            finish(s, mon, 'concurrent start')
        for w in workers:
            w.close()
        mon.nontrivial(('concurrent', case['seed']))
    else:
        # sessions which are running meanwhile keep what they have
        running = [Careful(Interactive(box, layout=False)) for _ in range(2)]
        for k, q in enumerate(running):
            if k:
                out, err = q.run('ws -o wa')
                mon.check(not err, 'intact-open', f'undamaged: {err[:300]!r}')
            q.run(f'gen {k + 3} >$ mine')
            q.run('ws -c') if k else None
            q.run('gen 2 >$ closed')
            q.run('ws -o wa') if k else None
        for k in range(2):
            p, damaged, err = start(box, mon, 'undamaged')
            if p:
                for j, q in enumerate(running):
                    mon.check(contents(q, 'mine') == list(range(j + 3)), 'running-session', f'undamaged: after another process has started, the reservoir of a running session has {contents(q, "mine")}')
                    mon.count('running')
                mon.check(not damaged, 'reported-intact', f'nothing is damaged, startup reports {err[:500]!r}')
                p.run('ws -l')
                finish(p, mon, 'undamaged')
        for q in running:
            q.run('env -d mine')
            finish(q, mon, 'undamaged')
        mon.nontrivial(('undamaged',))
    after = snapshot()
    diff = sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0))
    mon.check(not diff, 'changed-by-start', f'files changed: {diff[:10]}')
    mon.sample = {'undamaged': len(before)}
