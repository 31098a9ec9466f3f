"""C13: ownership of workspaces. Several sessions compete for workspaces, with injected delays and kills; an offline checker works on the recorded event log.
Separately, a session is killed at a chosen file system operation of a chosen command."""
import os, random, re, select, signal, sys, time
import core
from session import MARK, TAP

ID = 'C13'
LEVEL = 'exploration'
RULE = ('Races: three or four processes, each a session with random delays injected before its file system operations, open, close, create, delete, write to (variables '
        'and a reservoir) and list two workspaces for 60 operations, while some are killed at random moments and replaced by new ones. The event log of calls and returns '
        'is then checked offline: sessions owning a workspace never overlap, every refusal is explained by an overlapping owner (or by the possible absence or presence of '
        'the workspace), successful opens and deletes are consistent with existence and ownership, a refused operation leaves the process where it was, and each session finds '
        'the values saved by the last one that closed it, and every acknowledged append to the reservoir once, in order. Crashes: a process is killed (together with what it started) at the k-th file system operation of one of '
        'thirteen commands, for random k; then another process, running all the while or newly started, with the dead one reaped or still a zombie, opens each workspace, and must find the last saved or, if saving was under way, the new contents. '
        'Non-trivial: a race in which ownership changed between processes with refusals, and a crash that happened inside a command, keyed by command and operation.')
ASSUMPTIONS = ['process ids are not reused during a case', 'a reservoir is saved when it is written, and removed when its variable is']
N = {'quick': 420, 'thorough': 12000}
OPS = ['close', 'switch', 'exit', 'home', 'new', 'delete', 'open', 'store', 'append', 'assign', 'delvar', 'newres', 'openname']
REQUIRED = ['race', 'handovers', 'refused_open', 'refused_delete', 'killed_in_race', 'killed_owner', 'absent', 'crash', 'crash_inside', 'fresh_process', 'zombie', 'log_checked', 'values_checked', 'log_items'] + ['crash:' + o for o in OPS]
CONFIG = 'from marcel.builtin import *\n'
CASE_TIMEOUT = 120


def gen(rng, i, tier):
    if i % 4 == 0:
        return {'kind': 'race', 'seed': rng.randrange(10**9), 'nproc': rng.choice([2, 3, 3, 4]), 'ops': 60 if tier == 'quick' else 150, 'delay': rng.choice([0, 2, 5, 10]), 'kills': rng.choice([0, 2, 5])}
    o = OPS[(i - i // 4 - 1) % len(OPS)]
    return {'kind': 'crash', 'op': o, 'k': rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 18, 20, 24, 30]), 'verifier': rng.choice(['live', 'fresh', 'fork']), 'reap': rng.random() < .6}


# ----------------------------------------------------------------------------------------------------------------- file system operations

class Control:
    """What the audit hook does: nothing, delays, or a kill at the k-th event."""
    def __init__(self, path):
        self.path = path

    def arm(self, k):
        with open(self.path + '.new', 'w') as f:
            f.write(str(k))
        os.rename(self.path + '.new', self.path)


MUTATIONS = {'os.rename', 'os.mkdir', 'os.remove', 'os.rmdir', 'os.truncate', 'os.chmod', 'shutil.rmtree', 'shutil.move', 'os.link', 'os.symlink', 'os.utime'}


def hook(home, control=None, delay=0, seed=0):
    """To be called in a new process."""
    rng = random.Random(seed)
    main = os.getpid()
    state = {'busy': False, 'n': 0, 'armed': 0}

    def audit(event, args):
        if state['busy']:
            return
        if event == 'open':
            if type(args[0]) is not str and not isinstance(args[0], os.PathLike):
                return
            if home not in str(args[0]):
                return
            writes = (args[2] or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
            if not writes and not delay:
                return
        elif event in ('os.listdir', 'os.scandir'):
            if not delay or home not in str(args[0]):
                return
        elif event not in MUTATIONS:
            return
        state['busy'] = True
        try:
            if delay and rng.random() < .5:
                time.sleep(rng.random() * delay / 1000)
            if control:
                if not state['armed']:
                    try:
                        with open(control) as f:
                            state['armed'] = int(f.read())
                    except OSError:
                        return
                state['n'] += 1
                if state['n'] == state['armed']:
                    with open(control + '.hit', 'w') as f:
                        f.write(f'{event} {os.path.basename(str(args[0])) if args else ""}')
                    os.kill(main, signal.SIGKILL)
                    os.kill(os.getpid(), signal.SIGKILL)
        finally:
            state['busy'] = False
    sys.addaudithook(audit)


# ----------------------------------------------------------------------------------------------------------------- crashes

def run(case, mon, box):
    import marcel.persistence.storagelayout as sl
    sl.ensure_current(testing=True, initial_config=CONFIG)
    (race if case['kind'] == 'race' else crash)(case, mon, box)


def value(p, expr):
    out, err = p.run(f"gen 1 | map (i: '{MARK}' + repr({expr}))")
    return out.strip('\n')[1:] if out.startswith(MARK) else None if 'NameError' in out else 'FAIL ' + out[:200] + err[:200]


def contents(p, r):
    """Of a reservoir; None if there is no such variable."""
    if value(p, r) is None:
        return None
    out, err = p.run(f"{r} <$ map (x: '{MARK}' + repr(x))")
    if err or any(not l.startswith(MARK) for l in out.split('\n') if l):
        return 'FAIL ' + out[:200] + err[:200]
    return [int(l[1:]) for l in out.split('\n') if l]


def strip_damage(err):
    """Removes reports of damaged workspaces. Returns the rest, and the names reported."""
    rest, names = [], set()
    lines = err.split('\n')
    while lines:
        l = lines.pop(0)
        m = re.match(r"Damaged workspaces have been detected: \[(.*?)\]", l)
        if m:
            these = {n.strip().strip("'") for n in m.group(1).split(',')}
            names |= these
            while lines and (lines[0].startswith('    ') or any(lines[0].startswith((n or '<default workspace>') + ': ') for n in these)):
                lines.pop(0)
        else:
            rest.append(l)
    return '\n'.join(rest).strip('\n'), names


class Careful:
    """A session, reports of expected damage removed from its errors."""

    def __init__(self, p):
        self.p, self.damaged = p, set()

    def run(self, text):
        out, err = self.p.run(text)
        err, names = strip_damage(err)
        self.damaged |= names
        return out, err

    def __getattr__(self, name):
        return getattr(self.p, name)


def crash(case, mon, box):
    from procs import Proc, Gone
    op, k = case['op'], case['k']
    control = os.path.join(box.path, 'control')
    a = Proc(box, CONFIG, before=lambda: hook(box.home, control=control))
    live = Proc(box, CONFIG) if case['verifier'] == 'live' else None
    def do(p, *texts):
        for t in texts:
            out, err = p.run(t)
            mon.check(not err, 'setup', f'{t}: {err[:300]}')
    do(a, 'ws -n w1', 'v = (1)', 'gen 2 >$ r', 'ws -n w2', 'u = (7)', 'gen 3 >$ s', 'ws -o w1', 'v = (2)')
    if op == 'newres':
        pass
    else:
        do(a, 'gen 4 >$ q')
    if op in ('open', 'openname'):
        do(a, 'ws -c')
    if live is not None:
        out, err = live.run('ws -o w1')
        if op not in ('open', 'openname'):
            mon.check('in use' in err, 'owned', f'another process opened w1, which is open: {out!r} {err!r}')
            out, err = live.run('ws -d w1')
            mon.check('in use' in err, 'owned', f'another process deleted w1, which is open: {out!r} {err!r}')
        do(live, 'ws -c')
    text = {'close': 'ws -c', 'switch': 'ws -o w2', 'home': 'ws -h /tmp', 'new': 'ws -n w3', 'delete': 'ws -d w2', 'open': 'ws -o w1', 'openname': 'ws w1', 'store': 'gen 5 >$ r', 'append': 'gen 5 >>$ r', 'assign': 'v = (3)',
            'delvar': 'env -d r', 'newres': 'gen 4 >$ q', 'exit': None}[op]
    Control(control).arm(k)
    died = False
    try:
        if text is None:
            core.send(a.w, ['close'])
            a.answer(60)
        else:
            a.run(text)
    except Gone:
        died = True
    hit = open(control + '.hit').read() if os.path.exists(control + '.hit') else None
    if hit:
        mon.count('crash_inside')
        mon.nontrivial((op, k, hit))
    mon.count('crash')
    mon.count('crash:' + op)
    zombie = None
    if op == 'exit' and not died:
        a.reap()
    elif not died:
        # the command completed: the process ends later
        if case['reap']:
            a.kill()
        else:
            os.kill(a.pid, signal.SIGKILL)
            os.waitid(os.P_PID, a.pid, os.WEXITED | os.WNOWAIT)
            mon.count('zombie')
            zombie = a
    where = f'{op} killed at operation {k} ({hit})' if hit else f'{op}, then killed'
    fresh = None
    if case['verifier'] == 'fresh':
        from interactive import Interactive
        p = Interactive(box, layout=False)
        fresh = p.sync()
        mon.count('fresh_process')
    else:
        p = live or Proc(box, CONFIG)
    done = hit is None
    p = Careful(p)
    if fresh:
        damaged = 'amaged' in fresh[1]
        mon.check(not damaged or (op in ('new', 'delete') and not done), 'damage-reported', f'after {where} a new process reports {fresh[1][:500]!r}')
        mon.check(damaged or not fresh[1], 'startup-errors', f'after {where} a new process reports {fresh[1][:500]!r}')
    # w1
    out, err = p.run('ws -o w1')
    ok = mon.check(out.startswith('Workspace(w1') and not err, f'reopen:{op}', f'after {where}, w1 cannot be opened: {out!r} {err[:300]!r}')
    if ok:
        v, q, r = value(p, 'v'), contents(p, 'q'), contents(p, 'r')
        saving = op in ('close', 'switch', 'exit', 'new')
        vs = {'2'} if op in ('open', 'openname') else ({'2'} if done else {'1', '2'}) if saving else {'1'}
        mon.check(v in vs, f'variable:{op}', f'after {where}, v is {v}, expected {vs}')
        want_q = [[0, 1, 2, 3]] if v == '2' and op != 'newres' else [None]
        mon.check(q in want_q, f'reservoir:{op}', f'after {where}, v is {v} and q is {q}')
        if op == 'store':
            rs = [list(range(5))] if done else [[0, 1]] + [list(range(n)) for n in range(6)]
        elif op == 'append':
            rs = [[0, 1, 0, 1, 2, 3, 4]] if done else [[0, 1] + list(range(n)) for n in range(6)]
        elif op == 'delvar':
            rs = None
        else:
            rs = [[0, 1]]
        mon.check(rs is None or r in rs, f'reservoir:{op}', f'after {where}, r is {r}')
        mon.count('values_checked')
        # a variable that was never saved has no memory
        if q is None:
            said = p.run('gen 1 >>$ q')
            q = contents(p, 'q')
            mon.check(q == [0], 'stale-reservoir', f'after {where}, a new reservoir q contains {q} (storing said {said}, by {case["verifier"]})')
        out, err = p.run('v = (10)')
        out, err = p.run('ws -c')
        mon.check(not err, 'close', f'after {where}: ws -c: {err[:300]}')
    # w2
    out, err = p.run('ws -o w2')
    if op == 'delete':
        if not err:
            mon.check(not done, 'deleted', f'after {where}, w2 exists')
        mon.check(not err or 'no workspace' in err, f'reopen:{op}', f'after {where}, opening w2 gives {err[:300]!r}')
        if err:
            out, err = p.run('ws -n w2')
            mon.check(not err, f'recreate:{op}', f'after {where}, w2 cannot be created again: {err[:300]!r}')
            mon.check(value(p, 'u') is None, f'recreate:{op}', f'after {where}, the new w2 has variable u')
            p.run('gen 1 >>$ s')
            mon.check(contents(p, 's') == [0], 'stale-reservoir', f'after {where}, the new s in the new w2 contains {contents(p, "s")}')
        else:
            mon.check((value(p, 'u'), contents(p, 's')) == ('7', [0, 1, 2]), 'half-deleted', f'after {where}, w2 exists with u={value(p, "u")} s={contents(p, "s")}')
    else:
        mon.check(not err, f'reopen-other:{op}', f'after {where}, w2 cannot be opened: {err[:300]!r}')
        mon.check((value(p, 'u'), contents(p, 's')) == ('7', [0, 1, 2]), f'other:{op}', f'after {where}, w2 has u={value(p, "u")} s={contents(p, "s")}')
    if op == 'new':
        out, err = p.run('ws -o w3')
        mon.check(not err or (not done and 'no workspace' in err), f'reopen:{op}', f'after {where}, opening w3 gives {err[:300]!r}')
        if err:
            out, err = p.run('ws -n w3')
            mon.check(not err, f'recreate:{op}', f'after {where}, w3 cannot be created: {err[:300]!r}')
        p.run('z = (1)')
        mon.check(value(p, 'z') == '1', 'new', f'after {where}, w3 does not work')
    expected = set() if done else {'new': {'w3'}, 'delete': {'w2'}}.get(op, set())
    mon.check(p.damaged <= expected, 'damage-reported', f'after {where}, damage is reported to {sorted(p.damaged)}')
    if fresh:
        rc = p.end()
        mon.check(rc == 0, 'exit', f'after {where} the new process ended with {rc} {p.errors()[-300:]}')
    else:
        out, err = p.close()
        mon.check(not err, 'exit', f'after {where}: {err[:300]}')
    if zombie:
        zombie.reap()
    if case['verifier'] == 'fork':
        out, err = Proc(box, CONFIG).run('ws -o w1')
        mon.check(not err, 'again', f'after {where} and an orderly session, w1 cannot be opened: {err[:300]}')
    mon.sample = {'crash': where, 'by': case['verifier']}


# ----------------------------------------------------------------------------------------------------------------- races

class P:
    """A process, with at most one operation under way."""
    count = 0

    def __init__(self, box, case, rng):
        from procs import Proc
        P.count += 1
        self.id = P.count
        seed = rng.randrange(10**9)
        home, delay = box.home, case['delay']
        self.p = Proc(box, CONFIG, before=lambda: hook(home, delay=delay, seed=seed) if delay else None)
        self.current = ''           # what it believes
        self.op = None
        self.session = None
        self.idle_until = 0


def race(case, mon, box):
    rng = random.Random(case['seed'])
    P.count = 0
    names = ['w1', 'w2'] if rng.random() < .6 else ['w1']
    procs = [P(box, case, rng) for _ in range(case['nproc'])]
    events = []         # finished operations: dict(p, op, name, s, e, out, err)
    sessions = []       # dict(p, name, os, oe, es, ee, how, ...)
    kills = case['kills']
    started = 0
    t0 = time.monotonic()
    now = lambda: time.monotonic() - t0
    token = 0
    while True:
        t = now()
        busy = [p for p in procs if p.op]
        if started >= case['ops'] and not busy:
            break
        for p in procs:
            if not p.op and started < case['ops'] and t >= p.idle_until:
                started += 1
                name = rng.choice(names)
                if p.current:
                    o = rng.choice(['close', 'close', 'write', 'write', 'append', 'append', 'open', 'delete', 'deletecur', 'list', 'new', 'read'])
                else:
                    o = rng.choice(['open'] * 6 + ['new', 'delete', 'list']) if any(e['op'] == 'new' and not e['err'] for e in events) else 'new'
                if o == 'deletecur':
                    name, o = p.current, 'delete'
                token += 1
                text = {'close': 'ws -c', 'write': f"v = ({token})", 'append': f"({token}) >>$ log", 'open': f'ws -o {name}', 'delete': f'ws -d {name}', 'list': 'ws -l', 'new': f'ws -n {name}',
                        'read': f"gen 1 | map (i: ['v', v])"}[o]
                if o == 'append':
                    text = f'gen 1 | map (i: {token}) >>$ log'
                p.op = dict(p=p.id, op=o, name=name, s=now(), token=token, current=p.current)
                p.p.send(text)
        if kills and events and rng.random() < .05:
            p = rng.choice(procs)
            kills -= 1
            s = now()
            p.p.kill()
            e = now()
            mon.count('killed_in_race')
            events.append(dict(p=p.id, op='kill', name=p.current, s=s, e=e, out='', err='', during=p.op))
            if p.session:
                mon.count('killed_owner')
            procs.remove(p)
            procs.append(P(box, case, rng))
            continue
        rs = [p.p.r for p in procs if p.op]
        ready = select.select(rs, [], [], .002)[0] if rs else []
        if not rs:
            time.sleep(.001)
        for p in procs:
            if p.op and p.p.r in ready:
                out, err = p.p.answer(30)
                e = p.op
                err, damaged = strip_damage(err)
                e.update(e=now(), out=out, err=err, damaged=damaged)
                events.append(e)
                p.op = None
                p.idle_until = now() + rng.choice([0, 0, .002, .01])
                if e['op'] in ('open', 'new') and not err and e['name'] != e['current']:
                    # what is there
                    p.current = e['name']
                    p.session = True
                    v = value(p.p, 'v')
                    log = contents(p.p, 'log')
                    e['v'], e['log'] = v, log
                elif e['op'] == 'close' and not err:
                    p.current = ''
                    p.session = None
                elif err and e['op'] in ('open', 'new', 'delete'):
                    where, werr = p.p.run('ws')
                    mon.check(where == f'Workspace({p.current})\n', 'refused-moved', f'after {e["op"]} {e["name"]} was refused ({err.strip()[:100]}), ws prints {where!r} {werr!r}, was in {p.current!r}')
    # the end: everything is closed, and can be opened by a new process
    for p in procs:
        s = now()
        out, err = p.p.close()
        mon.check(not err, 'exit', f'errors at the end of a process: {err[:300]}')
        events.append(dict(p=p.id, op='end', name=p.current, s=s, e=now(), out=out, err=err))
    last = P(box, case, rng)
    for n in names:
        s = now()
        out, err = last.p.run(f'ws -o {n}')
        err, damaged = strip_damage(err)
        e = dict(p=last.id, op='open', name=n, s=s, e=now(), out=out, err=err, current=last.current)
        events.append(e)
        if not err:
            e['v'], e['log'] = value(last.p, 'v'), contents(last.p, 'log')
            last.current = n
    s = now()
    last.p.close()
    events.append(dict(p=last.id, op='end', name=last.current, s=s, e=now(), out='', err=''))
    judge(events, names, mon)
    mon.count('race')
    mon.sample = {'race': [f'{e["p"]} {e["op"]} {e["name"]} {e["s"]:.3f}-{e["e"]:.3f} {(e["err"] or "ok").strip()[:60]}' for e in sorted(events, key=lambda e: e['s'])][:40]}


def judge(events, names, mon):
    events = sorted(events, key=lambda e: e['s'])
    for e in events:
        e['p_'] = f'process {e["p"]} {e["op"]} {e["name"]} [{e["s"]:.4f}, {e["e"]:.4f}]'
    # sessions
    current = {}        # process -> session
    sessions = []
    creations, deletions = [], []
    maybe_owner = []    # (name, s, e, p): intervals in which a process may own a workspace
    order = sorted(events, key=lambda e: e['e'])
    for e in order:
        p, o = e['p'], e['op']
        moved = o in ('open', 'new') and not e['err'] and e['name'] != e['current']
        during = e.get('during') if o == 'kill' else None
        if p in current and (moved or o in ('close', 'end', 'kill') or (during and during['op'] in ('open', 'new', 'close'))):
            s = current[p]
            if o != 'close' or not e['err']:
                s['es'], s['ee'] = (during['s'] if during and during['op'] in ('open', 'new', 'close') else e['s']), e['e']
                s['how'] = o if o != 'kill' else 'killed-closing' if during and during['op'] in ('open', 'new', 'close') else 'killed'
                if during and during['op'] in ('write', 'append'):
                    s['ops'].append(dict(during, unsure=True))
                del current[p]
        if moved:
            s = dict(p=p, name=e['name'], os=e['s'], oe=e['e'], ops=[], v=e.get('v'), log=e.get('log'), new=o == 'new', how='open', es=None, ee=None, seen='v' in e)
            sessions.append(s)
            current[p] = s
        if o in ('write', 'append') and p in current and not e['err']:
            current[p]['ops'].append(e)
        if o == 'new' and not e['err']:
            creations.append((e['name'], e['s'], e['e'], True))
        if during and during['op'] == 'new':
            creations.append((during['name'], during['s'], float('inf'), False))
        if o == 'delete' and not e['err']:
            deletions.append((e['name'], e['s'], e['e'], True))
            maybe_owner.append((e['name'], e['s'], e['e'], p))
        if during and during['op'] == 'delete':
            deletions.append((during['name'], during['s'], float('inf'), False))
            maybe_owner.append((during['name'], during['s'], e['e'], p))
        if during and during['op'] in ('open', 'new'):
            maybe_owner.append((during['name'], during['s'], e['e'], p))
    for s in sessions:
        maybe_owner.append((s['name'], s['os'], s['ee'], s['p']))
    # 1. exclusive
    for i, a in enumerate(sessions):
        for b in sessions[i + 1:]:
            if a['name'] == b['name'] and a['p'] != b['p']:
                mon.check(not (b['oe'] < a['es'] and a['oe'] < b['es']), 'two-owners', f'process {a["p"]} has {a["name"]} open in [{a["oe"]:.4f}, {a["es"]:.4f}], process {b["p"]} in [{b["oe"]:.4f}, {b["es"]:.4f}]')
    # 2. refusals and existence
    kills = [(e['during']['name'], e['during']['s']) for e in events if e['op'] == 'kill' and e['during'] and e['during']['op'] in ('new', 'delete')]
    for e in events:
        n, o = e['name'], e['op']
        incomplete = {name for name, t in kills if t <= e['e']}
        if e.get('damaged'):
            mon.check(e['damaged'] <= incomplete, 'damage-reported', f'{e["p_"]} reports damage to {e["damaged"]}, but only {incomplete} can be incomplete')
        if o not in ('open', 'new', 'delete'):
            if o in ('close', 'write', 'append', 'list', 'read'):
                mon.check(not e['err'] or o == 'read', f'failed:{o}', f'{e["p_"]}: {e["err"][:300]!r}')
            continue
        certainly = any(c[0] == n and c[3] and c[2] < e['s'] and all(d[0] != n or d[2] < c[1] or d[1] > e['e'] for d in deletions) for c in creations)
        absent = all(c[0] != n or c[1] > e['e'] or c[2] >= e['s'] and False or any(d[0] == n and d[3] and d[1] > c[2] and d[2] < e['s'] for d in deletions) for c in creations if c[0] == n)
        others = [m for m in maybe_owner if m[0] == n and m[3] != e['p'] and m[1] <= e['e'] and m[2] >= e['s']]
        if not e['err']:
            if o == 'new':
                mon.check(not certainly, 'created-existing', f'{e["p_"]} succeeded although {n} exists')
            elif e['name'] != e.get('current'):
                mon.check(not absent, 'existence', f'{e["p_"]} succeeded although {n} does not exist')
            if o == 'delete':
                for s in sessions:
                    if s['name'] == n:
                        mon.check(not (s['oe'] <= e['s'] and s['es'] >= e['e']), 'deleted-open', f'{e["p_"]} succeeded while process {s["p"]} has it open')
        elif 'in use' in e['err']:
            if n == e.get('current'):
                continue        # its own
            mon.check(others, 'refused-unowned', f'{e["p_"]}: {e["err"][:150]!r}, but no other process can have had it open')
            mon.count('refused_' + ('open' if o == 'open' else 'delete'))
        elif 'no workspace' in e['err']:
            mon.check(not certainly, 'existence', f'{e["p_"]}: {e["err"][:150]!r}, but {n} exists')
            mon.count('absent')
        elif 'already exists' in e['err']:
            mon.check(o == 'new' and not absent, 'existence', f'{e["p_"]}: {e["err"][:150]!r}, but it does not exist')
        else:
            mon.check(False, 'unexpected-error', f'{e["p_"]}: {e["err"][:400]!r}')
    # 3. contents
    for n in names:
        ss = sorted((s for s in sessions if s['name'] == n), key=lambda s: s['oe'])
        cand = None         # possible saved values of v, or None if unknown
        log, log_saved = [], False
        prev = None
        for s in ss:
            if s['new']:
                cand = {None}
                log, log_saved = [], {False}
            if cand is not None and any(c[0] == n and not c[3] and c[1] < s['oe'] and (prev is None or c[1] > prev['os']) for c in creations):
                # perhaps created again, by a process that did not live to say so
                cand = cand | {None}
                log_saved = log_saved | {False}
            if s['seen']:
                if cand is not None:
                    mon.check(s['v'] in cand, 'contents', f'process {s["p"]} opened {n} in [{s["os"]:.4f}, {s["oe"]:.4f}] and found v = {s["v"]}, expected one of {cand}; the previous owner was {prev and (prev["p"], prev["how"])}')
                    mon.count('values_checked')
                if log is not None and cand is not None:
                    got = s['log']
                    if got is None:
                        mon.check(False in log_saved, 'log-lost', f'process {s["p"]} opened {n} and found no reservoir log')
                        log, log_saved = [], {False}
                    elif type(got) is str:
                        mon.check(False, 'log-failed', f'process {s["p"]} opened {n}: {got}')
                    else:
                        sure = [x for x, ok in log if ok]
                        want = [x for x, ok in log if ok or x in got]
                        mon.check(got == want, 'log', f'process {s["p"]} opened {n} and found log {got}, expected {sure} and possibly {[x for x, ok in log if not ok]}')
                        mon.count('log_checked')
                        mon.count('log_items', len(got))
                        log = [(x, True) for x in got]
                        log_saved = {True}
                cand = {s['v']}
            at_open = cand
            v = cand
            has_log = set(log_saved) if log_saved else {False}
            for o in s['ops']:
                if o['op'] == 'write':
                    v = {str(o['token'])} | (v if o.get('unsure') and v is not None else set())
                else:
                    log = (log or []) + [(o['token'], not o.get('unsure'))]
                    has_log = {True} | (has_log if o.get('unsure') else set())
            if s['how'] == 'killed':
                cand = at_open
            elif s['how'] == 'killed-closing':
                cand = None if at_open is None or v is None else at_open | v
                log_saved = (log_saved or {False}) | has_log
            else:
                cand, log_saved = v, has_log
            if prev and prev['p'] != s['p']:
                mon.count('handovers')
            prev = s
    if len({s['p'] for s in sessions}) > 1:
        mon.nontrivial(('race', len(sessions), tuple(sorted((s['how'], len(s['ops'])) for s in sessions))[:8]))
