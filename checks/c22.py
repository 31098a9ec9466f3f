"""C22: host executables receive exact arguments and input, and return exact output."""
import glob, json, os, re, signal, subprocess, sys, time
from session import Session, MARK, TAP

ID = 'C22'
LEVEL = 'exploration'
RULE = ('Recording executables on PATH write down their arguments and every byte of input they get, and act out a random script: reading nothing, some or all of '
        'their input, echoing, printing up to megabytes before, between and after reading, with blank, partial, very long, CR-terminated or undecodable lines, '
        'writing to standard error, sleeping, closing their files early, failing or being killed. They are run by name, through bash with separate arguments or one '
        'shell string, from the API, first, inside, and last in pipelines, stored and nested pipelines, branches and forks, with random item streams. The oracle is '
        'a real shell given the same words or string and the expected input bytes: arguments, input, number of runs, the list of output strings and of error '
        'lines must be the same. Deadlock is an alarm after 60 s; after every command, none of the processes it started may be running, also when it was interrupted. '
        'Non-trivial: a run where arguments have more than plain characters, or input or output is not empty, keyed by the text and stream.')
ASSUMPTIONS = ['words given to executables are interpreted by the shell (quotes, variables, globs); an expression is inserted as text, so generated expression values are '
               'free of shell syntax, and quoted text adjacent to an expression in one word is not generated',
               'the recording executables are deterministic given their input, so the order of standard error relative to output is not compared',
               'an executable in a branch or nested pipeline that is given no items may be run with empty input or not at all']
N = {'quick': 420, 'thorough': 8000}
CASE_TIMEOUT = 150
REQUIRED = ['kind:name', 'kind:bash-words', 'kind:bash-string', 'kind:api', 'kind:interactive', 'place:first', 'place:inside', 'place:stored', 'place:args',
            'place:case', 'place:fork', 'place:twice', 'big-input', 'big-output', 'early-close', 'stderr', 'failing', 'undecodable', 'partial', 'interrupted', 'expression',
            'empty-input', 'quoted', 'expansion', 'flaglike']

REC = r'''#!/opt/venv/bin/python -IS
import json, os, signal, sys, time
me = sys.argv[0]
argv = [os.fsencode(a) for a in sys.argv[1:]]
spec = json.load(open(me + '.json'))
got = []
buf = b''
def log(final):
    d = os.environ['REC_LOG']
    p = os.path.join(d, '%s.%d.%d' % (os.path.basename(me), os.getpid(), final))
    with open(p + '.tmp', 'w') as f:
        json.dump({'name': os.path.basename(me), 'pid': os.getpid(), 'argv': [a.hex() for a in argv], 'stdin': b''.join(got).hex() if final else None}, f)
    os.rename(p + '.tmp', p)
def readline():
    global buf
    while b'\n' not in buf:
        c = os.read(0, 65536)
        if not c:
            line, buf = buf, b''
            return line
        got.append(c)
        buf += c
    line, buf = buf.split(b'\n', 1)
    return line + b'\n'
def put(fd, b):
    while b:
        b = b[os.write(fd, b):]
log(0)
code = 0
try:
    for a in spec:
        k = a[0]
        if k == 'out': put(1, bytes.fromhex(a[1]))
        elif k == 'err': put(2, bytes.fromhex(a[1]))
        elif k == 'many': put(1, b''.join(b'%d %s\n' % (i, bytes.fromhex(a[1])) for i in range(a[2])))
        elif k == 'manyerr': put(2, b''.join(b'%d %s\n' % (i, bytes.fromhex(a[1])) for i in range(a[2])))
        elif k == 'read':
            for _ in range(a[1]): readline()
        elif k == 'echo':
            while True:
                line = readline()
                if not line: break
                put(1, bytes.fromhex(a[1]) + line)
        elif k == 'echon':
            while True:
                line = readline()
                if not line: break
                put(1, (bytes.fromhex(a[1]) + line.rstrip(b'\n') + b'\n') * a[2])
        elif k == 'split':
            n = 0
            while True:
                line = readline()
                if not line: break
                n += 1
                put(1 + n % 2, line)
        elif k == 'args': put(1, b''.join(b'<' + a + b'>' for a in argv) + b'\n')
        elif k == 'closein': os.close(0)
        elif k == 'closeout': os.close(1)
        elif k == 'sleep': time.sleep(a[1] / 1000)
        elif k == 'exit': code = a[1]; break
        elif k == 'kill': log(1); os.kill(os.getpid(), a[1])
        elif k == 'flag': open(os.path.join(os.environ['REC_LOG'], 'started'), 'w').close()
except BrokenPipeError:
    code = 141
log(1)
os._exit(code)
'''

CONFIG = 'from marcel.builtin import *\n'


def hx(b):
    return b.hex()


def rbytes(rng):
    r = rng.random()
    if r < 0.5:
        return bytes(rng.choice(b'abc xyz,;') for _ in range(rng.randrange(0, 8)))
    if r < 0.75:
        return rng.choice(['é', '日本', '\x0b', '\x0c', '\x85', '\u2028', '\x1c', '\r', 'a\rb', '  ', '\t', "'", '"', '\\', '<x>']).encode() * rng.randrange(1, 3)
    if r < 0.87:
        return rng.choice([b'\xff', b'a\xe9b', b'\xc3', b'\x80\x81', b'\x00'])
    return b'x' * rng.choice([100, 5000, 70000])


def rlines(rng, n=None):
    n = rng.randrange(0, 5) if n is None else n
    b = b''.join(rbytes(rng) + rng.choice([b'\n', b'\n', b'\n', b'\r\n', b'\n\n']) for _ in range(n))
    if rng.random() < 0.3:
        b += rbytes(rng)
    return b


def rspec(rng, big):
    acts = []
    if rng.random() < 0.3:
        acts.append(['args'])
    for _ in range(rng.randrange(0, 3)):
        acts.append(rng.choice([['out', hx(rlines(rng))], ['out', hx(rlines(rng))], ['err', hx(rlines(rng).replace(b'\x00', b''))], ['sleep', rng.choice([1, 5, 30])],
                                ['many', hx(rbytes(rng)[:200]), rng.choice([3, 50, 800]) * (20 if big else 1)],
                                ['manyerr', hx(rbytes(rng)[:20].replace(b'\x00', b'')), rng.choice([3, 50, 300])], ['read', rng.randrange(1, 4)]]))
    r = rng.random()
    if r < 0.6:
        acts.append(rng.choice([['echo', hx(b'e:')], ['echo', ''], ['echon', hx(rbytes(rng)[:50].replace(b'\n', b'')), rng.choice([1, 2, 2 if big else 40])], ['split']]))
    elif r < 0.75:
        acts.append(['closein'])
    elif r < 0.8:
        acts.append(['closeout'])
    for _ in range(rng.randrange(0, 3)):
        acts.append(rng.choice([['out', hx(rlines(rng))], ['err', hx(rlines(rng).replace(b'\x00', b''))], ['sleep', 3]]))
    if rng.random() < 0.25:
        acts.append(rng.choice([['exit', 1], ['exit', 3], ['exit', 255], ['kill', 9], ['kill', 15]]))
    if any(a[0] == 'closeout' for a in acts):
        k = [a[0] for a in acts].index('closeout')
        acts = acts[:k + 1] + [a for a in acts[k + 1:] if a[0] in ('sleep', 'err', 'exit')]
    return acts


NEUTRAL = 'abcXYZ019_./=-'
INSIDE1 = 'ab  \\"$`*?[]{}~!#;&|()<>=,:-%\té😀'
INSIDE2 = 'ab  \'*?[]{}~#;&|()<>=,:-%\té'
BARE = 'abz019_./=,:-+%@^'


def word(rng, feats):
    if rng.random() < 0.12:
        feats.add('flaglike')
        return rng.choice(['-i', '--interactive', '-ii', '-l', '--', '-', '-abc', '--x=y', '-1'])
    out = ''
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        r = rng.random()
        if r < 0.3:
            out += "'" + ''.join(rng.choice(INSIDE1) for _ in range(rng.randrange(0, 7))) + "'"
            feats.add('quoted')
        elif r < 0.55:
            feats.add('quoted')
            s = ''
            for _ in range(rng.randrange(0, 6)):
                s += rng.choice([rng.choice(INSIDE2)] * 5 + ['\\"', '\\\\', '\\$', '$VAR', '${VAR}', '$((2+3))', '$(echo sub)', '\\`'])
            out += '"' + s + '"'
        elif r < 0.62:
            out += '\\' + rng.choice('ab \'"\\$*?()|#;&<>~!{[é')
            feats.add('quoted')
        elif r < 0.75:
            out += rng.choice(['*.t', '?.t', '[ab].t', '{x,y}', '$VAR', '${VAR}', '~', 'no*match', '$UNDEF', '$SP', '$((1+1))'.replace('((1+1))', 'VAR')])
            feats.add('expansion')
        else:
            w = ''.join(rng.choice(BARE) for _ in range(rng.randrange(1, 6)))
            out += w
    return out


def words(rng, feats):
    ws = [word(rng, feats) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
    # name = is the beginning of an assignment, (| name, ... : of parameters
    return [*[w.lstrip('=,:') or 'w' for w in ws[:1]], *ws[1:]]


def rstream(rng, feats, big):
    n = rng.choice([0, 1, 2, 5, 30])
    if n == 0:
        feats.add('empty-input')
    if big:
        n = rng.choice([3000, 12000])
        feats.add('big-input')
        return [rng.choice(['x' * 80, i, (i, 'abc'), 'é' * 30]) for i in range(40)], n
    items = []
    for i in range(n):
        items.append(rng.choice([i, -i, 1.5, None, True, 'text', ' lead', 'trail ', '', 'two words', "q'uo\"te", 'é日😀', '\udcff', 'a\tb', 'a\nb', 'x\r', (), (i,), (i, 'a'),
                                 ('', None), [1, 2], {'k': i}, 'y' * 3000, ('a', (1, 'b')), '-i', '$VAR *']))
    return items, n


def cmdtext(rng, name, ws, feats):
    """-> marcel text, shell text, kind"""
    r = rng.random()
    if r < 0.5:
        return ' '.join([name] + ws), ' '.join([name] + ws), 'name'
    if r < 0.68 and ws:
        return ' '.join(['bash', name] + ws), ' '.join([name] + ws), 'bash-words'
    # A shell string
    s = name + ' ' + ' '.join(ws)
    s = rng.choice([s, s, f'cat | {s}', f'{s} | cat', f'X=1; {s} "$X"', f'if true; then {s}; fi', f'({s})', f'{s} # comment', f'{s} && echo done', f'{s} || echo "failed $?"',
                    f'echo one; {s}'])
    if "'" not in s:
        return f"bash '{s}'", s, 'bash-string'
    q = s.replace('\\', '\\\\').replace('"', '\\"')
    return f'bash "{q}"', s, 'bash-string'


def gen(rng, i, tier):
    feats = set()
    big = rng.random() < 0.12
    kind = rng.choices(['pipe', 'expr', 'api', 'interactive', 'interrupt', 'place'], [45, 8, 12, 6, 6, 23])[0]
    recs = {}

    def rec(big=False, spec=None):
        name = f'rec{len(recs)}'
        recs[name] = rspec(rng, big) if spec is None else spec
        return name
    case = {'kind': kind, 'recs': recs}
    if kind == 'pipe':
        if rng.random() < 0.8:
            case['items'], case['n'] = rstream(rng, feats, big)
        case['stages'] = [cmdtext(rng, rec(big), words(rng, feats), feats) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        case['stored'] = rng.random() < 0.3
        case['twice'] = case['stored'] and rng.random() < 0.5
    elif kind == 'expr':
        vals = [rng.choice([''.join(rng.choice(NEUTRAL) for _ in range(rng.randrange(1, 6))).lstrip('-~') or 'a', rng.randrange(100), 1.5]) for _ in range(rng.randrange(1, 4))]
        case['vals'] = vals
        mt, st = [], []
        for k, v in enumerate(vals):
            e = rng.choice([f'(v{k})', f'(str(v{k}))', f"('%s' % v{k})"])
            pre = rng.choice(['', '', 'pre', '--f=', 'x.'])
            mt.append(pre + e)
            st.append(pre + str(v))
            if rng.random() < 0.4:
                w = word(rng, feats)
                mt.append(w)
                st.append(w)
        name = rec(spec=[['args'], ['echo', '']])
        pre = 'bash ' if rng.random() < 0.3 else ''
        case['stages'] = [(f'{pre}{name} ' + ' '.join(mt), f'{name} ' + ' '.join(st), 'bash-words' if pre else 'name')]
    elif kind == 'api':
        if rng.random() < 0.8:
            case['items'], case['n'] = rstream(rng, feats, big)
        case['stages'] = [('', cmdtext(rng, rec(big), words(rng, feats), feats)[1], 'api') for _ in range(rng.choice([1, 1, 2]))]
    elif kind == 'interactive':
        ws = words(rng, feats)
        name = rec(spec=[a for a in rspec(rng, False) if a[0] not in ('kill',)])
        case['flag'] = rng.choice(['-i ', '--interactive ', None])
        case['text'] = ' '.join([name] + ws)
    elif kind == 'interrupt':
        name = rec(spec=[['out', hx(b'first\n')], ['flag'], ['sleep', rng.choice([0, 60000])], ['echo', ''], ['sleep', 60000]])
        case['how'] = rng.choice(['downstream', 'upstream', 'signal'])
        case['via'] = rng.choice([name, f"bash '{name} x | cat'", f'bash {name} a b'])
    else:
        case['where'] = rng.choice(['args', 'case', 'fork', 'nested'])
        name = rec(spec=rng.choice([[['echo', hx(b'e:')]], [['args'], ['echo', '']], [['split']], [['out', hx(b'head\n')], ['echon', hx(b'p'), 3]], [['read', 1], ['out', hx(b'r\npart')]]]))
        case['ws'] = words(rng, feats)
        case['n'] = rng.choice([1, 2, 4, 7])
        case['cmd'] = cmdtext(rng, name, case['ws'], feats)
    if any(st[2] in ('bash-string', 'api') for st in case.get('stages', [case.get('cmd', '   ')])):
        # The shell has something to say about killed jobs, including their ids
        for spec in recs.values():
            spec[:] = [['exit', 137] if a[0] == 'kill' else a for a in spec]
    case['feats'] = sorted(feats)
    return case


def fixed_cases(tier):
    cases = []
    cases.append({'kind': 'pipe', 'recs': {'rec0': [['many', hx(b'x' * 90), 20000], ['echo', ''], ['many', hx(b'y'), 20000]]}, 'items': ['z' * 90], 'n': 12000,
           'stages': [('rec0', 'rec0', 'name')], 'stored': False, 'twice': False, 'feats': ['big-input']})
    cases.append({'kind': 'pipe', 'recs': {'rec0': [['closein'], ['sleep', 100], ['many', hx(b'y'), 20000]]}, 'items': ['z' * 90], 'n': 12000,
           'stages': [('rec0', 'rec0', 'name')], 'stored': False, 'twice': False, 'feats': ['big-input']})
    cases.append({'kind': 'pipe', 'recs': {'rec0': [['manyerr', hx(b'y' * 50), 4000], ['many', hx(b'x' * 50), 4000], ['split']]}, 'items': ['z' * 90], 'n': 3000,
           'stages': [('rec0', 'rec0', 'name')], 'stored': False, 'twice': False, 'feats': ['big-input']})
    return cases


# ---- run

def line_of(x):
    x = tuple(x) if type(x) in (tuple, list) and False else x
    if type(x) in (tuple, list):
        return str(x[0]) if len(x) == 1 else str(x)
    return str(x)


def stdin_of(items, n):
    return b''.join(os.fsencode(line_of(items[i % len(items)]) + '\n') for i in range(n))


def to_lines(b):
    ls = b.split(b'\n')
    if ls[-1] == b'':
        ls.pop()
    return [os.fsdecode(l) for l in ls]


def logs(d):
    runs = {}
    for p in sorted(glob.glob(os.path.join(d, 'rec*'))):
        if p.endswith('.tmp'):
            continue
        with open(p) as f:
            r = json.load(f)
        k = (r['name'], r['pid'])
        if r['stdin'] is not None or k not in runs:
            runs[k] = r
    return sorted([(r['name'], tuple(r['argv']), r['stdin']) for r in runs.values()], key=repr), [k[1] for k in runs]


def fresh(box, tag):
    d = os.path.join(box.path, 'log.' + tag)
    os.makedirs(d)
    os.environ['REC_LOG'] = d
    return d


def alive(pids):
    out = []
    for p in pids:
        try:
            with open(f'/proc/{p}/stat') as f:
                if f.read().rsplit(')', 1)[1].split()[0] != 'Z':
                    out.append(p)
        except OSError:
            pass
    return out


def truth(box, tag, text, stdin):
    d = fresh(box, tag)
    p = subprocess.run([BASH, '-c', text], input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    return p.stdout, p.stderr, logs(d)[0]


BASH = '/usr/bin/bash' if os.path.exists('/usr/bin/bash') else '/bin/bash'


class Deadlock(BaseException):
    pass


def guarded(mon, key, text, f):
    def handler(signum, frame):
        raise Deadlock()
    signal.signal(signal.SIGALRM, handler)
    signal.alarm(60)
    try:
        return f()
    except Deadlock:
        mon.violation('deadlock:' + key, f'{text[:300]} does not finish in 60 s', command=text)
        return None
    finally:
        signal.alarm(0)


def settle(pids):
    for _ in range(40):
        a = alive(pids)
        if not a:
            return []
        time.sleep(0.05)
    return a


def expected(items):
    return [MARK + repr((x,)) for x in items]


def split_result(r, mon, text):
    outs, errs = [], []
    for l in r.lines:
        if l.startswith(MARK):
            outs.append(l)
        elif l.startswith('Error: '):
            errs.append(l[len('Error: '):])
        else:
            outs.append('?' + l)
    return outs, errs


def chain(box, tag, stages, stdin):
    """What a shell does with the stages, given stdin -> output bytes, error bytes of all stages, logs"""
    errs, runs = [], []
    for k, st in enumerate(stages):
        out, err, lg = truth(box, f'{tag}.{k}', st[1], stdin)
        errs.append(err)
        runs += lg
        # What one executable prints is passed on as lines
        stdin = b''.join(os.fsencode(l) + b'\n' for l in to_lines(out))
    return out, errs, sorted(runs, key=repr)


def show_err(l):
    return str(l)


def same_runs(mon, kind, text, got, want, feats):
    gn, wn = [g[:2] for g in got], [w[:2] for w in want]
    mon.check(len(gn) == len(wn), f'runs:{kind}', f'{text[:300]}: executables were run {len(gn)} times, not {len(wn)}', got=gn[:6], want=wn[:6])
    mon.check(sorted(gn) == sorted(wn) or len(gn) != len(wn), f'arguments:{kind}', f'{text[:300]}: executables got arguments {gn[:4]} instead of {wn[:4]} (hex)',
              got=[[bytes.fromhex(a).decode('utf8', 'replace') for a in g[1]] for g in gn[:4]], want=[[bytes.fromhex(a).decode('utf8', 'replace') for a in w[1]] for w in wn[:4]])
    mon.count('runs', len(gn))
    mon.count('input-bytes', sum(len(g[2] or '') // 2 for g in got))


def reads_all(spec):
    """Does the executable read all of its input before ending?"""
    return any(a[0] in ('echo', 'echon', 'split') for a in spec)


def compare(mon, kind, text, case, r_outs, r_errs, want_out, want_err, got, want):
    k = 0
    if r_outs != want_out:
        k = next((i for i, (a, b) in enumerate(zip(r_outs, want_out)) if a != b), min(len(r_outs), len(want_out)))
    mon.check(r_outs == want_out, f'output:{kind}', f'{text[:300]}: {len(r_outs)} lines of output for {len(want_out)}, line {k} is {r_outs[k:k + 1]} instead of '
              f'{want_out[k:k + 1]}'[:900], got=r_outs[:8], want=want_out[:8])
    mon.count('output-lines', len(r_outs))
    mon.check(r_errs == want_err, f'stderr:{kind}', f'{text[:300]}: errors {r_errs[:4]} instead of {want_err[:4]}'[:700], got=r_errs[:8], want=want_err[:8])
    same_runs(mon, kind, text, got, want, case['feats'])
    if len(got) == len(want):
        for g, w in zip(got, want):
            if g[:2] == w[:2] and reads_all(case['recs'].get(g[0], [])):
                mon.check(g[2] == w[2], f'input:{kind}', f'{text[:300]}: {g[0]} got different input ({len(g[2] or "") // 2} bytes instead of {len(w[2] or "") // 2})',
                          got=bytes.fromhex(g[2] or '')[:300].decode('utf8', 'replace'), want=bytes.fromhex(w[2] or '')[:300].decode('utf8', 'replace'))


def run(case, mon, box):
    os.environ.update(VAR='val ue', SP='p q', REC_LOG=box.path)
    bindir = os.path.join(box.path, 'bin')
    os.makedirs(bindir, exist_ok=True)
    for name, spec in case['recs'].items():
        p = os.path.join(bindir, name)
        with open(p, 'w') as f:
            f.write(REC)
        os.chmod(p, 0o755)
        with open(p + '.json', 'w') as f:
            json.dump(spec, f)
    os.environ['PATH'] = bindir + ':' + os.environ['PATH']
    os.chdir(box.work)
    for f in ('a.t', 'b.t', 'cc.t'):
        open(f, 'w').close()
    kind = case['kind']
    for f in case['feats']:
        mon.count(f)
    for spec in case['recs'].values():
        for a in spec:
            if a[0] in ('many', 'manyerr') and a[2] >= 1000:
                mon.count('big-output')
            if a[0] in ('closein', 'closeout'):
                mon.count('early-close')
            if a[0] in ('err', 'manyerr', 'split'):
                mon.count('stderr')
            if a[0] in ('exit', 'kill'):
                mon.count('failing')
            if a[0] == 'out':
                b = bytes.fromhex(a[1])
                if b and b[-1:] != b'\n':
                    mon.count('partial')
                try:
                    b.decode()
                except UnicodeDecodeError:
                    mon.count('undecodable')
    {'pipe': run_pipe, 'expr': run_pipe, 'api': run_api, 'interactive': run_interactive, 'interrupt': run_interrupt, 'place': run_place}[kind](case, mon, box)


def start(box, case):
    s = Session(box, config=CONFIG)
    s.env.setvar('ITEMS', [tuple(x) if type(x) is list and False else x for x in case.get('items') or []])
    for k, v in enumerate(case.get('vals') or []):
        s.env.setvar(f'v{k}', v)
    return s


def finish(mon, kind, text, r, d):
    if r is None:
        return None
    mon.check(r.exc is None, f'exception:{kind}', f'{text[:300]} raised {r.exc}')
    got, pids = logs(d)
    left = settle(pids)
    mon.check(not left, f'process-left:{kind}', f'{text[:300]}: {len(left)} executables are still running after the command')
    for p in left:
        os.kill(p, 9)
    return got


def run_pipe(case, mon, box):
    s = start(box, case)
    stages = case['stages']
    stdin = b''
    src = ''
    if case.get('n') is not None:
        stdin = stdin_of(case['items'], case['n'])
        src = (f"gen {case['n']} | map (i: ITEMS[i % {len(case['items'])}]) | " if case['n'] else 'gen 2 | select (x: False) | ')
    body = ' | '.join(st[0] for st in stages)
    out, errs, want = chain(box, 'truth', stages, stdin)
    want_out, want_err = expected(to_lines(out)), [to_lines(e) for e in errs]
    if case.get('stored'):
        r = s.run(f'P = (| {body} |)')
        mon.check(r.exc is None and not r.err, 'stored-error', f'P = (| {body[:200]} |) gives {r.err[:300]} {r.exc}')
        text = src + 'P | ' + TAP
        mon.count('place:stored')
    else:
        text = src + body + ' | ' + TAP
    mon.count('place:inside' if src else 'place:first')
    for st in stages:
        mon.count('kind:' + st[2])
    if case['kind'] == 'expr':
        mon.count('expression')
    for k in range(2 if case.get('twice') else 1):
        if k:
            mon.count('place:twice')
        d = fresh(box, f'run{k}')
        label = stages[0][2]
        r = guarded(mon, label, text, lambda: s.run(text))
        got = finish(mon, label, text, r, d)
        if got is None:
            return
        outs, gerrs = split_result(r, mon, text)
        # Errors of several executables may be interleaved
        if len(stages) == 1:
            werrs = want_err[0]
        else:
            werrs = sorted(clean([x for e in want_err for x in e]))
            gerrs = sorted(gerrs)
        mon.check(not r.err, f'complaint:{label}', f'{text[:300]} prints {r.err[:300]}')
        compare(mon, label, text if not case.get('stored') else f'{src}(| {body} |)', case, outs, gerrs, want_out, werrs if len(stages) > 1 else clean(werrs), got, want)
        if len(want_out) + len(stdin) > 0 or case['feats']:
            mon.nontrivial(text + repr(case.get('items'))[:200])
    mon.sample = {'command': body[:200], 'lines': len(want_out), 'input bytes': len(stdin)}


def clean(errs):
    """Error lines as they are printed and captured"""
    return [os.fsencode(e).decode('utf-8', 'replace') for e in errs]


def run_api(case, mon, box):
    import marcel.persistence.storagelayout as sl
    sl.ensure_current(testing=True, initial_config=CONFIG)
    import marcel.api as api
    mon.count('kind:api')
    stages = case['stages']
    stdin = b''
    if case.get('n') is not None:
        stdin = stdin_of(case['items'], case['n'])
    out, errs, want = chain(box, 'truth', stages, stdin)
    d = fresh(box, 'run')
    items = case.get('items') or []
    text = ' | '.join(f'bash({st[1]!r})' for st in stages)

    def work():
        p = None
        if case.get('n') is not None:
            p = api.gen(case['n']) | api.map(lambda i: items[i % len(items)]) if case['n'] else api.gen(2) | api.select(lambda x: False)
        for st in stages:
            b = api.bash(st[1])
            p = b if p is None else p | b
        return api.gather(p, unwrap_singleton=True)
    try:
        res = guarded(mon, 'api', text, work)
    except Exception as e:
        mon.violation('exception:api', f'{text[:300]} raised {type(e).__name__}: {e}')
        return
    if res is None:
        return
    import marcel.object.error
    outs = [MARK + repr((x,)) for x in res if not isinstance(x, marcel.object.error.Error)]
    gerrs = sorted(str(x)[len('Error: '):] if str(x).startswith('Error: ') else str(x) for x in res if isinstance(x, marcel.object.error.Error))
    got, pids = logs(d)
    left = settle(pids)
    mon.check(not left, 'process-left:api', f'{text[:300]}: {len(left)} executables are still running')
    compare(mon, 'api', text, case, outs, gerrs, expected(to_lines(out)), sorted(x for e in errs for x in to_lines(e)), got, want)
    mon.nontrivial(text + repr(case.get('items'))[:200])


def run_interactive(case, mon, box):
    s = start(box, case)
    mon.count('kind:interactive')
    out, err, want = truth(box, 'truth', case['text'], b'')
    d = fresh(box, 'run')
    if case['flag']:
        text = f"bash {case['flag']}{case['text']}"
    else:
        s.env.setvar('INTERACTIVE_EXECUTABLES', ['rec0'])
        text = case['text']
    r = guarded(mon, 'interactive', text, lambda: s.run(text))
    got = finish(mon, 'interactive', text, r, d)
    if got is None:
        return
    mon.check(r.out == out.decode('utf-8', 'replace'), 'output:interactive', f'{text[:300]} prints {r.out[:200]!r} instead of {out[:200]!r}')
    mon.check(r.err.startswith(err.decode('utf-8', 'replace')), 'stderr:interactive', f'{text[:300]} prints {r.err[:200]!r} on standard error instead of {err[:200]!r}')
    same_runs(mon, 'interactive', text, got, want, case['feats'])
    mon.nontrivial(text)


def run_interrupt(case, mon, box):
    s = start(box, case)
    mon.count('interrupted')
    d = fresh(box, 'run')

    def interrupt(*x):
        raise KeyboardInterrupt()

    def delayed(x):
        for _ in range(200):
            if os.path.exists(os.path.join(d, 'started')):
                break
            time.sleep(0.02)
        if x > 0:
            raise KeyboardInterrupt()
        return x
    s.env.setvar('interrupt', interrupt)
    s.env.setvar('delayed', delayed)
    via = case['via']
    text = {'downstream': f'gen 3 | {via} | map (x: interrupt(x))', 'upstream': f'gen 3 | map (x: delayed(x)) | {via} | {TAP}', 'signal': f'gen 3 | {via} | {TAP}'}[case['how']]
    pid = os.getpid()
    if case['how'] == 'signal':
        signal.signal(signal.SIGINT, signal.default_int_handler)
        if os.fork() == 0:
            for _ in range(1000):
                if os.path.exists(os.path.join(d, 'started')):
                    break
                time.sleep(0.02)
            time.sleep(0.05)
            os.kill(pid, signal.SIGINT)
            os._exit(0)

    def work():
        try:
            s.run(text)
            return True
        except KeyboardInterrupt:
            return True
    if guarded(mon, 'interrupt', text, work) is None:
        return
    got, pids = logs(d)
    mon.check(len(pids) == 1, 'runs:interrupt', f'{text}: {len(pids)} runs')
    left = settle(pids)
    mon.check(not left, 'process-left:interrupt', f'{text}: interrupted ({case["how"]}), but {len(left)} executables keep running')
    for p in left:
        os.kill(p, 9)
    r = s.run('gen 2 | ' + TAP)
    mon.check(r.lines == ['@(0,)', '@(1,)'], 'after-interrupt', f'after {text} was interrupted, gen 2 gives {r}')
    mon.nontrivial(text + case['how'])


def run_place(case, mon, box):
    s = start(box, case)
    where, n = case['where'], case['n']
    mt, st, label = case['cmd']
    mon.count('place:' + where if where != 'nested' else 'place:stored')
    mon.count('kind:' + label)
    d0 = os.path.join(box.path, 'x')
    k = [0]

    def t(stdin):
        k[0] += 1
        out, err, lg = truth(box, f'truth{k[0]}', st, stdin)
        return to_lines(out), to_lines(err), lg
    want_out, want_err, want, optional = [], [], [], []
    lines = lambda xs: b''.join(b'%d\n' % x for x in xs)
    if where == 'args':
        text = f'gen {n} | args (| a: gen 2 | map (x: x + 10 * int(a)) | {mt} |) | {TAP}'
        for a in range(n):
            o, e, l = t(lines([10 * a, 1 + 10 * a]))
            want_out += o
            want_err += e
            want += l
    elif where == 'case':
        text = f'gen {n} | case (x: x % 2 == 0) (| {mt} |) (| map (x: -x) |) | sort (x: str(x)) | {TAP}'
        o, e, l = t(lines(range(0, n, 2)))
        want_out = [*o, *[-x for x in range(n) if x % 2]]
        want_out.sort(key=str)
        want_err, want = e, l
    elif where == 'fork':
        text = f'fork {n} (| f: gen 2 | map (x: x + 10 * f) | {mt} |) | sort (x: str(x)) | {TAP}'
        for a in range(n):
            o, e, l = t(lines([10 * a, 1 + 10 * a]))
            want_out += o
            want_err += e
            want += l
        want_out.sort(key=str)
    else:
        r = s.run(f'inner = (| {mt} |)')
        mon.check(not r.err and r.exc is None, 'nested-definition', f'inner = (| {mt} |) gives {r.err} {r.exc}')
        s.run('outer = (| m: map (x: x + int(m)) | inner |)')
        text = f'gen {n} | outer 5 | {TAP}'
        o, e, l = t(lines(range(5, 5 + n)))
        want_out, want_err, want = o, e, l
    d = fresh(box, 'run')
    r = guarded(mon, where, text, lambda: s.run(text))
    got = finish(mon, where, text, r, d)
    if got is None:
        return
    outs, errs = split_result(r, mon, text)
    errs = sorted(errs)
    mon.check(not r.err, f'complaint:{where}', f'{text[:300]} prints {r.err[:300]}')
    compare(mon, where, text, case, outs, errs, expected(want_out), sorted(clean(want_err)), got, sorted(want, key=repr))
    mon.nontrivial(text)
