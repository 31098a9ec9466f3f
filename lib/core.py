"""Check runner: generates cases, executes each one in a forked, unprivileged child against the code in /repo,
collects what the monitors observed, writes the evidence file, and reports violations.

A check module defines
    ID, LEVEL, RULE, ASSUMPTIONS
    REQUIRED            names of counters that must be non-zero, or the run is inconclusive (exit 2)
    N = {'quick': n, 'thorough': m}   number of generated cases
    fixed_cases(tier) -> list of cases (optional)
    gen(rng, i, tier) -> case (JSON-able)
    run(case, mon, box)  executes and judges one case, reporting through mon
    CASE_TIMEOUT        seconds (optional)
"""
import ctypes, hashlib, importlib, json, os, random, select, shutil, signal, struct, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')     # another path only during development
NOBODY = 65534
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS')
CASE_TIMEOUT = 60


class Monitor:
    """Records what was observed while one case runs."""

    def __init__(self):
        self.counters = {}
        self.sets = {}
        self.nontrivial_keys = []
        self.violations = []
        self.sample = None
        self.notes = []

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def see(self, setname, value):
        """Record a distinct value (state, shape, interleaving...) under a named set."""
        s = self.sets.setdefault(setname, [])
        h = short_hash(value)
        if h not in s:
            s.append(h)

    def nontrivial(self, key):
        self.nontrivial_keys.append(short_hash(key))

    def violation(self, key, message, **detail):
        """key: the mechanism, stable over inputs."""
        self.violations.append({'key': key, 'message': message, 'detail': detail})

    def check(self, ok, key, message, **detail):
        self.count('judgements')
        if not ok:
            self.violation(key, message, **detail)
        return ok

    def dump(self):
        return {'counters': self.counters, 'sets': self.sets, 'nontrivial': self.nontrivial_keys,
                'violations': self.violations[:20], 'sample': self.sample, 'notes': self.notes[:5]}


class Box:
    """Scratch space of one case."""

    def __init__(self, path, tier):
        self.path = path
        self.home = os.path.join(path, 'home')
        self.work = os.path.join(path, 'work')
        self.tier = tier
        os.makedirs(self.home)
        os.makedirs(self.work)


def short_hash(x):
    return hashlib.sha1(repr(x).encode('utf-8', 'surrogatepass')).hexdigest()[:12]


def scrub_env(scratch):
    keep = {'PATH': '/opt/venv/bin:/usr/local/bin:/usr/bin:/bin',
            'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'TERM': 'dumb',
            'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPATH': REPO, 'PYTHONHASHSEED': '0',
            'USER': 'nobody', 'LOGNAME': 'nobody', 'HOME': scratch, 'TMPDIR': scratch, 'SHELL': '/bin/bash',
            'MARCEL_MULTIPROCESSING_START_METHOD': 'fork'}
    for k in ('VERIF_SEED', 'VERIF_TIER', 'VERIF_SHOW_ALL'):
        if k in os.environ:
            keep[k] = os.environ[k]
    os.environ.clear()
    os.environ.update(keep)


def drop_privileges():
    if os.getuid() == 0:
        os.setgroups([])
        os.setresgid(NOBODY, NOBODY, NOBODY)
        os.setresuid(NOBODY, NOBODY, NOBODY)
    try:
        libc = ctypes.CDLL(None)
        libc.prctl(36, 1, 0, 0, 0)      # PR_SET_CHILD_SUBREAPER
    except Exception:
        pass


def send(fd, obj):
    data = json.dumps(obj, default=repr).encode()
    data = struct.pack('!I', len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def read_exact(fd, n, deadline=None):
    buf = b''
    while len(buf) < n:
        if deadline is not None:
            left = deadline - time.time()
            if left <= 0:
                raise TimeoutError
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                raise TimeoutError
        b = os.read(fd, n - len(buf))
        if not b:
            return None
        buf += b
    return buf


def recv(fd, deadline=None):
    h = read_exact(fd, 4, deadline)
    if h is None:
        return None
    body = read_exact(fd, struct.unpack('!I', h)[0], deadline)
    return None if body is None else json.loads(body)


def kill_descendants():
    import psutil
    me = psutil.Process()
    for _ in range(5):
        kids = me.children(recursive=True)
        if not kids:
            return
        for k in kids:
            try:
                k.kill()
            except psutil.Error:
                pass
        psutil.wait_procs(kids, timeout=2)
        while True:
            try:
                pid, _ = os.waitpid(-1, os.WNOHANG)
                if pid == 0:
                    break
            except ChildProcessError:
                break


def run_case_forked(check, case, tier, scratch, tag, timeout):
    """Run one case in a child of its own. Returns the monitor dump, or {'fatal': kind, ...}"""
    path = os.path.join(scratch, f'case{tag}')
    r, w = os.pipe()
    errpath = os.path.join(scratch, f'case{tag}.err')
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            w2 = os.dup2(w, 200, inheritable=False)
            os.close(w)
            os.setsid()
            os.mkdir(path)
            e = os.open(errpath, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            os.dup2(e, 1)
            os.dup2(e, 2)
            os.close(e)
            nul = os.open('/dev/null', os.O_RDONLY)
            os.dup2(nul, 0)
            os.close(nul)
            box = Box(path, tier)
            os.environ['HOME'] = box.home
            os.environ['TMPDIR'] = path
            tempfile.tempdir = path
            os.chdir(box.work)
            mon = Monitor()
            try:
                check.run(case, mon, box)
                out = mon.dump()
            except BaseException as ex:
                out = {'fatal': 'harness', 'trace': traceback.format_exc()[-3000:],
                       'violations': mon.violations[:20], 'what': f'{type(ex).__name__}: {ex}'}
            send(w2, out)
        except BaseException:
            code = 3
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    out = None
    try:
        out = recv(r, time.time() + timeout)
    except TimeoutError:
        out = {'fatal': 'hang'}
    except Exception as e:
        out = {'fatal': 'protocol', 'what': str(e)}
    finally:
        os.close(r)
    status = None
    if out is None or 'fatal' in out and out['fatal'] == 'hang':
        if out is not None:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
    try:
        # The child exits straight after sending; don't wait forever if it does not.
        for _ in range(200):
            p, status = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            time.sleep(0.005)
        else:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
    except ChildProcessError:
        pass
    if out is None:
        tail = ''
        try:
            with open(errpath, errors='replace') as f:
                tail = f.read()[-2000:]
        except OSError:
            pass
        out = {'fatal': 'died', 'status': status, 'what': tail}
    kill_descendants()
    unlock_tree(path)
    shutil.rmtree(path, ignore_errors=True)
    try:
        os.unlink(errpath)
    except OSError:
        pass
    return out


def unlock_tree(path):
    for d, ds, fs in os.walk(path):
        for x in ds:
            p = os.path.join(d, x)
            if not os.path.islink(p):
                try:
                    os.chmod(p, 0o700)
                except OSError:
                    pass


def make_case(check, seed, i, tier):
    rng = random.Random(f'{seed}:{check.ID}:{i}')
    return check.gen(rng, i, tier)


def worker(check, seed, tier, scratch, nproc, w, fixed, n, fd, deadline, only):
    drop_privileges()
    timeout = getattr(check, 'CASE_TIMEOUT', CASE_TIMEOUT)
    wscratch = os.path.join(scratch, f'w{w}')
    os.mkdir(wscratch)
    os.environ['HOME'] = wscratch
    os.environ['TMPDIR'] = wscratch
    sys.path.insert(0, REPO)
    os.chdir(wscratch)
    try:
        if hasattr(check, 'preload'):
            check.preload()
        else:
            import session
            session.preload()
    except BaseException:
        send(fd, {'import_error': traceback.format_exc()[-3000:]})
        os._exit(0)
    total = len(fixed) + n
    for i in range(w, total, nproc):
        if only is not None and i != only:
            continue
        if i >= len(fixed) and time.time() > deadline:
            send(fd, {'i': i, 'skipped': True})
            break
        case = fixed[i] if i < len(fixed) else make_case(check, seed, i - len(fixed), tier)
        t = time.time()
        out = run_case_forked(check, case, tier, wscratch, i, timeout)
        out['i'] = i
        out['t'] = time.time() - t
        if out.get('fatal') or out.get('violations'):
            out['case'] = case
        send(fd, out)
    os._exit(0)


def run_retry(check, case, tier, scratch, tag, timeout):
    """Re-run a case alone in an unprivileged process. Used for hangs, deaths, and replay."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            drop_privileges()
            d = os.path.join(scratch, f'r{tag}')
            os.mkdir(d)
            os.environ['HOME'] = d
            sys.path.insert(0, REPO)
            os.chdir(d)
            if hasattr(check, 'preload'):
                check.preload()
            else:
                import session
                session.preload()
            send(w, run_case_forked(check, case, tier, d, tag, timeout))
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    out = recv(r)
    os.close(r)
    os.waitpid(pid, 0)
    return out if out is not None else {'fatal': 'died', 'what': 'retry process died'}


def load_known(prop):
    known, fixed = {}, []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding:'):
                f = dict(p.split('=', 1) for p in line.split()[1:3])
                if f.get('property') == prop:
                    known[f['key']] = ' '.join(line.split()[3:])
    return known


def main(argv):
    prop = argv[0]
    opts = dict(zip(argv[1::2], argv[2::2]))
    tier = opts.get('--tier', os.environ.get('VERIF_TIER', 'quick'))
    seed = int(opts.get('--seed', os.environ.get('VERIF_SEED', '1')))
    nproc = int(opts.get('--nproc', os.cpu_count() or 4))
    only = int(opts['--only']) if '--only' in opts else None
    t0 = time.time()
    evidence_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(evidence_dir, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=f'vm.{prop}.', dir='/tmp')
    os.chmod(scratch, 0o755)
    if os.getuid() == 0:
        os.chown(scratch, NOBODY, NOBODY)
    scrub_env(scratch)
    try:
        check = importlib.import_module(prop.lower())
        if '--replay' in opts:
            return replay(check, opts['--replay'], tier, scratch)
        return execute(check, prop, seed, tier, nproc, scratch, t0, evidence_dir, only,
                       int(opts['--n']) if '--n' in opts else None)
    finally:
        unlock_tree(scratch)
        shutil.rmtree(scratch, ignore_errors=True)


def replay(check, path, tier, scratch):
    rec = json.load(open(path))
    out = run_retry(check, rec['case'], tier, scratch, 0, getattr(check, 'CASE_TIMEOUT', CASE_TIMEOUT) * 3)
    print(json.dumps(out, indent=1))
    if out.get('fatal') or out.get('violations'):
        print(f'VIOLATION property={check.ID} replay={path}')
        return 1
    return 0


def execute(check, prop, seed, tier, nproc, scratch, t0, evidence_dir, only, n_override):
    fixed = check.fixed_cases(tier) if hasattr(check, 'fixed_cases') else []
    n = n_override if n_override is not None else check.N[tier]
    budget = getattr(check, 'BUDGET', {}).get(tier, 240 if tier == 'quick' else 3600)
    deadline = t0 + budget
    nproc = min(nproc, getattr(check, 'NPROC', nproc))
    fds, pids = {}, {}
    for w in range(nproc):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for other in fds:
                    os.close(other)
                worker(check, seed, tier, scratch, nproc, w, fixed, n, wfd, deadline, only)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(1)
        os.close(wfd)
        fds[r] = w
        pids[w] = pid
    counters, sets, nontrivial = {}, {}, set()
    evaluations, samples, violations, fatal, skipped = 0, [], [], [], 0
    slow = (0, None)
    import_error = None

    def absorb(out, case=None):
        nonlocal evaluations, slow
        evaluations += 1
        for k, v in out.get('counters', {}).items():
            counters[k] = counters.get(k, 0) + v
        for k, v in out.get('sets', {}).items():
            sets.setdefault(k, set()).update(v)
        nontrivial.update(out.get('nontrivial', []))
        if out.get('sample') is not None and len(samples) < 6:
            if not samples or out['i'] % 7 == 3 or len(samples) < 2:
                samples.append(out['sample'])
        if out.get('t', 0) > slow[0]:
            slow = (out['t'], out['i'])
        for v in out.get('violations', []):
            violations.append((v, out['i'], out.get('case', case)))

    while fds:
        ready, _, _ = select.select(list(fds), [], [])
        for fd in ready:
            out = recv(fd)
            if out is None:
                os.close(fd)
                os.waitpid(pids[fds.pop(fd)], 0)
            elif 'import_error' in out:
                import_error = out['import_error']
            elif out.get('skipped'):
                skipped += 1
            elif out.get('fatal'):
                fatal.append(out)
            else:
                absorb(out)
    if import_error:
        print('cannot import the code under test:\n' + import_error)
        return 2
    # Cases that hung, or whose process died: decide by running them again alone with a larger allowance.
    timeout = getattr(check, 'CASE_TIMEOUT', CASE_TIMEOUT)
    inconclusive = []
    groups = {}
    for out in sorted(fatal, key=lambda o: o['i']):
        groups.setdefault(out['fatal'], []).append(out)
    for kind, outs in groups.items():
        for k, out in enumerate(outs):
            if k >= 3:
                counters[f'fatal_not_retried_{kind}'] = counters.get(f'fatal_not_retried_{kind}', 0) + 1
                continue
            again = run_retry(check, out['case'], tier, scratch, f'{out["i"]}', min(timeout * 2, 120))
            again['i'] = out['i']
            if not again.get('fatal'):
                counters['retried_ok'] = counters.get('retried_ok', 0) + 1
                again.setdefault('case', out['case'])
                absorb(again, out['case'])
                continue
            evaluations += 1
            if again.get('violations'):
                for v in again['violations']:
                    violations.append((v, out['i'], out['case']))
            elif again['fatal'] == 'hang':
                violations.append(({'key': 'hang', 'message': f'the workload did not finish within {min(timeout*2,120)}s, twice',
                                    'detail': {}}, out['i'], out['case']))
            elif again['fatal'] == 'died':
                violations.append(({'key': 'died', 'message': 'the process running marcel died: ' + str(again.get('what'))[-600:],
                                    'detail': {'status': again.get('status')}}, out['i'], out['case']))
            else:
                inconclusive.append(again)
    # Report
    known = load_known(prop)
    lines, seen_known, reported = [], set(), {}
    for v, i, case in violations:
        if v['key'] in known:
            seen_known.add(v['key'])
        else:
            reported.setdefault(v['key'], []).append((v, i, case))
    for key in sorted(seen_known):
        print(f'KNOWN-FINDING: property={prop} {key}: {known[key]}')
    rc = 0
    for f in os.listdir(evidence_dir):
        if f.startswith(f'replay-{prop}-'):
            os.unlink(os.path.join(evidence_dir, f))
    for key, vs in list(reported.items())[:25]:
        v, i, case = min(vs, key=lambda t: len(json.dumps(t[2], default=str)))
        path = os.path.join(evidence_dir, f'replay-{prop}-{short_hash(key)}.json')
        json.dump({'property': prop, 'key': key, 'message': v['message'], 'detail': v['detail'], 'case': case,
                   'seed': seed, 'index': i, 'occurrences': len(vs)}, open(path, 'w'), indent=1, default=str)
        print(f'[{prop}] {key} (x{len(vs)}): {v["message"]}'[:1500])
        for k, d in v['detail'].items():
            print(f'    {k}: {str(d)[:700]}')
        if os.environ.get('VERIF_SHOW_ALL'):
            for m in sorted({v['message'][:400] for v, _, _ in vs}):
                print('    *', m)
        print(f'VIOLATION property={prop} replay={path}')
        rc = 1
    for out in inconclusive[:3]:
        print(f'HARNESS ERROR in case {out["i"]}: {out.get("what")}\n{out.get("trace", "")}')
    missing = [r for r in getattr(check, 'REQUIRED', []) if not counters.get(r) and not sets.get(r)]
    coverage = {'evaluations': evaluations, 'distinct_nontrivial': len(nontrivial), 'rule': check.RULE,
                'samples': [json.loads(json.dumps(s, default=str)[:4000]) if len(json.dumps(s, default=str)) < 4000
                            else json.dumps(s, default=str)[:4000] for s in samples],
                'observed': dict(sorted(counters.items())),
                'distinct_observed': {k: len(v) for k, v in sorted(sets.items())},
                'cases_not_started_within_budget': skipped > 0,
                'slowest_case_s': round(slow[0], 2),
                'known_findings_seen': sorted(seen_known)}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': check.LEVEL, 'coverage': coverage,
          'assumptions': check.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': sum(map(len, reported.values()))}
    tmp = os.path.join(evidence_dir, f'.{prop}.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(evidence_dir, f'{prop}.json'))
    if rc == 0 and (inconclusive or missing) and only is None and n_override is None:
        print(f'INCONCLUSIVE property={prop}: missing={missing} harness_errors={len(inconclusive)}')
        rc = 2
    print(f'[{prop}] tier={tier} seed={seed} cases={evaluations} nontrivial={len(nontrivial)} '
          f'judgements={counters.get("judgements", 0)} violations={ev["violations"]} wall={ev["wall_s"]}s rc={rc} slow={slow}')
    return rc
