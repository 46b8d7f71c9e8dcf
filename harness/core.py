"""Runner: seeded cases, forked unprivileged workers, three-valued verdicts, evidence."""
import hashlib, importlib, json, locale, os, pickle, random, resource, shutil, signal, struct, sys, time, traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NOBODY = 65534
CPU_LIMIT = 60          # CPU seconds for one case in the worker itself (non-termination is a violation)


class Violation(Exception):
    """The property does not hold in this execution."""

    def __init__(self, msg, **details):
        super().__init__(msg)
        self.details = details


class Inconclusive(Exception):
    """This case decides nothing (environment trouble), never folded into held."""


class CaseCpu(BaseException):
    pass


def short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...[%d]' % len(s)


def known_findings():
    """property -> set of mechanism keys that are recorded as known findings."""
    out = {}
    p = os.path.join(VERIF, 'known_findings')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                kv = line[7:].split(' ', 2)
                prop = kv[0].split('=', 1)[1]
                key = kv[1].split('=', 1)[1]
                out.setdefault(prop, {})[key] = kv[2] if len(kv) > 2 else ''
    return out


class Ctx:
    """What a case uses to observe and to judge."""

    def __init__(self, prop, scratch, tier, seed):
        self.prop, self.scratch, self.tier, self.seed = prop, scratch, tier, seed
        self.events = Counter()
        self.sigs = set()
        self.samples = []
        self.known_hits = Counter()
        self._known = known_findings().get(prop, {})
        self.case_no = None
        self.trace = []
        self.cov = set()
        self.server = None
        self._n = 0

    # --- observation
    def ev(self, name, n=1):
        self.events[name] += n

    def sig(self, *key):
        """Marks the case as a distinct non-trivial one under this key."""
        self.sigs.add(hashlib.blake2b(repr(key).encode('utf-8', 'surrogatepass'), digest_size=8).digest())

    def note(self, **kw):
        """Describes the case; kept for samples and violation reports."""
        self.trace.append(kw)

    # --- verdicts
    def fail(self, msg, **details):
        raise Violation(msg, **details)

    def check(self, cond, msg, **details):
        self.events['oracle_checks'] += 1
        if not cond:
            raise Violation(msg, **details)

    def eq(self, got, want, msg, **details):
        self.events['oracle_checks'] += 1
        if got != want:
            raise Violation(msg, got=got, expected=want, **details)

    def known(self, key, msg, **details):
        """A violation with a recognised mechanism: known finding or else violation."""
        if key in self._known:
            self.known_hits[key] += 1
        else:
            raise Violation(msg + ' [mechanism %s]' % key, **details)

    # --- scratch
    def dir(self, name=None):
        self._n += 1
        d = os.path.join(self.casedir, name or 'd%d' % self._n)
        os.makedirs(d, exist_ok=True)
        return d


def rmtree(path, root):
    """Removes path, only if below root."""
    path = os.path.abspath(path)
    assert path.startswith(root + os.sep), path
    for dp, dn, fn in os.walk(path):
        for d in dn:
            p = os.path.join(dp, d)
            if not os.path.islink(p):
                try:
                    os.chmod(p, 0o700)
                except OSError:
                    pass
    shutil.rmtree(path, ignore_errors=True)


# ---------------------------------------------------------------- line coverage of the code under test
_TOOL = 3
_lines = set()


def cov_start():
    mon = sys.monitoring
    prefix = REPO + os.sep

    def line(code, no):
        if code.co_filename.startswith(prefix):
            _lines.add((code.co_filename[len(prefix):], no))
        return mon.DISABLE
    try:
        mon.use_tool_id(_TOOL, 'verif')
    except ValueError:
        return
    mon.register_callback(_TOOL, mon.events.LINE, line)
    mon.set_events(_TOOL, mon.events.LINE)


def cov_take():
    out = set(_lines)
    _lines.clear()
    return out


# ---------------------------------------------------------------- running one case
def load(prop):
    return importlib.import_module('harness.props.%s' % prop.lower())


def in_repo(tb):
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(REPO + os.sep):
            return True
    return False


def run_case(mod, ctx, i):
    """Returns None (held), ('violation', msg, details) or ('error', text)."""
    ctx.case_no = i
    ctx.trace = []
    ctx.casedir = os.path.join(ctx.scratch, 'c%d' % i)
    os.makedirs(ctx.casedir)
    rng = random.Random('%s:%s:%d' % (ctx.seed, ctx.prop, i))
    locale.setlocale(locale.LC_CTYPE, 'C.UTF-8')     # a case may change it
    cwd = os.getcwd()

    def on_cpu(sig, frame):
        raise CaseCpu()
    signal.signal(signal.SIGPROF, on_cpu)
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, 'CPU_LIMIT', CPU_LIMIT), 2)
    try:
        mod.case(rng, ctx, i)
        return None
    except Violation as e:
        return ('violation', str(e), e.details)
    except CaseCpu:
        return ('violation', 'no termination within %d CPU seconds' % getattr(mod, 'CPU_LIMIT', CPU_LIMIT), {})
    except Inconclusive as e:
        return ('error', 'inconclusive: ' + str(e))
    except Exception as e:
        text = traceback.format_exc()
        if in_repo(e.__traceback__):
            return ('violation', 'unexpected %s from the code under test: %s' % (type(e).__name__, short(str(e))),
                    {'traceback': text})
        return ('error', text)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.chdir(cwd)
        rmtree(ctx.casedir, ctx.scratch)


def drop_privileges():
    if os.getuid() == 0:
        try:
            os.setgroups([])
        except OSError:
            pass
        os.setgid(NOBODY)
        os.setuid(NOBODY)


def can_drop(scratch):
    """Whether an unprivileged process can read the code (decided in a probe child)."""
    if os.getuid() != 0:
        return False
    pid = os.fork()
    if pid == 0:
        ok = 1
        try:
            drop_privileges()
            ok = 0 if (os.access(os.path.join(REPO, 'resync', 'client.py'), os.R_OK) and os.getuid() == NOBODY
                       and os.access(VERIF + '/harness/core.py', os.R_OK) and os.access(scratch, os.W_OK)) else 1
        finally:
            os._exit(ok)
    return os.waitpid(pid, 0)[1] == 0


def prepare_worker(drop):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    if drop:
        drop_privileges()
    sys.path.insert(0, REPO)
    cov_start()
    import logging
    logging.getLogger().addHandler(logging.NullHandler())
    import resync
    import resync.client, resync.explorer, resync.client_utils, resync.dump, resync.sitemap
    import argparse, runpy, logging.config, urllib.request, http.client, email.parser, distutils.dir_util, encodings.idna
    import xml.etree.ElementTree, defusedxml.ElementTree, html, zipfile, configparser
    f = os.path.abspath(resync.__file__)
    if not f.startswith(REPO + os.sep):
        raise RuntimeError('resync imported from %s, not %s' % (f, REPO))


def worker(prop, w, nw, total, tier, seed, scratch, deadline, out, drop):
    try:
        os.chdir(scratch)
        sys.stdin.close()
        prepare_worker(drop)
        mod = load(prop)
        wdir = os.path.join(scratch, 'w%d' % w)
        os.makedirs(wdir)
        ctx = Ctx(prop, wdir, tier, seed)
        if hasattr(mod, 'setup'):
            mod.setup(ctx)
        n = 0
        for i in range(w, total, nw):
            if time.monotonic() > deadline:
                ctx.events['stopped_by_time_budget'] += 1
                break
            out(('start', w, i))
            r = run_case(mod, ctx, i)
            n += 1
            if r is not None:
                out((r[0], i, r[1:], ctx.trace))
                if r[0] == 'violation':
                    break
            elif len(ctx.samples) < 2 and ctx.trace:
                ctx.samples.append({'case': i, 'what': json.loads(json.dumps(ctx.trace, default=lambda o: short(o, 200)))})
        if hasattr(mod, 'teardown'):
            mod.teardown(ctx)
        if ctx.server:
            ctx.server.stop()
        ctx.cov |= cov_take()
        out(('done', w, n, ctx.events, ctx.sigs, ctx.samples, ctx.known_hits, ctx.cov))
    except BaseException:
        out(('error', -1, (traceback.format_exc(),), []))


def nworkers():
    return int(os.environ.get('VERIF_WORKERS', '8'))


def check(prop, tier, seed):
    t0 = time.monotonic()
    mod = load(prop)
    total = max(1, int(mod.CASES[tier] * float(os.environ.get('VERIF_SCALE', '1'))))     # (a scale is for experiments)
    budget = {'quick': 150, 'thorough': 600}[tier]
    deadline = t0 + budget
    scratch = '/tmp/verif-%s-%d' % (prop, os.getpid())
    os.makedirs(scratch, mode=0o755)
    if os.getuid() == 0:
        os.chown(scratch, NOBODY, NOBODY)
    drop = can_drop(scratch)
    nw = min(nworkers(), total)
    procs = {}
    violations, errors = [], []
    events, sigs, samples, known, cov = Counter(), set(), [], Counter(), set()
    n = 0
    try:
        for w in range(nw):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    os.close(r)
                    for p in procs.values():
                        os.close(p['r'])

                    def out(msg, fd=wr):
                        b = pickle.dumps(msg)
                        b = struct.pack('>Q', len(b)) + b
                        while b:
                            b = b[os.write(fd, b):]
                    worker(prop, w, nw, total, tier, seed, scratch, deadline, out, drop)
                finally:
                    os._exit(0)
            os.close(wr)
            procs[w] = {'pid': pid, 'r': r, 'buf': b'', 'cur': None, 'done': False}
        import select
        hard = deadline + 200
        live = set(procs)
        while live and time.monotonic() < hard:
            rd, _, _ = select.select([procs[w]['r'] for w in live], [], [], 1.0)
            for w in list(live):
                p = procs[w]
                if p['r'] not in rd:
                    continue
                b = os.read(p['r'], 1 << 20)
                if not b:
                    live.discard(w)
                    if not p['done']:
                        st = os.waitpid(p['pid'], 0)[1]
                        p['reaped'] = True
                        errors.append((p['cur'], 'worker died (status %d) in case %s' % (st, p['cur'])))
                    continue
                p['buf'] += b
                while len(p['buf']) >= 8:
                    ln = struct.unpack('>Q', p['buf'][:8])[0]
                    if len(p['buf']) < 8 + ln:
                        break
                    m = pickle.loads(p['buf'][8:8 + ln])
                    p['buf'] = p['buf'][8 + ln:]
                    if m[0] == 'start':
                        p['cur'] = m[2]
                    elif m[0] == 'violation':
                        violations.append((m[1], m[2][0], m[2][1], m[3]))
                    elif m[0] == 'error':
                        errors.append((m[1], m[2][0]))
                        if m[1] == -1:
                            p['done'] = True
                    elif m[0] == 'done':
                        p['done'] = True
                        n += m[2]
                        events.update(m[3])
                        sigs |= m[4]
                        samples.extend(m[5])
                        known.update(m[6])
                        cov |= m[7]
            if violations and os.environ.get('VERIF_FIRST'):     # (one is enough, for experiments)
                break
            if violations:      # enough is known; do not wait for the rest for long
                hard = min(hard, time.monotonic() + 60)
                deadline = 0
        for w in live:
            errors.append((procs[w]['cur'], 'worker %d still busy at the hard limit in case %s' % (w, procs[w]['cur'])))
    finally:
        for p in procs.values():
            try:
                os.killpg(p['pid'], signal.SIGKILL)
            except OSError:
                pass
            if not p.get('reaped'):
                try:
                    os.waitpid(p['pid'], 0)
                except OSError:
                    pass
        rmtree(scratch, '/tmp')
    return finish(prop, mod, tier, seed, t0, n, violations, errors, events, sigs, samples, known, cov)


def repo_lines():
    """Number of executable lines per module, from compiled code objects."""
    out = {}
    for f in sorted(os.listdir(os.path.join(REPO, 'resync'))):
        if f.endswith('.py'):
            try:
                code = compile(open(os.path.join(REPO, 'resync', f)).read(), f, 'exec')
            except (SyntaxError, OSError):
                continue
            todo, lines = [code], set()
            while todo:
                c = todo.pop()
                lines |= {l for _, _, l in c.co_lines() if l}
                todo.extend(k for k in c.co_consts if hasattr(k, 'co_lines'))
            out['resync/' + f] = len(lines)
    return out


def finish(prop, mod, tier, seed, t0, n, violations, errors, events, sigs, samples, known, cov):
    missing = []
    for name, least in getattr(mod, 'MIN', {}).items():
        if events[name] < (least if tier == 'quick' else least):
            missing.append('%s: %d < %d' % (name, events[name], least))
    for key, text in known_findings().get(prop, {}).items():
        if known[key]:
            print('KNOWN-FINDING: property=%s %s (%d executions)' % (prop, text, known[key]))
    paths = []
    rdir = os.path.join(VERIF, 'replays')
    for (i, msg, details, trace) in violations[:5]:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s-%d.json' % (prop, seed, i))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'case': i, 'tier': tier, 'message': msg,
                       'details': details, 'trace': trace,
                       'replay': 'cd /verif && ./run.py replay %s' % path}, f, indent=1,
                      default=lambda o: short(o, 3000))
        paths.append((path, msg, details))
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
        'coverage': {
            'evaluations': n, 'distinct_nontrivial': len(sigs), 'rule': mod.RULE, 'samples': samples[:6],
            'monitor_events': dict(sorted(events.items())),
            'known_finding_hits': dict(known),
            'lines_executed': {f: '%d of %d' % (len({l for (g, l) in cov if g == f}), t)
                               for f, t in repo_lines().items() if any(g == f for (g, l) in cov)},
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.monotonic() - t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=lambda o: short(o, 300))
    if os.environ.get('VERIF_COV'):     # (for choosing what to run against a mutant)
        with open(os.environ['VERIF_COV'], 'w') as f:
            json.dump(sorted(cov), f)
    if violations:
        for path, msg, details in paths:
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  ' + short(msg, 400))
            for k, v in details.items():
                print('    %s: %s' % (k, short(v, 1500 if k == 'traceback' else 500)))
        return 1
    if errors:
        for i, text in errors[:3]:
            print('INCONCLUSIVE property=%s case=%s\n%s' % (prop, i, text))
        return 2
    if missing:
        print('INCONCLUSIVE property=%s too little was observed: %s' % (prop, '; '.join(missing)))
        return 2
    print('held property=%s tier=%s seed=%d cases=%d distinct=%d oracle_checks=%d wall=%.1fs' % (
        prop, tier, seed, n, len(sigs), events['oracle_checks'], time.monotonic() - t0))
    return 0


def replay(path):
    d = json.load(open(path))
    prop = d['property']
    scratch = '/tmp/verif-replay-%d' % os.getpid()
    os.makedirs(scratch, mode=0o755)
    if os.getuid() == 0:
        os.chown(scratch, NOBODY, NOBODY)
    drop = can_drop(scratch)
    pid = os.fork()
    if pid == 0:
        rc = 2
        try:
            os.setpgid(0, 0)
            os.chdir(scratch)
            prepare_worker(drop)
            mod = load(prop)
            ctx = Ctx(prop, os.path.join(scratch, 'w'), d.get('tier', 'quick'), d['seed'])
            os.makedirs(ctx.scratch)
            if hasattr(mod, 'setup'):
                mod.setup(ctx)
            r = run_case(mod, ctx, d['case'])
            if ctx.server:
                ctx.server.stop()
            print('trace:', json.dumps(ctx.trace, indent=1, default=lambda o: short(o, 3000)))
            if r is None:
                print('case held' + (' (known findings: %s)' % dict(ctx.known_hits) if ctx.known_hits else ''))
                rc = 0
            elif r[0] == 'violation':
                print('VIOLATION property=%s replay=%s' % (prop, path))
                print(r[1])
                for k, v in r[2].items():
                    print('  %s: %s' % (k, v))
                rc = 1
            else:
                print('INCONCLUSIVE', r[1])
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            os._exit(rc)
    st = os.waitpid(pid, 0)[1]
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    rmtree(scratch, '/tmp')
    return os.waitstatus_to_exitcode(st)
