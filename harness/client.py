"""Runs the programs (or the client class) of the code under test in forked children under observation."""
import io, locale, logging, os, pickle, resource, runpy, select, signal, ssl, struct, sys, time, traceback

from . import core, fsm

ZONES = ['UTC', 'EST5EDT,M3.2.0,M11.1.0', 'CET-1CEST,M3.5.0,M10.5.0', '<+1245>-12:45', '<-11>11', 'UTC']
CPU = 60
WALL = 240


class Run:
    """What was observed of one run."""
    outcome = None      # 'ok' | 'exit' | 'exc' | 'cpu' | 'signal'
    code = None
    exc = ''
    tb = ''
    out = ''
    err = ''
    value = None
    logs = ()
    events = ()

    @property
    def clean(self):
        """Ended normally and reported no fatal error."""
        return self.outcome == 'ok' and 'FatalError' not in self.err

    @property
    def failed(self):
        """Ended with an error that the user sees."""
        return not self.clean

    @property
    def errtext(self):
        return self.err + '\n' + self.exc

    def effects(self, kinds=('write', 'remove', 'rmdir', 'mkdir', 'utime', 'truncate', 'chmod', 'chown', 'rename', 'rename-from',
                             'link', 'symlink', 'BLOCKED')):
        return [e for e in self.events if e[0] in kinds]

    def brief(self):
        return {'outcome': self.outcome, 'exc': core.short(self.exc, 300), 'stderr': core.short(self.err, 1500),
                'stdout': core.short(self.out, 500)}


def run(ctx, cwd, argv=None, script='resync-sync', func=None, env=None, stdin=b'', proxy=True, allowed=None, pre=None,
        wall=WALL, cpu=CPU):
    """One program run (argv) or function call (func) in a forked child with cwd as working directory."""
    ctx.ev('client_runs')
    outp, errp = os.path.join(ctx.casedir, '.stdout'), os.path.join(ctx.casedir, '.stderr')
    rfd, wfd = os.pipe()
    inr, inw = os.pipe()
    os.write(inw, stdin[:60000])
    os.close(inw)
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            os.close(rfd)
            _child(ctx, wfd, inr, outp, errp, cwd, argv, script, func, env or {}, proxy, allowed, pre, cpu)
        except BaseException:
            try:
                os.write(2, traceback.format_exc().encode())
            except OSError:
                pass
        finally:
            os._exit(99)
    os.close(wfd)
    os.close(inr)
    buf = bytearray()
    end = time.monotonic() + wall
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([rfd], [], [], min(left, 5))
        if rd:
            b = os.read(rfd, 1 << 20)
            if not b:
                break
            buf += b
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    os.close(rfd)
    st = os.waitpid(pid, 0)[1]
    r = Run()
    r.out = _text(outp)
    r.err = _text(errp)
    if timed_out:
        raise core.Inconclusive('client run exceeded %d s of wall time' % wall)
    if os.WIFSIGNALED(st):
        r.outcome = 'cpu' if os.WTERMSIG(st) == signal.SIGXCPU else 'signal'
        r.exc = 'signal %d' % os.WTERMSIG(st)
        if r.outcome == 'cpu':
            raise core.Violation('program did not terminate within %d CPU seconds' % cpu, argv=argv, stderr=r.err[-500:])
        raise core.Inconclusive('client run killed by signal %d' % os.WTERMSIG(st))
    if not buf:
        raise core.Inconclusive('client run left no result (status %d): %s' % (st, r.err[-2000:]))
    d = pickle.loads(bytes(buf))
    for k, v in d.items():
        if k == 'cov':
            ctx.cov |= v
        else:
            setattr(r, k, v)
    ctx.ev('fs_events_seen', len(r.events))
    blocked = [e for e in r.events if e[0] == 'BLOCKED']
    if blocked:
        raise core.Violation('effect outside the sandbox attempted: %r' % (blocked[:3],), argv=argv)
    return r


def _text(p):
    try:
        with open(p, encoding='utf-8', errors='backslashreplace') as f:
            return f.read()
    except OSError:
        return ''


class _Handler(logging.Handler):
    def __init__(self):
        super().__init__(1)
        self.recs = []

    def emit(self, r):
        try:
            self.recs.append((r.name, r.levelname, r.getMessage()))
        except Exception as e:
            self.recs.append((r.name, r.levelname, 'UNFORMATTABLE %r' % (e,)))


def _child(ctx, wfd, inr, outp, errp, cwd, argv, script, func, env, proxy, allowed, pre, cpu):
    os.dup2(inr, 0)
    o = os.open(outp, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    e = os.open(errp, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    os.dup2(o, 1)
    os.dup2(e, 2)
    sys.stdin = io.TextIOWrapper(io.FileIO(0, closefd=False), encoding='utf-8')
    sys.stdout = io.TextIOWrapper(io.FileIO(1, 'w', closefd=False), encoding='utf-8', errors='surrogateescape', write_through=True)
    sys.stderr = io.TextIOWrapper(io.FileIO(2, 'w', closefd=False), encoding='utf-8', errors='backslashreplace', write_through=True)
    os.chdir(cwd)
    sys.dont_write_bytecode = True
    for k in list(os.environ):
        if k.lower().endswith('_proxy'):
            del os.environ[k]
    if ctx.server is not None and proxy:
        os.environ['http_proxy'] = os.environ['https_proxy'] = ctx.server.proxy
        ssl._create_default_https_context = ssl._create_unverified_context      # the certificate of the server is its own
    for k, v in env.items():
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v
    if 'TZ' not in env:     # nothing depends on the local time zone
        os.environ['TZ'] = ZONES[(ctx.case_no or 0) % len(ZONES)]
    time.tzset()
    if (ctx.case_no or 0) % 8 == 5:     # nor on the encoding of the locale
        locale.setlocale(locale.LC_CTYPE, 'C')
        if script == 'resync-build':
            sys.stdout.reconfigure(encoding='ascii', errors='strict')
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    h = _Handler()
    logging.getLogger().addHandler(h)
    logging.getLogger('resync').setLevel(logging.DEBUG)
    d = {}
    core._lines.clear()
    if pre:
        pre()
    rec = fsm.Recorder(allowed if allowed is not None else [ctx.casedir])
    try:
        if func is not None:
            d['value'] = func()
        else:
            sys.argv = [script] + list(argv)
            path = os.path.join(core.REPO, script)
            runpy.run_path(path, run_name='__main__')
        d['outcome'] = 'ok'
    except SystemExit as x:
        d['code'] = x.code
        d['outcome'] = 'ok' if x.code in (None, 0) else 'exit'
        if isinstance(x.code, str):
            sys.stderr.write(x.code + '\n')
    except BaseException as x:
        d['outcome'] = 'exc'
        d['exc'] = '%s: %s' % (type(x).__name__, x)
        d['tb'] = traceback.format_exc()
    rec.on = False
    try:
        sys.stdout.flush()
        sys.stderr.flush()
    except Exception:
        pass
    d['logs'] = h.recs
    d['events'] = [ev for ev in rec.events if not (ev[0] == 'read' and not ev[1].startswith(ctx.scratch))]
    d['allreads'] = [ev[1] for ev in rec.events if ev[0] == 'read']
    d['cov'] = core.cov_take()
    try:
        b = pickle.dumps(d)
    except Exception as x:
        d['value'] = None
        b = pickle.dumps(d)
    while b:
        b = b[os.write(wfd, b):]
    os._exit(0)
