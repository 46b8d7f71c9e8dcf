"""C09 Download failures are bounded, reported and recoverable."""
import os, re

from .. import client, fsm, gen, sync, xmlw
from ..httpd import Route

ID = 'C09'
LEVEL = 'fault_enumeration'
CASES = {'quick': 1680, 'thorough': 6000}
RULE = ('one case = a situation with a fault plan per resource (sequences of timeouts while connecting, waiting for the answer or in '
        'the body, error statuses, refused, reset and closed connections, protocol garbage, cut-short bodies, then success), a number '
        'of tries, failures ignored or not; attempts, final outcome, reports, files and the later recovery are judged; distinct = '
        '(mode, tries, ignoring, multiset of plans); non-trivial = at least one fault was met')
MIN = {'client_runs': 500, 'timeouts_met': 300, 'other_faults_met': 60, 'exhausted': 40, 'retried_then_ok': 60, 'recoveries': 250,
       'failures_reported': 150, 'real_stalls': 4, 'local_failures': 20}
ASSUMPTIONS = ['timeouts are mostly injected as the socket.timeout that a real one raises (some are real stalls of the server)']
setup = sync.setup

TIMEOUTS = ['t-connect', 't-head', 't-body']
OTHER = [404, 500, 503, 403, 'reset', 'close', 'badstatus', 'trunc', 'chunktrunc', 'refused', 'noname', 'x-incomplete', 410, 401, 408, 429, 502, 504]
OK = ['ok', 'ok', 'ok', 'chunked', 'nolength']


def injector(conn, marks):
    """Runs in the client process: raises in the HTTP layer what real faults raise there.

    conn: uri -> list of faults for successive requests; those met before a request is sent are
    'consumed' here, those named in marks are applied to the answer.
    """
    import http.client, logging, socket, urllib.error
    log = logging.getLogger('verif')
    orig_request = http.client.HTTPConnection.request
    state = {u: 0 for u in conn}

    def request(self, method, path, *a, **kw):
        tunnel = getattr(self, '_tunnel_host', None)
        url = 'https://' + tunnel + path if tunnel else path
        plan = conn.get(url, [])
        n = state.get(url, 0)
        state[url] = n + 1
        f = plan[n] if n < len(plan) else 'ok'
        log.warning('ATTEMPT %s %s' % (f, url))
        self._verif = f
        if f == 't-connect':
            raise socket.timeout('timed out')
        if f == 'refused':
            raise ConnectionRefusedError(111, 'Connection refused')
        if f == 'noname':
            raise socket.gaierror(-2, 'Name or service not known')
        return orig_request(self, method, path, *a, **kw)
    http.client.HTTPConnection.request = request
    orig_response = http.client.HTTPConnection.getresponse

    def getresponse(self, *a, **kw):
        f = getattr(self, '_verif', 'ok')
        r = orig_response(self, *a, **kw)
        if f == 't-head':
            r.close()
            raise socket.timeout('timed out')
        if f in ('t-body', 'x-incomplete'):
            left = [r.length // 2 if r.length else 0]

            class Raw:
                """The body: some bytes, then the fault."""
                def __init__(self, fp):
                    self._fp = fp

                def _die(self):
                    if f == 't-body':
                        raise socket.timeout('timed out')
                    raise http.client.IncompleteRead(b'', 10)

                def readinto(self, b):
                    n = min(left[0], len(b))
                    if n == 0:
                        self._die()
                    left[0] -= n
                    d = self._fp.read(n)
                    b[:len(d)] = d
                    return len(d)

                def read(self, n=-1):
                    if left[0] == 0:
                        self._die()
                    n = left[0] if n is None or n < 0 else min(n, left[0])
                    left[0] -= n
                    return self._fp.read(n)

                read1 = read

                def __getattr__(self, name):
                    return getattr(self._fp, name)
            if r.fp is not None:
                r.fp = Raw(r.fp)
        return r
    http.client.HTTPConnection.getresponse = getresponse


def make_plan(rng, tries, hard):
    """Faults for successive requests of one resource."""
    x = rng.random()
    if not hard and x < 0.5:
        return [rng.choice(OK)]
    if x < 0.7:
        k = rng.randrange(0, tries + 2)
        if rng.random() < 0.3:
            k = rng.choice([tries - 1, tries])
        plan = [rng.choice(TIMEOUTS) for _ in range(k)]
        return plan + [rng.choice(OK)]
    k = rng.choice([0, 0, 0, 1, tries - 1])
    return [rng.choice(TIMEOUTS) for _ in range(k)] + [rng.choice(OTHER)] + [rng.choice(OTHER + OK)]


def outcome(plan, tries, r):
    """(number of attempts, success) from the statement of the property."""
    for k in range(tries):
        f = plan[k] if k < len(plan) else 'ok'
        if f in TIMEOUTS or f in ('stall', 'stallbody'):
            continue
        return k + 1, f in OK
    return tries, False


def expect_effective(f, r):
    """Faults in the body need a body that notices them."""
    if f in ('t-body', 'x-incomplete') and len(r.data) == 0:
        return 'ok'
    return f


def case(rng, ctx, i):
    x = rng.random()
    if i % 60 == 7:
        return real(rng, ctx)
    if x < 0.12:
        return local(rng, ctx)
    s = sync.Scn(ctx, rng, local=False, nmax=rng.choice([1, 3, 7]))
    incremental = rng.random() < 0.4
    delete = rng.random() < 0.6
    ignore = rng.random() < 0.6
    tries = rng.choice([1, 2, 2, 3, 4, 5])
    opts = ['--noauth', '--tries', str(tries)]
    if rng.random() < 0.06:
        tries = 20
        opts = ['--noauth']
    elif rng.random() < 0.03:
        tries = rng.choice([21, 30, 64])
        opts = ['--noauth', '--tries', str(tries)]
        ctx.ev('many_tries')
    if ignore:
        opts.append('--ignore-failures')
    if rng.random() < 0.2:
        opts += ['--timeout', '30']
    if incremental:
        inc = sync.Inc(s, nmax=rng.choice([4, 10]), spec='1.1')
        inc.fill_destination()
        inc.publish(with_list=True)
        opts += ['--from', '2001-01-01T00:00:00Z']
        todo = inc.model(0)
        want = [(r, c) for r, c, lm in todo if c != 'deleted']
        kill = [s.dstpath(r) for r, c, lm in todo if c == 'deleted']
        present = inc.present
    else:
        s.fill_destination()
        s.publish(s.list_docs([r.entry() for r in s.res], base=s.resource_list_uri()))
        same, created, updated, deleted = s.compare()
        want = [(r, 'created') for r in created] + [(r, 'updated') for r in updated]
        kill = deleted
        present = s.res
    when = {r.uri: lm for r, c, lm in todo} if incremental else {r.uri: r.ts for r, c in want}
    hard = rng.random() < 0.75
    plans = {}
    served = {}
    for r, c in want:
        p = [expect_effective(f, r) for f in make_plan(rng, tries, hard)]
        plans[r.uri] = p
        served[r.uri] = p
    conn = {}
    for u, p in plans.items():
        route = s.routes.get(u)
        if route is None:
            continue
        conn[u] = list(p)
        # the server sees only requests that are sent
        route.plan = [f if isinstance(f, int) or f in ('reset', 'close', 'badstatus', 'trunc', 'chunktrunc', 'chunked') else 'ok'
                      for f in p if f not in ('t-connect', 'refused', 'noname')]
        if p[-1] == 'nolength':
            route.headers['Content-Length'] = None
            if len(p) > 1 and any(f in ('t-body', 'x-incomplete', 'trunc') for f in p):
                p[-1] = conn[u][-1] = 'ok'
                del route.headers['Content-Length']
    ctx.server.set(s.routes)
    exp = {r.uri: outcome(plans[r.uri], tries, r) for r, c in want}
    failing = {u for u, (n, ok) in exp.items() if not ok}
    for u, (n, ok) in exp.items():
        for f in plans[u][:n]:
            if f in TIMEOUTS:
                ctx.ev('timeouts_met')
            elif f not in OK:
                ctx.ev('other_faults_met')
        if ok and n > 1:
            ctx.ev('retried_then_ok')
        if not ok and n == tries and plans[u][n - 1:n] and plans[u][n - 1] in TIMEOUTS:
            ctx.ev('exhausted')
    argv = s.argv('incremental' if incremental else 'baseline', delete, opts)
    if not ignore or rng.random() < 0.5:
        argv.insert(1, '-v')
    before = s.dst_files()
    ctx.note(scn=s.brief(), argv=argv, plans=plans, expected=exp)
    r = s.run(argv, pre=lambda: injector(conn, None))
    attempts = {}
    for n, l, m in r.logs:
        if n == 'verif' and m.startswith('ATTEMPT '):
            u = m.split(' ', 2)[2]
            if u in plans:
                attempts[u] = attempts.get(u, 0) + 1
    got = s.downloads()
    after = s.dst_files()
    path = {x.uri: s.dstpath(x) for x in s.res}
    data = {x.uri: x.data for x in s.res}
    if not failing or ignore:
        ctx.check(r.clean, 'a synchronization without final failures (or ignoring them) ended with an error', run=r.brief(), tb=r.tb,
                  plans=plans)
        ctx.eq(attempts, {u: n for u, (n, ok) in exp.items()}, 'number of attempts', plans=plans, tries=tries)
        done = [u for u in exp if u not in failing]
    else:
        ctx.check(r.failed, 'a download failed finally but the synchronization did not end with an error', plans=plans, run=r.brief())
        first = [u for u in attempts if u in failing]
        ctx.eq(len(first), 1, 'number of resources tried that finally failed', plans=plans, attempts=attempts)
        for u, n in attempts.items():
            ctx.eq(n, exp[u][0], 'number of attempts of ' + u, plans=plans, tries=tries)
        ctx.check(first[0] in r.errtext, 'the error does not name the resource that could not be downloaded', resource=first[0],
                  run=r.brief())
        done = [u for u in attempts if u not in failing]
        ctx.ev('failures_reported')
    for u in done:
        ctx.check(path[u] in after and after[path[u]][0] == data[u], 'a successful download did not leave the content', uri=u, plan=plans[u])
        if when[u] is not None:
            ctx.eq(int(after[path[u]][1]), int(when[u]), 'time of a file that was downloaded', uri=u, plan=plans[u])
    for p in before:
        if p not in kill or not delete:
            ctx.check(p in after, 'a file that was there before is gone', path=p, plans=plans)
    for u in failing:
        if path[u] in after:
            now = after[path[u]][0]
            old = before.get(path[u], (None, 0))[0]
            ctx.check(now == old or data[u].startswith(now), 'something else was stored in place of a failed download', uri=u, now=now[:100],
                      plan=plans[u])
    if ignore:
        for u in failing:
            ctx.check(any(l in ('WARNING', 'ERROR') and u in m for n, l, m in r.logs if n != 'verif') and u in r.err,
                      'a failed download was not reported with a warning', uri=u, run=r.brief())
            ctx.ev('failures_reported')
        for p in kill:
            ctx.eq(p in after, p in before and not delete, 'deletion next to failures', path=p)
        st = sync.status_lines(r)
        if want:
            ctx.check(len(st) > 0, 'no status reported', run=r.brief())
            nums = st[-1][1]
            cls = dict((x.uri, c) for x, c in want)
            ctx.eq((nums.get('created'), nums.get('updated')), (sum(1 for u in done if cls[u] == 'created'), sum(
                1 for u in done if cls[u] == 'updated')), 'created and updated in the final status', status=st[-1], failing=sorted(failing))
    # untouched otherwise
    for p in before:
        if p not in path.values() and p not in kill:
            ctx.check(after.get(p) == before[p], 'an unrelated file changed', path=p)
    # recovery
    s.publish(s.docs, present)
    s.res = present
    if present:
        r2 = s.run(s.argv('baseline', True, ['--noauth', '--tries', '2']))
        sync.need_clean(r2, 'baseline after the faults stopped')
        ctx.ev('recoveries')
        final = s.dst_files()
        ctx.eq(sorted(final), sorted(s.dstpath(x) for x in present), 'files after recovery', plans=plans)
        for x in present:
            if x.uri in failing or x.uri in done or not incremental:
                if x.uri not in failing and incremental:
                    pass
            ctx.check(x.uri not in plans or final[s.dstpath(x)][0] == x.data, 'content after recovery', uri=x.uri, plan=plans.get(x.uri))
    if any(f not in OK for u in attempts for f in plans[u]):
        ctx.sig(incremental, tries, ignore, delete, sorted(str([str(f) for f in p]) for p in plans.values()))


def real(rng, ctx):
    """Real stalls of the server with a real timeout of one second."""
    s = sync.Scn(ctx, rng, local=False, nmax=2, nmaps=1, nohash=True)
    s.publish(s.list_docs([r.entry() for r in s.res], base=s.resource_list_uri()))
    u = rng.choice(s.res).uri
    tries = rng.choice([1, 2])
    plan = rng.choice([['stall'], ['stallbody'], ['stall', 'stallbody']])
    s.routes[u].plan = plan
    ctx.server.set(s.routes)
    ok = len(plan) < tries
    argv = s.argv('baseline', False, ['--tries', str(tries), '--timeout', '1', '-v'])
    ctx.note(scn=s.brief(), argv=argv, plan={u: plan})
    r = s.run(argv)
    log = [q for q in s.requests if q['uri'] == u]
    if any(q['served'] == 'ok' for q in log[:-1]) or any(q['served'] == 'ok' for q in log) and r.failed and 'timed out' in r.err:
        ctx.ev('spurious_timeouts')     # an overloaded machine, decides nothing
        return
    others = [q for q in s.requests if q['uri'] != u]
    if r.failed and u not in r.errtext and 'timed out' in r.errtext:
        ctx.ev('spurious_timeouts')
        return
    ctx.ev('real_stalls', sum(1 for q in log if q['served'] in ('stall', 'stallbody')))
    ctx.eq(len(log), min(tries, len(plan) + 1), 'number of attempts under real stalls', plan=plan, tries=tries, run=r.brief())
    ctx.check(all(q.get('gave_up') is not False for q in log), 'the client did not give up a stalled download')
    if ok:
        sync.need_clean(r, 'synchronization with a retried download')
        ctx.eq({k: v[0] for k, v in s.dst_files().items()}, {s.dstpath(x): x.data for x in s.res}, 'files after retries')
    else:
        ctx.check(r.failed and u in r.errtext, 'final timeout not reported', run=r.brief())
    ctx.sig('real', tries, plan)


def local(rng, ctx):
    """Failures of a local source and at the destination."""
    s = sync.Scn(ctx, rng, local=True, nmax=6)
    ignore = rng.random() < 0.6
    tries = rng.choice([1, 3])
    s.fill_destination(extras=False)
    s.publish(s.list_docs([r.entry() for r in s.res], base=s.resource_list_uri()))
    same, created, updated, deleted = s.compare()
    want = created + updated
    if not want:
        return
    failing = {}
    for r in want:
        if rng.random() < 0.5:
            continue
        what = rng.choice(['missing', 'unreadable', 'dir', 'dstdir', 'fileinway'])
        if what == 'missing':
            os.unlink(s.local_path(r.uri))
        elif what == 'unreadable':
            os.chmod(s.local_path(r.uri), 0)
        elif what == 'dir':
            os.unlink(s.local_path(r.uri))
            os.makedirs(s.local_path(r.uri))
        elif what == 'dstdir':
            if r not in created:
                continue
            if os.path.exists(s.dstpath(r)):
                continue
            try:
                os.makedirs(s.dstpath(r))
            except (FileExistsError, NotADirectoryError):
                continue
        else:
            d = s.dstdir(r.mi)
            top = r.rel.split('/')[0]
            if r not in created or '/' not in r.rel or os.path.exists(os.path.join(d, top)):
                continue
            s.put(os.path.join(d, top), b'in the way', gen.ts(rng))
            for q in s.res:
                if q.mi == r.mi and q.rel.startswith(top + '/'):
                    failing[q.uri] = what
        failing[r.uri] = what
    if not failing:
        return
    ctx.ev('local_failures')
    opts = ['--tries', str(tries)] + (['--ignore-failures'] if ignore else [])
    argv = s.argv('baseline', False, opts)
    ctx.note(scn=s.brief(), argv=argv, failing=failing)
    r = s.run(argv)
    after = s.dst_files()
    if ignore:
        ctx.check(r.clean, 'ignoring failures, the synchronization ended with an error', run=r.brief(), tb=r.tb, failing=failing)
        for q in want:
            if q.uri not in failing:
                ctx.check(after.get(s.dstpath(q), (None,))[0] == q.data, 'another resource was not downloaded', uri=q.uri, failing=failing)
            else:
                ctx.check(q.uri in r.err, 'a failure was not reported', uri=q.uri, run=r.brief())
        st = sync.status_lines(r)[-1][1]
        ctx.eq(st.get('created'), sum(1 for q in created if q.uri not in failing), 'created in the final status', failing=failing)
        ctx.eq(st.get('updated'), sum(1 for q in updated if q.uri not in failing), 'updated in the final status', failing=failing)
    else:
        ctx.check(r.failed, 'failure without an error', failing=failing, run=r.brief())
        ctx.check('Traceback' not in r.tb and r.outcome == 'ok', 'failure not reported as an error message', run=r.brief(), tb=r.tb)
        ctx.check(any(u in r.err for u in failing), 'the error does not name the resource', run=r.brief(), failing=failing)
    ctx.sig('local', tries, ignore, sorted(failing.values()))
