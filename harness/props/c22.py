"""C22 Every web request carries the configured settings."""
import os, re

from .. import client, docs, fsm, gen, sync, xmlw
from ..httpd import Route

ID = 'C22'
LEVEL = 'exploration'
CASES = {'quick': 1000, 'thorough': 8000}
RULE = ('one case = one run of a program (baseline, audit, incremental, parse, explorer, change list against a web reference) against the web '
        'source with a random access token or none, a delay or none, split lists, discovery through several documents, redirects, error '
        'statuses and timeouts; every request the server received is checked for its headers and, with a delay, for the time since the previous '
        'one; in some, one or several resources stall and the configured timeout must end each attempt; distinct = (program mode, token, delay, '
        'kinds of requests); non-trivial = at least one request')
MIN = {'requests': 2500, 'with_token': 900, 'without_token': 900, 'gaps': 250, 'redirected': 15, 'head_requests': 40, 'documents': 700,
       'timeouts': 6, 'parts': 40, 'retried': 20, 'many_requests': 4, 'resources': 250}
ASSUMPTIONS = ['requests that follow a redirect are made by the HTTP library at once; the delay is judged only before requests the program makes']
setup = sync.setup

TOKENS = ['abc', 'a.b-c_d~e+f/g==', 'x' * 300, 'eyJhbGciOi.J9', '0', 'Bearer', 'a b']


def version():
    import resync
    return resync.__version__


def check_requests(ctx, log, token, delay, redirected):
    want = ['Bearer ' + token] if token else None
    prev = None
    for q in log:
        if q['method'] == '?':
            continue
        ctx.ev('requests')
        h = q['headers']
        agents = h.get('user-agent', [])
        ctx.check(len(agents) == 1 and re.search(r'\bresync/' + re.escape(version()) + r'(?![\w.])', agents[0]), 'request without the agent name and version',
                  uri=q['uri'], agents=agents)
        ctx.eq(h.get('authorization'), want, 'authorization of a request', uri=q['uri'], method=q['method'])
        ctx.ev('with_token' if token else 'without_token')
        if q['method'] == 'HEAD':
            ctx.ev('head_requests')
        if delay and prev is not None:
            stalled = prev['served'] in ('stall', 'stallbody')
            if q['uri'] in redirected:
                ctx.ev('redirected')
            elif not stalled:
                ctx.ev('gaps')
                ctx.check(q['t'] - prev['t'] >= delay - 0.002, 'request %.3f s after the previous one although a delay of %s s is configured'
                          % (q['t'] - prev['t'], delay), uri=q['uri'], previous=prev['uri'])
        elif q['uri'] in redirected:
            ctx.ev('redirected')
        prev = q


def case(rng, ctx, i):
    if i % 60 == 5:
        return stalls(rng, ctx)
    if i % 120 == 64:
        return stalls(rng, ctx, 70)
    token = rng.choice(TOKENS) if rng.random() < 0.5 else None
    delay = rng.choice([0.03, 0.06, 0.1]) if rng.random() < 0.3 else None
    kind = rng.choice(['baseline', 'baseline', 'incremental', 'incremental', 'audit', 'parse', 'explorer', 'explorer', 'discovery', 'discovery'])
    opts = []
    if token:
        opts += ['--access-token', token] if not token.startswith('-') else ['--access-token=' + token]
    if delay:
        opts += ['--delay', str(delay)]
    redirected = {}
    if kind == 'explorer':
        return explore(rng, ctx, token, delay, opts)
    s = sync.Scn(ctx, rng, local=False, nmax=rng.choice([1, 3, 5]) if delay else rng.choice([2, 6]))
    opts += ['--noauth']
    base = s.maps[0][0]
    if kind == 'incremental':
        inc = sync.Inc(s, nmax=5)
        inc.fill_destination()
        inc.publish(split=rng.random() < 0.5)
        opts += ['--from', '2001-01-01T00:00:00Z'] + (['--spec-version', '1.0'] if inc.spec == '1.0' else [])
    else:
        s.fill_destination()
        d = s.list_docs([r.entry() for r in s.res], base=s.resource_list_uri(), split=rng.random() < 0.5)
        if kind == 'discovery':
            if rng.random() < 0.5:
                d[base + '/cl.xml'] = xmlw.doc('capabilitylist', [{'loc': 'resourcelist.xml', 'md': {'capability': 'resourcelist'}}])
                d[rng.choice([base, getattr(s, 'scheme', 'http') + '://' + s.host]) + '/.well-known/resourcesync'] = xmlw.doc(
                    'description', [{'loc': base + '/cl.xml', 'md': {'capability': 'capabilitylist'}}])
            else:
                d = {u.replace('/resourcelist.xml', '/sitemap.xml'): b for u, b in d.items()}
        s.publish(d)
    # faults that do not end the run, redirects and repeated requests
    changed = False
    for u in list(s.routes):
        r = rng.random()
        if r < 0.1:
            v = 'http://%s/moved/%d' % (rng.choice(gen.HOSTS), len(redirected))
            redirected[v] = u
            s.routes[v] = Route(s.routes[u].body)
            s.routes[u].plan = [('redirect', v)] * 9
            changed = True
        elif r < 0.2 and u not in s.docs:
            s.routes[u].plan = [rng.choice([404, 500, 403, 'reset', 'trunc'])]
            changed = True
    pre = None
    if rng.random() < 0.3 and kind in ('baseline', 'incremental', 'discovery'):
        from .c09 import injector
        conn = {r.uri: ['t-head'] * rng.choice([1, 2]) for r in s.res if rng.random() < 0.5}
        pre = lambda: injector(conn, None)
        ctx.ev('retried', len(conn))
    if changed:
        ctx.server.set(s.routes)
    mode = {'discovery': 'baseline', 'parse': 'parse'}.get(kind, kind)
    argv = ['--' + mode, '--ignore-failures', '--tries', '3'] + opts + s.map_args(rng)
    if kind == 'parse':
        argv = ['--parse', '--sitemap', s.resource_list_uri()] + [o for o in opts]
    ctx.note(argv=argv, scn=s.brief(), redirected=redirected)
    s.run(argv, pre=pre)
    ctx.ev('clean_runs' if not s.last.failed else 'failed_runs')
    judge(ctx, s, kind, token, delay, redirected)


def judge(ctx, s, kind, token, delay, redirected):
    check_requests(ctx, s.requests, token, delay, redirected)
    kinds = []
    mine = {r.uri for r in s.res}
    for q in s.requests:
        u = redirected.get(q['uri'], q['uri'])
        what = 'resources' if u in mine else 'parts' if re.search(r'_[a-z]\d{3}\.xml$', u) else 'documents'
        ctx.ev(what)
        kinds.append(what)
    ctx.check(s.requests, 'the run made no request at all', run=s.last.brief())
    ctx.sig(kind, bool(token), delay, kinds)


def explore(rng, ctx, token, delay, opts):
    """The explorer reads documents and asks for the headers of resources."""
    cwd = ctx.dir('w')
    b = 'http://example.org/d'
    routes = {b + '/cl.xml': Route(xmlw.doc('capabilitylist', [{'loc': b + '/rl.xml', 'md': {'capability': 'resourcelist'}}])),
              b + '/rl.xml': Route(xmlw.doc('resourcelist', [{'loc': b + '/r%d' % k} for k in range(3)])),
              b + '/r0': Route(b'zero'), b + '/r1': Route(b'', plan=[404] * 9), b + '/r2': Route(b'', plan=[('redirect', b + '/r3')] * 9),
              b + '/r3': Route(b'three')}
    ctx.server.set(routes)
    steps = ['1'] + [x for k in range(rng.choice([1, 2, 4])) for x in (str(rng.choice([1, 2, 3])), 'b')] + ['q']
    argv = ['--sitemap', b + '/cl.xml'] + opts
    ctx.note(argv=argv, stdin=steps)
    r = client.run(ctx, cwd, argv, script='resync-explorer', stdin=('\n'.join(steps) + '\n').encode())
    sync.need_clean(r, 'exploration')
    log = ctx.server.log()
    check_requests(ctx, log, token, delay, {b + '/r3'})
    ctx.ev('documents', sum(q['uri'].endswith('.xml') for q in log))
    ctx.check(len(log) >= 3, 'the exploration made only %d requests' % len(log))
    ctx.sig('explorer', bool(token), delay, steps)


def stalls(rng, ctx, many=0):
    """A timeout of one second ends every attempt of every resource download."""
    incremental = rng.random() < 0.5 and not many
    s = sync.Scn(ctx, rng, local=False, nmin=many or 2, nmax=many or 3)
    tries = rng.choice([1, 2])
    opts = ['--noauth', '--timeout', '1', '--tries', str(tries), '--ignore-failures']
    if incremental:
        inc = sync.Inc(s, nmax=5, consistent=True)
        inc.publish()
        opts += ['--from', '2001-01-01T00:00:00Z'] + (['--spec-version', '1.0'] if inc.spec == '1.0' else [])
        wanted = {r.uri for r, c, _ in inc.model(0) if c != 'deleted'}
    else:
        s.publish(s.list_docs([r.entry() for r in s.res], base=s.resource_list_uri()))
        wanted = {r.uri for r in s.res}
    bad = rng.sample(sorted(wanted), min(len(wanted), rng.choice([1, 2])))
    if many and not incremental:     # in the order of requests, the last
        bad = sorted(wanted)[-1:]
        ctx.ev('many_requests')
    for u in bad:
        s.routes[u].plan = [rng.choice(['stall', 'stallbody']) for _ in range(9)]
    ctx.server.set(s.routes)
    argv = s.argv('incremental' if incremental else 'baseline', False, opts)
    ctx.note(argv=argv, scn=s.brief(), stalling=bad)
    s.run(argv, wall=200)
    sync.need_clean(s.last, 'synchronization with failures ignored')
    import time
    time.sleep(0.3)
    log = ctx.server.log()
    check_requests(ctx, log, None, None, {})
    for u in bad:
        mine = [q for q in log if q['uri'] == u]
        ctx.eq(len(mine), tries, 'attempts to download a resource that stalls')
        for q in mine:
            ctx.check(q.get('gave_up'), 'the timeout did not end an attempt to download', uri=u, attempt=q['n'])
            ctx.ev('timeouts')
        gaps = [b['t'] - a['t'] for a, b in zip(mine, mine[1:])]
        ctx.check(all(g > 0.7 for g in gaps), 'an attempt was given up well before the timeout', gaps=gaps)
    ctx.eq(sorted({q['uri'] for q in log} & wanted), sorted(wanted), 'resources asked for')
    ctx.sig('stall', incremental, tries, len(bad), len(wanted))
