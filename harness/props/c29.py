"""C29 Reports and event log match what actually happened."""
import ast, os, re, time
from collections import Counter

from .. import client, fsm, gen, sync, xmlw
from .c09 import OK, TIMEOUTS, injector, make_plan, outcome, expect_effective

ID = 'C29'
LEVEL = 'exploration'
CASES = {'quick': 2700, 'thorough': 14000}
RULE = ('one case = one to three runs (baseline, incremental, audit; with deletion or not, dry or not, failures ignored or not) over a random '
        'situation with download and deletion failures of many kinds, logging to one detailed log; the status lines and the events in the log are '
        'compared with the files that changed, the requests made and the plan of the property; distinct = (mode, options, numbers planned, done and '
        'failed); non-trivial = something was planned')
MIN = {'runs': 900, 'events': 700, 'created': 220, 'updated': 300, 'deleted': 180, 'failed_downloads': 130, 'failed_deletions': 20, 'dry_runs': 60,
       'pending_deletions': 100, 'in_sync': 70, 'aborted': 25, 'incremental': 250, 'audits': 80, 'records': 30000, 'second_runs': 300, 'retried': 25}
setup = sync.setup

PLAN = {'created': 'to create', 'updated': 'to update', 'deleted': 'to delete'}


class Log:
    """The detailed log file; take() returns what the last run added."""

    def __init__(self, path):
        self.path, self.seen = path, 0

    def take(self):
        if not os.path.exists(self.path):
            return ''
        with open(self.path, 'rb') as f:
            f.seek(self.seen)
            b = f.read()
        self.seen += len(b)
        return b.decode('utf-8', 'backslashreplace')


def events(ctx, text):
    out = []
    for line in text.splitlines():
        m = re.match(r'\S+ \| \S+ \| DEBUG \| Event: (.*)$', line)
        if m:
            try:
                d = ast.literal_eval(m.group(1))
                out.append((d['uri'], d.get('change')))
            except (ValueError, SyntaxError, KeyError):
                ctx.fail('event record that cannot be understood', line=line)
    return out


def case(rng, ctx, i):
    s = sync.Scn(ctx, rng, nmax=rng.choice([1, 3, 6, 10]))
    mode = rng.choice(['baseline', 'baseline', 'baseline', 'incremental', 'incremental', 'incremental', 'audit'])
    inc = None
    opts = ['--noauth']
    if mode == 'incremental':
        inc = sync.Inc(s, nmax=rng.choice([1, 4, 10]))
        inc.fill_destination()
        inc.publish(with_list=True)
        opts += ['--from', '2001-01-01T00:00:00Z']
        if inc.spec == '1.0' or rng.random() < 0.1:
            opts += ['--spec-version', inc.spec]
        present = inc.present
    else:
        s.fill_destination()
        s.publish(s.list_docs([r.entry() for r in s.res], base=s.resource_list_uri()))
        present = s.res
    logname = rng.choice(['log.txt', 'my log', os.path.join(s.cwd, 'l')])
    log = Log(os.path.join(s.cwd, logname))
    args = opts + ['--logger', '--logfile', logname, '--eval']
    if rng.random() < 0.2:
        args += ['-v']
    if not s.local and rng.random() < 0.2:
        args += ['--timeout', '30']
    for k in range(rng.choice([1, 1, 2, 3])):
        if k:
            ctx.ev('second_runs')
            if rng.random() < 0.5:
                edit(rng, s, present)
        once(rng, ctx, s, mode, inc, present, args, log)


def edit(rng, s, present):
    """The destination changes between two runs."""
    for r in present:
        if rng.random() < 0.3:
            p = s.dstpath(r)
            if os.path.isfile(p) and rng.random() < 0.5:
                os.unlink(p)
            elif os.path.isdir(os.path.dirname(p)) and not os.path.isdir(p):
                s.put(p, b'edited' + rng.randbytes(4), gen.ts(rng))


def once(rng, ctx, s, mode, inc, present, args, log):
    delete = rng.random() < 0.6
    dry = rng.random() < 0.15
    ignore = rng.random() < 0.65
    tries = rng.choice([1, 2, 3])
    if inc:
        todo = inc.model(0)
        same = None
        want = [(r, c) for r, c, lm in todo if c != 'deleted']
        kill = [(s.dstpath(r), r.uri) for r, c, lm in todo if c == 'deleted']
    else:
        sm, created, updated, deleted = s.compare(present)
        same = len(sm)
        want = [(r, 'created') for r in created] + [(r, 'updated') for r in updated]
        kill = []
        for p in deleted:
            k = next(k for k in range(len(s.maps)) if p.startswith(s.dstdir(k) + '/'))
            kill.append((p, s.maps[k][0] + p[len(s.dstdir(k)):]))
    # faults
    plans, conn, hidden, locked = {}, {}, [], []
    faulty = rng.random() < 0.55
    if faulty and not s.local:
        for r, c in want:
            p = [expect_effective(f, r) for f in make_plan(rng, tries, rng.random() < 0.5)]
            p = [f if f != 'nolength' else 'ok' for f in p]
            route = s.routes.get(r.uri)
            if route is None:
                continue
            plans[r.uri], conn[r.uri] = p, list(p)
            route.plan = [f if isinstance(f, int) or f in ('reset', 'close', 'badstatus', 'trunc', 'chunktrunc', 'chunked') else 'ok'
                          for f in p if f not in ('t-connect', 'refused', 'noname')]
        ctx.server.set(s.routes)
    elif not s.local:
        for r in s.routes.values():
            r.plan = []
        ctx.server.set(s.routes)
    elif faulty and rng.random() < 0.6:
        for r, c in want:
            if rng.random() < 0.4:
                p = s.local_path(r.uri)
                if os.path.isfile(p):
                    os.rename(p, p + '.hidden')
                    hidden.append(p)
    bad = {u for u, p in plans.items() if not outcome(p, tries, None)[1]} | {r.uri for r, c in want if s.local_path(r.uri) in hidden}
    exists = {r.uri for r in present}
    bad |= {r.uri for r, c in want if r.uri not in exists}
    if faulty and os.getuid() != 0 and rng.random() < 0.4 and kill:
        d = os.path.dirname(rng.choice(kill)[0])
        if os.path.isdir(d) and not any(s.dstpath(r).startswith(d + '/') for r, c in want):
            os.chmod(d, 0o555)
            locked.append(d)
    argv = s.argv(mode, delete, args + ['--tries', str(tries)] + (['--ignore-failures'] if ignore else []) + (['--dryrun'] if dry else []))
    ctx.note(argv=argv, scn=s.brief(), plans=plans, hidden=hidden, locked=locked, planned=[[r.uri, c] for r, c in want] + [[u, 'deleted'] for p, u in kill])
    ctx.ev('runs')
    before = s.dst_files()
    t0 = time.time()
    r = s.run(argv, pre=(lambda: injector(conn, None)) if conn else None)
    t1 = time.time()
    ctx.note(run=r.brief())
    after = s.dst_files()
    for d in locked:
        os.chmod(d, 0o755)
    for p in hidden:
        os.rename(p + '.hidden', p)
    text = log.take()
    for t in re.findall(r'^(\S+) \| \S+ \| [A-Z]+ \| ', text, re.M):
        us = xmlw.parse_when(t)
        if not t0 * 1000000 - 1000 <= us <= t1 * 1000000 + 1000:
            ctx.fail('time of a log record is not the time of the run', got=t, zone=os.environ.get('TZ'), between=(t0, t1))
        ctx.ev('records')
    got = Counter(events(ctx, text))
    st = sync.status_lines(r)
    # what happened
    tried = set(s.downloads())
    for n, l, m in r.logs:
        if n == 'verif' and m.startswith('ATTEMPT '):
            tried.add(m.split(' ', 2)[2])
    if s.local:         # a missing file shows no attempt
        tried |= bad
    done = Counter()
    if mode != 'audit' and not dry:
        for x, c in want:
            if x.uri in tried and x.uri not in bad:
                done[(x.uri, c)] += 1
                ctx.check(after.get(s.dstpath(x), (None,))[0] == x.data, 'resource downloaded without leaving its content', uri=x.uri)
    vanished = [(u, 'deleted') for p, u in kill if p in before and p not in after]
    done.update(vanished)
    ctx.eq(sorted(p for p in before if p not in after), sorted(p for p, u in kill if (u, 'deleted') in done), 'files removed')
    if mode == 'audit' or dry:
        ctx.eq(after, before, 'files changed by a run that must not change any')
        ctx.eq(sorted(got), [], 'events although nothing is done')
    ctx.eq(sorted(got.items()), sorted(done.items()), 'events in the log against what was done')
    ctx.ev('events', len(got))
    for c in ('created', 'updated', 'deleted'):
        ctx.ev(c, sum(1 for u, x in done if x == c))
    nfail = len([1 for x, c in want if x.uri in tried and x.uri in bad])
    ctx.ev('failed_downloads', nfail)
    ctx.ev('retried', sum(1 for u, p in plans.items() if u in tried and u not in bad and p[0] in TIMEOUTS))
    # the status
    plan = {'created': sum(1 for x, c in want if c == 'created'), 'updated': sum(1 for x, c in want if c == 'updated'), 'deleted': len(kill)}
    total = sum(plan.values())
    ctx.check(len(st) > 0, 'no status was reported', run=r.brief())
    first = {PLAN[k]: v for k, v in plan.items()}
    if same is not None:
        first['same'] = same
    quiet = 'NO CHANGES' if inc else 'IN SYNC'
    ctx.eq(st[0], (quiet if total == 0 else 'NOT IN SYNC', first), 'status before anything is done')
    # the same lines in the detailed log
    ctx.eq(len(re.findall(r'\| Status: ', text)), len(st), 'status lines in the detailed log')
    if mode == 'audit' or total == 0:
        ctx.eq(len(st), 1, 'number of status lines of an audit or a run that had nothing to do')
        ctx.check(r.clean, 'the run failed', run=r.brief(), tb=r.tb)
        ctx.eq(sum(done.values()), 0, 'actions of a run with nothing to do')
        ctx.ev('audits' if mode == 'audit' else 'in_sync')
        if total:
            ctx.sig(mode, sorted(plan.items()))
        return
    if inc:
        ctx.ev('incremental')
    if dry:
        ctx.ev('dry_runs')
    if nfail and not ignore and not dry:
        ctx.check(r.failed, 'a failed download that is not to be ignored did not end the run', run=r.brief())
        ctx.eq(len(st), 1, 'final status although the run was aborted', status=st)
        ctx.ev('aborted')
        ctx.sig('aborted', bool(inc), sorted(plan.items()), len(done))
        return
    ctx.check(r.clean, 'the run failed', run=r.brief(), tb=r.tb)
    num = Counter(c for u, c in done)
    if not dry:
        ctx.eq(len([1 for x, c in want if x.uri in tried]), len(want), 'resources tried')
    word = {False: ('SYNCED', 'PART SYNCED'), True: ('CHANGES APPLIED', 'PART APPLIED')}[bool(inc)]
    final = {'created': num['created'], 'updated': num['updated']}
    if num['deleted'] < plan['deleted']:
        ctx.ev('pending_deletions')
        final['to delete (--delete)'] = plan['deleted']
        if delete and not dry:
            ctx.ev('failed_deletions')
    else:
        final['deleted'] = num['deleted']
    if same is not None:
        final['same'] = same
    ctx.eq(len(st), 2, 'number of status lines', status=st)
    ctx.eq(st[1], (word[num['deleted'] < plan['deleted']], final), 'final status')
    ctx.sig(mode, delete, dry, ignore, sorted(plan.items()), sorted(num.items()), nfail)
