"""C05 Incremental synchronization applies exactly the latest change per URI."""
import os

from .. import fsm, gen, sync, xmlw

ID = 'C05'
LEVEL = 'exploration'
CASES = {'quick': 1440, 'thorough': 7000}
RULE = ('one case = random change list (single or split, spec 1.0/1.1, four time styles, consistent and inconsistent histories), '
        'random start time explicit or stored, random prior tree, one incremental run of the real program; distinct = (kind, style, '
        'delete, start given how, counts per change type applied, number skipped); non-trivial = a change is applied or skipped')
MIN = {'client_runs': 200, 'created_applied': 50, 'updated_applied': 50, 'deleted_applied': 30, 'skipped_changes': 100,
       'superseded_changes': 50, 'split_lists': 20, 'mirrored_lists': 6, 'no_start': 14}
setup = sync.setup


def case(rng, ctx, i):
    s = sync.Scn(ctx, rng, nmax=rng.choice([2, 4, 9]), frac=rng.random() < 0.5)
    inc = sync.Inc(s, nmax=rng.choice([3, 8, 25]))
    inc.fill_destination()
    uri = None
    extra = ['--spec-version', inc.spec] if inc.spec == '1.0' or rng.random() < 0.2 else []
    mirrored = not s.local and rng.random() < 0.1
    if mirrored:
        # the change list (but not the resources) has a copy at the destination, its parts are still named by their URIs
        uri = s.maps[0][0] + '/mirrored.xml'
        extra += ['--noauth', '--changelist-uri', s.dstdir(0) + '/mirrored.xml']
    elif rng.random() < 0.3:
        nm = rng.choice(['cl.xml', 'changes/c1.xml', 'changelist.xml'])
        uri = s.maps[0][0] + '/' + nm
        # explicit change list: full location, or a name relative to the first mapping
        extra += ['--changelist-uri', uri if rng.random() < 0.5 or s.kind == 'rel' else nm]
        if s.kind == 'rel':
            extra[-1] = nm
    if not mirrored and '//sub.' in s.maps[0][0] or rng.random() < 0.1:
        extra.append('--noauth')
    inc.publish(uri)
    if mirrored:
        for u, b in s.docs.items():
            if '/mirrored' in u:
                s.put(os.path.join(s.dstdir(0), u.rsplit('/', 1)[1]), b, gen.BASE)
                del s.routes[u]
        ctx.server.set(s.routes)
        ctx.ev('mirrored_lists', len(s.docs) > 1)
    start = inc.start() if rng.random() < 0.93 else 0.0       # the beginning of time
    how = rng.choice(['from', 'state', 'both']) if rng.random() < 0.92 else rng.choice(['none', 'elsewhere', 'malformed', 'untimed'])
    if how in ('state', 'both'):
        sync.set_state(s, start if how == 'state' else start + 12345 if start else gen.BASE + 10 ** 8)
    if how in ('from', 'both'):
        extra += ['--from', xmlw.when(start)]
    if how in ('none', 'elsewhere', 'malformed', 'untimed'):
        return nowhere_to_start(rng, ctx, s, inc, how, start, extra)
    delete = rng.random() < 0.6
    todo = inc.model(start)
    before = s.dst_files()
    outside = s.outside()
    argv = s.argv('incremental', delete, extra)
    ctx.note(scn=s.brief(), argv=argv, start=xmlw.when(start), delete=delete,
             changes=[(e['loc'], e['md'], e['lastmod']) for e in inc.entries()],
             apply=[(r.uri, c) for r, c, lm in todo])
    r = s.run(argv)
    sync.need_clean(r, 'incremental synchronization')
    expect = dict(before)
    for x, c, lm in todo:
        p = s.dstpath(x)
        if c == 'deleted':
            if delete:
                expect.pop(p, None)
        else:
            expect[p] = (x.data, None if lm is None else int(lm))
    only_deletions = all(c == 'deleted' for _, c, _ in todo)
    after = s.dst_files()
    ctx.eq(sorted(after), sorted(expect), 'set of destination files after incremental')
    for p, (data, t) in expect.items():
        ctx.check(after[p][0] == data, 'content after incremental differs', path=p, got=after[p][0][:80], want=data[:80])
        ctx.check(t is None or after[p][1] == t, 'modification time after incremental differs', path=p, got=after[p][1], want=t)
    want = sorted(x.uri for x, c, lm in todo if c != 'deleted')
    ctx.eq(sorted(s.downloads()), want, 'resources downloaded')
    ctx.eq(fsm.diff(sync.drop_state(outside), sync.drop_state(s.outside())), [], 'something else changed')
    n = {c: sum(1 for _, d, _ in todo if d == c) for c in ('created', 'updated', 'deleted')}
    for c in n:
        ctx.ev(c + '_applied', n[c] if c != 'deleted' or delete else 0)
    skipped = sum(1 for t in inc.times() if t < start)
    ctx.ev('skipped_changes', skipped)
    ctx.ev('superseded_changes', len(inc.changes) - skipped - len(todo))
    if inc.changes:
        ctx.sig(s.kind, inc.style, inc.spec, delete, how, n, min(skipped, 5))


def nowhere_to_start(rng, ctx, s, inc, how, start, extra):
    """Without a usable start time, or with a change that has no time at all, nothing is done."""
    if how == 'elsewhere':
        sync.set_state(s, start, 'http://another.site.test/resourcelist.xml')
    elif how == 'malformed':
        if rng.random() < 0.5:
            sync.set_state(s, start)
        extra += ['--from', rng.choice(['yesterday', '2013-13-01T00:00:00Z', '2013-02-30', '1300000000', '2013-01-01T00:00:00', '2013-01-01 00:00:00Z', 'x2013'])]
    elif how == 'untimed':
        if not inc.changes:
            return
        es = inc.entries()
        e = rng.choice(es)
        e['lastmod'] = None
        e['md'].pop('datetime', None)
        docs = s.list_docs(es, 'changelist', base=inc.uri, md={'from': '2011-01-01T00:00:00Z'})
        s.publish(docs, inc.present)
        if any('mirrored' in x for x in extra):
            return
        extra += ['--from', xmlw.when(start)]
    before, outside = s.dst_files(), s.outside()
    argv = s.argv('incremental', rng.random() < 0.6, extra)
    ctx.note(scn=s.brief(), argv=argv, how=how, changes=[(e['loc'], e['md'], e['lastmod']) for e in inc.entries()])
    r = s.run(argv)
    ctx.ev('no_start')
    ctx.check(r.failed, 'incremental synchronization without a usable time (%s) did not end with an error' % how, run=r.brief())
    ctx.eq(s.downloads(), [], 'downloads')
    ctx.eq(s.dst_files(), before, 'destination')
    ctx.eq(fsm.diff(outside, s.outside()), [], 'something changed')
    ctx.sig(s.kind, how)
