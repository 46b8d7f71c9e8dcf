"""C02 Audit reports exact counts and changes nothing."""
from .. import fsm, sync

ID = 'C02'
LEVEL = 'exploration'
CASES = {'quick': 1260, 'thorough': 6000}
RULE = ('one case = random source and local tree, one audit run of the real program (sometimes followed by a baseline whose '
        'announced counts are compared); distinct = (kind, maps, hashes, four counts); non-trivial = at least one resource')
MIN = {'client_runs': 200, 'audits': 200, 'in_sync_seen': 15, 'not_in_sync_seen': 100, 'announced_compared': 30}
setup = sync.setup


def check_line(ctx, line, same, created, updated, deleted, what):
    words, nums = line
    got = (nums.get('same'), nums.get('to create'), nums.get('to update'), nums.get('to delete'))
    want = (len(same), len(created), len(updated), len(deleted))
    ctx.eq(got, want, what + ' counts', line=line)
    ctx.eq(words == 'IN SYNC', want[1:] == (0, 0, 0), what + ' verdict', line=line)
    ctx.check(words in ('IN SYNC', 'NOT IN SYNC'), 'unknown audit verdict', line=line)


def case(rng, ctx, i):
    s = sync.Scn(ctx, rng, nmax=14)
    s.fill_destination()
    uri = s.resource_list_uri()
    s.publish(s.list_docs([r.entry() for r in s.res], base=uri))
    if rng.random() < 0.4:
        sync.set_state(s, 1234567.5, rng.choice([uri, 'http://other.example/x']))
    extra = [] if rng.random() < 0.5 else ['-v']
    if rng.random() < 0.3:
        extra += rng.choice([['--delete'], ['--dryrun'], ['--noauth'], ['--strictauth'], ['--ignore-failures']])
    same, created, updated, deleted = s.compare()
    before = fsm.snapshot(ctx.casedir, skip=('.stdout', '.stderr'))
    argv = s.argv('audit', False, extra)
    ctx.note(scn=s.brief(), argv=argv, expect=dict(same=len(same), created=len(created), updated=len(updated), deleted=len(deleted)))
    r = s.run(argv)
    sync.need_clean(r, 'audit')
    ctx.ev('audits')
    lines = sync.status_lines(r)
    ctx.eq(len(lines), 1, 'number of status lines of an audit', stderr=r.err)
    check_line(ctx, lines[0], same, created, updated, deleted, 'audit')
    after = fsm.snapshot(ctx.casedir, skip=('.stdout', '.stderr'))
    ctx.eq(fsm.diff(before, after), [], 'audit changed the file system')
    ctx.eq(r.effects(), [], 'audit had file-system effects')
    ctx.eq([u for u in s.downloads()], [], 'audit downloaded resources')
    ctx.ev('in_sync_seen' if not (created or updated or deleted) else 'not_in_sync_seen')
    ctx.sig(s.kind, len(s.maps), s.asked, len(same), len(created), len(updated), len(deleted))
    if rng.random() < 0.25:
        r = s.run(s.argv('baseline', rng.random() < 0.5, ['--noauth']))
        sync.need_clean(r, 'baseline synchronization')
        lines = sync.status_lines(r)
        check_line(ctx, lines[0], same, created, updated, deleted, 'announced')
        ctx.ev('announced_compared')
