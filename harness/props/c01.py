"""C01 Baseline synchronization converges to the source."""
from .. import fsm, sync

ID = 'C01'
LEVEL = 'exploration'
CASES = {'quick': 1440, 'thorough': 6000}
RULE = ('one case = random source (web or local, 1-3 mappings, possibly split list), random prior destination, one baseline '
        'run of the real program and a repeated run; distinct = (kind, number of maps, delete, hashes asked, sizes of the '
        'same/created/updated/deleted sets); non-trivial = something to create, update or delete')
MIN = {'client_runs': 200, 'files_compared': 300, 'deletions_seen': 10, 'updates_seen': 50, 'repeats': 100}
setup = sync.setup


def case(rng, ctx, i):
    s = sync.Scn(ctx, rng)
    mode = s.fill_destination()
    if rng.random() < 0.2:
        s.listname = rng.choice(['list.xml', 'rl/r.xml', 'sitemap.xml'])
    extra = []
    uri = s.resource_list_uri()
    if s.listname:
        extra = ['--sitemap', uri]
    s.publish(s.list_docs([r.entry() for r in s.res], base=uri))
    delete = rng.random() < 0.6
    if any('//sub.' in m[0] for m in s.maps[:1]) or rng.random() < 0.1:
        extra.append('--noauth')
    if rng.random() < 0.3:
        extra.append('-v')
    same, created, updated, deleted = s.compare()
    before = s.dst_files()
    outside = s.outside()
    argv = s.argv('baseline', delete, extra)
    ctx.note(scn=s.brief(), argv=argv, prior=mode, expect=dict(
        same=len(same), created=len(created), updated=len(updated), deleted=len(deleted)))
    together = rng.random() < 0.2       # both runs in one process, by the same client object
    if together:
        r = s.run_twice(argv, s.argv('baseline', delete, extra))
        ctx.ev('same_object')
    else:
        r = s.run(argv)
    sync.need_clean(r, 'baseline synchronization')
    after = s.dst_files()
    expect = {}
    for x in same:
        p = s.dstpath(x)
        expect[p] = before[p]
    for x in created + updated:
        expect[s.dstpath(x)] = (x.data, None if x.ts is None else int(x.ts))
    if not delete:
        for p in deleted:
            expect[p] = before[p]
    ctx.eq(sorted(after), sorted(expect), 'set of destination files after baseline')
    for p, (data, t) in expect.items():
        ctx.ev('files_compared')
        ctx.check(after[p][0] == data, 'content after baseline differs', path=p, got=after[p][0][:80], want=data[:80])
        ctx.check(t is None or after[p][1] == t, 'modification time after baseline differs', path=p, got=after[p][1], want=t)
    out2 = {k: v for k, v in s.outside().items() if k != 'w/.resync-client-status.cfg'}
    ctx.eq(fsm.diff({k: v for k, v in outside.items() if k != 'w/.resync-client-status.cfg'}, out2), [], 'something else changed')
    ctx.ev('updates_seen', len(updated) + len(created))
    ctx.ev('deletions_seen', len(deleted) if delete else 0)
    if created or updated or deleted:
        ctx.sig(s.kind, len(s.maps), delete, s.asked, len(same), len(created), len(updated), len(deleted))
    # repeat against the unchanged source
    snap = [fsm.snapshot(s.dstdir(k)) for k in range(len(s.maps))]
    if not together:
        r = s.run(s.argv('baseline', delete, extra))
    sync.need_clean(r, 'repeated baseline synchronization')
    timed = {x.uri for x in s.res if x.ts is not None}
    again = [u for u in s.downloads() if u in timed]
    ctx.eq(again, [], 'repeated baseline downloaded resources again')
    untimed = {s.dstpath(x) for x in s.res if x.ts is None}
    final = s.dst_files()
    ctx.eq({p: (v[0], None if p in untimed else v[1]) for p, v in final.items()},
           {p: (v[0], None if p in untimed else v[1]) for p, v in after.items()}, 'repeated baseline changed files')
    ctx.ev('repeats')
