"""C07 A dry run touches nothing, and says what a real run would do."""
import os, re

from .. import client, fsm, gen, sync, xmlw

ID = 'C07'
LEVEL = 'exploration'
CASES = {'quick': 1260, 'thorough': 6000}
RULE = ('one case = a random situation (baseline or incremental, web or local source, one to three mappings, prior tree, stored or '
        'explicit start, hashes, deletion on or off), a dry run under full observation and then the real run from the same situation; '
        'distinct = (mode, kind, deletion, sorted planned action counts, first run or not); non-trivial = something is to be done')
MIN = {'client_runs': 400, 'would_get': 200, 'would_delete': 60, 'state_files_present': 50, 'no_destination_yet': 10}
setup = sync.setup


def planned(r):
    """What the dry run says, from what the user sees with --verbose."""
    gets, dels = [], []
    for line in r.err.splitlines():
        m = re.match(r'dryrun: would GET (.*) --> (.*)$', line)
        if m:
            gets.append(m.groups())
        m = re.match(r'dryrun: would delete (.*) -> (.*)$', line)
        if m:
            dels.append(m.groups())
    return sorted(gets), sorted(dels)


def case(rng, ctx, i):
    s = sync.Scn(ctx, rng, nmax=rng.choice([2, 6, 12]), frac=True)
    incremental = rng.random() < 0.5
    delete = rng.random() < 0.7
    opts = []
    if incremental:
        inc = sync.Inc(s, nmax=rng.choice([3, 9]))
        inc.fill_destination()
        if rng.random() < 0.2:
            for dp, dn, fn in os.walk(s.dstdir(0), topdown=False):
                for f in fn:
                    os.unlink(os.path.join(dp, f))
                os.rmdir(dp)
        opts += ['--spec-version', inc.spec] if inc.spec == '1.0' else []
        inc.publish()
        start = inc.start()
        if rng.random() < 0.5:
            opts += ['--from', xmlw.when(start)]
        else:
            sync.set_state(s, start)
    else:
        s.fill_destination()
        s.publish(s.list_docs([r.entry() for r in s.res], base=s.resource_list_uri()))
        if rng.random() < 0.5:
            sync.set_state(s, gen.BASE - 99)
    if '//sub.' in s.maps[0][0] or rng.random() < 0.3 or not s.local and any('//sub.' in m[0] or True for m in s.maps[1:]):
        opts.append('--noauth')
    if rng.random() < 0.3:
        opts.append('--ignore-failures')
    if rng.random() < 0.2:
        opts += ['--tries', '2']
    if not os.path.isdir(s.dstdir(0)):
        ctx.ev('no_destination_yet')
    had_state = os.path.exists(os.path.join(ctx.casedir, sync.STATE))
    if had_state:
        ctx.ev('state_files_present')
    argv = s.argv('incremental' if incremental else 'baseline', delete, opts)
    dry = argv[:1] + rng.choice([['--dryrun', '-v'], ['-n', '--verbose']]) + argv[1:]
    before = fsm.snapshot(ctx.casedir, skip=('.stdout', '.stderr'))
    files_before = s.dst_files()
    ctx.note(scn=s.brief(), argv=dry)
    r = s.run(dry)
    sync.need_clean(r, 'dry run')
    ctx.eq(s.downloads(), [], 'a dry run downloaded resources')
    ctx.eq(r.effects(), [], 'a dry run had effects on the file system')
    ctx.eq(fsm.diff(before, fsm.snapshot(ctx.casedir, skip=('.stdout', '.stderr'))), [], 'a dry run changed something')
    ctx.check(not any('Event: ' in m for _, _, m in r.logs), 'a dry run recorded events')
    gets, dels = planned(r)
    # the real run from the same situation
    # (tolerating failures for resources the source no longer has is not needed: sources are consistent)
    real = s.run(argv[:1] + ['-v'] + argv[1:])
    sync.need_clean(real, 'real run')
    after = s.dst_files()
    got = sorted(s.downloads())
    ctx.eq(sorted(u for u, p in gets), got, 'resources a dry run names and a real run downloads')
    gone = sorted(p for p in files_before if p not in after)
    by_uri = {r.uri: s.dstpath(r) for r in s.res}
    for u, p in gets:
        ctx.eq(os.path.join(s.cwd, p), by_uri[u], 'file named for a download')
    named = sorted(os.path.join(s.cwd, p) for u, p in dels)
    # a deletion listed for a file that is not there can be named but has nothing to delete
    ctx.eq(sorted(p for p in named if p in files_before), gone, 'files a dry run names and a real run deletes')
    if not incremental:
        ctx.eq(named, gone, 'files a dry run names and a real run deletes (baseline)')
    ctx.ev('would_get', len(gets))
    ctx.ev('would_delete', len(named))
    if gets or dels:
        ctx.sig(incremental, s.kind, delete, len(gets), len(dels), had_state, len(s.maps))
