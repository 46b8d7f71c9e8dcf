"""C27 Documents built on the command line say what was asked."""
import os, re, time

from .. import build, client, docs, fsm, gen, xmlw
from .c10 import PATTERNS, walk
from .c18 import package

ID = 'C27'
LEVEL = 'exploration'
CASES = {'quick': 6600, 'thorough': 36000}
RULE = ('one case = one run of the program resync-build with random arguments over a random tree: a resource list (mappings in every form, '
        'whole or by paths, excludes, digests, links, output to standard output or a file, limits and splitting), a dump of the same, a capability list, a source '
        'description, or a malformed argument; what it writes is read by an independent parser and compared with what the arguments and the tree '
        'ask for; distinct = (mode, options, sizes); non-trivial = something is listed or refused')
MIN = {'program_runs': 2000, 'resource_lists': 1000, 'files_listed': 3500, 'excluded': 300, 'digests': 800, 'by_paths': 120, 'split_output': 30,
       'over_limit': 60, 'capability_lists': 180, 'capabilities': 500, 'source_descriptions': 120, 'links': 1500, 'malformed': 180, 'to_file': 500, 'dumps': 200,
       'files_dumped': 800, 'digests_in_dumps': 300}
HASHES = ['md5', 'sha-1', 'sha-256']
NAMES = docs.ORDER + ['newthing', 'zeta', 'é', 'a b', '<x>&"', 'Resourcelist']


def setup(ctx):
    pass


def case(rng, ctx, i):
    x = rng.random()
    if x < 0.64:
        resourcelist(rng, ctx)
    elif x < 0.77:
        capabilitylist(rng, ctx)
    elif x < 0.86:
        description(rng, ctx)
    else:
        malformed(rng, ctx)


def go(ctx, cwd, argv):
    ctx.ev('program_runs')
    return client.run(ctx, cwd, argv, script='resync-build')


def outfile(rng, ctx, cwd, places=()):
    """(options, name or None)"""
    if rng.random() < 0.45:
        return [], None
    ctx.ev('to_file')
    out = rng.choice(['out.xml', os.path.join(cwd, 'out.xml'), 'o', 'sub.d/x.y.xml', 'with space.xml', 'é%41#.xml'] + 6 * list(places))
    os.makedirs(os.path.dirname(os.path.join(cwd, out)), exist_ok=True)
    if rng.random() < 0.15 and not os.path.exists(os.path.join(cwd, out)):
        with open(os.path.join(cwd, out), 'w') as f:
            f.write('<old>' + 'x' * rng.choice([0, 10, 5000]))
        os.utime(os.path.join(cwd, out), (gen.BASE, gen.BASE))
    return rng.choice([['--outfile', out], ['--outfile=' + out]]), out


def common(rng, mode):
    opts = []
    if rng.random() < 0.15:
        opts += ['--spec-version', rng.choice(['1.0', '1.1'])]
    if rng.random() < 0.1:
        opts += ['--empty']
    return opts


def unrelated(ctx, top, parts, links, what):
    for d in [top] + parts:
        build.same_links(ctx, [l for l in d.ln if not (d in parts and l['rel'] == 'index')], links, 'of the ' + what)
        ctx.ev('links', len(links))


def resourcelist(rng, ctx):
    cwd = ctx.dir('w')
    ctx.ev('resource_lists')
    n = rng.choice([1, 1, 2, 3])
    bases = rng.sample(['http://example.org', 'http://h.test/x', 'http://h.test/y.z', 'http://s.test/a(b)', 'https://t.test/~u', '/local/src'], n)
    dirs = rng.sample(['d1', 'd.2', 'd2', 'sub/dir', 'dx2', 'sp ace', 'é#%41'], n)
    absolute = rng.random() < 0.4
    maps = [(b, os.path.join(cwd, d) if absolute else d) for b, d in zip(bases, dirs)]
    single = n == 1 and rng.random() < 0.12        # one base only: the directory is named after it
    if single:
        bases, dirs, absolute = ['http://h.test/y.z'], ['h.test_y.z'], False
        maps = [(bases[0], dirs[0])]
    size = rng.choice([0, 1, 3, 6, 10, 16])
    for k, d in enumerate(dirs):
        build.tree(rng, os.path.join(cwd, d), size // n + (k == 0 and size > 0))
        for extra in ('x.bak', '.hid', 'n~', 'd1/file7', 'data/b'):
            if rng.random() < 0.12:
                p = os.path.join(cwd, d, extra)
                try:
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    if not os.path.exists(p):
                        with open(p, 'wb') as f:
                            f.write(gen.content(rng))
                        t = gen.ts(rng)
                        os.utime(p, (t, t))
                except OSError:
                    pass
        if rng.random() < 0.1 and size:
            os.symlink(rng.choice(['nothing', '..', 'x.bak']), os.path.join(cwd, d, 'symlink'))
    link_argv, links = build.link_args(rng, 'resourcelist')
    o, out = outfile(rng, ctx, cwd, [os.path.join(maps[0][1], 'resourcelist.xml'), os.path.join(maps[-1][1], 'lists/rl.xml')])
    opts = link_argv + o + common(rng, 'resourcelist')
    hashes = gen.subset(rng, HASHES, 0.6) if rng.random() < 0.5 else []
    for h in hashes:
        opts += rng.choice([['--hash', h], ['--hash=' + h]]) if h != 'md5' or rng.random() < 0.5 else ['--checksum']
    if hashes and rng.random() < 0.2:
        opts += ['--hash', hashes[0]]
    pats = rng.sample(PATTERNS, rng.choice([1, 1, 2, 3])) if rng.random() < 0.4 else []
    for p in pats:
        opts += ['--exclude', p] if not p.startswith('-') and rng.random() < 0.5 else ['--exclude=' + p]
    start = [m[1] for m in maps]
    if rng.random() < 0.22:
        cands = [dp for d in start for dp, _, _ in os.walk(os.path.join(cwd, d)) if ',' not in dp]
        cands = [os.path.join(m[1], os.path.relpath(c, os.path.join(cwd, d))) if c != os.path.join(cwd, d) else m[1]
                 for c in cands for m, d in zip(maps, dirs) if c == os.path.join(cwd, d) or c.startswith(os.path.join(cwd, d) + '/')]
        if not pats:
            cands += [os.path.join(m[1], r) for m, d in zip(maps, dirs) for r in fsm.files(os.path.join(cwd, d)) if ',' not in r]
        cands = [c for c in cands if not os.path.islink(os.path.join(cwd, c))]
        start = [rng.choice(cands) for _ in range(rng.choice([1, 1, 2, 3, 12]))]
        ctx.ev('by_paths')
        opts += ['--paths=' + ','.join(start)]
    # what is to be written
    cp = [re.compile(p) for p in pats]
    seen, want, where = {}, {}, {}
    for p in start:
        for f, nm in walk(os.path.normpath(os.path.join(cwd, p)), lambda nm: any(c.match(nm) for c in cp), seen):
            for (b, _), d in zip(maps, dirs):
                root = os.path.join(cwd, d)
                if f.startswith(root + '/'):
                    u = b + f[len(root):]
                    with open(f, 'rb') as fh:
                        want[u] = docs.model(build.describe(u, fh.read(), os.stat(f).st_mtime, hashes))
                    where[u] = (f, None)
    ctx.ev('excluded', seen.get('excluded', 0))
    limit, multi = None, True
    dump = rng.random() < 0.12
    if rng.random() < 0.35 and want and not dump:
        limit = max(1, rng.choice([1, 2, len(want) - 1, len(want), len(want) + 1, len(want) // 2]))
        opts += ['--max-sitemap-entries', str(limit)]
        if rng.random() < 0.2:
            multi = False
            opts += [rng.choice(['--multifile', '-m'])]
    mode = [rng.choice(['--write-resourcedump', '--write-resource-dump', '-d'] if dump else ['--write-resourcelist', '--write-resource-list'])]
    if single:
        margs = [bases[0]]
    elif n == 1 and rng.random() < 0.4:
        margs = [m + (rng.choice(['', '/'])) for m in maps[0]]
    else:
        sl = rng.choice(['', '', '/'])
        margs = ['%s%s=%s%s' % (b, sl, d, sl) for b, d in maps]
    argv = mode + opts + margs if rng.random() < 0.7 else margs + mode + opts if rng.random() < 0.5 else opts + mode + margs
    before = fsm.files(cwd)
    ctx.note(argv=argv, files=sorted(before), expected=sorted(want))
    t0 = time.time()
    r = go(ctx, cwd, argv)
    t1 = time.time()
    if dump:
        ctx.ev('dumps')
        ctx.check(not r.failed, 'the program failed', run=r.brief(), tb=r.tb)
        ctx.eq(r.out, '', 'standard output of a dump')
        stem = os.path.join(cwd, out or 'resourcedump.zip') + '00000'
        new = sorted(p for p, v in fsm.files(cwd).items() if p not in before or before[p][0] != v[0])
        ctx.eq(new, sorted(os.path.relpath(stem, cwd) + e for e in ('.zip', '.xml')) if want else [], 'files written')
        if want:
            package(ctx, stem, sorted(want), set(want), want, where, True, links)
            ctx.ev('files_dumped', len(want))
            ctx.ev('digests_in_dumps', len(want) * len(hashes))
            ctx.sig('dump', n, single, len(want), sorted(hashes), pats, out is None, len(start), len(links))
        return
    over = limit is not None and len(want) > limit
    full = None if out is None else os.path.join(cwd, out)
    mapped = full is not None and any(full.startswith(os.path.join(cwd, d) + '/') for d in dirs)
    if mapped and os.path.isabs(out) != absolute:
        mapped = None
    if over and (out is None or not multi or not mapped):
        if mapped is None and multi:
            return
        ctx.ev('over_limit')
        ctx.check(r.failed, 'list over the limit although it cannot be split', run=r.brief())
        ctx.eq((r.out, [p for p in fsm.files(cwd) if fsm.files(cwd)[p] != before.get(p)]), ('', []), 'output although the list is over the limit')
        return
    ctx.check(not r.failed, 'the program failed', run=r.brief(), tb=r.tb)

    def name(u):
        for (b, _), d in zip(maps, dirs):
            if u.startswith(b + '/'):
                return os.path.normpath(d + u[len(b):])
        ctx.fail('index names a part outside the mappings', uri=u)
    top, parts = build.read(ctx, r, cwd, out, before, base=name, capability='resourcelist')
    ctx.eq(top.index, over, 'whether the output is split')
    unrelated(ctx, top, parts, links, 'resource list')
    if top.index:
        ctx.ev('split_output')
        ctx.eq([len(p.entries) for p in parts], [limit] * (len(want) // limit) + ([len(want) % limit] if len(want) % limit else []), 'sizes of the parts')
    es = [docs.entry_view(e) for d in (parts or [top]) for e in d.entries]
    ctx.eq([e['uri'] for e in es], sorted(want), 'URIs listed')
    for e in es:
        ctx.eq(e, want[e['uri']], 'description in an entry')
    ctx.ev('files_listed', len(es))
    ctx.ev('digests', len(es) * len(hashes))
    for d in [top] + parts:
        at, done = (xmlw.parse_when(d.md[k]) / 1e6 if k in d.md else None for k in ('at', 'completed'))
        ctx.check(at is not None and int(t0) <= at <= t1 and (done is None or at <= done <= t1), 'times of the list', md=d.md, started=t0, ended=t1)
    if want or pats:
        ctx.sig('rl', n, single, len(want), sorted(hashes), pats, limit, multi, out is None, len(start), len(links))


def cap_uri(rng):
    u = docs.uri(rng, odd=rng.random() < 0.2)
    return re.sub(r'[=,]', '-', u)


def capabilitylist(rng, ctx):
    cwd = ctx.dir('w')
    ctx.ev('capability_lists')
    names = rng.sample(NAMES, rng.choice([1, 1, 2, 3, 5, 8, len(NAMES)]))
    caps, uris = [], set()
    for nm in names:
        u = cap_uri(rng)
        if u not in uris:
            uris.add(u)
            caps.append((nm, u))
    link_argv, links = build.link_args(rng, 'capabilitylist')
    o, out = outfile(rng, ctx, cwd)
    text = ','.join('%s=%s' % c for c in caps)
    opts = rng.choice([['--write-capabilitylist', text], ['--write-capability-list', text], ['--write-capabilitylist=' + text]])
    argv = opts + link_argv + o + common(rng, 'capabilitylist')
    if rng.random() < 0.3:
        argv += ['http://example.org/=d1']
    if rng.random() < 0.2:
        argv += ['--max-sitemap-entries', '50000']
    ctx.note(argv=argv)
    before = fsm.files(cwd)
    r = go(ctx, cwd, argv)
    ctx.check(not r.failed, 'the program failed', run=r.brief(), tb=r.tb)
    top, parts = build.read(ctx, r, cwd, out, before, capability='capabilitylist')
    ctx.check(not top.index, 'capability list written as an index')
    unrelated(ctx, top, [], links, 'capability list')
    want = docs.caps_order([{'uri': u, 'capability': c} for c, u in caps])
    ctx.eq([docs.entry_view(e) for e in top.entries], [docs.model(f) for f in want], 'capabilities listed')
    ctx.ev('capabilities', len(caps))
    ctx.sig('cl', tuple(c for c, u in caps), len(links), out is None)


def description(rng, ctx):
    cwd = ctx.dir('w')
    ctx.ev('source_descriptions')
    uris = sorted({re.sub(',', '-', docs.uri(rng, odd=rng.random() < 0.2)) for _ in range(rng.choice([1, 1, 2, 3, 8]))})
    rng.shuffle(uris)
    link_argv, links = build.link_args(rng, 'description')
    o, out = outfile(rng, ctx, cwd)
    argv = [rng.choice(['--write-sourcedescription', '--write-source-description']), ','.join(uris)] + link_argv + o + common(rng, 'description')
    ctx.note(argv=argv)
    before = fsm.files(cwd)
    r = go(ctx, cwd, argv)
    ctx.check(not r.failed, 'the program failed', run=r.brief(), tb=r.tb)
    top, parts = build.read(ctx, r, cwd, out, before, capability='description')
    ctx.check(not top.index, 'source description written as an index')
    unrelated(ctx, top, [], links, 'source description')
    ctx.eq([docs.entry_view(e) for e in top.entries], [docs.model({'uri': u, 'capability': 'capabilitylist'}) for u in sorted(uris)],
           'capability lists described')
    ctx.sig('sd', len(uris), len(links), out is None)


BAD_LINKS = ['', 'rel', 'rel,', 'up,http://h/a,pri', 'up,http://h/a,pri=', 'up,http://h/a,=9', 'up,http://h/a,a=b=c', 'up,http://h/a,',
             'up,http://h/a,,pri=1', 'up,,pri=1', 'up,http://h/a,pri=1,type']
BAD_CAPS = ['resourcelist', 'resourcelist=http://h/r,', ',resourcelist=http://h/r', 'a=http://h/a,,b=http://h/b', 'a=b=http://h/c',
            'resourcelist=http://h/r,changelist', 'changelist=http://h/r,changelist=http://h/s', 'x=http://h/a?b=c']
BAD_MAPS = [['http://h/a=b=c'], ['http://h/a=d1', 'http://h/b'], ['http://h/a=d1', 'http://h/a=d2'], ['http://h/a=d1', 'http://h/b=d1'],
            ['http://h/a', 'http://h/b', 'http://h/c'], ['http://h/a=d1', 'http://h/a/=d2'], ['http://h/a=d1', 'http://h/b=d1/'], []]


def malformed(rng, ctx):
    cwd = ctx.dir('w')
    ctx.ev('malformed')
    files = build.tree(rng, os.path.join(cwd, 'd1'), rng.choice([0, 3]))
    link_argv, links = build.link_args(rng, 'resourcelist')
    o, out = outfile(rng, ctx, cwd)
    good = [['--write-resourcelist', 'http://h.test/a=d1'], ['--write-capabilitylist=resourcelist=http://h.test/r'],
            ['--write-sourcedescription=http://h.test/s']]
    kind = rng.choice(['link', 'link', 'caps', 'caps', 'map', 'map', 'exclude', 'paths', 'lists'])
    if kind == 'link':
        bad = rng.choice(BAD_LINKS)
        names = [bad]
        at = rng.choice([0, len(link_argv)])
        argv = rng.choice(good) + ['--link=' + bad] + link_argv if at == 0 else rng.choice(good) + link_argv + ['--link=' + bad]
    elif kind == 'caps':
        bad = rng.choice(BAD_CAPS)
        names = [bad]
        argv = ['--write-capabilitylist=' + bad] + link_argv
    elif kind == 'lists':
        bad = rng.choice(['http://h/a,,http://h/b', 'http://h/a,', ',http://h/b', ',,', ','])
        names = [bad]
        argv = ['--write-sourcedescription=' + bad] + link_argv
    elif kind == 'map':
        m = rng.choice(BAD_MAPS)
        names = ['mapping'] if not m else [x for x in m] + [x.rstrip('/') for y in m for x in y.split('=') if x.count('/') < 3]
        argv = (['--write-resourcelist'] if m or rng.random() < 0.5 else ['--write-resourcedump']) + link_argv + m
        if rng.random() < 0.2 and m:
            argv = ['--write-sourcedescription=http://h.test/s'] + link_argv + m
    elif kind == 'exclude':
        bad = rng.choice(['(', '[a', '*x', 'a(?P<', 'x{2,1}'])
        names = [bad]
        argv = ['--write-resourcelist', '--exclude=' + rng.choice(['ok', 'b.*']), '--exclude=' + bad] + link_argv + ['http://h.test/a=d1']
    else:
        os.makedirs(os.path.join(cwd, 'd1x'))
        build.tree(rng, os.path.join(cwd, 'd1x'), 2)
        names = ['d1x']
        argv = ['--write-resourcelist', '--paths=' + rng.choice(['d1x', 'd1,d1x'])] + link_argv + ['http://h.test/a=d1']
    argv = argv[:1] + o + argv[1:]
    ctx.note(argv=argv, kind=kind)
    before = fsm.files(cwd)
    r = go(ctx, cwd, argv)
    ctx.check(r.failed, 'malformed argument accepted', run=r.brief(), kind=kind)
    ctx.eq(r.out, '', 'standard output in spite of a malformed argument')
    ctx.eq(fsm.files(cwd), before, 'files changed in spite of a malformed argument')
    ctx.check(any(x in r.errtext for x in names), 'the message does not name the malformed argument', run=r.brief(), names=names)
    ctx.sig(kind, names, out is None)
