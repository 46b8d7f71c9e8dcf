"""C32 Misuse of the programs is refused before anything is done; the forms of an option are equivalent."""
import os, re, shutil, time

from .. import client, fsm, gen, sync, xmlw

ID = 'C32'
LEVEL = 'exploration'
CASES = {'quick': 1500, 'thorough': 8000}
RULE = ('one case = (a) a program started wrongly in one way (no mode, two modes, no or a malformed mapping, unknown option, a value of the wrong kind '
        'or none, a change list without reference) although there would be something to do: requests, file events and output are watched, or (b) '
        'one situation run twice from the same state with two spellings and orders of the same options, comparing requests, destination, stored '
        'state, log file, reports and documents; distinct = (program, kind of misuse) or (program, mode, options, spellings); non-trivial = every case')
MIN = {'misuses': 400, 'spelled': 250, 'would_have_worked': 30, 'documents_compared': 60, 'destinations_compared': 60, 'kinds_of_misuse': 400}
setup = sync.setup

MODES = [['--baseline', '-b'], ['--incremental', '--inc', '-i'], ['--audit', '-a'], ['--parse', '-p']]
BUILD = [['--write-resourcelist', '--write-resource-list'], ['--write-resourcedump', '--write-resource-dump', '-d'],
         ['--write-changelist', '--write-change-list'], ['--write-changedump', '--write-change-dump']]
BUILDV = [['--write-capabilitylist', '--write-capability-list'], ['--write-sourcedescription', '--write-source-description']]
VALUES = [('--tries', 'many'), ('-t', '1.5'), ('--timeout', 'x'), ('-T', ''), ('--max-sitemap-entries', 'ten'), ('--spec-version', '2.0'),
          ('--spec-version', '1'), ('--delay', 'slow'), ('--delay', '-1'), ('--delay=-0.5',)]
SHARED = [('--spec-version', '2.0'), ('--max-sitemap-entries', 'ten'), ('--spec-version', ''), ('--max-sitemap-entries', '1e3')]
NOVALUE = ['--hash', '--exclude', '--logfile', '--spec-version', '--from', '--max-sitemap-entries']
BADMAPS = [['http://a.test/=x=y'], ['a', 'b', 'c'], ['http://a.test=dst', 'http://b.test'], ['http://a.test=dst', 'http://a.test=dst2'],
           ['http://a.test=dst', 'http://b.test=dst'], ['http://a.test/=dst', 'http://a.test=dst3']]


def case(rng, ctx, i):
    r = rng.random()
    if r < 0.3:
        misuse_sync(rng, ctx)
    elif r < 0.5:
        misuse_build(rng, ctx)
    elif r < 0.58:
        misuse_explorer(rng, ctx)
    elif r < 0.8:
        spell_sync(rng, ctx)
    else:
        spell_build(rng, ctx)


def refused(ctx, r, log, cwd, before, kind, names=()):
    ctx.ev('misuses')
    ctx.ev('kinds_of_misuse')
    ctx.sig(*kind)
    ctx.check(r.failed, 'no error for wrong use of the program: %s' % (kind[1],), run=r.brief())
    ctx.check(r.errtext.strip(), 'an error without a message', run=r.brief())
    ctx.eq([q['uri'] for q in log], [], 'requests made although the program was used wrongly (%s)' % kind[1])
    ctx.eq(fsm.diff(before, fsm.snapshot(cwd)), [], 'files changed although the program was used wrongly (%s)' % kind[1])
    ctx.check('<urlset' not in r.out and '<sitemapindex' not in r.out and 'Parsed' not in r.out, 'output although the program was used wrongly', out=r.out[:300])


def misuse_sync(rng, ctx):
    s = sync.Scn(ctx, rng, local=False, nmax=4)
    s.fill_destination()
    s.publish(s.list_docs([r.entry() for r in s.res], base=s.resource_list_uri()))
    maps = s.map_args(rng)
    mode = [rng.choice(rng.choice(MODES))]
    opts = ['--noauth'] + (['--delete'] if rng.random() < 0.5 else [])
    if mode[0] in MODES[1] and rng.random() < 0.5:
        sync.set_state(s, gen.BASE - 9)
    kind = rng.choice(['nomode', 'twomodes', 'nomap', 'badmap', 'unknown', 'value', 'novalue', 'from'])
    if kind == 'nomode':
        mode = []
    elif kind == 'twomodes':
        mode = [rng.choice(m) for m in rng.sample(MODES, rng.choice([2, 2, 3]))]
    elif kind == 'nomap':
        maps = []
        if mode[0] in MODES[3]:
            mode = ['--audit']
        if rng.random() < 0.6:
            opts += ['--sitemap', s.resource_list_uri()]
        if rng.random() < 0.5:
            opts += ['--changelist-uri', s.maps[0][0] + '/changelist.xml']
        if rng.random() < 0.5:
            opts += ['--from', '2001-01-01T00:00:00Z']
    elif kind == 'badmap':
        maps = [m.replace('dst', s.maps[0][1]) for m in rng.choice(BADMAPS)]
        if rng.random() < 0.5:
            opts += ['--sitemap', s.resource_list_uri()]
    elif kind == 'unknown':
        opts += [rng.choice(['--frobnicate', '--write-resourcelist', '-z', '--outfile', '--deletes', '--sync', '--no-auth'])]
    elif kind == 'value':
        opts += rng.choice(VALUES)
    elif kind == 'novalue':
        opts.append(rng.choice(NOVALUE + ['--sitemap', '--tries', '-T', '--delay', '--access-token', '--changelist-uri']))
        if maps and rng.random() < 0.5:
            opts.append('--delete')
        else:       # at the end, after the mappings
            opts, maps = maps + opts, []
    else:
        mode = [rng.choice(MODES[1])]
        opts += ['--from', rng.choice(['yesterday', '2013-13-01', '20130101', '2013-01-01T00:00', '1300000000', '2013-1-1'])]
    ctx.note(kind=kind, argv=mode + opts + maps, scn=s.brief())
    before = fsm.snapshot(s.cwd)
    argv = mode + opts + maps if kind == 'novalue' or rng.random() < 0.5 else maps + mode + opts if maps else mode + opts
    r = s.run(argv)
    refused(ctx, r, s.requests, s.cwd, before, ('sync', kind, argv[:1] if kind == 'twomodes' else tuple(opts[-2:]) if kind in ('value', 'novalue', 'unknown') else ''))
    if rng.random() < 0.3 and kind in ('nomode', 'twomodes', 'unknown', 'value'):     # it was only that
        r = s.run(['--baseline', '--noauth'] + s.map_args(rng))
        sync.need_clean(r, 'synchronization')
        ctx.check(s.requests, 'nothing was requested')
        ctx.ev('would_have_worked')


def tree(rng, ctx):
    cwd = ctx.dir('w')
    d = os.path.join(cwd, 'src')
    os.makedirs(d)
    for rel in gen.relpaths(rng, rng.choice([1, 2, 5]), local=True):
        p = os.path.join(d, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(gen.content(rng))
        t = gen.ts(rng)
        os.utime(p, (t, t))
    with open(os.path.join(cwd, 'ref.xml'), 'wb') as f:
        f.write(xmlw.doc('resourcelist', [{'loc': 'http://h.test/gone', 'lastmod': '2013-01-01T00:00:00Z'}]))
    return cwd


def misuse_build(rng, ctx):
    cwd = tree(rng, ctx)
    maps = rng.choice([['http://h.test=src'], ['http://h.test', 'src']])
    which = rng.randrange(4)
    mode = [rng.choice(BUILD[which])]
    opts = [[], ['--outfile', 'out.xml'], ['--outfile', 'out.xml']][rng.randrange(3)]
    ref = ['--reference', 'ref.xml'] if which >= 2 else []
    kind = rng.choice(['nomode', 'twomodes', 'nomap', 'badmap', 'unknown', 'value', 'novalue', 'noref', 'exclude', 'caps'])
    if kind == 'nomode':
        mode = []
    elif kind == 'twomodes':
        a, b = rng.sample(BUILD + BUILDV, 2)
        mode = [x for m in (a, b) for x in [rng.choice(m)] + (['resourcelist=http://h.test/r'] if m in BUILDV else [])]
        ref = ['--reference', 'ref.xml'] if rng.random() < 0.5 else []
    elif kind == 'nomap':
        maps = []
    elif kind == 'badmap':
        maps = [m.replace('dst', 'src') for m in rng.choice(BADMAPS)]
    elif kind == 'unknown':
        opts = opts + [rng.choice(['--frobnicate', '--baseline', '-z', '--delete', '--noauth', '--access-token', '--sitemap'])]
    elif kind == 'value':
        opts = opts + list(rng.choice(SHARED))
    elif kind == 'novalue':
        opts = opts + [rng.choice(NOVALUE + ['--link', '--outfile', '--paths', '--reference', '--describedby-link']), '--pretty'][:1]
        opts, maps = maps + opts, []
    elif kind == 'noref':
        mode, ref = [rng.choice(rng.choice(BUILD[2:]))], []
    elif kind == 'exclude':
        opts = opts + ['--exclude', rng.choice(['*', '(', '[a', 'a{2}{3}**', '?'])] + (['--exclude', 'ok'] if rng.random() < 0.5 else [])
    else:
        mode, ref = [rng.choice(BUILDV[0]), rng.choice(['resourcelist', 'a=b=c', 'resourcelist=u,x', '', ',', 'resourcelist=u,resourcelist=v'])], []
    argv = mode + ref + opts + maps
    ctx.note(kind=kind, argv=argv)
    before = fsm.snapshot(cwd)
    if ctx.server:
        ctx.server.set({})
    r = client.run(ctx, cwd, argv, script='resync-build')
    refused(ctx, r, ctx.server.log(), cwd, before, ('build', kind, mode[0] if mode else '', tuple(opts[-2:]) if kind in ('value', 'novalue', 'unknown', 'exclude') else ''))


def misuse_explorer(rng, ctx):
    cwd = tree(rng, ctx)
    u = 'http://h.test/cl.xml'
    from ..httpd import Route
    ctx.server.set({u: Route(xmlw.doc('capabilitylist', []))})
    kind = rng.choice(['nothing', 'unknown', 'value', 'novalue', 'mapping'])
    argv = ['--sitemap', u]
    if kind == 'nothing':
        argv = rng.choice([[], ['--noauth'], ['-v']])
    elif kind == 'unknown':
        argv.append(rng.choice(['--frobnicate', '--baseline', '-b', '--delete', '--strictauth', '--tries']))
    elif kind == 'value':
        argv += rng.choice([v for v in VALUES if v[0] not in ('--tries', '-t', '--timeout', '-T')])
    elif kind == 'novalue':
        argv.append(rng.choice(NOVALUE + ['--sitemap']))
    else:
        argv += rng.choice([['http://h.test=dst'], ['http://h.test', 'dst'], ['http://h.test']])
    ctx.note(kind=kind, argv=argv)
    before = fsm.snapshot(cwd)
    r = client.run(ctx, cwd, argv, script='resync-explorer', stdin=b'q\n')
    refused(ctx, r, ctx.server.log(), cwd, before, ('explorer', kind, tuple(argv[2:])))


def render(rng, slots):
    """One spelling of the options, in some order."""
    slots = [rng.choice(s) for s in slots]
    rng.shuffle(slots)
    return [x for s in slots for x in (s if isinstance(s, (list, tuple)) else [s])]


def val(names, v):
    """An option with a value, as two arguments or (long names) one."""
    out = []
    for n in names:
        out.append([n, v])
        if n.startswith('--'):
            out.append([n + '=' + v])
        else:
            out.append([n + v])
    return out


def spell_sync(rng, ctx):
    s = sync.Scn(ctx, rng, nmax=5)
    incremental = rng.random() < 0.4
    slots = [[['--noauth']]]
    if incremental:
        inc = sync.Inc(s, nmax=6)
        inc.fill_destination()
        inc.publish(with_list=None)
        slots.append(MODES[1])
        slots.append(val(['--from'], xmlw.when(inc.start())))
        if inc.spec == '1.0':
            slots.append(val(['--spec-version'], '1.0'))
        if rng.random() < 0.5:
            slots.append(val(['--changelist-uri', '--change-list-uri'], inc.uri))
        mode = 'incremental'
    else:
        s.fill_destination()
        at = s.resource_list_uri()
        docs = s.list_docs([r.entry() for r in s.res], base=at)
        if rng.random() < 0.3:
            cl = s.maps[0][0] + '/caps.xml'
            docs[cl] = xmlw.doc('capabilitylist', [{'loc': at, 'md': {'capability': 'resourcelist'}}])
            slots.append(val(['--capabilitylist', '--capability-list'], cl))
        s.publish(docs)
        k = rng.choice([0, 0, 2, 3])
        slots.append(MODES[k])
        mode = MODES[k][0]
    for h in s.asked:
        slots.append(val(['--hash'], h) + ([['--checksum']] if h == 'md5' else []))
    for p, alt in ((0.5, [['--delete']]), (0.25, [['--dryrun'], ['-n']]), (0.3, [['--verbose'], ['-v']]), (0.3, [['--logger'], ['-l']]),
                   (0.2, [['--eval'], ['-e']]), (0.3, val(['--tries', '-t'], '3')), (0.3, val(['--timeout', '-T'], '9')), (0.2, [['--multifile'], ['-m']]),
                   (0.2, val(['--access-token'], 'tok')), (0.2, [['--ignore-failures']]), (0.2, [['--strictauth']]), (0.2, val(['--logfile'], 'my.log')),
                   (0.2, val(['--max-sitemap-entries'], '2'))):
        if rng.random() < p:
            slots.append(alt)
    maps = [[s.map_args(rng)] for _ in range(2)]
    if len(s.maps) > 1:     # in the order given
        maps[1] = maps[0]
    argvs = []
    for m in maps:
        o = render(rng, slots)
        argvs.append(o + m[0] if rng.random() < 0.5 else m[0] + o)
    ctx.note(argvs=argvs, scn=s.brief())
    bak = ctx.dir('bak')
    os.rmdir(bak)
    shutil.copytree(s.cwd, bak, symlinks=True)
    seen = []
    t0 = time.time()
    for j, argv in enumerate(argvs):
        if j:
            for n in os.listdir(s.cwd):
                p = os.path.join(s.cwd, n)
                shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
            shutil.copytree(bak, s.cwd, symlinks=True, dirs_exist_ok=True)
            if ctx.server and not s.local:
                ctx.server.set(s.routes)
        r = s.run(argv)
        dst = {p: (b, m if m < t0 - 5 else 'now') for p, (b, m) in s.dst_files().items()}
        logs = {n: sorted(levels(os.path.join(s.cwd, n))) for n in os.listdir(s.cwd) if n.endswith('.log')}
        state = [sync.get_state(s)]
        seen.append({'failed': r.failed, 'status': sync.status_lines(r), 'requests': [(q['uri'], q['headers'].get('authorization')) for q in s.requests], 'destination': dst,
                     'log': logs, 'state': state, 'output': re.sub(r'0x[0-9a-f]+', '', r.out), 'messages': sorted(re.sub(r'\d\d+\.\d+', '', l) for l in r.err.splitlines() if not l.startswith('Written last'))})
    for k in seen[0]:
        ctx.eq(seen[1][k], seen[0][k], '%s with another spelling of the same options' % k, first=argvs[0], second=argvs[1])
    ctx.ev('spelled')
    ctx.ev('destinations_compared', bool(seen[0]['destination']))
    ctx.sig('sync', mode, sorted(x for a in argvs for x in a if x.startswith('-')))


def levels(p):
    """Lines of a log without their times."""
    with open(p, encoding='utf-8') as f:
        return [re.sub(r'\b[0-9][0-9:.,TZ-]{7,}', '', l) for l in f]


def spell_build(rng, ctx):
    cwd = tree(rng, ctx)
    slots, what = [], rng.choice(['list', 'list', 'change', 'dump', 'caps', 'desc'])
    up = val(['--capabilitylist-link', '--capability-list-link'], 'http://h.test/caps.xml')
    if what == 'list':
        slots.append(BUILD[0])
    elif what == 'change':
        slots += [BUILD[2], rng.choice([val(['--reference'], 'ref.xml'), [['--empty']]])]
    elif what == 'dump':
        slots.append(BUILD[1])
    elif what == 'caps':
        slots.append(val(BUILDV[0], 'resourcelist=http://h.test/r,changelist=http://h.test/c'))
        up = val(['--sourcedescription-link', '--source-description-link'], 'http://h.test/sd.xml')
    else:
        slots.append(val(BUILDV[1], 'http://h.test/c1,http://h.test/c2'))
    if rng.random() < 0.6:
        slots.append(up)
    if rng.random() < 0.4:
        slots.append(val(['--describedby-link'], 'http://h.test/about'))
    if rng.random() < 0.4:
        slots.append(val(['--link'], 'other,http://h.test/o,pri=3'))
    hs = gen.subset(rng, ['md5', 'sha-1', 'sha-256']) if rng.random() < 0.5 else []
    for h in hs:
        slots.append(val(['--hash'], h) + ([['--checksum']] if h == 'md5' else []))
    out = rng.choice(['o.xml', 'o.zip']) if what == 'dump' or rng.random() < 0.4 else None
    if out:
        slots.append(val(['--outfile'], out))
    for p, alt in ((0.3, [['--verbose'], ['-v']]), (0.2, [['--logger'], ['-l']]), (0.2, [['--eval'], ['-e']]), (0.2, val(['--exclude'], 'a')),
                   (0.2, val(['--spec-version'], '1.0')), (0.2, [['--dryrun'], ['-n']]), (0.2, [['--multifile'], ['-m']])):
        if rng.random() < p:
            slots.append(alt)
    seen, argvs = [], []
    for j in range(2):
        maps = rng.choice([['http://h.test=src'], ['http://h.test', 'src'], ['http://h.test/=src/']])
        o = render(rng, slots)
        argvs.append(o + maps if rng.random() < 0.5 else maps + o)
    ctx.note(argvs=argvs)
    start = fsm.snapshot(cwd)
    for argv in argvs:
        r = client.run(ctx, cwd, argv, script='resync-build')
        docs = {}
        for e in fsm.diff(start, fsm.snapshot(cwd)):
            n = e[1] if isinstance(e, tuple) and len(e) > 1 else str(e)
            docs[str(n)] = True
        files = {}
        for n, (b, m) in fsm.files(cwd).items():
            if n.startswith('src/') or n == 'ref.xml':
                continue
            if n.endswith('.log'):
                files[n] = 'log'
            elif b.startswith(b'<'):
                files[n] = view(b)
            else:
                import io, zipfile
                z = zipfile.ZipFile(io.BytesIO(b))
                files[n] = sorted((x, view(z.read(x)) if x == 'manifest.xml' else z.read(x)) for x in z.namelist())
            os.unlink(os.path.join(cwd, n))
        m = re.search(r'<\?xml.*</(urlset|sitemapindex)>', r.out, re.S)
        seen.append({'failed': r.failed, 'files': files, 'document': view(m.group(0)) if m else None})
    for k in seen[0]:
        ctx.eq(seen[1][k], seen[0][k], '%s with another spelling of the same options' % k, first=argvs[0], second=argvs[1])
    ctx.ev('spelled')
    ctx.ev('documents_compared', bool(seen[0]['document'] or seen[0]['files']))
    ctx.sig('build', what, sorted(x for a in argvs for x in a if x.startswith('-')))


def view(b):
    p = xmlw.Parsed(b)
    return (p.index, {k: v for k, v in p.md.items() if k not in ('at', 'completed')}, sorted(map(str, p.ln)), [str(e) for e in p.entries])
