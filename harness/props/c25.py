"""C25 A generated change list turns the old state into the new."""
import os

from .. import build, client, docs, fsm, gen, xmlw
from ..httpd import Route, Server
from .c16 import equal

ID = 'C25'
LEVEL = 'exploration'
CASES = {'quick': 4800, 'thorough': 26000}
RULE = ('one case = an old state (a reference list with any metadata, single or split, local or on the web) and a new one (a second list, or files '
        'on disk under one to three mappings, scanned whole or by paths), from which the program writes a change list to standard output or a '
        'file, with links, digests, limits and splitting allowed or not; entries are compared with a model of the difference and applied to the '
        'old state; distinct = (ways, sizes, numbers of each kind of change, options); non-trivial = the states differ')
MIN = {'program_runs': 1400, 'created': 1500, 'updated': 300, 'deleted': 1500, 'unchanged': 1200, 'from_disk': 500, 'from_list': 500, 'applied': 1200,
       'to_file': 400, 'split_output': 12, 'split_reference': 60, 'web_reference': 150, 'empty_requested': 60, 'links': 800, 'over_limit': 40, 'no_change': 60, 'entries_with_own_change': 100,
       'local_parts': 60, 'split_reference_refused': 20, 'mapped_parts': 10, 'paths_beside_list': 40, 'verbose': 100}
FIELD = {'md5': 'md5', 'sha1': 'sha-1', 'sha256': 'sha-256'}


def setup(ctx):
    ctx.server = Server()


def entry(f):
    md = {'length': f.get('length'), 'type': f.get('mime_type'),
          'hash': ' '.join(FIELD[k] + ':' + f[k] for k in ('md5', 'sha1', 'sha256') if k in f) or None}
    if f.get('own'):        # (says nothing about the difference of the lists)
        md['change'] = f['own']
    return {'loc': f['uri'], 'lastmod': xmlw.when(f.get('timestamp')), 'md': {k: v for k, v in md.items() if v is not None},
            'ln': [{k if k != 'mime_type' else 'type': v for k, v in l.items()} for l in f.get('ln', [])]}


def plain(f):
    return docs.model({k: v for k, v in f.items() if k != 'own'})


def vary(rng, f):
    """Another description of the same URI."""
    g = dict(f)
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.choice(['timestamp', 'timestamp', 'timestamp', 'length', 'md5', 'sha1', 'sha256', 'mime_type'])
        how = rng.choice(['drop', 'near', 'near'])
        if how == 'drop':
            g.pop(k, None)
        elif k == 'timestamp':
            g[k] = g.get(k, gen.BASE) + rng.choice([-1, -0.5, 0.5, 0.75, 1, 2, 100])
        elif k == 'length':
            g[k] = g.get(k, 5) + 1
        elif k == 'mime_type':
            g[k] = 'text/x-other'
        else:
            g[k] = gen.digests(rng.randbytes(4), [FIELD[k]])[FIELD[k]]
    return g


def case(rng, ctx, i):
    cwd = ctx.dir('w')
    n = rng.choice([1, 1, 2, 3])
    bases = rng.sample(['http://example.org', 'http://h.test/x', 'http://h.test/y.z', 'http://s.test/a(b)'], n)
    dirs = rng.sample(['d1', 'd.2', 'd2', 'sub/dir', 'dx2'], n)
    absolute = rng.random() < 0.4
    maps = [(b, os.path.join(cwd, d) if absolute else d) for b, d in zip(bases, dirs)]
    link_argv, links = build.link_args(rng, 'changelist')
    if rng.random() < 0.06:
        return empty(rng, ctx, cwd, maps, link_argv, links)
    hashes = gen.subset(rng, ['md5', 'sha-1', 'sha-256']) if rng.random() < 0.4 else []
    from_disk = rng.random() < 0.55
    opts = list(link_argv)
    for h in hashes:
        opts += ['--checksum'] if h == 'md5' and rng.random() < 0.3 else ['--hash', h]
    # the new state
    new = {}
    size = rng.choice([0, 1, 3, 6, 10])
    paths = None
    if from_disk:
        ctx.ev('from_disk')
        for k, (b, d) in enumerate(maps):
            root = os.path.join(cwd, dirs[k])
            fs = build.tree(rng, root, size // n + (k == 0))
            for rel, (data, mtime) in fs.items():
                new[b + '/' + rel] = build.describe(b + '/' + rel, data, mtime, hashes)
        if rng.random() < 0.2 and new:
            k = rng.randrange(n)
            sub = sorted({os.path.dirname(r) for r in fsm.files(os.path.join(cwd, dirs[k])) if '/' in r and ',' not in r})
            chosen = [os.path.join(maps[k][1], rng.choice(sub))] if sub and rng.random() < 0.7 else [maps[k][1]]
            if rng.random() < 0.3:
                chosen.append(maps[(k + 1) % n][1])
            inside = lambda u: any((d + u[len(b):]).startswith(c + '/') for b, d in maps if u.startswith(b + '/') for c in chosen)
            new = {u: f for u, f in new.items() if inside(u)}
            paths = ','.join(chosen)
            opts += ['--paths', paths]
    else:
        ctx.ev('from_list')
        for _ in range(size):
            u = rng.choice(bases) + '/' + docs.uri(rng, odd=rng.random() < 0.1).split('/', 3)[3]
            f = docs.fields(rng, 'ResourceList', u)
            new[u] = {k: v for k, v in f.items() if k in ('uri', 'timestamp', 'length', 'md5', 'sha1', 'sha256', 'mime_type', 'ln')}
            if 'timestamp' in new[u]:
                new[u]['timestamp'] = gen.ts(rng)
    # the old state
    old = {}
    p = rng.choice([0.1, 0.4, 0.4, 0.8, 1.0])
    for u, f in new.items():
        if rng.random() < p:
            x = rng.random()
            f = dict(f)
            if from_disk and rng.random() < 0.5:
                if rng.random() < 0.5:
                    f['sha256'] = gen.digests(b'unknown', ['sha-256'])['sha-256']
                f['mime_type'] = 'text/plain'
            old[u] = f if x < 0.5 else vary(rng, f)
        elif rng.random() < 0.3:
            old[u + rng.choice(['x', '/y', '.', '~'])] = dict(f, uri=None)
    for _ in range(rng.choice([0, 0, 1, 3])):
        u = rng.choice(bases) + '/gone%d' % rng.randrange(100)
        old[u] = {k: v for k, v in docs.fields(rng, 'ResourceList', u).items() if k in ('length', 'md5', 'mime_type', 'sha256')}
        old[u]['timestamp'] = gen.ts(rng)
    for u, f in old.items():
        f['uri'] = u
        if 'timestamp' in f:
            f['timestamp'] = round(f['timestamp'] * 1e6) / 1e6
    if rng.random() < 0.06:
        old = {u: dict(f) for u, f in new.items()}
    if rng.random() < 0.04:
        old = {}
    if rng.random() < 0.15:
        ctx.ev('entries_with_own_change')
        for state in (old,) if from_disk else (old, new):
            for f in state.values():
                f['own'] = rng.choice([None, 'created', 'updated', 'deleted'])
    # publish the lists
    routes, split = {}, []
    refs = os.path.join(cwd, 'refs')
    os.makedirs(refs)

    def publish(state, name):
        es = [entry(f) for f in state.values()]
        rng.shuffle(es)
        web = rng.random() < 0.3
        where = 'http://w.test/' + name if web else rng.choice(['refs/', refs + '/']) + name
        md = {'at': '2019-01-01T00:00:00Z'} if rng.random() < 0.5 else None
        if web:
            ctx.ev('web_reference')
        if len(es) > 1 and rng.random() < 0.3:
            ctx.ev('split_reference')
            split.append(name)
            parts, k = [], rng.randrange(1, len(es))
            # on the web, or local and named by path or URI, or found through one of the mappings
            kind = 'web' if web else rng.choice(['path', 'absolute', 'file', 'mapped', 'mapped'] if not from_disk else ['path', 'absolute', 'file'])
            if kind != 'web':
                ctx.ev('local_parts')
            for j, chunk in enumerate((es[:k], es[k:])):
                part = '%d%s' % (j, name)
                doc = xmlw.doc('resourcelist', chunk, md=md)
                if kind == 'web':
                    u = 'http://w.test/' + part
                    routes[u] = Route(doc)
                else:
                    m = rng.randrange(n)
                    rel = dirs[m] + '/' + part if kind == 'mapped' else 'refs/' + part
                    u = {'mapped': bases[m] + '/' + part, 'path': rel, 'absolute': os.path.join(cwd, rel), 'file': 'file://' + os.path.join(cwd, rel)}[kind]
                    ctx.ev('mapped_parts', kind == 'mapped' and m > 0)
                    os.makedirs(os.path.dirname(os.path.join(cwd, rel)), exist_ok=True)
                    with open(os.path.join(cwd, rel), 'wb') as f:
                        f.write(doc)
                parts.append({'loc': u})
            b = xmlw.doc('resourcelist', parts, index=True, md=md)
        else:
            b = xmlw.doc('resourcelist', es, md=md, pretty=rng.random() < 0.5)
        if web:
            routes[where] = Route(b)
        else:
            with open(os.path.join(cwd, where), 'wb') as f:
                f.write(b)
        return where
    opts += ['--reference', publish(old, 'old.xml')]
    if not from_disk:
        opts += ['--newreference', publish(new, 'new.xml')]
        if rng.random() < 0.15:     # nothing is scanned
            opts += ['--paths', rng.choice([maps[0][1], 'refs', ','.join(m[1] for m in maps)])]
            ctx.ev('paths_beside_list')
    ctx.server.set(routes)
    # what is to be written
    want = {}
    for u in set(old) | set(new):
        if u not in new:
            want[u] = ('deleted', old[u])
        elif u not in old:
            want[u] = ('created', new[u])
        elif not equal(old[u], new[u]):
            want[u] = ('updated', new[u])
        else:
            ctx.ev('unchanged')
    out = limit = None
    multi = True
    if rng.random() < 0.5:
        out = rng.choice(['d1x/cl.xml', os.path.join(cwd, 'changes.xml'), os.path.join(maps[0][1], 'cl.xml'), os.path.join(maps[0][1], 'cl.xml'), 'cl'])
        os.makedirs(os.path.dirname(os.path.join(cwd, out)), exist_ok=True)
        opts += ['--outfile', out]
        ctx.ev('to_file')
    if split and rng.random() < 0.1:
        multi = False
        opts += [rng.choice(['--multifile', '-m'])]
    elif rng.random() < 0.4 and want:
        limit = max(1, rng.choice([1, 2, len(want) - 1, len(want), len(want) + 1, len(want) // 2]))
        opts += ['--max-sitemap-entries', str(limit)]
        # (the reference list must be read whole)
        if rng.random() < 0.25 and not split:
            multi = False
            opts += [rng.choice(['--multifile', '-m'])]
    mode = [rng.choice(['--write-changelist', '--write-change-list'])]
    if rng.random() < 0.15:
        opts += ['--spec-version', '1.0']
    verbose = False
    if out is not None and rng.random() < 0.25:     # (more is shown, nothing is different)
        opts += [rng.choice(['-v', '--verbose'])]
        verbose = True
        ctx.ev('verbose')
    argv = mode + opts + (['%s=%s' % m for m in maps] if n > 1 or rng.random() < 0.6 else list(maps[0]))
    ctx.note(argv=argv, old=old, new=new)
    before = fsm.files(cwd)
    ctx.ev('program_runs')
    r = client.run(ctx, cwd, argv, script='resync-build')
    if verbose:
        r.out = ''
    if split and not multi:
        ctx.ev('split_reference_refused')
        ctx.check(r.failed, 'reference list in parts used although that is disabled', run=r.brief())
        ctx.eq((r.out, sorted(set(fsm.files(cwd)) - set(before))), ('', []), 'output although the reference list cannot be read')
        return
    over = limit is not None and len(want) > limit
    mapped = out is not None and any(os.path.join(cwd, out).startswith(os.path.join(cwd, d) + '/') for d in dirs)
    if mapped and os.path.isabs(out) != absolute:
        mapped = None       # whether the names of parts can be mapped depends on how they are spelled
    if over and (out is None or not multi or not mapped):
        if mapped is None and multi:
            return
        ctx.ev('over_limit')
        ctx.check(r.failed, 'list over the limit although it cannot be split', run=r.brief())
        ctx.eq((r.out, sorted(set(fsm.files(cwd)) - set(before))), ('', []), 'output although the list is over the limit')
        return
    ctx.check(not r.failed, 'the program failed', run=r.brief(), tb=r.tb)

    def name(u):
        for (b, d), rel in zip(maps, dirs):
            if u.startswith(b + '/'):
                return os.path.normpath(rel + u[len(b):])
        ctx.fail('index names a part outside the mappings', uri=u)
    top, parts = build.read(ctx, r, cwd, out, before, base=name, capability='changelist')
    ctx.eq(top.index, over, 'whether the output is split')
    for d in [top] + parts:
        build.same_links(ctx, [l for l in d.ln if not (d in parts and l['rel'] == 'index')], links, 'of the change list')
        ctx.ev('links', len(links))
        if d is not top or not top.index:
            ctx.check(limit is None or len(d.entries) <= limit, 'document over the limit', entries=len(d.entries))
    if top.index:
        ctx.ev('split_output')
    es = [e for d in (parts or [top]) for e in d.entries]
    got = {}
    for e in es:
        v = docs.entry_view(e)
        ctx.check(v['uri'] not in got, 'two entries for one URI', uri=v['uri'])
        got[v['uri']] = v
    ctx.eq({u: v.get('change') for u, v in got.items()}, {u: c for u, (c, f) in want.items()}, 'changes listed')
    for u, (c, f) in want.items():
        ctx.ev(c)
        m = plain(f)
        m['change'] = c
        ctx.eq(got[u], m, 'description in the entry of a change (%s)' % c)
    # applied to the old state
    state = {u: plain(f) for u, f in old.items()}
    for e in es:
        v = docs.entry_view(e)
        if v.pop('change') == 'deleted':
            ctx.check(state.pop(v['uri'], None) is not None, 'removal of a URI that is not there')
        else:
            state[v['uri']] = v
    sec = lambda v: dict(v, timestamp=v['timestamp'] / 1e6) if 'timestamp' in v else v
    ctx.eq(sorted(state), sorted(new), 'URIs after applying the changes')
    for u, v in state.items():
        if u in want:
            ctx.eq(v, plain(new[u]), 'description after applying the changes')
        else:
            ctx.check(equal(old[u], new[u]), 'description after applying the changes', uri=u)
    ctx.ev('applied')
    if not want:
        ctx.ev('no_change')
    kinds = [c for c, f in want.values()]
    if want:
        ctx.sig(from_disk, n, len(old), len(new), [kinds.count(c) for c in ('created', 'updated', 'deleted')], limit, bool(out), bool(paths), len(links))


def empty(rng, ctx, cwd, maps, link_argv, links):
    """An empty change list was asked for."""
    out = None
    opts = ['--empty'] + link_argv
    if rng.random() < 0.5:
        out = rng.choice(['cl.xml', os.path.join(cwd, 'empty.xml')])
        opts += ['--outfile', out]
    if rng.random() < 0.3:
        for k, (b, d) in enumerate(maps):
            build.tree(rng, os.path.join(cwd, d), 2)
        opts += ['%s=%s' % m for m in maps]
    if rng.random() < 0.3:
        with open(os.path.join(cwd, 'old.xml'), 'wb') as f:
            f.write(xmlw.doc('resourcelist', [{'loc': maps[0][0] + '/gone'}]))
        opts = ['--reference', 'old.xml'] + opts
    argv = ['--write-changelist'] + opts
    ctx.note(argv=argv)
    before = fsm.files(cwd)
    ctx.ev('program_runs')
    r = client.run(ctx, cwd, argv, script='resync-build')
    ctx.check(not r.failed, 'the program failed', run=r.brief(), tb=r.tb)
    top, parts = build.read(ctx, r, cwd, out, before, capability='changelist')
    ctx.eq((top.index, top.entries), (False, []), 'entries of the empty change list')
    build.same_links(ctx, top.ln, links, 'of the empty change list')
    ctx.ev('empty_requested')
    ctx.ev('links', len(links))
