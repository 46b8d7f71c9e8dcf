"""C18 Content dumps hold every resource once, within the limits."""
import os, zipfile

from .. import build, client, docs, fsm, gen, xmlw

ID = 'C18'
LEVEL = 'exploration'
CASES = {'quick': 7800, 'thorough': 50000}
RULE = ('one case = a random tree of files (sizes around and at the limits, empty, deep and odd names, old and future dates, files called '
        'manifest.xml), dumped through the library (three kinds of list, absolute and relative paths, listed lengths present or not, both '
        'compressions, several size and number limits) or by the command line program, every package read back with another reader and compared '
        'with the files and a model of the partition; or one fault (missing file, wrong length, too large, no path) at a random place and nothing '
        'may be written; distinct = (sizes relative to the limits, limits, way, fault); non-trivial = at least two packages or a fault')
MIN = {'packages': 3000, 'files_in_packages': 8000, 'several_packages': 500, 'closed_by_size': 500, 'closed_by_number': 500, 'limit_exactly_reached': 200,
       'refused': 300, 'program_runs': 60, 'named_manifest': 150, 'odd_dates': 500, 'default_number_limit': 1, 'default_size_limit': 1}


def setup(ctx):
    import resync.dump, resync.resource_list


def case(rng, ctx, i):
    if i == 0:
        many(rng, ctx)
    elif i == 1:
        large(rng, ctx)
    elif rng.random() < 0.03:
        program(rng, ctx)
    else:
        api(rng, ctx)


def write(path, data, t):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data)
    os.utime(path, (t, t))


def tree(rng, ctx, root, n, limit):
    """n files below root: [(rel, size)]"""
    out = []
    deep = rng.choice(['', '', 'deep', 'a/b c', 'manifest.xml.d', 'é'])
    rels = gen.relpaths(rng, n, local=True)
    if rng.random() < 0.25 and rels and not any(r.startswith('manifest.xml') for r in rels):
        k = rng.randrange(len(rels))
        rels[k] = rng.choice(['manifest.xml', 'manifest.xml', os.path.join(os.path.dirname(rels[k]), 'manifest.xml')])
        if rng.random() < 0.2 and len(rels) > 1:
            deep = 'sub'
        ctx.ev('named_manifest')
    seen = set()
    for r in rels:
        if r in seen:
            continue
        seen.add(r)
        size = rng.choice([0, 1, limit // 3, limit // 2, limit // 2 + 1, limit - 1, limit, limit, rng.randrange(limit + 1), rng.randrange(limit // 4 + 1)])
        t = gen.ts(rng)
        if rng.random() < 0.2:
            t = rng.choice([0, 1, 86400 * 3650, 315532799, 4354819200, 5000000000, 951827696])
            ctx.ev('odd_dates')
        rel = os.path.join(deep, r)
        write(os.path.join(root, rel), rng.randbytes(size) if rng.random() < 0.5 else bytes([rng.randrange(256)]) * size, t)
        out.append((rel, size))
    return out


def model(files, max_size, max_files):
    """[[name, ...], ...] and how each was closed, from the statement of the property."""
    out, cur, size = [], [], 0
    how = []
    for name, s in files:
        cur.append(name)
        size += s
        if size >= max_size or len(cur) >= max_files:
            how.append(('size' if size >= max_size else '') + ('number' if len(cur) >= max_files else '') + ('=' if size == max_size else ''))
            out.append(cur)
            cur, size = [], 0
    if cur:
        out.append(cur)
        how.append('')
    return out, how


def api(rng, ctx):
    from resync.dump import Dump
    from resync.resource import Resource
    from resync.resource_list import ResourceList, ResourceListOrdered
    root = ctx.dir('w/src')
    outdir = ctx.dir('w/out')
    os.chdir(ctx.dir('w'))
    limit = rng.choice([1, 5, 100, 1000, 20000])
    n = rng.choice([0, 1, 2, 3, 5, 8, 15])
    files = tree(rng, ctx, root, n, limit)
    max_files = rng.choice([1, 2, 3, n or 1, n + 1, 50000, 50000])
    way = rng.choice(['dict', 'ordered', 'list'])
    relative = rng.random() < 0.5
    rs = []
    for rel, size in files:
        kw = {}
        if rng.random() < 0.5:
            kw['length'] = size
        if rng.random() < 0.4:
            kw['timestamp'] = gen.ts(rng)
        if rng.random() < 0.3:
            kw['md5'] = gen.digests(open(os.path.join(root, rel), 'rb').read(), ['md5'])['md5']
        if rng.random() < 0.2:
            kw['mime_type'] = 'text/plain'
        if rng.random() < 0.1:
            kw['ln'] = [docs.link(rng)]
        u = 'http://example.org/' + rng.choice(['', 'x/', '%d/' % rng.randrange(100)]) + rel
        rs.append((Resource(uri=u, path=os.path.join('src' if relative else root, rel), **kw), rel, size))
    rng.shuffle(rs)
    if way == 'dict':
        rl = ResourceList()
        rl.add([r for r, _, _ in rs])
        rs.sort(key=lambda x: x[0].uri)
    elif way == 'ordered':
        rl = ResourceList(resources_class=ResourceListOrdered)
        rl.add([r for r, _, _ in rs])
    else:
        rl = [r for r, _, _ in rs]
    d = Dump(resources=rl, compress=rng.random() < 0.6) if rng.random() < 0.7 else Dump(rl)
    d.max_size = limit
    d.max_files = max_files
    base = rng.choice([os.path.join(outdir, 'rd_'), 'out/rd', outdir + '/x.y-'])
    sep = rng.random() < 0.6
    fault = None
    if rs and rng.random() < 0.22:
        fault = rng.choice(['missing', 'length', 'large', 'nopath', 'shorter', 'grown'])
        k = rng.choice([0, len(rs) - 1, rng.randrange(len(rs))])
        r, rel, size = rs[k]
        p = os.path.join(root, rel)
        if fault == 'missing':
            os.unlink(p)
        elif fault == 'length':
            r.length = rng.choice([size + 1, size + 1000, size - 1 if size else 1, 0 if size else 1])
        elif fault == 'large':
            r.length = rng.choice([None, limit + 1])
            write(p, b'x' * (limit + 1), 1e9)
        elif fault == 'nopath':
            r.path = None
        else:
            if r.length is None:
                r.length = size
            data = open(p, 'rb').read()
            if fault == 'shorter' and not size or fault == 'grown' and size == limit and rng.random() < 0.5:
                fault = 'grown'
            with open(p, 'wb') as f:
                f.write(data[:-1] if fault == 'shorter' else data + b'y')
    ctx.note(files=[(r.uri, r.path, r.length, size) for r, _, size in rs], max_size=limit, max_files=max_files, way=way, base=base, separate=sep, fault=fault)
    if fault:
        ctx.sig(way, fault, k, len(rs), limit, max_files)
        ctx.ev('refused')
        try:
            d.write(basename=base, write_separate_manifests=sep)
        except Exception as e:
            ctx.eq(sorted(os.listdir(outdir)), [], 'files written although the dump failed', error=repr(e))
            return
        ctx.fail('dump with a %s file did not fail' % fault, written=sorted(os.listdir(outdir)))
    want, how = model([(x, x[2]) for x in rs], limit, max_files)
    meta = {r.uri: docs.model({k: v for k, v in (('uri', r.uri), ('length', size), ('timestamp', r.timestamp), ('md5', r.md5),
                                                   ('mime_type', r.mime_type), ('ln', r.ln)) if v is not None}) for r, _, size in rs}
    where = {r.uri: (os.path.join(root, rel), rel) for r, rel, size in rs}
    before = fsm.snapshot(root)
    args = {} if sep and rng.random() < 0.5 else {'write_separate_manifests': sep}
    got = d.write(basename=base, **args)
    ctx.eq(got, len(want), 'number of packages reported')
    names = ['%s%05d' % (os.path.basename(base), k) for k in range(len(want))]
    ctx.eq(sorted(os.listdir(outdir)), sorted([x + '.zip' for x in names] + ([x + '.xml' for x in names] if sep else [])), 'files written')
    ctx.eq(fsm.diff(before, fsm.snapshot(root)), [], 'files changed by the dump')
    for k, block in enumerate(want):
        uris = [x[0].uri for x in block]
        package(ctx, os.path.join(outdir, names[k]), uris if way == 'dict' else None, set(uris), meta, where, sep)
        if 'size' in how[k]:
            ctx.ev('closed_by_size')
        if 'number' in how[k]:
            ctx.ev('closed_by_number')
        if '=' in how[k]:
            ctx.ev('limit_exactly_reached')
    if len(want) > 1:
        ctx.ev('several_packages')
        ctx.sig(way, [x[2] for x in rs], limit, max_files)


def package(ctx, stem, order, uris, meta, where, sep, links=None):
    """One package, read with another reader."""
    ctx.ev('packages')
    with zipfile.ZipFile(stem + '.zip') as z:
        ctx.eq(z.testzip(), None, 'damaged file in the package')
        names = z.namelist()
        ctx.eq(len(names), len(set(names)), 'repeated names in the package', names=names)
        ctx.check('manifest.xml' in names, 'no manifest in the package', names=names)
        man = z.read('manifest.xml')
        p = xmlw.Parsed(man)
        ctx.eq((p.md.get('capability'), p.index), ('resourcedump-manifest', False), 'type of the manifest')
        if links is not None:
            build.same_links(ctx, p.ln, links, 'of the manifest')
        got = [e['loc'] for e in p.entries]
        ctx.eq(sorted(got), sorted(uris), 'resources in the package')
        if order is not None:
            ctx.eq(got, order, 'order of the resources in the package')
        paths = []
        for e in p.entries:
            v = docs.entry_view(e)
            path = v.pop('path', None)
            ctx.eq(v, meta[e['loc']], 'description in the manifest')
            ctx.check(path, 'manifest names no file', entry=v)
            ctx.check(not path.startswith('/') and '..' not in path.split('/') and path == os.path.normpath(path), 'name leaves the package', path=path)
            ctx.check(path in names and path != 'manifest.xml', 'file named by the manifest is not in the package', path=path, names=names)
            paths.append(path)
            with open(where[e['loc']][0], 'rb') as f:
                ctx.check(z.read(path) == f.read(), 'bytes in the package differ from the file', path=path)
            ctx.check(('/' + where[e['loc']][0]).endswith('/' + path), 'name in the package has nothing to do with the file', path=path, file=where[e['loc']][0])
            ctx.ev('files_in_packages')
        ctx.eq(sorted(names), sorted(paths + ['manifest.xml']), 'files in the package')
        if sep:
            with open(stem + '.xml', 'rb') as f:
                q = xmlw.Parsed(f.read())
            ctx.eq((q.md, q.ln, q.entries), (p.md, p.ln, p.entries), 'separate manifest and manifest in the package')


def program(rng, ctx):
    """The command line program."""
    cwd = ctx.dir('w')
    root = os.path.join(cwd, 'src')
    os.makedirs(root)
    files = tree(rng, ctx, root, rng.choice([1, 2, 5, 9]), 2000)
    hashes = gen.subset(rng, ['md5', 'sha-1', 'sha-256'])
    argv = ['--write-resourcedump']
    out = 'resourcedump.zip'
    if rng.random() < 0.7:
        out = rng.choice(['rd_', 'x/rd', os.path.join(cwd, 'y-')])
        os.makedirs(os.path.dirname(os.path.join(cwd, out)) or '.', exist_ok=True)
        argv += ['--outfile', out]
    for h in hashes:
        argv += ['--hash', h]
    bad = rng.random() < 0.2
    argv += ['http://example.org/r', rng.choice(['src', root])]
    if bad:     # a file beyond the default size limit
        p = os.path.join(root, 'toobig')
        with open(p, 'wb') as f:
            f.truncate(100 * 1024 * 1024 + 1)
    before = set(fsm.snapshot(cwd))
    ctx.note(argv=argv, files=files)
    r = client.run(ctx, cwd, argv, script='resync-build')
    ctx.ev('program_runs')
    stem = os.path.join(cwd, out) + '00000'
    new = set(fsm.snapshot(cwd)) - before
    if bad:
        ctx.ev('refused')
        ctx.check(r.failed, 'dump with a file beyond the limit did not fail', run=r.brief())
        ctx.eq(new, set(), 'files written although the dump failed')
        return
    ctx.check(not r.failed, 'dump failed', run=r.brief())
    ctx.eq(sorted(new), sorted(os.path.relpath(stem, cwd) + e for e in ('.zip', '.xml')), 'files written')
    meta, where = {}, {}
    for rel, size in files:
        u = 'http://example.org/r/' + rel
        p = os.path.join(root, rel)
        data = open(p, 'rb').read()
        d = {'uri': u, 'length': size, 'timestamp': os.stat(p).st_mtime}
        d.update({k.replace('-', ''): v for k, v in gen.digests(data, hashes).items()})
        meta[u] = docs.model(d)
        where[u] = (p, rel)
    package(ctx, stem, sorted(meta), set(meta), meta, where, True)
    ctx.sig('program', len(files), hashes, out)


def many(rng, ctx):
    """The default limit of the number of files."""
    from resync.dump import Dump
    from resync.resource import Resource
    root, outdir = ctx.dir('w/src'), ctx.dir('w/out')
    n = 50001
    rs = []
    first = os.path.join(root, 'f')
    for k in range(n):
        p = '%s/%05d' % (root, k)
        if k % 20000 == 0:
            first = p
            write(p, b'', 1e9)
        else:
            os.link(first, p)
        rs.append(Resource(uri='http://e.org/%05d' % k, path=p))
    ctx.eq(Dump(resources=rs, compress=False).write(basename=outdir + '/d'), 2, 'packages for 50001 files')
    sizes = []
    for k in (0, 1):
        with zipfile.ZipFile('%s/d%05d.zip' % (outdir, k)) as z:
            sizes.append(len(z.namelist()) - 1)
    ctx.eq(sizes, [50000, 1], 'numbers of files in the packages')
    ctx.ev('default_number_limit')


def large(rng, ctx):
    """The default limit of the size."""
    from resync.dump import Dump
    from resync.resource import Resource
    root, outdir = ctx.dir('w/src'), ctx.dir('w/out')
    L = 100 * 1024 * 1024
    rs = []
    for k, size in enumerate([L - 1, 1, 1, L, 5, L // 2]):
        p = '%s/%d' % (root, k)
        with open(p, 'wb') as f:
            f.truncate(size)
        rs.append(Resource(uri='http://e.org/%d' % k, path=p))
    d = Dump(resources=rs)
    got = d.write(basename=outdir + '/d')
    sets = []
    for k in range(got):
        with zipfile.ZipFile('%s/d%05d.zip' % (outdir, k)) as z:
            sets.append(sorted(set(z.namelist()) - {'manifest.xml'}))
    ctx.eq(sets, [['0', '1'], ['2', '3'], ['4', '5']], 'packages under the default size limit')
    ctx.ev('default_size_limit')
