"""C15 Lists split over several files are complete and reassemble."""
import xml.sax.saxutils, hashlib, locale, os

from .. import client, docs, fsm, gen, sync, xmlw
from ..httpd import Route, Server

ID = 'C15'
LEVEL = 'exploration'
CASES = {'quick': 9600, 'thorough': 45000}
RULE = ('one case = a random list of one of eleven types (container, set, ordered or generator) with a limit around its length, written to disk '
        'or as strings, the files examined by an independent parser and read back from disk or over the web by the same or a fresh object; or '
        'the same with splitting disabled; or built and read by the programs; or 49999 to 50001 entries with the default limit; distinct = '
        '(type, storage, number of entries, limit, name, way of reading, options); non-trivial = at least two entries')
MIN = {'split_written': 900, 'single_written': 300, 'parts': 3000, 'entries_reassembled': 8000, 'web_reads': 250, 'disabled_write': 100, 'no_limit': 150,
       'disabled_read': 100, 'default_limit': 3, 'programs': 40, 'strings': 300, 'exact_multiples': 150, 'several_mappings': 700, 'parts_query': 8,
       'parts_path': 10, 'ascii_locale': 200, 'parts_file': 10}
NAMES = [n for n in docs.CLASSES if n != 'CapabilityList']


def setup(ctx):
    ctx.server = Server()
    os.environ['http_proxy'] = ctx.server.proxy      # before urllib first looks
    for c in docs.CLASSES:
        docs.cls(c)
    import resync.mapper, resync.list_base_with_index, resync.resource_list


def case(rng, ctx, i):
    if i < 3 or (ctx.tier == 'thorough' and i < 24):
        return default_limit(rng, ctx, i)
    if rng.random() < 0.02:
        return programs(rng, ctx)
    small(rng, ctx)


def fields(rng, name, u):
    f = {'uri': u}
    if rng.random() < 0.7:
        f['timestamp'] = docs.time(rng)
    if rng.random() < 0.4:
        f['length'] = rng.randrange(10 ** 6)
    if rng.random() < 0.3:
        f['md5'] = '9e107d9d372bb6826bd81d3542a419d6'
    if docs.needs_change(name):
        f['change'] = rng.choice(['created', 'updated', 'deleted'])
        f['ts_datetime'] = docs.time(rng)
    if name == 'SourceDescription':
        f['capability'] = 'capabilitylist'
    if rng.random() < 0.2:
        f['ln'] = [docs.link(rng)]
    return f


def resource(f):
    from resync.resource import Resource
    return Resource(**{k: ([dict(l) for l in v] if k == 'ln' else v) for k, v in f.items()})


def small(rng, ctx):
    from resync.list_base_with_index import ListBaseIndexError
    from resync.mapper import Mapper
    name = rng.choice(NAMES)
    C = docs.cls(name)
    cap, kind = docs.CLASSES[name][1:]
    limit = rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 10])
    n = max(0, rng.choice([limit - 1, limit, limit + 1, 2 * limit - 1, 2 * limit, 2 * limit + 1, 3 * limit, 5 * limit + 1,
                           rng.randrange(0, 30), 12 * limit]))
    fs, seen = [], set()
    while len(fs) < n:
        u = docs.uri(rng, odd=rng.random() < 0.1)
        if kind == 'list' and fs and rng.random() < 0.3:
            u = rng.choice(fs)['uri']
        elif u in seen:
            u += 'n%d' % len(fs)
            if u in seen:
                continue
        seen.add(u)
        fs.append(fields(rng, name, u))
    md = {}
    for k, x in (('md_at', 'at'), ('md_completed', 'completed'), ('md_from', 'from'), ('md_until', 'until')):
        if rng.random() < 0.3:
            md[k] = (x, rng.choice(['2013-01-03T09:00:00Z', xmlw.when(gen.ts(rng))]))
    lns = [{'rel': rng.choice(['up', 'describedby', 'other']), 'href': docs.uri(rng, False)} for _ in range(rng.choice([0, 0, 1, 2]))]
    spec = rng.choice(['1.1', '1.1', '1.0'])
    pretty = rng.random() < 0.5
    storage = rng.choice(['default', 'default', 'bulk', 'generator', 'list'] + (['ordered'] if name == 'ResourceList' else []))
    base = rng.choice(['http://example.org', 'http://example.org/a.b/(c)', 'http://h.test/x', 'https://example.org/s'])
    d = ctx.dir()
    sub = rng.choice(['', '', 'sub/', 'a.xml/'])
    if sub:
        os.makedirs(os.path.join(d, sub))
    bn = sub + rng.choice(['resourcelist.xml', 'list', 'l.xml.xml', 'a b.xml', 'x.XML', '00000.xml', '.xml', 'l%25.xml', 'a?b.xml'])
    path = os.path.join(d, bn)
    ctx.note(type=name, limit=limit, entries=fs, md=md, ln=lns, spec=spec, storage=storage, basename=bn, base=base)

    # ---- the object
    kw = {'spec_version': spec}
    models = [docs.model(f, spec) for f in fs]
    rs = [resource(f) for f in fs]
    if storage == 'generator':
        o = C(resources=(r for r in rs), **kw)
        o.count = n
        want = models
    elif storage == 'list':
        o = C(resources=list(rs), **kw)
        want = models
    elif storage == 'ordered':
        from resync.resource_list import ResourceListOrdered
        o = C(resources_class=ResourceListOrdered) if 'resources_class' in C.__init__.__code__.co_varnames else C(resources=ResourceListOrdered())
        o.spec_version = spec
        for r in rs:
            o.add(r)
        want = models
    else:
        o = C(**kw)
        if storage == 'bulk':
            o.add(rs)
        else:
            for r in rs:
                o.add(r)
        want = docs.order(name, models)
    for k, (x, v) in md.items():
        setattr(o, k, v)
    for l in lns:
        o.ln.append(dict(l))
    o.pretty_xml = pretty
    # mappings that do not apply may come before and after the one that does
    maps = [base + '=' + d]
    if rng.random() < 0.4:
        maps += rng.sample(['http://decoy.test=' + d + 'x', base + 'x=/nowhere/x', base + '/in=' + d + '/../in', 'http://decoy.test/y=/nowhere/y'],
                           rng.choice([1, 2]))
        rng.shuffle(maps)
        ctx.ev('several_mappings')
    o.mapper = Mapper(maps)
    o.max_sitemap_entries = limit
    wantmd = dict({x: v for x, v in md.values()}, capability=cap)
    wantback = docs.order(name, models)
    if n > limit and n % limit == 0:
        ctx.ev('exact_multiples')
    if n >= 2:
        ctx.sig(name, storage, n, limit, bn, spec, pretty)

    # ---- as strings
    if storage != 'generator' and rng.random() < 0.3:
        strings(rng, ctx, o, name, n, limit, want, wantmd, lns, path, kind)

    # ---- the same object written before, with another limit and elsewhere
    if storage != 'generator' and rng.random() < 0.3:
        ctx.ev('written_before')
        d2 = ctx.dir('w2')
        o.mapper = Mapper(['http://before.test=' + d2])
        o.max_sitemap_entries = rng.choice([1, 2, limit, n, n + 1, None])
        o.write(os.path.join(d2, 'before.xml'))
        top = xmlw.Parsed(open(os.path.join(d2, 'before.xml'), 'rb').read())
        ctx.eq(top.index, o.max_sitemap_entries is not None and n > o.max_sitemap_entries,
               'whether an index was written before')
        if o.max_sitemap_entries is None:
            ctx.ev('no_limit')
            ctx.eq(sorted(fsm.files(d2)), ['before.xml'], 'files of a list written without limit')
            ctx.eq(len(top.entries), n, 'entries of a list written without limit')
        o.mapper = Mapper(maps)
        o.max_sitemap_entries = limit

    # ---- disabled
    if rng.random() < 0.2:
        o.allow_multifile = False
        if n > limit:
            ctx.ev('disabled_write')
            try:
                o.write(path)
            except ListBaseIndexError:
                ctx.eq(fsm.files(d), {}, 'files were written although splitting is disabled')
                return
            ctx.fail('list too long for one file was written although splitting is disabled', files=sorted(fsm.files(d)))
    # ---- written
    stale = {}
    if rng.random() < 0.2:
        for nm in ('keep.xml', bn, bn[:-4] + '00000.xml' if bn.endswith('.xml') else bn + '00000.xml'):
            with open(os.path.join(d, nm), 'wb') as f:
                f.write(b'stale' * 2000)
        stale = {'keep.xml': b'stale' * 2000}
    before = set(fsm.files(d))
    if rng.random() < 0.15:     # files do not depend on the locale
        locale.setlocale(locale.LC_CTYPE, 'C')
        ctx.ev('ascii_locale')
    o.write(path)
    locale.setlocale(locale.LC_CTYPE, 'C.UTF-8')
    files = {k: v[0] for k, v in fsm.files(d).items()}
    for k, v in stale.items():
        ctx.eq(files.pop(k), v, 'another file changed')
    ctx.check(bn in files, 'no file at the requested name', files=sorted(files))
    top = xmlw.Parsed(files[bn])
    if n <= limit:
        ctx.ev('single_written')
        ctx.eq(sorted(set(files) - before), sorted({bn} - before), 'files written for a list within the limit')
        ctx.check(not top.index, 'an index was written for a list within the limit')
        ctx.eq([docs.entry_view(e) for e in top.entries], want, 'entries of the single file')
        ctx.eq(top.md, wantmd, 'metadata of the single file')
        ctx.eq([docs.link_view(l) for l in top.ln], lns, 'links of the single file')
    else:
        ctx.ev('split_written')
        examine(ctx, files, before, bn, top, base, limit, n, want, wantmd, lns)
    ctx.eq([dict(l) for l in o.ln], lns, 'links of the list after writing it')
    # ---- parts under names of somebody else's choosing, the index alone gives the order
    rel_of = {u: u[len(base) + 1:] for u in top.locs}
    web = rng.random() < 0.35 and base.startswith('http:') and base + '/' + bn == (base + '/' + bn).strip() and ' ' not in bn and '%' not in bn
    if n > limit and rng.random() < 0.3 and (sub, spec) == ('', '1.1'):
        ctx.ev('renamed_parts')
        form = rng.choice(['plain', 'query', 'query'] if web else ['plain', 'plain', 'file', 'file1', 'path'])
        ctx.ev('parts_' + form)
        new = ['%s/%s.xml' % (base, x) for x in rng.sample(['z', 'y9', 'y10', 'a', 'B', 'part2', 'part10', 'part1', 'm', '0'], 10)]
        new += ['%s/%05d.xml' % (base, 90000 - k) for k in range(len(top.locs))]
        if form == 'query':     # one script serves all of them
            new = ['%s/parts?from=%d&x=a/b' % (base, k * limit) for k in range(len(top.locs))]
            rng.shuffle(new)
        new = dict(zip(top.locs, new))
        b = files[bn]
        rel_of = {}
        for old in top.locs:
            if form == 'query':
                files[new[old][len(base) + 1:]] = files.pop(old[len(base) + 1:])
            else:
                os.rename(os.path.join(d, old[len(base) + 1:]), os.path.join(d, new[old][len(base) + 1:]))
                files[new[old][len(base) + 1:]] = files.pop(old[len(base) + 1:])
            rel = new[old][len(base) + 1:]
            new[old] = {'file': 'file://' + d + '/', 'file1': 'file:' + d + '/', 'path': d + '/'}.get(form, base + '/') + rel
            rel_of[new[old]] = rel
            raw = ('<loc>%s</loc>' % xml.sax.saxutils.escape(old)).encode('utf-8')
            ctx.check(b.count(raw) == 1, 'location of a part in the index', loc=old)
            b = b.replace(raw, ('<loc>%s</loc>' % xml.sax.saxutils.escape(new[old])).encode())
        open(path, 'wb').write(b)
        files[bn] = b
        top = xmlw.Parsed(b)
    # ---- read back
    if storage in ('generator', 'list') and kind != 'list' and len({f['uri'] for f in fs}) < len(fs):
        return
    o2 = C(**kw)
    if web:
        ctx.ev('web_reads')
        ctx.server.set({base + '/' + k: Route(b, {'Content-Type': 'application/xml'}) for k, b in files.items()})
        where = base + '/' + bn
        if rng.random() < 0.5:
            o2.mapper = Mapper(['http://elsewhere.test=' + d])
    else:
        o2.mapper = Mapper(maps)
        where = path
    if n > limit and rng.random() < 0.15:
        ctx.ev('disabled_read')
        o2.allow_multifile = False
        try:
            o2.read(where)
        except ListBaseIndexError:
            ctx.eq(len(list(o2)), 0, 'entries although reading a split list is disabled')
            return
        ctx.fail('split list was read although splitting is disabled', entries=[r.uri for r in o2])
    o2.read(where)
    got = [docs.view(r) for r in o2]
    ctx.eq(got, wantback, 'entries read back')
    ctx.eq(len(o2), n, 'number of entries read back')
    ctx.eq({k: v for k, v in o2.md.items() if v is not None}, dict({k: v for k, (x, v) in md.items()}, capability=cap), 'metadata read back')
    ctx.eq([dict(l) for l in o2.ln], lns, 'links read back')
    ctx.ev('entries_reassembled', len(got))
    if web and n > limit:
        asked = [q['uri'] for q in ctx.server.log()]
        ctx.eq(asked, [where] + top.locs, 'requests made to read the list')
    # a part lost on the way is not silently left out
    if n > limit and rng.random() < 0.3:
        lost = rng.choice(top.locs)
        rel = rel_of[lost]
        if web:
            ctx.server.set({base + '/' + k: Route(b) for k, b in files.items() if k != rel})
        else:
            os.remove(os.path.join(d, rel))
        o3 = C(**kw)
        o3.mapper = Mapper(maps)
        try:
            o3.read(where)
        except Exception:
            ctx.ev('lost_part_reported')
        else:
            ctx.fail('a list with a missing part was read without an error', lost=lost)


def examine(ctx, files, before, bn, top, base, limit, n, want, wantmd, lns):
    ctx.check(top.index, 'no index at the requested name')
    ctx.eq(top.md, wantmd, 'metadata of the index')
    ctx.eq([docs.link_view(l) for l in top.ln], lns, 'links of the index')
    ctx.check(all(u.startswith(base + '/') for u in top.locs), 'index entry outside of the mapping', locs=top.locs)
    rels = [u[len(base) + 1:] for u in top.locs]
    ctx.eq(len(set(rels)), len(rels), 'index names a part twice', locs=top.locs)
    new = set(files) - before - {bn}
    ctx.check(set(rels) >= new, 'files that the index does not name', files=sorted(files), locs=top.locs)
    ctx.check(set(rels) <= set(files) and bn not in rels, 'index names files that were not written', files=sorted(files), locs=top.locs)
    got = []
    for e, rel in zip(top.entries, rels):
        p = xmlw.Parsed(files[rel])
        ctx.ev('parts')
        ctx.check(not p.index and p.other == [], 'part is not a plain list', rel=rel)
        ctx.check(0 < len(p.entries) <= limit, 'part is empty or over the limit', rel=rel, n=len(p.entries), limit=limit)
        ctx.eq(p.md, wantmd, 'metadata of a part')
        links = [docs.link_view(l) for l in p.ln]
        ctx.eq([l for l in links if l['rel'] == 'index'], [{'rel': 'index', 'href': base + '/' + bn}], 'link of a part to its index')
        ctx.eq([l for l in links if l['rel'] != 'index'], lns, 'other links of a part')
        got += [docs.entry_view(x) for x in p.entries]
        ctx.eq(e['md'].get('hash'), 'md5:' + hashlib.md5(files[rel]).hexdigest(), 'md5 of a part in the index')
    ctx.eq(got, want, 'entries of all parts together')


def strings(rng, ctx, o, name, n, limit, want, wantmd, lns, path, kind):
    from resync.list_base_with_index import ListBaseIndexError
    ctx.ev('strings')
    url = rng.choice(['http://example.org/list.xml', 'http://example.org/list', path])

    def refused(f, what):
        try:
            s = f()
        except ListBaseIndexError:
            return
        ctx.fail('%s was not refused' % what, result=s)
    if n <= limit:
        p = xmlw.Parsed(o.as_xml())
        ctx.eq([docs.entry_view(e) for e in p.entries], want, 'entries as a string')
        refused(lambda: o.as_xml_index(url), 'index of a list within the limit')
        refused(lambda: o.as_xml_part(url, 0), 'part of a list within the limit')
        return
    parts = -(-n // limit)
    refused(lambda: o.as_xml(), 'one string for a list over the limit')
    p = xmlw.Parsed(o.as_xml_index(url) if rng.random() < 0.5 else o.as_xml(allow_multifile=True, basename=url))
    ctx.check(p.index, 'index as a string is no index')
    ctx.eq(len(p.locs), parts, 'number of parts in the index string')
    ctx.eq(len(set(p.locs)), parts, 'number of different parts in the index string')
    ctx.eq(p.md, wantmd, 'metadata of the index string')
    ctx.eq([docs.link_view(l) for l in p.ln], lns, 'links of the index string')
    got = []
    for k in range(parts):
        q = xmlw.Parsed(o.as_xml_part(url, k))
        ctx.check(0 < len(q.entries) <= limit and not q.index, 'part string is empty or over the limit')
        ctx.eq(q.md, wantmd, 'metadata of a part string')
        ctx.eq([docs.link_view(l) for l in q.ln], lns + [{'rel': 'index', 'href': url}], 'links of a part string')
        got += [docs.entry_view(e) for e in q.entries]
    ctx.eq(got, want, 'entries of all part strings')
    refused(lambda: o.as_xml_part(url, parts + rng.choice([0, 0, 1, 100])), 'part beyond the last')


def default_limit(rng, ctx, i):
    """The documented default of 50000 entries per file."""
    from resync.mapper import Mapper
    from resync.resource import Resource
    name = NAMES[i // 3 % 2] if i < 6 else rng.choice(NAMES)
    C = docs.cls(name)
    n = [50000, 50001, 49999][i % 3] if i < 12 else rng.choice([50000, 50001, 100000, 100001, 150001])
    ctx.note(type=name, n=n)
    ctx.ev('default_limit')
    ctx.sig(name, n, 'default')
    kw = {'change': 'updated'} if docs.needs_change(name) else {}
    o = C(resources=(Resource(uri='http://example.org/%06d' % k, **kw) for k in range(n)))
    d = ctx.dir()
    o.mapper = Mapper(['http://example.org=' + d])
    o.write(os.path.join(d, 'l.xml'))
    files = {k: v[0] for k, v in fsm.files(d).items()}
    top = xmlw.Parsed(files['l.xml'])
    parts = [files['l.xml']]
    if n > 50000:
        ctx.check(top.index, 'over 50000 entries in one file')
        parts = [files[u[len('http://example.org/'):]] for u in top.locs]
        for e, b in zip(top.entries, parts):
            ctx.eq(e['md'].get('hash'), 'md5:' + hashlib.md5(b).hexdigest(), 'md5 of a large part in the index')
    ctx.eq(len(files), len(parts) + (n > 50000), 'number of files written')
    uris = []
    for b in parts:
        p = xmlw.Parsed(b)
        ctx.check(len(p.entries) <= 50000, 'over 50000 entries in one file')
        uris += p.locs
        ctx.ev('parts')
    ctx.check(uris == ['http://example.org/%06d' % k for k in range(n)], 'entries of all files together', n=len(uris))
    o2 = C()
    o2.mapper = o.mapper
    o2.read(os.path.join(d, 'l.xml'))
    ctx.check([r.uri for r in o2] == uris, 'entries read back', n=len(o2))
    ctx.ev('entries_reassembled', n)


def programs(rng, ctx):
    """A list split by resync-build is complete for resync-sync."""
    ctx.ev('programs')
    cwd = ctx.dir('w')
    src = os.path.join(cwd, 'src')
    os.makedirs(src)
    n = rng.randrange(1, 14)
    rels = gen.relpaths(rng, n)
    for rel in rels:
        p = os.path.join(src, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(gen.content(rng))
        t = gen.ts(rng)
        os.utime(p, (t, t))
    data = {k: v for k, v in fsm.files(src).items()}
    limit = rng.choice([1, 2, 3, n, n + 1, max(1, n - 1)])
    base = 'http://example.org/d'
    argv = ['--write-resourcelist', '--outfile', 'src/resourcelist.xml', '--max-sitemap-entries', str(limit), base + '=src']
    disabled = rng.random() < 0.25
    if disabled:
        argv.insert(0, '--multifile')
    ctx.note(argv=argv, n=len(rels))
    r = client.run(ctx, cwd, argv, script='resync-build')
    files = fsm.files(src)
    if disabled and len(rels) > limit:
        ctx.check(r.failed, 'list over the limit written although splitting is disabled', run=r.brief())
        ctx.eq(sorted(set(files) - set(data)), [], 'files written although splitting is disabled')
        ctx.ev('disabled_write')
        return
    sync.need_clean(r, 'resync-build')
    new = {k: v[0] for k, v in files.items() if k not in data}
    top = xmlw.Parsed(new['resourcelist.xml'])
    ctx.eq(top.index, len(rels) > limit, 'whether an index was written')
    if top.index:
        uris = []
        for u in top.locs:
            p = xmlw.Parsed(new[u[len(base) + 1:]])
            ctx.check(len(p.entries) <= limit, 'part over the limit')
            uris += p.locs
    else:
        uris = top.locs
    ctx.eq(uris, sorted(base + '/' + x for x in rels), 'entries of all files together')
    ctx.server.set({base + '/' + k: Route(v[0]) for k, v in files.items()})
    nomulti = rng.random() < 0.3
    r = client.run(ctx, cwd, ['--baseline'] + (['--multifile'] if nomulti else []) + [base + '=dst'])
    if nomulti and top.index:
        ctx.check(r.failed and not os.path.exists(os.path.join(cwd, 'dst')), 'split list used although that is disabled', run=r.brief())
        ctx.ev('disabled_read')
        return
    sync.need_clean(r, 'baseline from the split list')
    ctx.eq({k: v[0] for k, v in fsm.files(os.path.join(cwd, 'dst')).items()}, {k: v[0] for k, v in data.items()}, 'files synchronized')
