"""C33 What was done before or is done at the same time in a process does not matter."""
import contextlib, gc, io, locale, logging, os, pickle, random, shutil, socket, sys, threading

from .. import client, docs, fsm, gen, sync, xmlw
from ..httpd import Route

ID = 'C33'
LEVEL = 'exploration'
CASES = {'quick': 1800, 'thorough': 9000}
RULE = ('one case = two to five lanes of two to five uses each of the library (parsing and reading documents, good and bad; writing lists as text, file or '
        'parts; disk scans; synchronizations, audits and document building through Client objects; dumps; comparing; translating URIs, times and digests), '
        'run twice from the same files: every use with new objects and in a process of its own; then all lanes in one process, '
        'interleaved at random or in parallel threads with a switch interval of 10 us, with one object used throughout a lane where that makes sense; '
        'results of every use (documents, trees, requests, messages, errors) are compared and so are working directory, environment, umask, '
        'time-out, locale, threads and open files of the process before and after; distinct = (kinds of the lanes, way); non-trivial = every case')
MIN = {'uses': 7000, 'interleaved': 300, 'threaded': 120, 'reused_objects': 1200, 'errors': 600, 'client_syncs': 700, 'downloads': 250, 'split': 60,
       'documents_written': 350, 'scans': 150, 'process_state_compared': 600}
setup = sync.setup


class Stop(Exception):
    pass


def plain(v):
    """Something comparable of whatever a use returned."""
    if isinstance(v, (str, int, float, bytes, bool, type(None))):
        return v
    if isinstance(v, dict):
        return sorted((str(k), plain(x)) for k, x in v.items())
    if isinstance(v, (list, tuple, set)):
        return [plain(x) for x in v]
    return repr(type(v))


def whole(c, times=True):
    """A list with everything in it."""
    md = {k: v for k, v in c.md.items() if times or k not in ('md_at', 'md_completed', 'capability')}
    return [type(c).__name__, plain(md), plain(c.ln), [plain(docs.view(r)) for r in c.resources] if hasattr(c, 'resources') else None]


def guarded(f):
    def g():
        try:
            return ['value', plain(f())]
        except Exception as e:
            return ['error', type(e).__name__, str(e)]
    return g


def apart(f):
    """Value of f in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with open(w, 'wb') as h:
                pickle.dump(f(), h)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with open(r, 'rb') as h:
            return pickle.load(h)
    finally:
        os.waitpid(pid, 0)


# ---------------------------------------------------------------- lanes
# each: (rng, name, cwd, routes) -> start(reuse) -> [uses]; what is random is decided before start is called

def some_doc(rng, name, host, n=None, cap=None):
    cap = cap or docs.CLASSES[name][1]
    es = []
    for i in range(rng.choice([0, 1, 2, 4]) if n is None else n):
        e = {'loc': 'http://%s/%s%d' % (host, gen.name(rng), i), 'md': {}}
        if rng.random() < 0.7:
            e['lastmod'] = xmlw.when(gen.ts(rng))
        if docs.needs_change(name):
            e['md']['change'] = rng.choice(['created', 'updated', 'deleted'])
        if rng.random() < 0.5:
            e['md']['hash'] = gen.hash_attr(b'%d' % i, rng.choice([['md5'], ['sha-256', 'md5'], ['sha-1']]))
        if rng.random() < 0.5:
            e['md']['length'] = rng.randrange(1000)
        if rng.random() < 0.3:
            e['ln'] = [{'rel': 'duplicate', 'href': 'http://%s/dup%d' % (host, i), 'pri': rng.randrange(1, 9)} for _ in range(rng.choice([1, 2]))]
        es.append(e)
    md = {k: '2019-01-0%dT00:00:00Z' % rng.randrange(1, 9) for k in gen.subset(rng, ['at', 'completed', 'from', 'until'], 0.3)}
    ln = [{'rel': rng.choice(['up', 'describedby', 'x']), 'href': 'http://%s/l%d' % (host, i)} for i in range(rng.choice([0, 0, 1, 2]))]
    b = xmlw.doc(cap, es, md=md, ln=ln, index=False, pretty=rng.random() < 0.5)
    r = rng.random()
    if r < 0.12:
        b = b[:rng.randrange(len(b))]
    elif r < 0.18:
        b = b.replace(b'<loc>', b'<lok>', 1)
    elif r < 0.24:
        b = b.replace(b'capability=', b'kapability=', 1)
    elif r < 0.28:
        b = b.replace(b'T00:00:00Z', b'T99', 1)
    elif r < 0.33:
        b = b'<!DOCTYPE x [<!ENTITY e "f">]>' + b[b.index(b'?>') + 2:]
    elif r < 0.37:
        b = b.replace(b'urlset', b'rlset')
    elif r < 0.42:
        b = b.replace(b'<urlset', b'<sitemapindex').replace(b'</urlset', b'</sitemapindex').replace(b'<url>', b'<sitemap>').replace(b'</url>', b'</sitemap>')
    return b


def parse(rng, name, cwd, routes):
    spec = rng.choice(['1.1', '1.1', '1.0'])
    todo = [(some_doc(rng, rng.choice(sorted(docs.CLASSES)), name + '.test'), rng.choice([None, None, 'resourcelist']), rng.choice([None, None, True, False]))
            for _ in range(rng.choice([2, 3, 5]))]

    def start(reuse):
        from resync.sitemap import Sitemap
        one = Sitemap(spec_version=spec) if reuse else None

        def use(data, cap, index):
            s = one or Sitemap(spec_version=spec)
            try:
                c = s.parse_xml(io.BytesIO(data), capability=cap, sitemapindex=index)
            except Exception as e:
                return [type(e).__name__, str(e), s.parsed_index if 'root' in str(e).lower() else '-']
            return [whole(c), s.parsed_index, s.resources_created]
        return [lambda a=a: use(*a) for a in todo]
    return start


def read(rng, name, cwd, routes):
    todo = []
    for i in range(rng.choice([2, 3])):
        kind = rng.choice(['ResourceList', 'ChangeList', 'CapabilityList', 'SourceDescription', 'ChangeDumpManifest', 'ResourceListArchive'])
        b = some_doc(rng, kind, name + '.test')
        web = rng.random() < 0.5
        u = 'http://%s.test/doc%d.xml' % (name, i) if web else '%s/doc%d.xml' % (name, i)
        docset = {u: b}
        if kind in ('ResourceList', 'ChangeList') and rng.random() < 0.3:
            parts = []
            for j in range(2):
                p = u[:-4] + '-%d.xml' % j
                docset[p] = some_doc(rng, kind, '%s%d.test' % (name, j), 2)
                parts.append({'loc': p if web else os.path.join(cwd, p)})
            docset[u] = xmlw.doc(docs.CLASSES[kind][1], parts, index=True)
        for p, x in docset.items():
            if web:
                if rng.random() < 0.9:
                    routes[p] = Route(x)
            else:
                os.makedirs(os.path.join(cwd, name), exist_ok=True)
                with open(os.path.join(cwd, p), 'wb') as f:
                    f.write(x)
        todo.append((kind, u))
    todo = [t + (None,) for t in todo + rng.sample(todo, 1)]
    for kind, u, b in list(todo):
        if not u.startswith('http:') and rng.random() < 0.5:        # another version of the document
            todo += [(kind, u, some_doc(rng, kind, name + '.test')), (kind, u, None)]

    def start(reuse):
        def use(kind, u, b):
            if b is not None:
                return put(u, b, gen.BASE)
            c = docs.cls(kind)()
            c.read(u)
            return whole(c) + [len(c), sorted(map(str, c.uris())) if hasattr(c, 'uris') else None, getattr(c, 'num_files', None)]
        return [lambda a=a: use(*a) for a in todo]
    return start


def write(rng, name, cwd, routes):
    kind = rng.choice(['ResourceList', 'ChangeList', 'ResourceDump', 'CapabilityList', 'ResourceDumpManifest', 'ChangeListArchive'])
    os.makedirs(os.path.join(cwd, name), exist_ok=True)
    es = []
    for i in range(rng.choice([0, 1, 3, 5])):
        f = docs.fields(rng, kind, 'http://%s.test/%s%d' % (name, gen.name(rng), i))
        if kind == 'CapabilityList':
            f['capability'] = rng.choice(docs.ORDER)
        es.append(f)
    ln = [docs.link(rng) for _ in range(rng.choice([0, 1, 2]))]
    pretty, limit = rng.random() < 0.5, rng.choice([None, 1, 2])
    todo = [rng.choice(['text', 'text', 'file', 'file', 'index', 'disabled']) for _ in range(rng.choice([2, 3, 4]))]

    def start(reuse):
        from resync.mapper import Mapper
        from resync.resource import Resource

        def make():
            o = docs.cls(kind)()
            o.pretty_xml = pretty
            o.ln = [dict(l) for l in ln]
            o.md_at = '2019-01-01T00:00:00Z'
            if hasattr(o, 'max_sitemap_entries') and limit:
                o.max_sitemap_entries = limit
                o.mapper = Mapper(['http://%s.test=%s' % (name, name)])
            for f in es:
                o.add(Resource(**{k: ([dict(l) for l in v] if k == 'ln' else v) for k, v in f.items()}))
            return o
        one = make() if reuse else None

        def use(i, how):
            o = one or make()
            if how == 'text':
                return o.as_xml()
            if how == 'index':
                return o.as_xml(allow_multifile=True, basename='http://%s.test/x.xml' % name) if hasattr(o, 'mapper') else o.as_xml()
            if how == 'disabled' and hasattr(o, 'allow_multifile'):
                o.allow_multifile = False
                try:
                    return o.write('%s/out%d.xml' % (name, i))
                finally:
                    o.allow_multifile = True
            o.write('%s/out%d.xml' % (name, i))
            return whole(o, False)
        return [lambda a=a: use(*a) for a in enumerate(todo)]
    return start


def grow(rng, p, k, when=None):
    os.makedirs(p, exist_ok=True)
    for rel in gen.relpaths(rng, k, local=False, maxdepth=2):
        f = os.path.join(p, rel)
        put(f, gen.content(rng), gen.ts(rng))


def put(f, data, t):
    os.makedirs(os.path.dirname(f), exist_ok=True)
    with open(f, 'wb') as h:
        h.write(data)
    os.utime(f, (t, t))


def scan(rng, name, cwd, routes):
    grow(rng, os.path.join(cwd, name, 'a'), rng.choice([1, 3]))
    grow(rng, os.path.join(cwd, name, 'b'), rng.choice([1, 3]))
    hashes = rng.choice([None, ['md5'], ['sha-1', 'sha-256']])
    excl = rng.choice([[], ['a'], ['.*1$', 'x']])
    path = rng.random() < 0.4
    todo = []
    for i in range(rng.choice([2, 3, 5])):
        r = rng.random()
        todo.append(('add', '%s/a/new%d' % (name, i), gen.content(rng), gen.ts(rng)) if r < 0.3 else ('change', None, gen.content(rng), gen.ts(rng)) if r < 0.45 else
                    ('missing', None, None, None) if r < 0.55 else ('scan', rng.choice([None, None, ['%s/a' % name], ['%s/b' % name]]), None, None))
    todo.append(('scan', None, None, None))

    def start(reuse):
        from resync.mapper import Mapper
        from resync.resource_list_builder import ResourceListBuilder

        def make():
            b = ResourceListBuilder(mapper=Mapper(['http://%s.test/a=%s/a' % (name, name), 'http://%s.test/b=%s/b' % (name, name)]), set_hashes=hashes, set_path=path)
            b.add_exclude_patterns(list(excl))
            return b
        one = make() if reuse else None

        def use(what, p, data, t):
            if what == 'add':
                return put(p, data, t)
            if what == 'change':
                for dp, dn, fn in sorted(os.walk('%s/a' % name)):
                    for f in sorted(fn)[:1]:
                        p = os.path.join(dp, f)
                        if t < gen.BASE + 250000:      # the same length and date
                            with open(p, 'rb') as h:
                                data, t = bytes(c ^ 1 for c in h.read()), os.stat(p).st_mtime
                        return put(p, data, t)
                return None
            b = one or make()
            if what == 'missing':
                if one:
                    b = one
                return whole(b.from_disk(paths=['%s/none' % name]), False)
            return whole(b.from_disk(paths=p), False)
        return [lambda a=a: use(*a) for a in todo]
    return start


class Capture(logging.Handler):
    """Messages of every thread. (There from the beginning, since handlers that come and go make others miss messages.)"""

    def __init__(self):
        super().__init__(logging.INFO)
        self.got = {}
        logging.getLogger('resync').addHandler(self)

    def emit(self, r):
        self.got.setdefault(r.thread, []).append((r.name, r.levelname, r.getMessage()))

    def take(self):
        return self.got.pop(threading.get_ident(), [])


captured = None


def together(uses):
    global captured
    captured = Capture()
    return uses()


def clients(rng, name, cwd, routes, writes=True):
    """A source, its copy, and a client used repeatedly."""
    local = rng.random() < 0.6
    d = os.path.join(cwd, name)
    base = name + '/src' if local else 'http://%s.test/s' % name
    files = {}
    for rel in gen.relpaths(rng, rng.choice([1, 2, 4]), maxdepth=2):
        files[rel] = (gen.content(rng), int(gen.ts(rng)))
    types = rng.choice([[], ['md5'], ['md5', 'sha-256']])

    def listing(fs, cap='resourcelist', types=types, change=None):
        es = []
        for rel, (b, t) in sorted(fs.items()):
            md = {'length': len(b)}
            if gen.hash_attr(b, types):
                md['hash'] = gen.hash_attr(b, types)
            if change:
                md.update(change=change.get(rel, 'updated'), datetime=xmlw.when(t))
            es.append({'loc': base + '/' + rel, 'lastmod': xmlw.when(t), 'md': md})
        return xmlw.doc(cap, es)
    steps = []
    n = [0]

    def publish(b, rel=None):
        """A document that is there from the beginning."""
        n[0] += 1
        rel = rel or 'list%d.xml' % n[0]
        if local:
            put(os.path.join(d, 'src', rel), b, gen.BASE)
        else:
            routes[base + '/' + rel] = Route(b)
        return base + '/' + rel
    if local:
        for rel, (b, t) in files.items():
            put(os.path.join(d, 'src', rel), b, t)
    else:
        for rel, (b, t) in files.items():
            routes[base + '/' + rel] = Route(b)
    if rng.random() < 0.4:
        grow(rng, os.path.join(d, 'dst'), 2)
    rl = publish(listing(files))
    bare = publish(listing(files, types=[]))
    part = publish(listing(dict(list(files.items())[1:])))
    extra = publish(listing(dict(files, gone=(b'gone', gen.BASE))))
    cl = publish(listing(files, 'changelist', change={r: rng.choice(['created', 'updated', 'deleted']) for r in files}))
    broken = publish(listing(files)[:-9])
    first = sorted(files, key=lambda r: files[r][1])[0]
    older = publish(listing({first: files[first]}, 'changelist', change={first: 'updated'}))
    outside = publish(listing(files), 'deep/list.xml')
    if not local:
        outside = 'http://other.test/%s/list.xml' % name
        routes[outside] = Route(listing(files))
    for i in range(rng.choice([2, 3, 4, 5])):
        r = rng.random()
        if r < 0.2:
            rel = rng.choice(sorted(files))
            steps.append(('put', os.path.join(name, 'dst', rng.choice([rel, 'new%d' % i])), gen.content(rng), gen.ts(rng)))
        elif r < 0.35 and local:
            rel = rng.choice(sorted(files))
            steps.append(('put', os.path.join(name, 'src', rel), gen.content(rng), gen.ts(rng)))
        else:
            what = rng.choice(['baseline', 'baseline', 'baseline', 'audit', 'incremental'] if writes else ['audit'])
            if local and rng.random() < 0.3:
                changed = dict(files)
                for rel in rng.sample(sorted(files), 1):
                    changed[rel] = (gen.content(rng), int(gen.ts(rng)))
                    steps.append(('put', os.path.join(name, 'src', rel)) + changed[rel])
                steps.append(('put', rl, listing(changed), gen.BASE))
            steps.append((what, rng.choice([cl, cl, older]) if what == 'incremental' else rng.choice([rl, rl, bare, part, extra, extra, broken, outside, base + '/missing.xml']), rng.random() < 0.5,
                          '2000-01-01T00:00:00Z' if rng.random() < 0.6 or not writes else None))
        if rng.random() < 0.15 and writes:
            steps.append((rng.choice(['list', 'change', 'caps']), rl, i, None))
    timeout = rng.choice([None, None, 30, 45.5])
    asked = rng.choice([[], [], ['md5'], ['md5', 'sha-1'], ['sha-256', 'md5']])
    opts = {'noauth': rng.random() < 0.6, 'ignore_failures': rng.random() < 0.4, 'dryrun': rng.random() < 0.12, 'strictauth': rng.random() < 0.2}

    def start(reuse):
        from resync.client import Client
        from resync.client_state import ClientState

        def make():
            c = Client(hashes=list(asked), dryrun=opts['dryrun'])
            c.set_mappings(['%s=%s/dst' % (base, name)])
            if timeout:
                c.timeout = timeout
            for k in ('noauth', 'ignore_failures', 'strictauth'):
                setattr(c, k, opts[k])
            return c
        one = make() if reuse else None

        def use(what, a, b, x):
            if what == 'put':
                return put(a, b, x)
            c = one or make()
            captured.take()
            e = None
            try:
                if what in ('list', 'change', 'caps'):
                    out = '%s/out-%s%d.xml' % (name, what, b)
                    if what == 'list':
                        c.write_resource_list(outfile=out, links=[{'rel': 'up', 'href': 'http://x/'}])
                    elif what == 'change':
                        c.write_change_list(outfile=out, ref_sitemap=a, links=[])
                    else:
                        c.write_capability_list({'resourcelist': 'http://x/r', 'changelist': 'http://x/c'}, outfile=out)
                    p = xmlw.Parsed(open(out, 'rb').read())
                    os.unlink(out)
                    return [{k: v for k, v in p.md.items() if k not in ('at', 'completed')}, p.ln, [str(y) for y in p.entries]]
                c.sitemap_name = None if what == 'incremental' else a
                if what == 'incremental':
                    c.incremental(allow_deletion=b, change_list_uri=a, from_datetime=x)
                else:
                    c.baseline_or_audit(allow_deletion=b, audit_only=what == 'audit')
            except Exception as y:
                e = [type(y).__name__, str(y)]
            finally:
                c.sitemap_name = None
            tree = {k: (v[0], v[1] if v[1] < 1600000000 else 'now') for k, v in fsm.files(os.path.join(name, 'dst')).items()} if os.path.isdir(name + '/dst') else {}
            state = ClientState().get_state(c.sitemap) if writes else None
            return ['SYNC', e, plain(tree), state, plain(captured.take())]
        return [lambda a=a: use(*a) for a in steps]
    return start


def dump(rng, name, cwd, routes):
    grow(rng, os.path.join(cwd, name, 'a'), rng.choice([1, 3, 5]))
    limit = rng.choice([None, 1, 2])
    todo = [rng.random() < 0.5 for _ in range(rng.choice([1, 2, 3]))]

    def start(reuse):
        import zipfile
        from resync.dump import Dump
        from resync.mapper import Mapper
        from resync.resource_list_builder import ResourceListBuilder

        def use(i, compress):
            b = ResourceListBuilder(mapper=Mapper(['http://%s.test/a=%s/a' % (name, name)]), set_path=True)
            x = Dump(b.from_disk(), compress=compress)
            if limit:
                x.max_files = limit
            n = x.write('%s/dump%d-' % (name, i))
            out = []
            for f in sorted(os.listdir(name)):
                if f.startswith('dump%d-' % i):
                    if f.endswith('.zip'):
                        z = zipfile.ZipFile(os.path.join(name, f))
                        out.append([f, [(y.filename, z.read(y) if y.filename != 'manifest.xml' else xmlw.Parsed(z.read(y)).locs) for y in z.infolist()]])
                        z.close()
                    else:
                        out.append([f, xmlw.Parsed(open(os.path.join(name, f), 'rb').read()).locs])
                    os.unlink(os.path.join(name, f))
            return [n, out]
        return [lambda a=a: use(*a) for a in enumerate(todo)]
    return start


def small(rng, name, cwd, routes):
    fs = ['%s/f%d' % (name, i) for i in range(2)]
    for f in fs:
        put(os.path.join(cwd, f), b'one\n' * 9, gen.BASE)
    todo = []
    auth = rng.sample(['http://a.test/x/', 'http://a.test:8/', 'http://a.test/y/z', 'http://b.a.test/x/', 'http://a.test/'], 2)
    for _ in range(rng.choice([3, 6, 10, 14])):
        todo.append(rng.choice([
            ('hash', rng.choice(fs), rng.choice([['md5'], ['md5', 'sha-1'], ['sha-256']])), ('hash', fs[0], ['md5']), ('rewrite', fs[0], rng.choice([b'two\n', b'six\n']) * 9),
            ('auth', (rng.choice(auth), True), rng.choice(['http://a.test/x/y', 'http://b.a.test/x/'])), ('auth', (rng.choice(auth), True), 'http://a.test/y/z'), ('rewrite', rng.choice(fs), gen.content(rng) if rng.random() < 0.3 else rng.choice([b'two\n', b'six\n', b'ten\n']) * 9),
            ('time', rng.choice(['2013-01-01T00:00:00Z', '2013', '2013-02', '2013-02-30', '2013-01-01T10:00+05:00', 'x', '2013-01-01T00:00:00.5Z']), None),
            ('text', gen.ts(rng), None), ('auth', (rng.choice(auth), rng.random() < 0.7),
                                          rng.choice(['http://a.test/x/y', 'http://b.a.test/', 'http://a.test/', 'https://a.test/x/y', 'http://a.test/y/a', 'http://b.a.test/x/'])),
            ('map', ['http://%s.test/%s=%s' % (name, p, p) for p in rng.sample(['a', 'b', 'a/b', 'c'], 2)], 'http://%s.test/%s/z' % (name, rng.choice('abc'))),
            ('parsehash', rng.choice(['md5:a', 'md5:a sha-1:b', 'md5:a md5:b', 'what:x', 'md5']), None), ('compare', rng.randrange(1000), None), ('prune', rng.randrange(1000), None)]))

    def start(reuse):
        from resync.change_list import ChangeList
        from resync.hashes import Hashes
        from resync.mapper import Mapper
        from resync.resource import Resource
        from resync.resource_list import ResourceList
        from resync.url_authority import UrlAuthority
        from resync.w3c_datetime import datetime_to_str, str_to_datetime
        held = {}

        def use(what, a, b):
            if what == 'hash':
                h = Hashes(b, a)
                return [h.md5, h.sha1, h.sha256]
            if what == 'rewrite':
                return put(a, b, gen.BASE)      # the same date
            if what == 'time':
                return str_to_datetime(a)
            if what == 'text':
                return datetime_to_str(a)
            if what == 'auth':
                u = held.setdefault(a, UrlAuthority(*a)) if reuse else UrlAuthority(*a)
                return u.has_authority_over(b)
            if what == 'map':
                m = held.setdefault(tuple(a), Mapper(a)) if reuse else Mapper(a)
                return m.src_to_dst(b)
            if what == 'parsehash':
                r = Resource('http://x/')
                r.hash = a
                return [r.md5, r.sha1, r.hash]
            q = random.Random(a)
            if what == 'prune':
                c = ChangeList()
                for i in range(6):
                    c.add(Resource('http://x/%d' % q.randrange(3), change=q.choice(['created', 'updated', 'deleted']), ts_datetime=gen.BASE + i))
                return [c.prune_updates_before(gen.BASE + q.randrange(4)), c.prune_dupes(), whole(c)]
            ls = []
            for _ in range(2):
                l = ResourceList()
                for i in q.sample(range(6), 3):
                    l.add(Resource('http://x/%d' % i, timestamp=gen.BASE + q.choice([0, 0, 5]), length=q.choice([1, 1, 2])))
                ls.append(l)
            return [[x.uri for x in y] for y in ls[0].compare(ls[1])] + [whole(l) for l in ls]
        return [lambda a=a: use(*a) for a in todo]
    return start


def output(rng, name, cwd, routes):
    """Programs' work that prints."""
    grow(rng, os.path.join(cwd, name, 'a'), 2)
    put(os.path.join(cwd, name, 'd.xml'), some_doc(rng, 'ResourceList', name + '.test', 2), gen.BASE)
    todo = [rng.choice(['list', 'parse', 'caps', 'desc']) for _ in range(rng.choice([2, 3]))]
    verbose, shown = rng.random() < 0.5, rng.choice([None, 1])

    def start(reuse):
        from resync.client import Client

        def make():
            c = Client(verbose=verbose)
            c.max_sitemap_entries = shown
            c.set_mappings(['http://%s.test=%s/a' % (name, name)])
            return c
        one = make() if reuse else None

        def use(what):
            c = one or make()
            b = io.StringIO()
            with contextlib.redirect_stdout(b):
                if what == 'list':
                    c.write_resource_list()
                elif what == 'parse':
                    c.sitemap_name = name + '/d.xml'
                    try:
                        c.parse_document()
                    finally:
                        c.sitemap_name = None
                elif what == 'caps':
                    c.write_capability_list({'resourcelist': 'http://%s/' % name})
                else:
                    c.write_source_description(['http://%s/c' % name])
            t = b.getvalue()
            if t.startswith('<'):
                p = xmlw.Parsed(t)
                return [p.locs, p.ln, [str(e) for e in p.entries]]
            return t
        return [lambda a=a: use(a) for a in todo]
    return start


KINDS = {'parse': parse, 'read': read, 'write': write, 'scan': scan, 'client': clients, 'dump': dump, 'small': small, 'output': output}


# ---------------------------------------------------------------- cases

def process_state():
    gc.collect()
    mask = os.umask(0)
    os.umask(mask)
    return {'working directory': os.getcwd(), 'umask': mask, 'environment': sorted(os.environ.items()), 'time-out': socket.getdefaulttimeout(),
            'locale': locale.setlocale(locale.LC_ALL), 'threads': threading.active_count(), 'search path': list(sys.path),
            'open files': len(os.listdir('/proc/self/fd')), 'recursion limit': sys.getrecursionlimit(), 'handlers': len(logging.getLogger('resync').handlers),
            'standard streams': [id(sys.stdout), id(sys.stderr), id(sys.stdin)]}


def case(rng, ctx, i):
    cwd = ctx.dir('w')
    threaded = rng.random() < 0.3
    routes, lanes, kinds = {}, [], []
    for k in range(rng.choice([2, 3, 3, 4, 5])):
        kind = rng.choice(['client', 'client', 'client', 'parse', 'read', 'write', 'write', 'scan', 'dump', 'small', 'output'])
        if threaded and kind == 'output':
            kind = 'small'
        name = 'l%d' % k
        if kind == 'client':
            lanes.append(clients(rng, name, cwd, routes, writes=not (threaded and 'client' in kinds)))
        else:
            lanes.append(KINDS[kind](rng, name, cwd, routes))
        kinds.append(kind)
    ctx.server.set(routes)
    ctx.note(kinds=kinds, threaded=threaded)
    bak = ctx.dir('bak')
    os.rmdir(bak)
    shutil.copytree(cwd, bak, symlinks=True)
    order_seed = rng.random()
    want, reqs = [], []
    for lane in lanes:
        r = client.run(ctx, cwd, func=lambda: together(lambda: [apart(guarded(f)) for f in lane(False)]))
        ctx.check(r.outcome == 'ok', 'a lane could not be run', run=r.brief(), tb=r.tb)
        want.append(r.value)
        reqs += [q['uri'] for q in ctx.server.log()]
        ctx.server.set(routes)
    ends = tree(cwd)
    for n in os.listdir(cwd):
        p = os.path.join(cwd, n)
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    shutil.copytree(bak, cwd, symlinks=True, dirs_exist_ok=True)

    def all_lanes():
        os.umask(0o027)
        q = random.Random(order_seed)
        try:        # what the library of Python opens once
            import urllib.request
            urllib.request.urlopen(next(iter(routes), 'http://none.test/')).close()
        except Exception:
            pass
        before = process_state()
        uses = [[guarded(f) for f in lane(True)] for lane in lanes]
        got = [[None] * len(u) for u in uses]
        if threaded:
            sys.setswitchinterval(1e-5)
            go = threading.Barrier(len(uses))

            def run(k):
                go.wait()
                for j, f in enumerate(uses[k]):
                    got[k][j] = f()
            ts = [threading.Thread(target=run, args=(k,)) for k in range(len(uses))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            ts = t = run = None
        else:
            todo = [k for k, u in enumerate(uses) for _ in u]
            q.shuffle(todo)
            at = [0] * len(uses)
            for k in todo:
                got[k][at[k]] = uses[k][at[k]]()
                at[k] += 1
        uses = f = None
        after = process_state()
        return got, before, after
    start = len(ctx.server.log())
    r = client.run(ctx, cwd, func=lambda: together(all_lanes))
    ctx.check(r.outcome == 'ok', 'the lanes could not be run together', run=r.brief(), tb=r.tb)
    got, before, after = r.value
    for k, kind in enumerate(kinds):
        for j, (w, g) in enumerate(zip(want[k], got[k])):
            ctx.ev('uses')
            ctx.ev('errors', w[0] == 'error' or (w[0] == 'value' and isinstance(w[1], list) and w[1][:1] == ['SYNC'] and w[1][1] is not None))
            if kind == 'client' and w[0] == 'value' and isinstance(w[1], list) and w[1][:1] == ['SYNC']:
                ctx.ev('client_syncs')
            ctx.eq(g, w, 'use %d of lane %d (%s) %s' % (j, k, kind, 'at the same time as others' if threaded else 'after others'))
        ctx.ev('documents_written', kind == 'write')
        ctx.ev('scans', kind == 'scan')
        ctx.ev('reused_objects', len(got[k]) > 1)
    for what in before:
        if what not in ('threads',) or not threaded:
            ctx.eq(after[what], before[what], '%s of the process' % what)
    ctx.ev('process_state_compared')
    ctx.eq(tree(cwd), ends, 'files at the end')
    ctx.ev('threaded' if threaded else 'interleaved')
    now = [q['uri'] for q in ctx.server.log()]
    extra = next(iter(routes), 'http://none.test/')
    if extra in now:
        now.remove(extra)
    ctx.eq(sorted(now), sorted(reqs), 'requests')
    ctx.ev('downloads', len([u for u in reqs if '/s/' in u and not u.endswith('.xml')]))
    ctx.ev('split', any('-0.xml' in u for u in reqs) or any('-0.xml' in n or '00000.xml' in n for n in ends))
    ctx.sig(sorted(kinds), threaded)


def tree(cwd):
    """Names and plain files (documents carry the time at which they were made)."""
    out = {}
    for n, (b, m) in fsm.files(cwd).items():
        out[n] = (len(b) if n.endswith('.xml') else sorted(b.split(b'\n')) if n.endswith('.cfg') else b)
    return out
