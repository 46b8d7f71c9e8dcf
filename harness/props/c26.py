"""C26 The explorer offers and checks exactly what the source says."""
import email.utils, os, re

from .. import client, fsm, gen, xmlw
from ..httpd import Route, Server

ID = 'C26'
LEVEL = 'exploration'
CASES = {'quick': 3900, 'thorough': 22000}
RULE = ('one case = one session of the explorer (the program or its class) with a random sequence of choices, steps back and mistyped inputs over a '
        'random web of documents (every kind, index or not, with lettered links, absolute and relative references, entries of right, wrong and no '
        'type, 0 to 30 entries) and resources that agree or disagree with what is announced, any of them missing, broken or on a failing server, on '
        'the web or on local disk; the transcript and the sequence of requests are compared with a navigation model; distinct = (start, kinds of '
        'documents seen, inputs); non-trivial = at least two places visited')
MIN = {'sessions': 1100, 'places': 2700, 'documents': 2000, 'heads': 400, 'choices': 1400, 'steps_back': 500, 'mistyped': 400, 'lettered': 500,
       'relative': 3000, 'cut_at_20': 200, 'exactly_21': 200, 'unexpected_documents': 200, 'unexpected_entries': 1000, 'unreadable': 200,
       'agreeing': 90, 'disagreeing': 250, 'local': 100, 'index_documents': 250, 'next_start': 30, 'own_uri_followed': 30}
CAPS = ['description', 'capabilitylist', 'resourcelist', 'changelist', 'resourcedump', 'changedump', 'resourcelist-archive', 'resourcedump-archive',
        'changelist-archive', 'changedump-archive']
LISTS = ['resourcelist', 'changelist', 'resourcedump', 'changedump']
INDEXED = ['description'] + LISTS
KNOWN = CAPS + [c + 'index' for c in INDEXED]


TYPES = ['text/html; charset=utf-8', 'application/xml-dtd', 'application/xml', 'text/htm', 'application/pdf;x=1', 'image/svg+xml', 'text/html;charset="iso-8859-1"']

def setup(ctx):
    ctx.server = Server()


def allowed(kind):
    """Types of the entries of a document of this type."""
    if kind.endswith('index'):
        return [kind[:-5]]
    if kind.endswith('-archive'):
        return [kind[:-8]]
    if kind == 'description':
        return ['capabilitylist']
    if kind == 'capabilitylist':
        return LISTS + [c + '-archive' for c in LISTS]
    return []


def resolve(base, ref):
    """Reference resolution after RFC 3986 section 5.2 (paths of local files resolve alike)."""
    m = re.match(r'(?:([^:/?#]+):)?(?://([^/?#]*))?([^?#]*)(?:\?([^#]*))?(?:#(.*))?', ref, re.S)
    b = re.match(r'(?:([^:/?#]+):)?(?://([^/?#]*))?([^?#]*)(?:\?([^#]*))?(?:#(.*))?', base, re.S)
    s, a, p, q, f = m.groups()
    if s is not None:
        return ref
    bs, ba, bp, bq, bf = b.groups()
    if a is None:
        a = ba
        if not p:
            p = bp
            q = bq if q is None else q
        else:
            if not p.startswith('/'):
                p = (('/' if ba is not None and not bp else bp[:bp.rfind('/') + 1]) + p)
            lead = p.startswith('/')
            out = []
            segs = p.split('/')
            for k, x in enumerate(segs):
                if x == '.' or x == '..':
                    if x == '..' and len(out) > (1 if lead else 0):
                        out.pop()
                    if k == len(segs) - 1:
                        out.append('')
                else:
                    out.append(x)
            p = '/'.join(out)
    return ('%s:' % bs if bs else '') + ('//' + a if a is not None else '') + p + ('?' + q if q is not None else '') + ('#' + f if f is not None else '')


class Item:
    """What is at a URI."""
    kind = None         # type of the document, None: not a document
    fault = None
    body = b''
    headers = {}
    entries = ()
    links = ()


class World:
    def __init__(self, rng, ctx, cwd, local):
        self.rng, self.ctx, self.cwd, self.local = rng, ctx, cwd, local
        self.items = {}
        self.n = 0
        if local:
            self.base = rng.choice(['site', cwd + '/site', 'file://' + cwd + '/site', 'sp ace/a%41b'])
        else:
            self.hosts = rng.sample(gen.HOSTS, 2)

    def new(self, what):
        """A URI not used so far."""
        rng = self.rng
        self.n += 1
        name = '%s%d%s' % (what, self.n, rng.choice(['.xml', '', '.xml', '.x.xml', '+(1).xml'] + ([] if self.local else ['?a=b&c=d', ';v=1', '%20.xml', '~'])))
        d = rng.choice(['', '', 'a/', 'a/b/', 'c.d/'])
        if self.local:
            return self.base + '/' + d + name
        return 'http://%s/%s%s' % (rng.choice(self.hosts), d, name)

    def ref(self, base, what):
        """(reference as written, full URI) of a new or known place."""
        rng = self.rng
        for _ in range(20):
            if rng.random() < 0.05 and not re.search('[?#]', base):
                self.ctx.ev('own_uri_mentioned')
                if not self.local and rng.random() < 0.5:
                    return base.rsplit('/', 1)[1], base
                if re.match('/|file:', base) or not self.local:
                    return base, base
                return os.path.basename(base), base
            if self.items and rng.random() < 0.25:
                full = rng.choice(sorted(self.items))
            else:
                full = self.new(what)
            if self.local and not re.match('/|file:', full):        # such names are relative to the document
                r = os.path.relpath(full, os.path.dirname(base))
                return rng.choice([r, r, './' + r]), full
            if rng.random() < 0.7:
                return full, full
            # relative forms
            if rng.random() < 0.5:
                d = base.split('?')[0].rsplit('/', 1)[0]
                if full.startswith(d + '/') and ':' not in full[len(d) + 1:].split('/')[0]:
                    r = full[len(d) + 1:]
                    return rng.choice([r, './' + r]), full
            if not self.local and full.split('/')[2] == base.split('/')[2]:
                r = full.split('/', 3)[3]
                return rng.choice(['/' + r, '//' + full.split('//', 1)[1], '/./' + r, '/x/../' + r]), full
            r = rng.choice(['%s%d', './%s%d', '../%s%d', 'e/%s%d', '../e/./%s%d'] + ([] if self.local else ['?%s=%d', '%s%d?x=/y'])) % (what, self.n)
            self.n += 1
            if base.startswith('file:') or r.startswith('..') and self.local and base.count('/') < 3:
                continue
            return r, resolve(base, r)
        return full, full

    def get(self, uri, caps):
        """The item at a URI, made when it is visited first."""
        key = uri.split('#')[0]
        it = self.items.get(key)
        if it is None:
            it = self.items[key] = self.make(key, caps)
        return it

    def make(self, uri, caps):
        rng, it = self.rng, Item()
        x = rng.random()
        if x < (0.1 if self.n > 1 else 0.02):
            it.fault = 404
            if not self.local:
                it.fault = rng.choice([404, 404, 410, 500, 503, 403, 'reset', 'close', 'badstatus', 'redirect'])
            return it
        if caps == 'resource':
            it.body = b'resource ' + rng.randbytes(rng.choice([0, 3, 50]))
            it.headers = self.announced(it)
            return it
        if x < 0.17 and self.n > 1:
            it.body = rng.choice([b'', b'not xml', b'<html><body/></html>', b'<urlset', b'<?xml version="1.0"?><urlset xmlns="http://w/"/>',
                                  xmlw.doc('resourcelist', [{'loc': 'http://h/a', 'lastmod': 'yesterday'}]), b'\x00\xff\xfe', b'PK\x03\x04',
                                  xmlw.doc('resourcelist', [{'loc': ''}]), xmlw.doc('changelist', [{'loc': 'http://h/a', 'md': {'change': 'odd'}}]),
                                  xmlw.doc('changelist', [{'loc': 'http://h/', 'lastmod': '2013-13-01'}]), b'<!DOCTYPE x [<!ENTITY a "b">]><urlset>&a;</urlset>'])
            it.fault = 'bad'
            return it
        kind = rng.choice(KNOWN)
        if caps and rng.random() < 0.85:
            kind = rng.choice([c for c in caps if c in KNOWN] or KNOWN)
        it.kind = kind
        idx = kind.endswith('index')
        cap = kind[:-5] if idx else kind
        n = rng.choice([0, 1, 1, 2, 2, 3, 5, 8, 20, 21, 21, 22, 30])
        es = []
        for _ in range(n):
            what = allowed(kind)
            c = None
            if what and rng.random() < 0.75:
                c = rng.choice(what)
            if rng.random() < 0.12:
                c = rng.choice(CAPS)
            written, full = self.ref(uri, {'capabilitylist': 'cl', None: 'r'}.get(c, 'd'))
            e = {'loc': written, 'md': {}, 'full': full, 'cap': c}
            if c:
                e['md']['capability'] = c
            if kind in LISTS:
                if rng.random() < 0.7:
                    e['md']['length'] = rng.choice([9, 12, 59, 59, 0, 5, 1, 590])
                if rng.random() < 0.5:
                    e['md']['type'] = rng.choice(['text/html', 'application/pdf'] + TYPES)
                if kind in ('changelist', ) and rng.random() < 0.9:
                    e['md']['change'] = rng.choice(['created', 'updated'])
            if rng.random() < 0.6:
                e['ts'] = rng.choice([gen.BASE, gen.BASE, gen.BASE + 0.5, gen.ts(rng)])
                e['lastmod'] = xmlw.when(e['ts'])
            es.append(e)
        it.entries = es
        links = []
        for rel, p in (('describedby', 0.35), ('up', 0.5), ('index', 0.3 if not idx and kind in INDEXED else 0), ('other', 0.15)):
            while rng.random() < p:
                written, full = self.ref(uri, 'r' if rel == 'describedby' else 'd')
                links.append({'rel': rel, 'href': written, 'full': full})
                p /= 4
        rng.shuffle(links)
        it.links = links
        it.body = xmlw.doc(cap, [{k: e[k] for k in ('loc', 'lastmod', 'md') if k in e} for e in es], index=idx, pretty=rng.random() < 0.5,
                           ln=[{'rel': l['rel'], 'href': l['href']} for l in links], md={'from': '2011-01-01T00:00:00Z'} if rng.random() < 0.3 else None)
        it.headers = self.announced(it)
        return it

    def announced(self, it):
        rng = self.rng
        h = {}
        if rng.random() < 0.7:
            it.mtime = gen.BASE + rng.choice([0, 0, 0, 1, -1, 3600, 100000])
        else:
            it.mtime = gen.BASE - 7777
        if rng.random() < 0.8 or self.local:
            h['Last-Modified'] = email.utils.formatdate(it.mtime, usegmt=True)
        if rng.random() < 0.3:
            h['ETag'] = '"abc%d"' % rng.randrange(9)
        h['Content-Type'] = rng.choice(['text/html', 'application/pdf', 'application/xml'] + TYPES)
        return h

    def path(self, uri):
        u = uri[7:] if uri.startswith('file://') else uri
        return os.path.join(self.cwd, u)

    def publish(self, starts=()):
        routes = {}
        for u, it in self.items.items():
            if self.local:
                if it.fault not in (None, 'bad'):
                    if u not in starts and self.rng.random() < 0.3:     # (no file either)
                        os.makedirs(self.path(u), exist_ok=True)
                        self.ctx.ev('directories')
                    continue
                p = self.path(u)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as f:
                    f.write(it.body)
                if hasattr(it, 'mtime'):
                    os.utime(p, (it.mtime, it.mtime))
            elif it.fault in (None, 'bad'):
                routes[u] = Route(it.body, it.headers)
            else:
                f = ('redirect', u) if it.fault == 'redirect' else it.fault
                routes[u] = Route(b'x', plan=[f] * 60)
        self.ctx.server.set(routes)


class Place:
    """One place of the session: where the user is, and what must be shown there."""

    def __init__(self, world, uri, caps, checks, back):
        self.uri, self.caps, self.checks, self.back = uri, caps, checks, back
        self.item = it = world.get(uri, caps)
        self.head = caps == 'resource'
        self.options = {}
        self.inputs = []
        if self.head or it.kind is None:
            return
        kind = it.kind
        self.numbered = []
        n = len(it.entries)
        self.shown = n if n <= 21 else 20
        for k, e in enumerate(it.entries[:self.shown]):
            checks = {}
            if 'length' in e['md']:
                checks['content-length'] = e['md']['length']
            if 'ts' in e:
                checks['last-modified'] = e['ts']
            if 'type' in e['md']:
                checks['content-type'] = e['md']['type']
            if e['cap'] is not None:
                caps = [e['cap']]
            elif kind in LISTS:
                caps = 'resource'
            else:
                caps = allowed(kind)
            self.options[str(k + 1)] = (e['full'], caps, checks)
        self.letters = {}
        for rel, letter, caps in (('describedby', 'd', 'resource'), ('up', 'u', ['description' if kind == 'capabilitylist' else 'capabilitylist']),
                                  ('index', 'i', [kind + 'index'])):
            ls = [l for l in it.links if l['rel'] == rel]
            if ls:
                self.letters[letter] = (rel, ls[0])
                self.options[letter] = (ls[0]['full'], caps, {})


def session(rng, ctx, world, starts):
    """Walks at random through the model: [Place in order of visiting], inputs."""
    places, inputs = [], []
    left = rng.choice([2, 4, 8, 12])
    for s, (uri, caps) in enumerate(starts):
        if s:
            ctx.ev('next_start')
        stack = [(uri, caps, {})]
        while stack:
            uri, caps, checks = stack.pop()
            p = Place(world, uri, caps, checks, len(stack) > 0)
            places.append(p)
            left -= 1
            while rng.random() < 0.2:
                bad = rng.choice(['0', '00', '01', '21', '22', '31', '99', 'B', 'Q', ' 1', '1 ', 'quit', '', '-1', 'd', 'u', 'i', 'x', '½', 'None'])
                if bad not in p.options:
                    p.inputs.append(bad)
                    ctx.ev('mistyped')
            if left <= 0 or rng.random() < 0.04:
                p.inputs.append('q')
                return places
            if p.options and rng.random() < 0.78:
                letters = [k for k in p.options if k in 'dui']
                c = rng.choice(letters) if letters and rng.random() < 0.3 else rng.choice(sorted(p.options))
                own = [k for k in p.options if p.options[k][0] == uri]
                if own and rng.random() < 0.5:
                    c = rng.choice(own)
                    ctx.ev('own_uri_followed')
                ctx.ev('choices')
                if c in 'dui':
                    ctx.ev('lettered')
                p.inputs.append(c)
                stack.append((uri, caps, checks))
                stack.append(p.options[c])
            else:
                p.inputs.append('b')
                ctx.ev('steps_back')
    return places


def case(rng, ctx, i):
    cwd = ctx.dir('w')
    local = rng.random() < 0.17
    if local:
        ctx.ev('local')
    world = World(rng, ctx, cwd, local)
    how = rng.choice(['sitemap', 'sitemap', 'sitemap', 'sitemap', 'map', 'map'])
    maps = None
    if how == 'sitemap':
        start = world.new('start')
        if local and re.match(r'sp ace', start):
            start = start.replace('+(1)', '')
        starts = [(start, None)]
    elif not local:
        host = rng.choice(world.hosts)
        well = 'http://%s/.well-known/resourcesync' % host
        base = rng.choice(['http://%s' % host, 'http://%s/' % host, 'http://%s/a/b' % host, world.new('start').split('?')[0].split(';')[0]])
        maps = [rng.choice([base, base, base + '=copy'])]
        expected = ['description', 'descriptionindex']
        if base.rstrip('/').count('/') == 2:
            starts = [(well, expected)]
        else:
            if base.count('/') > 2 and not base.startswith('http://' + host + '/'):
                well = 'http://%s/.well-known/resourcesync' % base.split('/')[2]
            starts = [(base, None), (well, expected)]
    else:
        world.base = world.base[7:] if world.base.startswith('file://') else world.base
        if rng.random() < 0.5:
            names = [n for n in ['resourcesync', 'capabilities.xml', 'resourcelist.xml', 'changelist.xml'] if rng.random() < 0.6]
            starts = [(world.base + '/' + n, None) for n in names]
            maps = [world.base + '=copy']
            os.makedirs(os.path.join(cwd, world.base), exist_ok=True)
        else:
            start = world.new('start')
            starts = [(start, None)]
            maps = [start + '=copy']
    if how != 'sitemap' and local and len(starts) != 1 or (how != 'sitemap' and local and maps[0].startswith(world.base + '=')):
        for u, c in starts:        # these files must exist to be found
            it = world.get(u, c)
            if it.fault not in (None, 'bad'):
                it.fault = 'bad'
                it.body = b'broken'
    places = session(rng, ctx, world, starts) if starts else []
    world.publish({u for u, c in starts})
    if starts and local and how != 'sitemap' and not os.path.exists(world.path(starts[0][0])):
        os.makedirs(os.path.join(cwd, 'x'), exist_ok=True)
    inputs = [x for p in places for x in p.inputs]
    stdin = '\n'.join(inputs + ['q', 'q', 'q']).encode('utf-8') + b'\n'
    ctx.note(starts=starts, maps=maps, inputs=inputs, visited=[[p.uri, p.item.kind or p.item.fault] for p in places])
    ctx.ev('sessions')
    before = fsm.files(cwd)
    if how == 'sitemap':
        argv = ['--sitemap', starts[0][0]]
        if rng.random() < 0.1:
            argv += ['--noauth']
        r = client.run(ctx, cwd, argv, script='resync-explorer', stdin=stdin)
    else:
        def f():
            from resync.explorer import Explorer
            e = Explorer()
            e.set_mappings(maps)
            e.explore()
        r = client.run(ctx, cwd, func=f, stdin=stdin)
    if not starts:
        ctx.check('No likely capability files' in r.exc, 'no message although there is nothing to start from', run=r.brief())
        return
    ctx.check(r.clean, 'the session ended with something else than a message', run=r.brief(), tb=r.tb)
    ctx.eq(fsm.files(cwd), before, 'files changed by exploring')
    # the transcript by places
    chunks = re.split(r'^Reading ', r.out, flags=re.M)[1:]
    ctx.eq([c.split('\n', 1)[0] for c in chunks], [p.uri for p in places], 'places visited', transcript=r.out[-3000:])
    for p, c in zip(places, chunks):
        ctx.ev('places')
        judge(ctx, p, c, local)
    if not local:
        reqs = [(q['method'], q['uri']) for q in ctx.server.log()]
        want = []
        for p in places:
            k = 11 if p.item.fault == 'redirect' else 1
            want += [('HEAD' if p.head else 'GET', p.uri.split('#')[0])] * k
        # the limit of repeated redirects is that of urllib
        # (which asks again with GET)
        redirected = lambda u: world.items[u].fault == 'redirect' if u in world.items else False
        squash = lambda l: [x for j, x in enumerate(l) if not (j and l[j - 1][1] == x[1] and redirected(x[1]))]
        ctx.eq(squash(reqs), squash(want), 'requests made')
    if len(places) > 1:
        ctx.sig(how, local, [(p.item.kind, p.item.fault, p.head) for p in places], inputs)


def judge(ctx, p, text, local):
    it = p.item
    lines = text.split('\n')
    prompts = re.findall(r'Follow \[(.*?)q\(uit\)\]\?', text)
    ctx.eq(len(prompts), len(p.inputs), 'prompts shown', transcript=text)
    want = ('number, ' if p.options else '') + ('b(ack), ' if p.back else '')
    ctx.eq(set(prompts), {want}, 'prompt', transcript=text)
    if it.kind is None and not p.head or it.fault is not None:
        gone = local and p.head and not p.uri.startswith('file:')
        if it.fault == 'bad' and p.head:
            gone = True
        elif gone:
            ctx.check('status: 404' in text, 'missing file not reported', transcript=text)
        if not gone:
            ctx.ev('unreadable')
            ctx.eq(len([l for l in lines if re.match(r'Cannot (read|parse) ', l) and p.uri in l]), 1, 'message about what cannot be read', transcript=text)
        if it.fault != 'bad' or not p.head:
            ctx.check('Parsed' not in text and 'status: 200' not in text, 'success reported for what cannot be read', transcript=text)
            return
    ctx.check(not re.search(r'^Cannot ', text, re.M), 'failure reported for what can be read', transcript=text)
    if p.head:
        return heads(ctx, p, text, lines, local)
    ctx.ev('documents')
    kind = it.kind
    if kind.endswith('index'):
        ctx.ev('index_documents')
    m = [l for l in lines if l.startswith('Parsed ')]
    ctx.eq(m, ['Parsed %s document with %d entries:' % (kind, len(it.entries))], 'type and size of the document', transcript=text)
    wrong = p.caps is not None and kind not in p.caps
    warned = [sorted(re.split(r'[\s,]+', l[20:].strip())) for l in lines if l.startswith('WARNING - expected a ')]
    ctx.eq(warned, [sorted(p.caps + ['document'])] if wrong else [], 'warning about the type of the document', transcript=text)
    ctx.check('unknown' not in text.split('\n[')[0], 'a known type is called unknown', transcript=text)
    if wrong:
        ctx.ev('unexpected_documents')
    # choices
    shown = []
    for l in lines:
        m = re.match(r'\[(\w+)\] (.*)$', l)
        if m:
            shown.append([m.group(1), m.group(2), []])
        elif shown and l.startswith('  '):
            shown[-1][2].append(l.strip())
    letters = [(k, v, extra) for k, v, extra in shown if not k.isdigit()]
    numbers = [(k, v, extra) for k, v, extra in shown if k.isdigit()]
    ctx.eq(sorted(k for k, v, e in letters), sorted(p.letters), 'lettered choices', transcript=text)
    for k, v, extra in letters:
        rel, l = p.letters[k]
        ctx.check(rel in v and v.endswith(' ' + l['href']), 'text of a lettered choice', transcript=text)
        expanded(ctx, l['href'], l['full'], extra, text)
    n = len(it.entries)
    ctx.eq([(k, v) for k, v, e in numbers], [(str(j + 1), e['loc']) for j, e in enumerate(it.entries[:p.shown])], 'numbered choices', transcript=text)
    rest = re.findall(r'not showing remaining (\d+) entries', text)
    ctx.eq(rest, [str(n - 20)] if n > 21 else [], 'number of entries not shown', transcript=text)
    ctx.ev('cut_at_20', n > 21)
    ctx.ev('exactly_21', n == 21)
    ok = allowed(kind)
    for (k, v, extra), e in zip(numbers, it.entries):
        expanded(ctx, e['loc'], e['full'], extra, text)
        flag = [x for x in extra if 'EXPECTED' in x]
        if e['cap'] is not None and e['cap'] not in ok:
            ctx.ev('unexpected_entries')
            ctx.eq(len(flag), 1, 'flag of an entry of unexpected type', entry=e, transcript=text)
            ctx.check(all(x in flag[0] for x in ok) and e['cap'] in flag[0], 'types named in the flag', entry=e, flag=flag)
        else:
            ctx.eq(flag, [], 'flag of an entry of expected type', entry=e)
            if e['cap'] is not None:
                ctx.check(e['cap'] in extra, 'type of an entry', entry=e, shown=extra)
            elif len(ok) == 1:
                ctx.check(any(x.endswith('should be ' + ok[0]) for x in extra), 'type an entry should have', entry=e, shown=extra)


def expanded(ctx, written, full, extra, text):
    got = [x.rsplit(' ', 1)[1] if ' ' not in full else x.split(' to ', 1)[1] for x in extra if x.startswith('WARNING - expanded')]
    ctx.eq(got, [full] if full != written else [], 'notice of a resolved reference', transcript=text)
    if full != written:
        ctx.ev('relative')


def heads(ctx, p, text, lines, local):
    it = p.item
    ctx.ev('heads')
    ctx.check('  status: 200' in lines, 'status of the resource', transcript=text)
    ctx.check(not re.search(r'^(Parsed|\[\w+\]) ', text, re.M), 'a resource shown as a document', transcript=text)
    real = {'content-length': str(len(it.body))}
    if local:
        real['last-modified'] = it.mtime if hasattr(it, 'mtime') else None
    else:
        real['content-type'] = it.headers.get('Content-Type', 'application/octet-stream')
        if 'Last-Modified' in it.headers:
            real['last-modified'] = it.mtime
        if 'ETag' in it.headers:
            real['etag'] = it.headers['ETag']
    shown = {}
    for l in lines:
        m = re.match(r'  ([\w-]+): (.*)$', l)
        if m and m.group(1) != 'status':
            ctx.check(m.group(1) not in shown, 'header shown twice', transcript=text)
            shown[m.group(1)] = m.group(2)
    for k in real:
        ctx.check(k in shown, 'a header of the answer is not shown', header=k, transcript=text)
    for k, v in shown.items():
        if k not in real:
            ctx.check(local and k == 'content-type', 'header that the answer does not have', header=k, transcript=text)
            continue
        m = re.match(r'(.*?)( MATCHES EXPECTED VALUE| EXPECTED (.*))?$', v)
        value, verdict = m.group(1), m.group(2)
        if k != 'last-modified':
            ctx.eq(value, real[k], 'value of header ' + k, transcript=text)
        want = p.checks.get(k)
        if want is None:
            ctx.check(verdict is None, 'judgement about what was not announced', header=k, transcript=text)
            continue
        if real[k] is None:
            continue
        same = abs(real[k] - want) < 1 if k == 'last-modified' else real[k] == str(want)
        if k == 'content-type' and not same and real[k].split(';')[0] == want.split(';')[0]:
            continue        # different parameters: either judgement is right
        ctx.ev('agreeing' if same else 'disagreeing')
        ctx.check(verdict is not None, 'no judgement about what was announced', header=k, transcript=text)
        ctx.eq('MATCHES' in verdict, same, 'judgement about header ' + k, transcript=text, announced=want)
        if not same:
            w, g = want, m.group(3)
            if k == 'last-modified':
                w = round(want * 1e6)
                g = xmlw.parse_when(g)
            ctx.eq(str(g), str(w), 'value announced for header ' + k, transcript=text)
