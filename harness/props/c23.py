"""C23 The source's resource list is found in the documented order."""
import os, re
from urllib.parse import urljoin

from .. import client, fsm, gen, sync, xmlw
from ..httpd import Route

ID = 'C23'
LEVEL = 'exploration'
CASES = {'quick': 4500, 'thorough': 24000}
RULE = ('one case = a random state (absent, refused, error status, not XML, of another type, empty, without or with several of what is looked for, '
        'right; relative or absolute references, some crossing hosts or directories) of every document at every candidate place of a web or local '
        'source, with or without an explicitly named list, then a synchronization or audit; what was requested, in order, which list was used and '
        'whether the run ended with an error are compared with a model of the documented order; distinct = (kind, base, states on the path '
        'taken); non-trivial = more than one document was looked at')
MIN = {'client_runs': 1400, 'found': 500, 'error_ends': 300, 'explicit_list': 150, 'explicit_caps': 150, 'via_description': 100, 'well_known_skipped': 400,
       'host_description': 25, 'common_names': 150, 'relative_references': 200, 'local': 250, 'stopped_at_description': 40, 'stopped_at_caps': 40}
setup = sync.setup

BAD = ['absent', 'absent', 'absent', 500, 403, 'reset', 'close', 'badstatus', 'html', 'notxml', 'type', 'blank']


class World:
    """All documents: uri -> (state, what it leads to)."""

    def __init__(self, rng, ctx, s):
        self.rng, self.ctx, self.s = rng, ctx, s
        self.docs = {}      # uri -> bytes
        self.faults = {}    # uri -> fault
        self.lists = {}     # uri of a good resource list -> resource uri, None if it is empty
        self.state = {}     # uri -> ('bad'|'sd'|'cl'|'rl', targets)
        self.n = 0
        self.badness = rng.choice([0.2, 0.6, 1])

    def bad(self, uri, kind, how=None):
        how = how or self.rng.choice(BAD)
        self.state[uri] = ('bad', how)
        if how == 'absent':
            return
        if self.s.local and not isinstance(how, str) or how in ('reset', 'close', 'badstatus'):
            if self.s.local:
                return
            self.faults[uri] = how
            self.docs[uri] = b'<x/>'
        elif isinstance(how, int):
            self.faults[uri] = how
            self.docs[uri] = b'<x/>'
        elif how == 'html':
            self.docs[uri] = b'<html><head><title>Not here</title></head><body><p>oops<br></body></html>'
        elif how == 'notxml':
            self.docs[uri] = b'\x00\x01 not <xml'
        elif how == 'blank':
            self.docs[uri] = b''
        elif how == 'type':
            other = [k for k in ('description', 'capabilitylist', 'resourcelist', 'changelist', 'resourcedump') if k != kind]
            self.docs[uri] = xmlw.doc(self.rng.choice(other), [{'loc': self.s.maps[0][0] + '/wrong', 'md': {'change': 'created'}}])

    def place(self, uri, kind):
        """Puts a document of random state at uri (once)."""
        if uri in self.state:
            return
        rng = self.rng
        if rng.random() < {'description': 0.4, 'capabilitylist': 0.3, 'resourcelist': 0.35}[kind] * self.badness:
            return self.bad(uri, kind)
        getattr(self, kind)(uri)

    def ref(self, uri, name):
        """(absolute uri, text of a reference to it) for a document near or far from uri."""
        rng = self.rng
        root = self.s.maps[0][0]
        if self.s.local:
            base = root + '/' + rng.choice(['', 'docs/', 'x.y/'])
            target = base + name
            if rng.random() < 0.5 and uri.startswith(root + '/'):
                rel = os.path.relpath(target, os.path.dirname(uri)) if self.s.kind != 'file' else os.path.relpath(target[7:], os.path.dirname(uri[7:]))
                self.ctx.ev('relative_references')
                return target, rel
            if self.s.kind == 'rel':
                # a relative path is a reference relative to the document
                rel = os.path.relpath(target, os.path.dirname(uri) or '.')
                self.ctx.ev('relative_references')
                return target, rel
            return target, target
        hosts = [self.s.scheme + '://' + self.s.host, root, root, 'http://other.example.net']
        how = rng.choice(['abs', 'abs', 'rel', 'path', 'rel', 'up', 'net'])
        if how == 'abs':
            t = rng.choice(hosts) + '/' + rng.choice(['', 'docs/']) + name
            return t, t
        self.ctx.ev('relative_references')
        text = {'rel': name, 'path': '/p/' + name, 'up': '../' + name, 'net': '//other.example.net/' + name}[how]
        return urljoin(uri, text), text

    def description(self, uri):
        rng = self.rng
        n = rng.choice([0, 1, 1, 1, 1, 1, 1, 1, 1, 2, 3])
        es, targets = [], []
        for k in range(n):
            self.n += 1
            t, text = self.ref(uri, 'cl%d.xml' % self.n)
            targets.append(t)
            es.append({'loc': text, 'md': {'capability': 'capabilitylist'} if rng.random() < 0.9 else {}})
            self.place(t, 'capabilitylist')
        self.docs[uri] = xmlw.doc('description', es, pretty=rng.random() < 0.5)
        self.state[uri] = ('sd', targets)

    def capabilitylist(self, uri):
        rng = self.rng
        self.n += 1
        es = [{'loc': urljoin(uri, c + '%d.xml' % self.n), 'md': {'capability': c}} for c in
              gen.subset(rng, ['changelist', 'resourcedump', 'resourcelist-archive', 'changedump', 'somethingelse'], 0.4)]
        target = None
        if rng.random() < 0.75:
            t, text = self.ref(uri, rng.choice(['rl%d.xml', 'zz%d.xml', 'a%d.xml']) % self.n)
            target = t
            es.insert(rng.randrange(len(es) + 1), {'loc': text, 'md': {'capability': 'resourcelist'}})
            self.place(t, 'resourcelist')
        self.docs[uri] = xmlw.doc('capabilitylist', es, pretty=rng.random() < 0.5)
        self.state[uri] = ('cl', target)

    def resourcelist(self, uri):
        rng = self.rng
        self.n += 1
        r = self.s.maps[0][0] + '/r/%d' % self.n
        empty = rng.random() < 0.08
        self.docs[uri] = xmlw.doc(rng.choice(['resourcelist', 'resourcelist', None]), [] if empty else [{'loc': r, 'lastmod': '2015-01-01T00:00:00Z'}],
                                  md={'at': '2015-01-01T00:00:00Z'} if False else None)
        self.state[uri] = ('rl', None if empty else r)
        self.lists[uri] = None if empty else r


class End(Exception):
    """The search ends: resource of the list used, or None for an error."""


def search(w, base, host, explicit_list, explicit_caps):
    """(uris looked at, resource of the list used or None, route) from the statement of the property."""
    seen = []

    def look(u):
        seen.append(u)
        return w.state.get(u, ('bad', 'absent'))

    def as_list(u):
        kind, r = look(u)
        return r if kind == 'rl' else False     # None: empty

    def as_caps(u):
        kind, t = look(u)
        if kind != 'cl':
            return False
        if t is None:
            raise End('caps')
        return as_list(t)
    try:
        if explicit_list:
            return seen, as_list(explicit_list) or None, 'explicit_list'
        if explicit_caps:
            return seen, as_caps(explicit_caps) or None, 'explicit_caps'
        for u in (base + '/.well-known/resourcesync', host + '.well-known/resourcesync'):
            kind, t = look(u)
            if kind != 'sd':
                continue
            if len(t) != 1:
                raise End('description')
            r = as_caps(t[0])
            if r is not False:
                return seen, r, 'description' + ('' if u.startswith(base + '/') else ' at host')
        for u in (base + '/resourcelist.xml', base + '/sitemap.xml', host + 'sitemap.xml'):
            r = as_list(u)
            if r is not False:
                return seen, r, 'names'
        return seen, None, 'nothing'
    except End as e:
        return seen, None, 'stopped ' + str(e)


def case(rng, ctx, i):
    s = sync.Scn(ctx, rng, nmax=1, nmaps=1, nohash=True, local=rng.random() < 0.25)
    base = s.maps[0][0]
    host = '' if s.local else '%s://%s/' % (s.scheme, s.host)
    if s.kind == 'file':
        host = 'file:///'
    w = World(rng, ctx, s)
    mode = rng.choice(['good', 'any', 'any', 'few'])
    explicit_list = explicit_caps = None
    x = rng.random()
    if x < 0.14:
        explicit_list = base + '/my/list.xml' if rng.random() < 0.6 or s.local else 'http://far.example.com/list'
        w.place(explicit_list, 'resourcelist')
    elif x < 0.3:
        explicit_caps = base + '/my/caps.xml' if rng.random() < 0.6 or s.local else 'http://far.example.com/caps'
        w.place(explicit_caps, 'capabilitylist')
    p = {'good': 0.9, 'any': 0.5, 'few': 0.2}[mode]
    places = [(base + '/.well-known/resourcesync', 'description'), (host + '.well-known/resourcesync', 'description'),
              (base + '/resourcelist.xml', 'resourcelist'), (base + '/sitemap.xml', 'resourcelist'), (host + 'sitemap.xml', 'resourcelist')]
    for u, kind in places:
        if host == 'file:///' and not u.startswith(base):
            continue        # the real root directory: nothing can be put there
        if rng.random() < p:
            w.place(u, kind)
        else:
            w.state.setdefault(u, ('bad', 'absent'))
    seen, res, route = search(w, base, host, explicit_list, explicit_caps)
    # publish
    if s.local:
        ctx.ev('local')
        for u, b in w.docs.items():
            try:
                s._write(u, b)
            except (NotADirectoryError, IsADirectoryError):
                return
        for r in w.lists.values():
            if r:
                s._write(r, b'content of ' + r.encode())
    else:
        routes = {u: Route(b, {'Content-Type': 'application/xml'}, plan=[w.faults[u]] * 50 if u in w.faults else ()) for u, b in w.docs.items()}
        for r in w.lists.values():
            if r:
                routes[r] = Route(b'content of ' + r.encode())
        ctx.server.set(routes)
    audit = rng.random() < 0.3
    argv = ['--audit' if audit else '--baseline', '--noauth']
    if explicit_list:
        argv += ['--sitemap', explicit_list]
        if rng.random() < 0.3:     # the list goes first
            argv += ['--capabilitylist', base + '/my/caps2.xml']
    elif explicit_caps:
        argv += ['--capabilitylist', explicit_caps]
    argv += s.map_args(rng)
    ctx.note(argv=argv, states={u: v for u, v in w.state.items()}, expected=(seen, res, route), kind=s.kind)
    r = s.run(argv)
    got = s.dst_files()
    if res is None or audit:
        ctx.eq(got, {}, 'files at the destination although no list is to be used' if res is None else 'files after an audit')
    if res is None:
        ctx.ev('error_ends')
        ctx.check(r.failed, 'the run did not end with an error although no list can be used', run=r.brief())
    else:
        ctx.ev('found')
        ctx.check(not r.failed, 'the run failed although there is a list to use', run=r.brief())
        if audit:
            st = sync.status_lines(r)
            ctx.check(st and st[0][1].get('to create') == 1, 'audit does not report the listed resource', status=st)
        else:
            ctx.eq({os.path.relpath(p, s.dstdir(0)): v[0] for p, v in got.items()}, {res[len(base) + 1:]: b'content of ' + res.encode()},
                   'files downloaded')
    mine = set(w.lists.values())
    if not s.local:
        asked = [q['uri'] for q in s.requests if q['uri'] not in mine]
    else:
        back = {os.path.realpath(s.local_path(u)): u for u in w.docs}
        asked = [back[e[1]] for e in r.events if e[0] == 'read' and e[1] in back]
        seen = [u for u in seen if u in w.docs]
    once = lambda l: list(dict.fromkeys(l))
    ctx.eq(once(asked), once(seen), 'documents looked at, in order')
    for u in set(asked):
        ctx.check(asked.count(u) <= max(2, seen.count(u)), 'a document was read over and over', uri=u, asked=asked)
    if explicit_list or explicit_caps:
        ctx.ev('explicit_list' if explicit_list else 'explicit_caps')
    elif route.startswith('description'):
        ctx.ev('via_description')
        if 'host' in route:
            ctx.ev('host_description')
    elif route == 'names':
        ctx.ev('common_names')
    elif route == 'stopped description':
        ctx.ev('stopped_at_description')
    if route == 'stopped caps':
        ctx.ev('stopped_at_caps')
    if not explicit_list and not explicit_caps and route in ('names', 'nothing', 'description at host'):
        ctx.ev('well_known_skipped')
    if len(once(seen)) > 1:
        ctx.sig(s.kind, base.count('/'), route, [w.state.get(u, ('bad', 'absent'))[0] + (str(w.state[u][1]) if u in w.state and w.state[u][0] == 'bad' else '')
                                                  for u in seen])
