"""Synchronization situations: a source, mappings and a destination, with an independent model of what must happen."""
import os

from . import client, fsm, gen, xmlw
from . import core
from .core import Violation
from .httpd import Route, Server

HASHES = ['md5', 'sha-1', 'sha-256']


def setup(ctx):
    ctx.server = Server()


class Res:
    """A resource of the source."""

    def __init__(self, mi, rel, uri, data, ts, length, hashes):
        self.mi, self.rel, self.uri, self.data, self.ts, self.length, self.hashes = mi, rel, uri, data, ts, length, hashes

    def entry(self):
        md = {}
        h = gen.hash_attr(self.data, self.hashes)
        if h:
            md['hash'] = h
        if self.length:
            md['length'] = len(self.data)
        return {'loc': self.uri, 'lastmod': xmlw.when(self.ts), 'md': md}

    def brief(self):
        return {'uri': self.uri, 'size': len(self.data), 'ts': self.ts, 'length_listed': self.length, 'hashes': self.hashes}


class Scn:
    """A situation. Everything lives below ctx.casedir; cwd of the client is <casedir>/w."""

    def __init__(self, ctx, rng, local=None, nmax=10, nmaps=None, host=None, nohash=False, nmin=1, allow_none_ts=True, frac=True):
        self.ctx, self.rng = ctx, rng
        self.cwd = ctx.dir('w')
        self.local = rng.random() < 0.25 if local is None else local
        n = nmaps or rng.choice([1, 1, 1, 2, 3])
        host = host or rng.choice(gen.HOSTS)
        self.host = host
        self.maps = []
        kind = None
        if self.local:
            kind = rng.choice(['abs', 'rel', 'file'])
            self.kind = kind
            for k in range(n):
                d = 'src%d' % k if rng.random() < 0.5 or n > 1 else 'so.u+r(c)e'
                os.makedirs(os.path.join(self.cwd, d), exist_ok=True)
                base = {'abs': os.path.join(self.cwd, d), 'rel': d, 'file': 'file://' + os.path.join(self.cwd, d)}[kind]
                self.maps.append([base, None])
        else:
            self.kind = 'web'
            self.scheme = scheme = 'https' if rng.random() < 0.12 else 'http'
            bases = [scheme + '://%s' % host, scheme + '://%s/data' % host, scheme + '://%s/a/b.c' % host, scheme + '://%s/x+y' % host,
                     scheme + '://%s/~u/(z)' % host]
            if n > 1:
                bases = [scheme + '://%s/one' % host, scheme + '://%s/two' % host, scheme + '://%s/on' % host, scheme + '://sub.%s/s' % host,
                         scheme + '://%s/one.two' % host]
            for b in rng.sample(bases, n):
                self.maps.append([b, None])
        dsts = ['dst', 'd.s+t', 'copy/of/it', 'ds', 'dst2', 'out(1)']
        self.absdst = rng.random() < 0.4
        for m, d in zip(self.maps, rng.sample(dsts, n)):
            m[1] = os.path.join(self.cwd, d) if self.absdst else d
        self.slash = rng.random() < 0.2
        self.res = []
        self.extra = {}
        self.asked = []
        self.listname = None
        if not nohash and rng.random() < 0.4:
            self.asked = gen.subset(rng, HASHES, 0.5)
        listmode = rng.choice(['all', 'none', 'some', 'mixed'])
        types = gen.subset(rng, HASHES)
        special = self.kind in ('abs', 'rel')
        count = rng.randrange(nmin, nmax + 1)
        if nmax >= 10 and rng.random() < 0.012:
            count = rng.choice([60, 101, 130])
            ctx.ev('many_resources')
        for k in range(n):
            c = count // n + (1 if k < count % n else 0)
            for rel in gen.relpaths(rng, c, local=special):
                if self.kind == 'file' and any(ch in rel for ch in '%#?') or (self.local and k == 0 and rel in (
                        'resourcelist.xml', 'sitemap.xml', 'changelist.xml')):
                    continue
                t = gen.ts(rng, frac=frac)
                if allow_none_ts and rng.random() < 0.12:
                    t = None
                elif rng.random() < 0.06:
                    t = rng.choice(gen.ODD_TIMES)
                hs = {'all': HASHES, 'none': [], 'some': types, 'mixed': gen.subset(rng, HASHES)}[listmode]
                self.res.append(Res(k, rel, self.maps[k][0] + '/' + rel, gen.content(rng, True), t, rng.random() < 0.7, hs))
        if len(self.res) < nmin:
            self.res.append(Res(0, 'only', self.maps[0][0] + '/only', b'only', gen.ts(rng, frac=frac), True, []))
        rng.shuffle(self.res)

    # ------------------------------------------------------------ places
    def dstdir(self, k):
        return os.path.join(self.cwd, self.maps[k][1])

    def dstpath(self, r):
        return os.path.join(self.dstdir(r.mi), r.rel)

    def map_args(self, rng):
        s = '/' if self.slash else ''
        if len(self.maps) == 1 and rng.random() < 0.4:
            return [self.maps[0][0] + s, self.maps[0][1] + s]
        return ['%s%s=%s%s' % (b, s, d, s) for b, d in self.maps]

    # ------------------------------------------------------------ the source
    def list_docs(self, entries, capability='resourcelist', base=None, split=None, md=None):
        """Documents (uri -> bytes) of a list at base, as an index with parts if split."""
        rng = self.rng
        if split is None:
            split = rng.random() < 0.25
        md = dict(md or {'at': '2019-01-01T00:00:00Z'})
        pretty = rng.random() < 0.5
        ln = [{'rel': 'up', 'href': self.maps[0][0] + '/capabilitylist.xml'}] if rng.random() < 0.3 else []
        if not split or not entries:
            return {base: xmlw.doc(capability, entries, md=md, ln=ln, pretty=pretty)}
        docs = {}
        parts = []
        k, size = 0, rng.choice([1, 2, 3, max(1, len(entries) - 1)])
        stem = base[:-4] if base.endswith('.xml') else base
        while k < len(entries):
            u = '%s_%s%03d.xml' % (stem, rng.choice('zyxabc'), len(parts))
            docs[u] = xmlw.doc(capability, entries[k:k + size], md=md, ln=ln + [{'rel': 'index', 'href': base}], pretty=pretty)
            parts.append({'loc': u, 'lastmod': '2019-01-01T00:00:00Z'})
            k += size
        docs[base] = xmlw.doc(capability, parts, md=md, ln=ln, index=True, pretty=pretty)
        self.ctx.ev('split_lists')
        return docs

    def resource_list_uri(self):
        return self.maps[0][0] + '/' + (self.listname or 'resourcelist.xml')

    def publish(self, docs, res=None, extra_routes=None):
        """Makes documents and resource contents available to the client."""
        res = self.res if res is None else res
        if self.local:
            for u, b in docs.items():
                self._write(u, b)
            for r in res:
                self._write(r.uri, r.data)
        else:
            routes = {u: Route(b, {'Content-Type': 'application/xml'}) for u, b in docs.items()}
            for r in res:
                routes[r.uri] = Route(r.data)
            routes.update(extra_routes or {})
            self.routes = routes
            self.ctx.server.set(routes)
        self.docs = docs

    def local_path(self, uri):
        p = uri[7:] if uri.startswith('file://') else uri
        return os.path.join(self.cwd, p)

    def _write(self, uri, b):
        p = self.local_path(uri)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(b)

    # ------------------------------------------------------------ the destination
    def fill_destination(self, changes=True, extras=True):
        """Prior content of the destination derived from the source by edits."""
        rng = self.rng
        mode = rng.choice(['empty', 'mixed', 'mixed', 'mixed', 'mostly_same', 'mostly_same', 'same'])
        for r in self.res:
            t = r.ts if r.ts is not None else gen.ts(rng)
            if mode == 'empty':
                continue
            what = 'same'
            if mode == 'mixed' or (mode == 'mostly_same' and rng.random() < 0.2):
                what = rng.choice(['missing', 'same', 'older', 'newer', 'second', 'nearly', 'len', 'content', 'future', 'both'])
            data = r.data
            if what == 'missing':
                continue
            if what == 'older':
                t -= rng.choice([1, 2, 3600, 86400, 1000000])
            elif what == 'newer':
                t += rng.choice([1, 2, 3600, 86400])
            elif what == 'future':
                t += 1500000000
            elif what == 'second':
                t += rng.choice([-1, 1])
            elif what == 'nearly':
                t += rng.choice([-0.75, -0.5, 0.5, 0.75, 0.25])
            elif what == 'len':
                data = data + b'x' if rng.random() < 0.5 or not data else data[:-1]
            elif what == 'content':
                data = bytes(x ^ 1 for x in data[:1]) + data[1:]
            elif what == 'both':
                data = rng.randbytes(len(data) + 3)
                t += 77
            if t < 0:
                t = -t
            self.put(self.dstpath(r), data, t)
        if extras and mode != 'same' and rng.random() < 0.6:
            for k in range(len(self.maps)):
                for rel in gen.relpaths(rng, rng.randrange(0, 4), local=True):
                    self.add_extra(k, rel)
        if rng.random() < 0.15:
            os.makedirs(os.path.join(self.dstdir(0), 'empty', 'dir'), exist_ok=True)
        return mode

    def add_extra(self, k, rel):
        p = os.path.join(self.dstdir(k), rel)
        segs = rel.split('/')
        mine = [r.rel.split('/') for r in self.res if r.mi == k]
        for m in mine:      # no path may be a file and a directory
            if m[:len(segs)] == segs or segs[:len(m)] == m:
                return
        if os.path.lexists(p) or any(os.path.isfile(os.path.join(self.dstdir(k), *segs[:j])) for j in range(1, len(segs))):
            return
        self.put(p, gen.content(self.rng), gen.ts(self.rng, hi=40000000) + self.rng.choice([0, 0, 1500000000]))
        self.extra[p] = (k, rel)

    def put(self, p, data, t):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)
        os.utime(p, (t, t))

    # ------------------------------------------------------------ model of the comparison
    def dst_files(self):
        """abs path -> (bytes, mtime) for all mapped destinations."""
        out = {}
        for k in range(len(self.maps)):
            d = self.dstdir(k)
            for rel, v in fsm.files(d).items():
                out[os.path.join(d, rel)] = v
        return out

    def compare(self, res=None):
        """(same, created, updated) resources and (deleted) paths, from the statement of the property."""
        res = self.res if res is None else res
        have = self.dst_files()
        same, created, updated = [], [], []
        for r in res:
            p = self.dstpath(r)
            if p not in have:
                created.append(r)
                continue
            data, mtime = have[p]
            differ = r.ts is None or abs(mtime - r.ts) >= 1.0
            if r.length and len(data) != len(r.data):
                differ = True
            for t in self.asked:
                if t in r.hashes and gen.digests(data, [t]) != gen.digests(r.data, [t]):
                    differ = True
            (updated if differ else same).append(r)
        listed = {self.dstpath(r) for r in res}
        deleted = sorted(p for p in have if p not in listed)
        return same, created, updated, deleted

    # ------------------------------------------------------------ running
    def argv(self, mode, delete=False, extra=()):
        a = ['--' + mode] + (['--delete'] if delete else [])
        for h in self.asked:
            a += ['--checksum'] if h == 'md5' and self.rng.random() < 0.3 else ['--hash', h]
        return a + list(extra) + self.map_args(self.rng)

    def run(self, argv, **kw):
        if self.ctx.server and not self.local:
            self.ctx.server.clear()
        r = client.run(self.ctx, self.cwd, argv, **kw)
        self.requests = self.ctx.server.log() if self.ctx.server and not self.local else []
        self.ctx.ev('http_requests_seen', len(self.requests))
        self.last = r
        return r

    def run_twice(self, argv, argv2):
        """Two runs in one process by one and the same client object; requests and events of the second only are kept."""
        def f():
            import runpy, sys, urllib.request, resync.client as m
            real, box = m.Client, []

            def make(*a, **k):
                if not box:
                    box.append(real(*a, **k))
                return box[0]
            m.Client = make
            for j, a in enumerate((argv, argv2)):
                sys.argv = ['resync-sync'] + list(a)
                runpy.run_path(os.path.join(core.REPO, 'resync-sync'), run_name='__main__')
                if j == 0:
                    try:
                        open('MARKER')
                    except OSError:
                        pass
                    if not self.local:
                        try:
                            urllib.request.urlopen('%s://%s/MARKER' % (self.scheme, self.host))
                        except OSError:
                            pass
        r = self.run(None, func=f)
        k = max([-1] + [j for j, e in enumerate(r.events) if e[0] == 'read' and e[1].endswith('/MARKER')])
        r.events = r.events[k + 1:]
        k = max([-1] + [j for j, q in enumerate(self.requests) if q['uri'].endswith('/MARKER')])
        self.requests = self.requests[k + 1:]
        return r

    def downloads(self):
        """URIs of resources requested (web) or opened (local) in the last run, with repetition."""
        if self.local:
            paths = {os.path.realpath(self.local_path(r.uri)): r.uri for r in self.res}
            return [paths[e[1]] for e in self.last.events if e[0] == 'read' and e[1] in paths]
        mine = {r.uri for r in self.res}
        return [q['uri'] for q in self.requests if q['uri'] in mine]

    def outside(self):
        """Snapshot of everything in the case directory but the mapped destinations (and run output)."""
        dirs = [os.path.relpath(self.dstdir(k), self.ctx.casedir) for k in range(len(self.maps))]
        s = fsm.snapshot(self.ctx.casedir, skip=('.stdout', '.stderr'))
        return {k: v for k, v in s.items() if not any(k == d or k.startswith(d + '/') or d.startswith(k + '/') for d in dirs)}

    def brief(self):
        return {'maps': self.maps, 'kind': self.kind, 'asked': self.asked, 'resources': [r.brief() for r in self.res],
                'extra': sorted(os.path.relpath(p, self.cwd) for p in self.extra)}


def status_lines(run):
    """All status lines shown, as (words, {name: number})."""
    import re
    out = []
    for line in run.err.splitlines():
        m = re.match(r'Status:\s+([A-Z ]+?)\s*\((.*)\)\s*$', line)
        if m:
            nums = {}
            for part in m.group(2).split(', '):
                k, _, v = part.rpartition('=')
                nums[k] = int(v)
            out.append((m.group(1), nums))
    return out


def need_clean(run, what, **kw):
    if run.failed:
        raise Violation('%s failed although nothing is wrong with source or destination' % what, run=run.brief(), tb=run.tb, **kw)


class Inc:
    """A change list for a situation, and the model of what an incremental synchronization must do."""

    def __init__(self, s, nmax=14, spec=None, consistent=None, listmods=True):
        rng = s.rng
        self.s = s
        self.spec = spec or rng.choice(['1.1', '1.1', '1.1', '1.0'])
        self.style = 'lastmod' if self.spec == '1.0' else rng.choice(['both', 'both', 'datetime', 'some', 'lastmod'])
        consistent = rng.random() < 0.7 if consistent is None else consistent
        n = rng.randrange(0 if nmax > 3 else 1, nmax + 1)
        t = gen.BASE + rng.randrange(0, 1000)
        exists = {r.uri: rng.random() < 0.5 for r in s.res}
        self.initial = dict(exists)
        self.changes = []
        focus = rng.sample(s.res, min(len(s.res), rng.choice([1, 2, 3, 20])))
        fine = self.style == 'datetime' and rng.random() < 0.4      # times of changes to the microsecond
        if fine:
            s.ctx.ev('fine_change_times')
        for _ in range(n):
            t = round(t + rng.choice([0, 0.001, 0.004, 0.000001, 0.123456, 1.000001, 60]), 6) if fine else t + rng.choice([0, 0, 0.25, 0.5, 1, 2, 60, 86400])
            r = rng.choice(focus)
            if consistent:
                c = rng.choice(['updated', 'deleted']) if exists[r.uri] else 'created'
            else:
                c = rng.choice(['created', 'updated', 'deleted'])
            exists[r.uri] = c != 'deleted'
            lm = t if rng.random() < 0.5 else t - rng.choice([0.25, 1, 100])
            dt = t
            if self.style == 'lastmod':
                lm, dt = t, None
            elif self.style == 'datetime' or (self.style == 'some' and rng.random() < 0.5):
                lm = None
            if lm is not None and dt is not None and rng.random() < 0.08:
                lm = rng.choice([0, 0, 0] + [x for x in gen.ODD_TIMES if x <= t])
                s.ctx.ev('odd_change_times')
            self.changes.append((r, c, dt, lm))
        last = {}
        for r, c, dt, lm in self.changes:
            last[r.uri] = c
        # the source serves what exists at the end
        self.present = [r for r in s.res if (last.get(r.uri, 'created' if self.initial[r.uri] else 'deleted') != 'deleted')]
        self.last_time = t

    def entries(self, full=True):
        out = []
        rng = self.s.rng
        for r, c, dt, lm in self.changes:
            md = {'change': c}
            if dt is not None:
                md['datetime'] = xmlw.when(dt)
            if c != 'deleted':
                md.update({k: v for k, v in r.entry()['md'].items()})
            out.append({'loc': r.uri, 'lastmod': xmlw.when(lm), 'md': md})
        return out

    def times(self):
        return [dt if dt is not None else lm for _, _, dt, lm in self.changes]

    def start(self):
        """An interesting start time."""
        rng = self.s.rng
        ts = self.times()
        if not ts:
            return gen.BASE + 5
        return round(rng.choice([min(ts) - 10, min(ts), max(ts), max(ts) + 0.25, rng.choice(ts), rng.choice(ts), rng.choice(ts) + 0.25]), 6)

    def model(self, start):
        """[(resource, change, lastmod)] to apply in terms of effects, from the statement of the property."""
        first, last = {}, {}
        for (r, c, dt, lm), t in zip(self.changes, self.times()):
            if t >= start:
                first.setdefault(r.uri, c)
                last[r.uri] = (r, c, lm)
        out = []
        for uri, (r, c, lm) in last.items():
            if first[uri] == 'created' and c == 'deleted':
                if os.path.isfile(self.s.dstpath(r)):
                    out.append((r, 'deleted', lm))
            else:
                out.append((r, c, lm))
        return out

    def fill_destination(self):
        rng, s = self.s.rng, self.s
        for r in s.res:
            x = rng.choice(['missing', 'old', 'old', 'current'])
            if x != 'missing':
                s.put(s.dstpath(r), r.data if x == 'current' else b'old' + rng.randbytes(5), gen.ts(rng))
        for k in range(len(s.maps)):
            for rel in gen.relpaths(rng, rng.randrange(0, 3), local=True):
                s.add_extra(k, rel)

    def publish(self, uri=None, split=None, extra_routes=None, with_list=None):
        s = self.s
        self.uri = uri or s.maps[0][0] + '/changelist.xml'
        docs = s.list_docs(self.entries(), 'changelist', base=self.uri, split=split, md={'from': '2011-01-01T00:00:00Z'})
        if with_list if with_list is not None else s.rng.random() < 0.5:
            docs.update(s.list_docs([r.entry() for r in self.present], base=s.resource_list_uri()))
        s.publish(docs, self.present, extra_routes)


def set_state(s, ts, site=None):
    """Stores the start time with the library's own state class, as an earlier synchronization would have."""
    site = site or s.resource_list_uri()

    def f():
        from resync.client_state import ClientState
        ClientState().set_state(site, ts)
    r = client.run(s.ctx, s.cwd, func=f)
    if r.outcome != 'ok':
        raise Violation('storing state failed', run=r.brief(), tb=r.tb)


def get_state(s, site=None):
    site = site or s.resource_list_uri()

    def f():
        from resync.client_state import ClientState
        return ClientState().get_state(site)
    r = client.run(s.ctx, s.cwd, func=f)
    if r.outcome != 'ok':
        raise Violation('reading state failed', run=r.brief(), tb=r.tb)
    return r.value


STATE = 'w/.resync-client-status.cfg'


def own_state(path):
    """Whether path is the client's state file (or the new version of it being written next to it)."""
    return os.path.basename(path).startswith('.resync-client-status') and os.path.basename(os.path.dirname(path)) == 'w'


def drop_state(snap):
    return {k: v for k, v in snap.items() if not k.startswith(STATE)}
