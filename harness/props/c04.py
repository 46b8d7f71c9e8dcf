"""C04 No change is made on behalf of a source without authority."""
import os
import ssl
from urllib.parse import urlsplit

from .. import client, fsm, gen, sync, xmlw
from ..httpd import Route

ID = 'C04'
LEVEL = 'exploration'
CASES = {'quick': 2700, 'thorough': 18000}
RULE = ('one case = list location (default, explicit, found through a capability list; web or local) and 1-5 listed URIs drawn from '
        'hosts {same, sub-domain, suffix without dot, parent, unrelated}, both schemes and paths around the list directory, in '
        'baseline or incremental mode, lax, strict or unchecked, the list whole or in parts; or pairs of URIs given to the judging class; or an index '
        'whose reader was asked to check its parts; distinct = (mode, checking, how located, classes of URIs); '
        'non-trivial = the decision depends on authority (mode is not unchecked or a URI is outside)')
MIN = {'client_runs': 300, 'refused': 100, 'accepted': 100, 'unchecked': 40, 'only_in_sync_ones_outside': 6, 'listed_to_update_outside': 40,
       'lists_in_parts': 60, 'judged_with': 4000, 'judged_without': 4000, 'parts_accepted': 30, 'parts_refused': 10, 'dry_runs': 60}


def setup(ctx):
    sync.setup(ctx)
    os.environ['http_proxy'] = os.environ['https_proxy'] = ctx.server.proxy      # before urllib first looks
    ssl._create_default_https_context = ssl._create_unverified_context
    from resync.change_list import ChangeList
    from resync.list_base_with_index import ListBaseIndexError
    from resync.resource_list import ResourceList
    from resync.url_authority import UrlAuthority
    globals().update(locals())


def authority(master, uri, strict):
    m, u = urlsplit(master), urlsplit(uri)
    if m.scheme != u.scheme:
        return False
    if not (u.netloc == m.netloc or u.netloc.endswith('.' + m.netloc)):
        return False
    if strict:
        d = m.path[:m.path.rfind('/') + 1]
        return u.path.startswith(d)
    return True


def case(rng, ctx, i):
    x = rng.random()
    if x < 0.12:
        return local(rng, ctx)
    if x < 0.17:
        return judged(rng, ctx)
    if x < 0.24:
        return indexed(rng, ctx)
    cwd = ctx.dir('w')
    host = rng.choice(['example.org', 'example.org', 'a.example.org', 'h.test', 'www.example.org', 'data.site.ac.uk', 'static-1.lib.h.test',
                       'h.test:8080', 'data.example.org:80'])
    others = {'same': host, 'sub': 'sub.' + host, 'deep': 'x.y.' + host, 'suffix': 'not' + host, 'parent': host.split('.', 1)[1],
              'evil': host.split(':')[0] + '.evil.test', 'other': 'other.test', 'dash': 'x-' + host, 'prefixed': 'www' + host, 'sibling': 'z.' + host.split('.', 1)[1],
              'cousin': 'z.' + '.'.join(host.split('.')[-2:]),
              'port': host.split(':')[0] + ':8081', 'no port': host.split(':')[0], 'port of sub': 'sub.' + host.split(':')[0] + ':8081'}
    others = {k: h for n, (k, h) in enumerate(others.items()) if h not in list(others.values())[:n]}
    d = rng.choice(['', '/dir', '/dir/in', '/d.r'])
    own, alien = ('http', 'https') if rng.random() < 0.7 else ('https', 'http')
    http = own + '://'
    bases = [http + host + d] + ([http + host] if d else [])
    bases += [http + h for k, h in others.items() if k != 'same'] + [alien + '://' + host]
    maps = [(b, 'dst%d' % k) for k, b in enumerate(bases)]
    how = rng.choice(['default', 'default', 'explicit', 'found'])
    incremental = rng.random() < 0.5
    strict = rng.random() < 0.5
    noauth = rng.random() < 0.2
    loc = {'default': bases[0] + '/resourcelist.xml',
           'explicit': http + '%s%s/%s' % (rng.choice([host, host, others['sub'], others['other']]), rng.choice(['', '/dir', '/lists', '/dir/in']),
                                           rng.choice(['r.xml', 'l/list.xml'])),
           'found': http + '%s%s/rl.xml' % (rng.choice([host, others['sub'], others['other']]), rng.choice(['', '/dir', '/lists']))}[how]
    opts = []
    sitemap = bases[0] + '/resourcelist.xml'
    docs = {}
    if how == 'explicit':
        opts += ['--sitemap', loc]
        sitemap = loc
    elif how == 'found' and not incremental:
        cl = bases[0] + '/caps.xml'
        opts += ['--capabilitylist', cl]
        docs[cl] = xmlw.doc('capabilitylist', [{'loc': loc, 'md': {'capability': 'resourcelist'}}])
    explicit_cl = False
    if incremental:
        m = urlsplit(sitemap)
        cluri = bases[0] + '/changelist.xml'
        explicit_cl = rng.random() < 0.5
        if explicit_cl:
            cluri = http + '%s%s/c.xml' % (rng.choice([host, host, others['sub'], others['other']]), rng.choice(['', '/dir', '/dir/in', '/changes']))
            if rng.random() < 0.3:
                # named relative to the source
                name = rng.choice(['c.xml', 'dir/c.xml', 'in/ch/c.xml'])
                cluri = bases[0] + '/' + name
                opts += ['--changelist-uri', name]
                ctx.ev('change_list_named_relative')
            else:
                opts += ['--changelist-uri', cluri]
        masters = [cluri] + ([] if explicit_cl else [sitemap])
    else:
        masters = [loc]
    # listed URIs
    paths = ['/a', '/dir/b', '/dir/in/c', '/dirx/d', '/di', '/dir', '/dir/in/e/f', '/lists/g', '/lists/l/h', '/changes/x', '/d.r/z',
             '/dXr/y', '/listsx']
    mode = rng.choice(['inside', 'inside', 'one_out', 'any'])
    uris = []
    n = rng.randrange(1, 6)
    tries = 0
    while len(uris) < n and tries < 400:
        tries += 1
        scheme = alien if rng.random() < 0.08 else own
        k = 'same' if scheme == alien else rng.choice(['same', 'same', 'same'] + list(others))
        if rng.random() < 0.2:
            k = rng.choice(list(others))
        u = '%s://%s%s' % (scheme, others[k] if scheme == own else host, rng.choice(paths) + rng.choice(['', '', '1']))
        inside = any(authority(x, u, strict) for x in masters)
        if u in uris or any(u.startswith(x + '/') or x.startswith(u + '/') for x in uris) or u in bases:
            continue
        if mode == 'inside' and not inside:
            continue
        uris.append(u)
    if mode == 'inside' and not uris:
        uris = [masters[0][:masters[0].rfind('/') + 1] + 'file']
    outside = [u for u in uris if not any(authority(x, u, strict) for x in masters)]
    if mode == 'one_out' and outside:
        keep = rng.choice(outside)
        uris = [u for u in uris if u not in outside or u == keep]
        outside = [keep]
    entries = []
    data = {}
    t = gen.BASE
    for u in uris:
        t += 10
        data[u] = rng.randbytes(9)
        md = {'length': 9}
        if incremental:
            c = rng.choice(['created', 'updated', 'updated', 'deleted'])
            md = {'change': c, 'datetime': xmlw.when(t)}
        entries.append({'loc': u, 'lastmod': xmlw.when(t), 'md': md})
    start = gen.BASE - 5
    if incremental and rng.random() < 0.3:
        start = t - 5       # only the last entry counts, authority concerns all
    if incremental:
        opts += ['--from', xmlw.when(start)]
    cap, at, md = (('changelist', cluri, {'from': '2001-01-01T00:00:00Z'}) if incremental else ('resourcelist', loc, {'at': '2019-01-01T00:00:00Z'}))
    if rng.random() < 0.3:
        # in parts, which may lie anywhere: the location of the index counts
        where = rng.choice([at[:at.rfind('/') + 1], '%s%s/parts/' % (http, host), '%s%s/' % (http, others['sub']), '%s%s/' % (http, others['other'])])
        size = rng.choice([1, 2])
        parts = [('%spart%d.xml' % (where, k), entries[k:k + size]) for k in range(0, len(entries), size)]
        docs[at] = xmlw.doc(cap, [{'loc': u} for u, _ in parts], md=md, index=True)
        for u, es in parts:
            docs[u] = xmlw.doc(cap, es, md=md)
        ctx.ev('lists_in_parts', len(parts) > 1)
    else:
        docs[at] = xmlw.doc(cap, entries, md=md)
    routes = {u: Route(b) for u, b in docs.items()}
    routes.update({u: Route(b) for u, b in data.items()})
    ctx.server.set(routes)
    if rng.random() < 0.5:      # something that a deletion could hit
        for k in range(len(maps)):
            if rng.random() < 0.3 and (incremental or not any(u.startswith(maps[k][0] + '/') for u in uris)):
                p = os.path.join(cwd, 'dst%d' % k, 'loc.al')
                os.makedirs(os.path.dirname(p))
                open(p, 'wb').write(b'local')
    ready = []
    if not incremental and len(uris) > 1 and rng.random() < 0.6:
        # some are in sync already, the list has to be judged by them as well
        ready = [u for u in uris if rng.random() < (0.9 if u in outside else 0.4)]
        if len(ready) == len(uris):
            ready.remove(rng.choice([u for u in ready if u not in outside] or ready))
        for u in ready:
            b, p = next((b, p) for b, p in maps if u.startswith(b + '/'))
            f = os.path.join(cwd, p + u[len(b):])
            os.makedirs(os.path.dirname(f), exist_ok=True)
            open(f, 'wb').write(data[u])
            e = next(e for e in entries if e['loc'] == u)
            when = gen.BASE + 10 * (uris.index(u) + 1)
            assert e['lastmod'] == xmlw.when(when)
            os.utime(f, (when, when))
            ctx.ev('listed_in_sync_outside' if u in outside else 'listed_in_sync_inside')
        if outside and set(outside) <= set(ready):
            ctx.ev('only_in_sync_ones_outside')
    if not incremental and rng.random() < 0.4:
        # others are there and have to be updated
        odds = rng.choice([0.5, 1])
        for u in uris:
            if u not in ready and rng.random() < odds:
                b, p = next((b, p) for b, p in maps if u.startswith(b + '/'))
                f = os.path.join(cwd, p + u[len(b):])
                os.makedirs(os.path.dirname(f), exist_ok=True)
                open(f, 'wb').write(b'an old version')
                os.utime(f, (gen.BASE - 1000, gen.BASE - 1000))
                ctx.ev('listed_to_update_outside' if u in outside else 'listed_to_update_inside')
    argv = ['--incremental' if incremental else '--baseline'] + opts
    argv += rng.choice([[], ['--delete']]) + ['--ignore-failures', '--tries', '1']
    argv += (['--strictauth'] if strict else []) + (['--noauth'] if noauth else [])
    dry = rng.random() < 0.12        # is judged alike
    argv += ['--dryrun'] if dry else []
    argv += ['%s=%s' % m for m in maps]
    before = fsm.snapshot(cwd)
    ctx.note(argv=argv, uris=uris, outside=outside, location=masters)
    r = client.run(ctx, cwd, argv)
    log = ctx.server.log()
    ctx.ev('http_requests_seen', len(log))
    got = sorted({q['uri'] for q in log if q['uri'] in data})
    should = bool(outside) and not noauth
    kinds = sorted({('in' if u not in outside else 'out', urlsplit(u).scheme, urlsplit(u).netloc == host) for u in uris})
    ctx.sig(own, incremental, strict, noauth, how, explicit_cl, kinds, d)
    if should:
        ctx.ev('refused')
        ctx.check(r.failed, 'a list with URIs outside its authority was accepted', outside=outside, run=r.brief())
        ctx.eq(got, [], 'resources were downloaded from a list without authority', outside=outside)
        ctx.eq(fsm.diff(before, fsm.snapshot(cwd)), [], 'files changed for a list without authority', outside=outside)
        ctx.eq(r.effects(), [], 'file-system effects for a list without authority')
    else:
        ctx.ev('unchecked' if noauth else 'accepted')
        ctx.check(r.clean, 'a list within authority (or unchecked) was refused', run=r.brief(), tb=r.tb)
        if not incremental:
            want = sorted(u for u in uris if u not in ready)
        else:
            want = sorted(e['loc'] for e in entries if e['md']['change'] != 'deleted'
                          and entries.index(e) * 10 + 10 + gen.BASE >= start)
        ctx.eq(got, [] if dry else want, 'resources downloaded with authority')
    ctx.ev('dry_runs', dry)


def local(rng, ctx):
    """Local source with two directories, the list lies in the first."""
    cwd = ctx.dir('w')
    strict, noauth, incremental = rng.random() < 0.6, rng.random() < 0.2, rng.random() < 0.5
    entries, expect = [], {}
    names = [('s/one', 'd0', rng.random() < 0.7), ('s/onetwo', 'd1', rng.random() < 0.5), ('s/one/sub', None, True)]
    t = gen.BASE
    for src, dst, use in names:
        if not use:
            continue
        os.makedirs(os.path.join(cwd, src), exist_ok=True)
        p = src + '/f'
        open(os.path.join(cwd, p), 'wb').write(p.encode())
        t += 5
        md = {'change': 'created', 'datetime': xmlw.when(t)} if incremental else {}
        entries.append({'loc': p, 'lastmod': xmlw.when(t), 'md': md})
        expect[p] = ('d0/sub/f' if dst is None else dst + '/f')
    cap = 'changelist' if incremental else 'resourcelist'
    open(os.path.join(cwd, 's/one/%s.xml' % cap), 'wb').write(xmlw.doc(cap, entries, md={'at': '2019-01-01T00:00:00Z'}))
    argv = ['--incremental' if incremental else '--baseline'] + (['--from', xmlw.when(gen.BASE)] if incremental else [])
    argv += (['--strictauth'] if strict else []) + (['--noauth'] if noauth else []) + ['s/one=d0', 's/onetwo=d1']
    bad = strict and not noauth and any(p.startswith('s/onetwo/') for p in expect)
    ctx.note(argv=argv, entries=entries, refuse=bad)
    before = fsm.snapshot(cwd)
    r = client.run(ctx, cwd, argv)
    ctx.sig('local', strict, noauth, incremental, sorted(expect))
    if bad:
        ctx.ev('refused')
        ctx.check(r.failed, 'a local list with paths outside its directory was accepted in strict mode', run=r.brief())
        ctx.eq(fsm.diff(before, fsm.snapshot(cwd)), [], 'files changed for a list without authority')
    else:
        ctx.ev('unchecked' if noauth else 'accepted')
        ctx.check(r.clean, 'a local list within authority (or unchecked) was refused', run=r.brief(), tb=r.tb)
        got = {p: os.path.exists(os.path.join(cwd, d)) for p, d in expect.items()}
        ctx.eq(got, {p: True for p in expect}, 'files copied')


def judged(rng, ctx):
    """The judgement itself, as the library offers it, for many pairs of URIs."""
    auth = None
    for _ in range(60):
        host = rng.choice(['example.org', 'a.example.org', 'h.test', 'h.test:8080', 'data.site.ac.uk', 'localhost', '127.0.0.1', 'example.org.uk'])
        path = rng.choice(['', '/', '/l.xml', '/dir/l.xml', '/dir/', '/dir', '/d.r/l.xml', '/dir/in/l.xml', '/dir//l.xml', '/%7Eme/l.xml', '/dir/l.xml?x=/a/b', '/dir/l.xml#/a/b'])
        master = rng.choice(['http', 'https', 'ftp', 'file']) + '://' + host + path
        strict = rng.random() < 0.5
        if auth is None or auth.strict != strict or rng.random() < 0.5:
            auth = UrlAuthority(master, strict) if rng.random() < 0.7 else UrlAuthority(url=master, strict=strict)
        else:
            auth.set_master(master)
        for _ in range(8):
            h = rng.choice([host, host, 'sub.' + host, 'a.b.' + host, 'x' + host, 'x-' + host, host + '.evil.test', host + 'x', 'other.test', host.split('.', 1)[-1],
                            host.split(':')[0], host.split(':')[0] + ':81', '.' + host, 'www.' + host.split('.', 1)[-1]])
            p = rng.choice(['', '/', '/f', '/dir', '/dir/', '/dir/f', '/dirx/f', '/di/f', '/dir/in/f', '/dir/in/deep/f', '/in/f', '/d.r/f', '/dXr/f', '/dir//f', '/%7Eme/f',
                            '/~me/f', '/x/dir/f', '/f?/dir/f', '/dir/f?u=/x/y', '/dir#/x/y', '/DIR/f'])
            u = rng.choice([urlsplit(master).scheme] * 5 + ['http', 'https']) + '://' + h + p
            if master.startswith('file:') and rng.random() < 0.5:     # local and with a host
                u, m2 = rng.choice([(u, 'file://' + path), ('file://' + p, master), ('file://' + p, 'file://' + path)])
                if m2 != master:
                    master = m2
                    auth.set_master(master)
            want = authority(master, u, strict)
            if not strict or '//' not in urlsplit(u).path + urlsplit(master).path and urlsplit(u).path and urlsplit(master).path:
                ctx.check(bool(auth.has_authority_over(u)) == want, 'judgement of authority', master=master, uri=u, strict=strict, want=want)
                ctx.ev('judged_with' if want else 'judged_without')
    ctx.sig('judged')


def indexed(rng, ctx):
    """A reader of a list in parts, asked to check that the index has authority over its parts."""
    host = rng.choice(['example.org', 'a.example.org', 'h.test:8080'])
    index = 'http://%s%s/index.xml' % (host, rng.choice(['', '/dir']))
    hosts = [host, host, host, 'sub.' + host, 'not' + host, host + '.evil.test', host.split('.', 1)[1], 'other.test']
    out = rng.random() < 0.5
    parts = []
    while len(parts) < rng.randrange(1, 6):
        u = 'http://%s%s/p%d.xml' % (rng.choice(hosts), rng.choice(['', '/dir', '/x']), len(parts))
        if out or authority(index, u, False):
            parts.append(u)
    cls, cap = rng.choice([(ResourceList, 'resourcelist'), (ChangeList, 'changelist')])
    md = {'at': '2019-01-01T00:00:00Z'} if cap == 'resourcelist' else {'from': '2001-01-01T00:00:00Z'}
    routes, uris = {index: Route(xmlw.doc(cap, [{'loc': u} for u in parts], md=md, index=True))}, []
    for k, u in enumerate(parts):
        e = {'loc': 'http://elsewhere.test/r%d' % k, 'lastmod': '2018-01-01T00:00:00Z', 'md': {'change': 'updated'} if cap == 'changelist' else {}}
        uris.append(e['loc'])
        routes[u] = Route(xmlw.doc(cap, [e], md=md))
    ctx.server.set(routes)
    x = cls()
    check = rng.random() < 0.7
    if check or rng.random() < 0.5:
        x.check_url_authority = check
    bad = [u for u in parts if not authority(index, u, False)]
    ctx.note(index=index, parts=parts, check=check, type=cap)
    try:
        x.read(uri=index)
        err = None
    except ListBaseIndexError as e:
        err = str(e)
    got = [q['uri'] for q in ctx.server.log()]
    ctx.check((err is not None) == (check and bool(bad)), 'list in parts refused' if err else 'part without authority accepted', err=err, outside=bad)
    if err is None:
        ctx.eq(sorted(r.uri for r in x), sorted(uris), 'entries read')
        ctx.ev('parts_accepted', len(parts))
    else:
        ctx.check(not set(got) & set(bad), 'a part the index has no authority over was requested', got=got, outside=bad)
        ctx.ev('parts_refused')
    ctx.sig('indexed', cap, check, [u in bad for u in parts])
