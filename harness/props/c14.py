"""C14 Hostile XML cannot expand entities or reach other resources."""
import os

from .. import client, docs, fsm, gen, xmlw
from ..httpd import Route, Server

ID = 'C14'
LEVEL = 'exploration'
CASES = {'quick': 2700, 'thorough': 12000}
CPU = 20
RULE = ('one case = a random valid document of one of twelve types (or a part of a split list) given a hostile prologue (one of 22 kinds: '
        'internal, nested, exponential, parameter, external, unparsed, redeclared or unused entities, external subsets, attribute defaults, '
        'processing instructions, in four encodings), read through one of the library\'s reading calls or one of the programs in a child whose '
        'file and network accesses are recorded; distinct = (kind, encoding, way of reading, type); non-trivial = always')
MIN = {'client_runs': 500, 'refused': 450, 'canaries_watched': 500, 'by_program': 250, 'parts': 60, 'harmless_read': 40}
CANARY = 'http://canary.test/'
MARK = 'EXPANDED'


def setup(ctx):
    ctx.server = Server()
    for c in docs.CLASSES:
        docs.cls(c)


# ------------------------------------------------------------------ prologues
# kind -> (declares entities, uses a reference that decides how the document reads)
def prologue(kind, root, secret):
    """(text of the doctype, reference to put into the document or None)"""
    f = 'file://' + secret
    dt = lambda sub='', ext='': '<!DOCTYPE %s %s%s>' % (root, ext, '[%s]' % sub if sub else '')
    e = {
        'internal': (dt('<!ENTITY e "%s">' % MARK), '&e;'),
        'unused': (dt('<!ENTITY e "%s">' % MARK), None),
        'empty': (dt('<!ENTITY e "">'), '&e;'),
        'nested': (dt('<!ENTITY a "%s"><!ENTITY e "&a;&a;">' % MARK), '&e;'),
        'laughs': (dt('<!ENTITY l0 "%s">' % MARK + ''.join('<!ENTITY l%d "%s">' % (k, ('&l%d;' % (k - 1)) * 10) for k in range(1, 10))
                      + '<!ENTITY e "&l9;">'), '&e;'),
        'quadratic': (dt('<!ENTITY e "%s">' % (MARK * 8000)), '&e;' * 200),
        'recursive': (dt('<!ENTITY a "&e;"><!ENTITY e "&a;">'), '&e;'),
        'file': (dt('<!ENTITY e SYSTEM "%s">' % f), '&e;'),
        'path': (dt('<!ENTITY e SYSTEM "%s">' % secret), '&e;'),
        'http': (dt('<!ENTITY e SYSTEM "%sentity">' % CANARY), '&e;'),
        'public': (dt('<!ENTITY e PUBLIC "-//X//Y" "%sentity">' % CANARY), '&e;'),
        'param': (dt('<!ENTITY %% p "<!ENTITY e \'%s\'>"> %%p;' % MARK), '&e;'),
        'paramfile': (dt('<!ENTITY %% p SYSTEM "%s"> %%p;' % f), None),
        'paramhttp': (dt('<!ENTITY %% p SYSTEM "%sdtd"> %%p;' % CANARY), None),
        'unparsed': (dt('<!NOTATION n SYSTEM "%sn"><!ENTITY e SYSTEM "%s" NDATA n>' % (CANARY, f)), None),
        'charref': (dt('<!ENTITY e "&#69;&#88;PANDED">'), '&e;'),
        'both': (dt('<!ENTITY e "%s">' % MARK, 'SYSTEM "%sdtd" ' % CANARY), '&e;'),
    }
    h = {       # nothing but the five entities of XML itself is declared
        'redeclared': (dt('<!ENTITY amp "&#38;#38;"><!ENTITY lt "&#38;#60;">'), None),
        'subset': (dt('', 'SYSTEM "%sdtd"' % CANARY), None),
        'subsetfile': (dt('', 'PUBLIC "-//X//Y" "%s"' % f), None),
        'elements': (dt('<!ELEMENT %s ANY><!-- c -->' % root), None),
        'pi': ('<?xml-stylesheet type="text/xsl" href="%sxsl"?><?include %s?>' % (CANARY, f), None),
    }
    if kind in e:
        return e[kind] + (True,)
    return h[kind] + (False,)


KINDS = ['internal', 'unused', 'empty', 'nested', 'laughs', 'quadratic', 'recursive', 'file', 'path', 'http', 'public', 'param', 'paramfile',
         'paramhttp', 'unparsed', 'redeclared', 'charref', 'both', 'subset', 'subsetfile', 'elements', 'pi']


def hostile(rng, data, kind, secret, index):
    """The document with the prologue, and a reference at a random place if the prologue comes with one."""
    text = data.decode('utf-8')
    decl, text = text.split('\n', 1) if text.startswith('<?xml') else ('', text)
    pro, ref, declares = prologue(kind, 'sitemapindex' if index else 'urlset', secret)
    place = None
    if ref is not None:
        places = [p for p in ('</loc>', '</lastmod>', 'capability="', 'href="', 'change="', 'hash="', 'length="') if p in text]
        place = rng.choice(places + ['</loc>', '/urlset', '/sitemapindex']) if rng.random() < 0.9 else None
        if place in ('/urlset', '/sitemapindex') or (place and place not in text):
            place = '</sitemapindex>' if index else '</urlset>'
        if place and place in text:
            k = rng.choice([j for j in range(len(text)) if text.startswith(place, j)])
            if place.endswith('="'):
                k += len(place)
            text = text[:k] + ref + text[k:]
    if kind == 'pi' and rng.random() < 0.5:
        text = text.replace('xmlns:rs=', 'xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:schemaLocation="%s %sxsd" xmlns:rs='
                            % (xmlw.SM, CANARY), 1)
        text = text.replace('</url>', '<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="%sinc"/></url>' % CANARY, 1)
    if rng.random() < 0.15:
        pro = '<!-- c -->\n' + pro
    enc = rng.choice(['utf-8', 'utf-8', 'utf-8', 'utf-16', 'utf-8-sig', 'none'])
    if enc == 'none':
        return (pro + text).encode('utf-8'), enc, place, declares
    return (decl.replace('UTF-8', 'utf-16' if enc == 'utf-16' else 'UTF-8') + '\n' + pro + text).encode(enc), enc, place, declares


def case(rng, ctx, i):
    cwd = ctx.dir('w')
    secret = os.path.join(cwd, 'secret.txt')
    with open(secret, 'w') as f:
        f.write(rng.choice(['SECRETMARK', '<!ENTITY e "SECRETMARK">']))
    kind = rng.choice(KINDS)
    (api if rng.random() < 0.5 else program)(rng, ctx, cwd, secret, kind)


def watch(ctx, r, secret, declares, data, base):
    """What no reading may do, whatever the outcome."""
    ctx.ev('canaries_watched')
    bad = [q['uri'] for q in ctx.server.log() if 'canary' in q['uri']]
    ctx.eq(bad, [], 'something named in the XML prologue was requested', run=r.brief())
    ctx.check(secret not in r.allreads, 'a file named in the XML prologue was read', run=r.brief())
    ctx.eq([e for e in r.events if e[0] == 'resolve' and 'canary' in e[1]], [], 'host named in the XML prologue was looked up')
    ctx.eq([e for e in r.events if e[0] == 'connect' and str(ctx.server.port) not in e[1]], [], 'connection to another host')
    shown = r.out + r.err + r.exc + repr(r.value) + repr([m for _, _, m in r.logs])
    ctx.check(MARK not in shown and 'SECRETMARK' not in shown, 'content of an entity came through', shown=shown[:3000])


# ------------------------------------------------------------------ the library
def api(rng, ctx, cwd, secret, kind):
    name = rng.choice(list(docs.CLASSES))
    cap, how = docs.CLASSES[name][1], None
    n = rng.randrange(1, 5)
    entries = []
    for k in range(n):
        md = {}
        if docs.needs_change(name):
            md['change'] = 'updated'
            md['datetime'] = '2013-01-01T00:00:00Z'
        if name in ('CapabilityList', 'SourceDescription'):
            md['capability'] = 'resourcelist' if name == 'CapabilityList' else 'capabilitylist'
        entries.append({'loc': 'http://example.org/r%d' % k, 'lastmod': '2013-01-0%dT00:00:00Z' % (k + 1), 'md': md,
                        'ln': [{'rel': 'describedby', 'href': 'http://example.org/d'}] if rng.random() < 0.3 else []})
    ln = [{'rel': 'up', 'href': 'http://example.org/up'}] if rng.random() < 0.4 else []
    from resync.list_base_with_index import ListBaseWithIndex
    multi = issubclass(docs.cls(name), ListBaseWithIndex)
    split = multi and rng.random() < 0.3
    index = split and rng.random() < 0.4
    if index:
        parts = [{'loc': 'http://example.org/part%d.xml' % k} for k in range(n)]
        plain = xmlw.doc(cap, parts, ln=ln, index=True)
    else:
        plain = xmlw.doc(cap, entries, ln=ln)
    data, enc, place, declares = hostile(rng, plain, kind, secret, index)
    web = rng.random() < 0.4
    path = os.path.join(cwd, 'doc.xml')
    uri = 'http://example.org/doc.xml'
    routes = {}
    if split and not index:
        ctx.ev('parts')
        with open(os.path.join(cwd, 'part.xml'), 'wb') as f:
            f.write(data)
        good = xmlw.doc(cap, entries[:0])
        routes['http://example.org/part.xml'] = Route(data)
        routes['http://example.org/good.xml'] = Route(good)
        loc = (lambda x: 'http://example.org/' + x) if web else (lambda x: os.path.join(cwd, x))
        with open(os.path.join(cwd, 'good.xml'), 'wb') as f:
            f.write(good)
        top = xmlw.doc(cap, [{'loc': loc('good.xml')}, {'loc': loc('part.xml')}], index=True)
        how = 'read'
    else:
        top = data
        how = rng.choice(['uri', 'fh', 'read', 'sitemap', 'text']) if not index else rng.choice(['read', 'index_only'])
    with open(path, 'wb') as f:
        f.write(top)
    routes[uri] = Route(top)
    routes.update({CANARY + x: Route(b'<!ENTITY e "SECRETMARK">') for x in ('entity', 'dtd', 'n', 'xsl', 'xsd', 'inc')})
    for k in range(n):
        routes.setdefault('http://example.org/part%d.xml' % k, Route(xmlw.doc(cap, entries[k:k + 1])))
    ctx.server.set(routes)
    where = uri if web else path
    if how == 'text' and (enc in ('utf-16', 'utf-8-sig')):
        how = 'fh'

    def f():
        from resync.mapper import Mapper
        from resync.sitemap import Sitemap
        if how == 'sitemap':
            obj = Sitemap().parse_xml(fh=open(path, 'rb'))
        else:
            obj = docs.cls(name)()
            if hasattr(obj, 'allow_multifile'):
                obj.mapper = Mapper(['http://example.org=' + cwd])
            if how == 'uri':
                obj.parse(uri=where)
            elif how == 'fh':
                obj.parse(fh=open(path, 'rb'))
            elif how == 'text':
                obj.parse(str_data=data.decode('utf-8'))
            elif how == 'index_only':
                obj.read(uri=where, index_only=True)
            else:
                obj.read(uri=where)
        return [docs.view(r) for r in obj], [dict(l) for l in obj.ln]
    ctx.note(how=how, cls=name, kind=kind, encoding=enc, place=place, web=web, split=split, doc=data[:1500].decode('utf-8', 'replace'))
    ctx.sig('api', kind, enc, how, name, web, split)
    before = fsm.snapshot(cwd)
    r = client.run(ctx, cwd, func=f, cpu=CPU)
    watch(ctx, r, secret, declares, data, plain)
    if declares:
        ctx.check(r.outcome == 'exc', 'document that declares entities was accepted', value=r.value, run=r.brief())
        ctx.check(not r.exc.startswith(('MemoryError', 'RecursionError', 'SystemError', 'KeyboardInterrupt')), 'refusal is not an ordinary error',
                  run=r.brief())
        ctx.ev('refused')
    elif r.outcome == 'ok':
        # harmless after all: then it must read as the document without the prologue
        want = [('http://example.org/part%d.xml' if how == 'index_only' else 'http://example.org/r%d') % k for k in range(n)]
        ctx.eq([e['uri'] for e in r.value[0]], want, 'document is read differently because of its prologue')
        ctx.ev('harmless_read')
    ctx.eq(fsm.diff(before, fsm.snapshot(cwd)), [], 'files changed by reading a document')


# ------------------------------------------------------------------ the programs
def program(rng, ctx, cwd, secret, kind):
    ctx.ev('by_program')
    B = 'http://example.org'
    prog = rng.choice(['baseline', 'baseline', 'audit', 'incremental', 'parse', 'explore', 'follow', 'reference', 'newreference'])
    n = rng.randrange(1, 4)
    change = prog == 'incremental'
    cap = 'changelist' if change else 'resourcelist'
    entries = [{'loc': B + '/victim%d' % k, 'lastmod': '2013-01-0%dT00:00:00Z' % (k + 1),
                'md': {'change': 'updated', 'datetime': '2013-01-0%dT00:00:00Z' % (k + 1)} if change else {}} for k in range(n)]
    place = 'list'
    if prog in ('baseline', 'audit'):
        place = rng.choice(['list', 'list', 'explicit', 'part', 'index', 'capability', 'description'])
    elif prog in ('incremental', 'reference', 'newreference'):
        place = rng.choice(['list', 'part', 'index'])
    index = place == 'index'
    listuri = B + ('/changelist.xml' if change else '/resourcelist.xml')
    partdocs = {}
    if index or place == 'part':
        partdocs = {B + '/p%d.xml' % k: xmlw.doc(cap, entries[k:k + 1]) for k in range(n)}
        top = xmlw.doc(cap, [{'loc': u} for u in partdocs], index=True)
    else:
        top = xmlw.doc(cap, entries)
    routes = {}
    if place == 'part':
        u = rng.choice(sorted(partdocs))
        base = partdocs[u]
        bad, enc, where, declares = hostile(rng, base, kind, secret, False)
        partdocs[u] = bad
        routes[listuri] = top
        ctx.ev('parts')
    elif place == 'capability':
        base = xmlw.doc('capabilitylist', [{'loc': listuri, 'md': {'capability': 'resourcelist'}}])
        bad, enc, where, declares = hostile(rng, base, kind, secret, False)
        routes[B + '/cl.xml'] = bad
        routes[listuri] = top
    elif place == 'description':
        base = xmlw.doc('description', [{'loc': B + '/cl.xml', 'md': {'capability': 'capabilitylist'}}])
        bad, enc, where, declares = hostile(rng, base, kind, secret, False)
        routes[B + '/.well-known/resourcesync'] = bad
        routes[B + '/cl.xml'] = xmlw.doc('capabilitylist', [{'loc': B + '/other.xml', 'md': {'capability': 'resourcelist'}}])
        routes[B + '/other.xml'] = top
    else:
        bad, enc, where, declares = hostile(rng, top, kind, secret, index)
        routes[listuri] = bad
    routes.update(partdocs)
    for k in range(n):
        routes[B + '/victim%d' % k] = b'content of victim'
    routes.update({CANARY + x: b'<!ENTITY e "SECRETMARK">' for x in ('entity', 'dtd', 'n', 'xsl', 'xsd', 'inc')})
    ctx.server.set({u: Route(b) for u, b in routes.items()})
    dst = os.path.join(cwd, 'dst')
    os.makedirs(dst)
    for nm in ('victim0', 'extra'):
        with open(os.path.join(dst, nm), 'wb') as f:
            f.write(b'old')
        os.utime(os.path.join(dst, nm), (1000000000, 1000000000))
    stdin, script = b'', 'resync-sync'
    m = [B, 'dst']
    if prog in ('baseline', 'audit'):
        argv = ['--' + prog] + (['--delete'] if prog == 'baseline' else [])
        if place == 'explicit':
            argv += ['--sitemap', listuri]
        elif place == 'capability':
            argv += ['--capabilitylist', B + '/cl.xml']
        argv += m
    elif prog == 'incremental':
        argv = ['--incremental', '--delete', '--from', '2010-01-01T00:00:00Z'] + m
    elif prog == 'parse':
        argv = ['--parse', '--sitemap', listuri] + rng.choice([[], ['-v']])
    elif prog in ('explore', 'follow'):
        script = 'resync-explorer'
        if prog == 'follow':
            routes[B + '/cl.xml'] = xmlw.doc('capabilitylist', [{'loc': listuri, 'md': {'capability': 'resourcelist'}}])
            ctx.server.set({u: Route(b) for u, b in routes.items()})
            argv, stdin = ['--sitemap', B + '/cl.xml'], b'1\nq\n'
        else:
            argv, stdin = ['--sitemap', listuri], b'q\n'
        argv += rng.choice([[], ['-v']])
    else:
        script = 'resync-build'
        other = os.path.join(cwd, 'other.xml')
        with open(other, 'wb') as f:
            f.write(xmlw.doc('resourcelist', [{'loc': B + '/z', 'lastmod': '2013-01-01T00:00:00Z'}]))
        argv = ['--write-changelist'] + (['--reference', listuri] if prog == 'reference' else ['--reference', other, '--newreference', listuri])
        argv += rng.choice([[], ['--outfile', 'out.xml']]) + m
    ctx.note(prog=prog, argv=argv, place=place, kind=kind, encoding=enc, where=where, doc=bad[:1500].decode('utf-8', 'replace'))
    ctx.sig(prog, place, kind, enc)
    before = fsm.snapshot(cwd)
    r = client.run(ctx, cwd, argv, script=script, stdin=stdin, cpu=CPU)
    watch(ctx, r, secret, declares, bad, None)
    asked = [q['uri'] for q in ctx.server.log()]
    if not declares:
        return
    ctx.ev('refused')
    ctx.check(r.outcome != 'ok' or prog in ('explore', 'follow') or 'FatalError' in r.err or place == 'description',
              'program accepted a document that declares entities', run=r.brief())
    if place == 'description':
        # the search for a list may go on with the next place, but not with what the refused document says
        ctx.check(B + '/cl.xml' not in asked and B + '/other.xml' not in asked, 'content of a refused document was followed', asked=asked)
        ctx.check(r.failed, 'nothing was found but no error reported', run=r.brief())
    ctx.eq([u for u in asked if 'victim' in u], [], 'resources listed by a refused document were requested', run=r.brief())
    ctx.check('victim' not in r.out, 'entries of a refused document are shown', out=r.out)
    if prog not in ('explore', 'follow', 'parse'):
        ctx.eq(fsm.diff(before, fsm.snapshot(cwd)), [], 'files changed although the list was refused', run=r.brief())
    if prog in ('explore', 'follow'):
        ctx.check('Cannot parse' in r.out or 'Cannot read' in r.out, 'refusal is not reported', run=r.brief())
