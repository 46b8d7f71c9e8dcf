"""C30 Descriptions keep what they are given and copies are independent."""
import time

from .. import docs, gen, xmlw

ID = 'C30'
LEVEL = 'exploration'
CASES = {'quick': 45000, 'thorough': 300000}
RULE = ('one case = up to 14 random operations on a few resource descriptions (created from values, from texts or as copies with overriding '
        'values; attributes, times as texts, digest strings, change types and links set, some of them invalid) or on the top-level metadata '
        'and links of a few documents; after each operation every attribute, time text and link of every object is compared with a model; '
        'distinct = sequence of operations; non-trivial = at least three operations')
MIN = {'created': 40000, 'copied': 15000, 'overridden': 8000, 'set': 40000, 'time_text': 15000, 'refused': 9000, 'links_set': 30000,
       'links_replaced': 4000, 'links_repeated': 1200, 'digest_strings': 3000, 'documents': 8000, 'now': 1500, 'compared': 300000}
PLAIN = ['uri', 'timestamp', 'length', 'mime_type', 'md5', 'sha1', 'sha256', 'change', 'ts_datetime', 'path']
EXTRA = ['capability', 'ts_at', 'ts_completed', 'ts_from', 'ts_until']
TEXT = {'lastmod': 'timestamp', 'datetime': 'ts_datetime', 'md_at': 'ts_at', 'md_completed': 'ts_completed', 'md_from': 'ts_from',
        'md_until': 'ts_until'}
RELS = ['describedby', 'up', 'index', 'contents', 'duplicate', 'alternate', 'x']
BADTIMES = ['', 'today', '2013-13-01', '2013-01-01T25:00:00Z', '2013-01-01T00:00:00', '12', ' 2013-01-01', '2013-01-01T00:00Zx']
CLASSES = ['ResourceList', 'ChangeList', 'CapabilityList', 'SourceDescription', 'ResourceDump', 'ChangeDump', 'ResourceDumpManifest',
           'ChangeDumpManifest', 'ResourceListArchive', 'ResourceContainer']


def setup(ctx):
    from resync.resource import Resource
    import resync.resource_container
    for c in CLASSES[:-1]:
        docs.cls(c)
    globals().update(locals())


def when(rng):
    """A time and a text for it."""
    t = rng.choice([docs.us(docs.time(rng)) / 1000000, float(rng.randrange(2 ** 31)), rng.choice([0, 0.5, 86400, 2 ** 31])])
    t = docs.us(t)
    s = xmlw.when(t / 1000000)
    return t, s


def value(rng, att):
    if att == 'uri':
        return rng.choice(['http://example.org/%s', 'file:///x/%s', '%s', '/tmp/%s']) % rng.choice(['a', 'b/c', 'a?b=c#d', 'ü', 'x y', 'd/'])
    if att == 'length':
        return rng.choice([0, 1, 17, 2 ** 31, 2 ** 40])
    if att == 'change':
        return rng.choice(['created', 'updated', 'deleted'])
    if att.startswith('ts_') or att == 'timestamp':
        return when(rng)[0] / 1000000
    if att == 'capability':
        return rng.choice(['resourcelist', 'capabilitylist', 'other', ''])
    return rng.choice(['', 'a', '0', 'text/plain', 'd41d8cd98f00b204e9800998ecf8427e', '/x/y', 'ü', 'a b'])


def case(rng, ctx, i):
    if rng.random() < 0.3:
        return document(rng, ctx)
    objs = []       # (object, model of values, model of links or None)
    trace = []
    ctx.note(trace=trace)
    for k in range(rng.choice([1, 3, 5, 9, 14])):
        op = rng.choice(['new', 'copy', 'set', 'set', 'text', 'bad', 'hash', 'link', 'link', 'short'])
        if not objs:
            op = 'new'
        if op in ('new', 'copy'):
            create(rng, ctx, objs, op, trace)
        else:
            o, m, ln = rng.choice(objs)
            change(rng, ctx, o, m, ln, op, trace)
        for n, (o, m, ln) in enumerate(objs):
            same(ctx, o, m, ln, n)
    if len(trace) >= 3:
        ctx.sig([t[:2] for t in trace])


def create(rng, ctx, objs, op, trace):
    kw, m, ln = {}, {}, []
    if op == 'copy':
        s, m, ln = rng.choice(objs)
        m, ln = dict(m), [dict(l) for l in ln]
        kw['resource'] = s
        ctx.ev('copied')
    elif rng.random() < 0.9:
        kw['uri'] = m['uri'] = value(rng, 'uri')
    p = rng.choice([0, 0.2, 0.5, 1]) if op == 'new' else rng.choice([0, 0, 0.15, 1])
    for att in PLAIN + EXTRA:
        if rng.random() < p:
            v = value(rng, att)
            text = [t for t in TEXT if TEXT[t] == att]
            if text and rng.random() < 0.4:
                t, s = when(rng)
                kw[text[0]] = s
                v = t / 1000000
                ctx.ev('time_text')
            else:
                kw[att] = v
            if op == 'copy' and att in m and m[att] != v:
                ctx.ev('overridden')
            m[att] = v
    if rng.random() < 0.2 and op == 'new':
        ln = [{'rel': rng.choice(RELS), 'href': 'http://l.org/%d' % rng.randrange(9)} for _ in range(rng.choice([1, 2, 3]))]
        kw['ln'] = [dict(l) for l in ln]
    trace.append([op, sorted(kw), repr(kw)])
    if 'uri' not in m:
        ctx.ev('refused')
        try:
            Resource(**kw)
        except ValueError:
            return
        ctx.fail('a description without URI was accepted', given=repr(kw))
    objs.append((Resource(**kw), m, ln))
    ctx.ev('created')


def refused(ctx, what, f):
    ctx.ev('refused')
    try:
        f()
    except Exception:
        return
    ctx.fail('accepted: ' + what)


def change(rng, ctx, o, m, ln, op, trace):
    if op == 'set':
        att = rng.choice(PLAIN[1:] + EXTRA + ['uri'])
        v = value(rng, att) if rng.random() < 0.85 or att == 'uri' else None
        if att in EXTRA[1:]:        # (these are set by their texts)
            att = {b: a for a, b in TEXT.items()}[att]
            s = v if v is None else xmlw.when(v)
            trace.append([op, att, s])
            setattr(o, att, s)
            put(m, TEXT[att], v)
        else:
            trace.append([op, att, v])
            setattr(o, att, v)
            put(m, att, v)
        ctx.ev('set')
    elif op == 'text':
        att = rng.choice(sorted(TEXT))
        t, s = when(rng)
        trace.append([op, att, s])
        setattr(o, att, s)
        m[TEXT[att]] = t / 1000000
        ctx.ev('time_text')
    elif op == 'bad':
        if rng.random() < 0.4:
            v = rng.choice(['create', 'Created', 'UPDATED', 'delete', '', 'deleted ', 'unknown', 1])
            trace.append([op, 'change', v])
            refused(ctx, 'change type %r' % v, lambda: setattr(o, 'change', v))
        else:
            att, v = rng.choice(sorted(TEXT)), rng.choice(BADTIMES)
            trace.append([op, att, v])
            refused(ctx, 'time %r' % v, lambda: setattr(o, att, v))
    elif op == 'hash':
        d = [(t, rng.choice(['a', 'B7', '0', 'd41d8cd98f', 'x:y'])) for t in gen.subset(rng, ['md5', 'sha-1', 'sha-256'])]
        rng.shuffle(d)
        s = rng.choice([' ', ' ', '  ', '\t', '\n']).join('%s:%s' % x for x in d)
        trace.append([op, s])
        o.hash = s
        for t, a in (('md5', 'md5'), ('sha-1', 'sha1'), ('sha-256', 'sha256')):
            put(m, a, dict(d).get(t))
        ctx.ev('digest_strings')
    elif op == 'link':
        rel, href = rng.choice(RELS), 'http://l.org/%d' % rng.randrange(99)
        atts = {a: rng.choice(['1', 'text/plain', 'x']) for a in gen.subset(rng, ['type', 'pri', 'length'], 0.2)}
        add = rng.random() < 0.3
        trace.append([op, rel, add, href, atts])
        (o.link_add if add else o.link_set)(rel, href, **atts)
        old = [l for l in ln if l['rel'] == rel]
        if old and not add:
            old[0].update(dict(atts, href=href))
            ctx.ev('links_replaced')
        else:
            if old:
                ctx.ev('links_repeated')
            ln.append(dict(atts, rel=rel, href=href))
        ctx.ev('links_set')
    else:
        shortcut(rng, ctx, o, ln, trace, ['describedby', 'up', 'index', 'contents'])


def shortcut(rng, ctx, o, ln, trace, rels):
    rel, href = rng.choice(rels), 'http://s.org/%d' % rng.randrange(99)
    trace.append(['short', rel, href])
    setattr(o, rel, href)
    old = [l for l in ln if l['rel'] == rel]
    atts = {'href': href}
    if rel == 'contents':
        atts['type'] = 'application/xml'
    if old:
        old[0].update(atts)
        ctx.ev('links_replaced')
    else:
        ln.append(dict(atts, rel=rel))
    ctx.ev('links_set')


def put(m, att, v):
    if v is None:
        m.pop(att, None)
    else:
        m[att] = v


def same(ctx, o, m, ln, n):
    who = ' of description %d' % n
    for att in PLAIN + EXTRA:
        v, w = getattr(o, att), m.get(att)
        if att in TEXT.values() and v is not None and w is not None:
            v, w = docs.us(v), docs.us(w)
        if v != w or type(v) is bool:
            ctx.eq(v, w, att + who)
    for t, att in TEXT.items():
        s = getattr(o, t)
        if (s is None) != (att not in m):
            ctx.fail('text of a time' + who, got=s, want=m.get(att))
        if s is not None:
            ctx.eq(xmlw.parse_when(s), docs.us(m[att]), 'text of a time (%s)' % t + who)
    want = ' '.join(p + ':' + m[a] for p, a in (('md5', 'md5'), ('sha-1', 'sha1'), ('sha-256', 'sha256')) if a in m)
    ctx.eq(o.hash or '', want, 'digest string' + who)
    links(ctx, o, ln, who, ['describedby', 'up', 'index', 'contents'])
    ctx.ev('compared')


def links(ctx, o, ln, who, shortcuts):
    ctx.eq([dict(l) for l in o.ln or []], ln, 'links' + who)
    for rel in RELS:
        first = [l for l in ln if l['rel'] == rel]
        got = o.link(rel)
        ctx.eq(got and dict(got), first[0] if first else None, 'link %s' % rel + who)
        ctx.eq(o.link_href(rel), first[0]['href'] if first else None, 'target of link %s' % rel + who)
        if rel in shortcuts:
            ctx.eq(getattr(o, rel), first[0]['href'] if first else None, rel + who)


def document(rng, ctx):
    """Top-level metadata and links of documents."""
    names = [rng.choice(CLASSES) for _ in range(rng.choice([1, 2, 3]))]
    objs = []
    trace = [names]
    ctx.note(trace=trace)
    for name in names:
        kw, md, ln = {}, {}, []
        if rng.random() < 0.3:
            ln = [{'rel': rel, 'href': 'http://l.org/%d' % rng.randrange(9)} for rel in rng.sample(RELS, 2)]
            kw['ln'] = [dict(l) for l in ln]
        if rng.random() < 0.3:
            md = {'md_at': '2013-01-0%dT00:00:00Z' % rng.randrange(1, 9)}
            kw['md'] = dict(md)
        C = resync.resource_container.ResourceContainer if name == 'ResourceContainer' else docs.cls(name)
        objs.append((C(**kw), md, ln))
        ctx.ev('documents')
    ops = rng.choice([1, 3, 6, 10])
    for k in range(ops):
        o, md, ln = rng.choice(objs)
        op = rng.choice(['time', 'time', 'time', 'now', 'capability', 'link', 'link', 'short'])
        if op in ('time', 'now'):
            att = rng.choice(['md_at', 'md_completed', 'md_from', 'md_until'])
            if op == 'now':
                a = time.time()
                setattr(o, att, 'now')
                b = time.time()
                got = xmlw.parse_when(getattr(o, att)) / 1000000
                ctx.check(a - 0.001 <= got <= b + 0.001, 'time set to now', got=getattr(o, att), between=(a, b))
                md[att] = getattr(o, att)
                trace.append([op, att])
                ctx.ev('now')
            else:
                t, s = when(rng)
                v = rng.choice([s, s, t / 1000000, t // 1000000, None])
                trace.append([op, att, v])
                setattr(o, att, v)
                if isinstance(v, (int, float)):
                    ctx.eq(xmlw.parse_when(getattr(o, att)), docs.us(v), 'time set as a number (%s)' % att)
                    md[att] = getattr(o, att)
                else:
                    put(md, att, v)
                ctx.ev('set')
        elif op == 'capability':
            v = rng.choice(['resourcelist', 'other'])
            trace.append([op, v])
            o.capability = v
            md['capability'] = v
        elif op == 'link':
            rel, href = rng.choice(RELS), 'http://l.org/%d' % rng.randrange(99)
            atts = {a: rng.choice(['1', 'x']) for a in gen.subset(rng, ['type', 'pri'], 0.2)}
            trace.append([op, rel, href, atts])
            o.link_set(rel, href, **atts)
            old = [l for l in ln if l['rel'] == rel]
            if old:
                old[0].update(dict(atts, href=href))
                ctx.ev('links_replaced')
            else:
                ln.append(dict(atts, rel=rel, href=href))
            ctx.ev('links_set')
        else:
            shortcut(rng, ctx, o, ln, trace, ['describedby', 'up', 'index'])
        for n, (o, md, ln) in enumerate(objs):
            who = ' of document %d' % n
            for att in ('md_at', 'md_completed', 'md_from', 'md_until', 'capability'):
                ctx.eq(getattr(o, att), md.get(att), att + who)
            links(ctx, o, ln, who, ['describedby', 'up', 'index'])
            ctx.ev('compared')
    if ops >= 3:
        ctx.sig([t[:2] for t in trace])
