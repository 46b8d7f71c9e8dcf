"""C12 Documents survive a write/read round trip."""
import io, locale, os, time

from .. import docs, gen, xmlw

ID = 'C12'
LEVEL = 'exploration'
CASES = {'quick': 36000, 'thorough': 200000}
RULE = ('one case = a random document of one of twelve types (plus bare containers and indexes) with random entries, metadata, links and '
        'characters, written as string, file, index or single entry under either specification version with or without pretty printing, '
        'examined by an independent XML parser and read back; distinct = (type, way, version, options, set of fields present, number '
        'of entries); non-trivial = at least one entry, link or metadata attribute')
MIN = {'documents': 3000, 'entries': 8000, 'indexes': 200, 'files': 800, 'links': 3000, 'non_ascii': 800, 'microseconds': 2000, 'v10': 600, 'times_converted': 1000, 'ascii_locale': 500}


def setup(ctx):
    for c in docs.CLASSES:
        docs.cls(c)


def case(rng, ctx, i):
    names = sorted(docs.CLASSES)
    name = names[i % len(names)]
    C = docs.cls(name)
    cap, kind = docs.CLASSES[name][1:]
    spec = rng.choice(['1.1', '1.1', '1.1', '1.0'])
    add_lastmod = rng.random() < 0.25
    index = name != 'CapabilityList' and rng.random() < 0.15
    n = rng.choice([0, 1, 1, 2, 3, 6])
    fs, seen = [], set()
    for _ in range(n):
        u = docs.uri(rng)
        if fs and kind == 'list' and rng.random() < 0.3:
            u = rng.choice(fs)['uri']
        if kind != 'list' and u in seen:
            continue
        seen.add(u)
        fs.append(docs.fields(rng, name, u))
    md, mdset = {}, {}
    for k, x in (('md_at', 'at'), ('md_completed', 'completed'), ('md_from', 'from'), ('md_until', 'until')):
        if rng.random() < 0.35:
            r = rng.random()
            if r < 0.1:
                mdset[k] = 'now'
            elif r < 0.3:
                mdset[k] = docs.time(rng)
            else:
                md[x] = rng.choice(['2013-01-03T09:00:00Z', '2013', xmlw.when(docs.time(rng))])
                mdset[k] = md[x]
    lns = [docs.link(rng) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    pretty = rng.random() < 0.5
    way = rng.choice(['str', 'str', 'file', 'file', 'fh', 'uri'])
    ctx.note(type=name, spec=spec, add_lastmod=add_lastmod, index=index, entries=fs, md=md, ln=lns, pretty=pretty, way=way)
    # arguments that have their defaults need not be given
    kw = {k: v for k, v in (('spec_version', spec), ('add_lastmod', add_lastmod))
          if (k, v) not in (('spec_version', '1.1'), ('add_lastmod', False)) or rng.random() < 0.5}
    from resync.resource import Resource
    rs = [Resource(**{k: ([dict(l) for l in v] if k == 'ln' else v) for k, v in f.items()}) for f in fs]
    given = rng.random() < 0.3
    if given:       # top-level parts given to the constructor
        o = C(md={k: v for k, v in mdset.items() if k[3:] in md}, ln=[dict(l) for l in lns], **kw)
    else:
        o = C(**kw)
    if index:
        for r in rs:
            (getattr(o.resources, 'add', None) or o.resources.append)(r)
    elif rng.random() < 0.5:
        for r in rs:
            o.add(r)
    else:
        o.add(rs if rng.random() < 0.5 else (r for r in rs))
    for k, v in mdset.items():
        x = k[3:]
        t0 = time.time()
        setattr(o, k, v)
        if x not in md:
            got = xmlw.parse_when(getattr(o, k))
            if v == 'now':
                ctx.check(t0 * 1e6 - 5 <= got <= time.time() * 1e6 + 5, 'the current time', attribute=k, got=getattr(o, k))
            else:
                ctx.eq(got, docs.us(v), 'time given as a number', attribute=k)
            ctx.ev('times_converted')
            md[x] = mdset[k] = getattr(o, k)
    for l in lns if not given else ():
        o.ln.append(dict(l))
    o.pretty_xml = pretty
    o.sitemapindex = index
    want = docs.order(name, [docs.model(f, spec, add_lastmod) for f in fs])
    before = [docs.view(r) for r in o]

    # the entries from a generator that can be read once, with their number given
    if name == 'ResourceList' and not index and rng.random() < 0.2:
        g = C(resources=(r for r in list(o)), count=len(fs), md=dict(o.md), ln=[dict(l) for l in o.ln], **kw)
        ctx.eq(len(g), len(fs), 'number of entries of a list over a generator')
        ctx.eq([docs.entry_view(e) for e in xmlw.Parsed(g.as_xml()).entries], want, 'entries written from a generator')
        ctx.ev('generators')

    # written
    d = ctx.dir()
    path = os.path.join(d, rng.choice(['doc.xml', 'x y.xml', 'list', 'ü%41.xml', 'tab\there.xml', ' x.xml', 'x ']))
    if way == 'str' and not index:
        text = o.as_xml()
    elif way == 'str':
        text = o.index_as_xml()
    elif way == 'fh' and not index:
        fh = io.StringIO()
        o.default_capability()
        o.new_sitemap().resources_as_xml(o, fh=fh)
        text = fh.getvalue()
    else:
        if rng.random() < 0.3:      # files do not depend on the locale
            locale.setlocale(locale.LC_CTYPE, 'C')
            ctx.ev('ascii_locale')
        o.write(path)
        with open(path, 'rb') as f:
            text = f.read()
        try:
            text = text.decode('utf-8')
        except UnicodeDecodeError:
            ctx.fail('a file that is not in the encoding it declares', start=text[:60], where=path)
        ctx.ev('files')
    ctx.ev('documents')
    ctx.ev('entries', len(fs))
    ctx.ev('links', len(lns) + sum(len(f.get('ln', ())) for f in fs))
    ctx.ev('non_ascii', not text.isascii())
    ctx.ev('microseconds', sum(1 for f in fs for k in ('timestamp', 'ts_datetime') if f.get(k, 0) % 1))
    if spec == '1.0':
        ctx.ev('v10')
    if index:
        ctx.ev('indexes')
    p = xmlw.Parsed(text)
    ctx.eq(p.index, index, 'kind of root element', text=text)
    ctx.eq(p.other, [], 'elements of other kinds', text=text)
    ctx.eq(p.md, dict(md, capability=cap), 'top-level metadata written', text=text)
    ctx.eq([docs.link_view(l) for l in p.ln], lns, 'top-level links written', text=text)
    ctx.eq([docs.entry_view(e) for e in p.entries], want, 'entries written', text=text)
    if pretty and fs:
        ctx.check('\n' in text.strip(), 'pretty printing had no effect')
    # the object written is as before
    ctx.eq([docs.view(r) for r in o], before, 'entries of the object after writing')

    # read back
    o2 = C(**kw)
    if index:
        if not os.path.exists(path):
            with open(path, 'w', encoding='utf-8') as f:
                f.write(text)
        o2.read(path, index_only=True)
        ctx.check(o2.sitemapindex, 'index not recognised')
    else:
        how = rng.choice(['str', 'fh', 'file', 'read'])
        if how in ('file', 'read') or way == 'uri':
            if not os.path.exists(path):
                with open(path, 'w', encoding='utf-8') as f:
                    f.write(text)
            u = path
            if way == 'uri' and not any(ch in path for ch in '%# ?ü\t'):
                u = 'file://' + path
            if how == 'read':
                o2.read(u)
            else:
                o2.parse(uri=u)
        elif how == 'fh':
            o2.parse(fh=io.BytesIO(text.encode('utf-8')) if rng.random() < 0.5 else io.StringIO(text))
        else:
            o2.parse(str_data=text)
        ctx.eq(o2.parsed_index or False, False, 'parsed_index')
    ctx.eq([docs.view(r) for r in o2], want, 'entries read back', text=text)
    if kind == 'list' or not index:
        ctx.eq(len(o2), len(fs), 'number of entries read back')
    ctx.eq(o2.capability, cap, 'document type read back')
    ctx.eq({k: v for k, v in o2.md.items() if v is not None}, dict(mdset, capability=cap), 'top-level metadata read back')
    for k in ('md_at', 'md_completed', 'md_from', 'md_until'):
        ctx.eq(getattr(o2, k), mdset.get(k), 'accessor %s of what was read' % k)
    ctx.eq([dict(l) for l in o2.ln], lns, 'top-level links read back')
    for rel in {l['rel'] for l in lns} | {'none'}:
        ctx.eq(o2.link_href(rel), next((l['href'] for l in lns if l['rel'] == rel), None), 'link by relation')
    # written again it is the same
    o2.pretty_xml = pretty
    if not index:
        ctx.eq(xml_view(o2.as_xml()), xml_view(text), 'document written again')
    # single entries
    if fs and rng.random() < 0.3:
        r, m = rng.choice(list(zip(rs, [docs.model(f, spec, add_lastmod) for f in fs])))
        s = o.new_sitemap().resource_as_xml(r)
        p = xmlw.Parsed('<urlset xmlns="%s" xmlns:rs="%s">%s</urlset>' % (xmlw.SM, xmlw.RS, s))
        ctx.eq([docs.entry_view(e) for e in p.entries], [m], 'single entry as XML', text=s)
    if fs or md or lns:
        ctx.sig(name, way, spec, add_lastmod, index, pretty, len(fs), sorted({k for f in fs for k in f}), sorted(md), len(lns))


def xml_view(text):
    p = xmlw.Parsed(text)
    return (p.index, p.md, p.ln, p.entries)
