"""C13 Malformed documents are rejected, unknown content ignored."""
import io, os
import xml.etree.ElementTree as ET

from .. import docs, gen, xmlw
from ..xmlw import RS, SM

ID = 'C13'
LEVEL = 'exploration'
CASES = {'quick': 36000, 'thorough': 200000}
RULE = ('one case = a random valid document of one of twelve types (or a split list) with some content that must be ignored added, and in '
        'most cases one structural error at a random place, read in one of five ways; distinct = (type, way, error, ignored content); '
        'non-trivial = something was added or broken')
MIN = {'rejected': 5000, 'accepted': 2000, 'ignored_things': 5000, 'part_documents': 150}


def setup(ctx):
    for c in docs.CLASSES:
        docs.cls(c)


S, R = '{%s}' % SM, '{%s}' % RS
ATTR = {'timestamp': None, 'length': 'length', 'mime_type': 'type', 'change': 'change', 'path': 'path', 'capability': 'capability',
        'ts_datetime': 'datetime', 'ts_at': 'at', 'ts_completed': 'completed', 'ts_from': 'from', 'ts_until': 'until'}


def lnel(l):
    return ET.Element(R + 'ln', {('type' if k == 'mime_type' else k): str(v) for k, v in l.items()})


def tree(cap, fs, md, lns, index):
    root = ET.Element(S + ('sitemapindex' if index else 'urlset'))
    for l in lns:
        root.append(lnel(l))
    m = dict(md)
    if cap is not None:
        m['capability'] = cap
    if m:
        root.append(ET.Element(R + 'md', m))
    for f in fs:
        e = ET.SubElement(root, S + ('sitemap' if index else 'url'))
        ET.SubElement(e, S + 'loc').text = f['uri']
        if 'timestamp' in f:
            ET.SubElement(e, S + 'lastmod').text = xmlw.when(f['timestamp'])
        a = {ATTR[k]: (xmlw.when(v) if k.startswith('ts_') else str(v)) for k, v in f.items() if ATTR.get(k)}
        h = ' '.join('%s:%s' % (t, f[k]) for k, t in (('md5', 'md5'), ('sha1', 'sha-1'), ('sha256', 'sha-256')) if k in f)
        if h:
            a['hash'] = h
        if a:
            e.append(ET.Element(R + 'md', a))
        for l in f.get('ln', ()):
            e.append(lnel(l))
    return root


BAD_DATES = ['yesterday', '2012-13-01', '2012-02-30T00:00:00Z', '2012-01-01T00:00:00', '2012-01-01 00:00:00Z', '2012-01-01T25:00:00Z',
             '20120101', '2012-1-1', 'T00:00:00Z', '2012-01-01T00:61:00Z', '2012-01-01T00:00:00z', '12-01-01', '2012-01-01T00:00Z+01:00',
             '2012-01-01T00:00:00+24:00', '2012-01-01T00:00:00.Z', 'x2012', '2012-01-01T00Z']
X = '{http://example.com/other}'


def mutate_bad(rng, root, cap, index, spec):
    """Applies one error; returns its name or None."""
    item = S + ('sitemap' if index else 'url')
    entries = root.findall(item)
    e = rng.choice(entries) if entries else None
    kind = rng.choice(['root', 'capability', 'loc', 'loc2', 'loc0', 'lastmod2', 'md2', 'topmd2', 'latemd', 'lateln', 'change', 'length',
                       'lnhref', 'lnrel', 'lnpri', 'lnlength', 'date', 'date', 'mddate', 'mddate', 'topchange', 'toplength', 'xml'])
    if kind == 'root':
        root.tag = rng.choice([S + 'url', S + 'urlsets', 'urlset', S + 'URLSET', X + 'urlset', R + 'urlset', 'html', S + 'sitemap',
                               '{http://www.sitemaps.org/schemas/sitemap/0.8}urlset', X + 'sitemapindex', 'sitemapindex'])
        return kind
    if kind == 'xml':
        return kind
    if kind == 'capability':
        md = root.find(R + 'md')
        others = [c for _, c, _ in docs.CLASSES.values() if c != cap]
        v = rng.choice(others + [None, None, cap.upper(), cap + ' ', '', cap[:-1], cap + '-archive'])
        if v == cap or md is None or v is None and cap == 'resourcelist':
            return None
        if v is None:
            del md.attrib['capability']
        else:
            md.set('capability', v)
        return kind
    if kind in ('topmd2', 'topchange', 'toplength'):
        md = root.find(R + 'md')
        if kind == 'topmd2':
            k = list(root).index(md)
            root.insert(rng.choice([k, k + 1, 0]), ET.Element(R + 'md', rng.choice([{}, {'capability': cap}, {'at': '2012'}])))
        elif kind == 'topchange':
            md.set('change', rng.choice(['Updated', 'x', '', 'create']))
        else:
            md.set('length', rng.choice(['x', '', '1.5', '1 2']))
        return kind
    if kind in ('lnhref', 'lnrel', 'lnpri', 'lnlength'):
        l = ET.Element(R + 'ln', {'href': 'http://example.org/l', 'rel': 'up'})
        if kind == 'lnhref':
            del l.attrib['href']
            if rng.random() < 0.3:
                l.set(X + 'href', 'y')
        elif kind == 'lnrel':
            del l.attrib['rel']
        elif kind == 'lnpri':
            l.set('pri', rng.choice(['0', '1000000', '-1', 'x', '', '1.0', '99999999999']))
        else:
            l.set('length', rng.choice(['x', '', '1.5', '0x1']))
        if e is not None and rng.random() < 0.6:
            e.append(l)
            return kind + ' in entry'
        root.insert(0, l)
        return kind
    if e is None:
        return None
    loc = e.find(S + 'loc')
    if kind == 'loc':
        e.remove(loc)
        if rng.random() < 0.3:
            ET.SubElement(e, X + 'loc').text = 'http://example.org/x'
        elif rng.random() < 0.3:
            ET.SubElement(e, 'loc').text = 'http://example.org/x'
        elif rng.random() < 0.3:
            ET.SubElement(ET.SubElement(e, X + 'y'), S + 'loc').text = 'http://example.org/x'
    elif kind == 'loc2':
        e.insert(rng.randrange(len(e) + 1), elem(S + 'loc', rng.choice([loc.text, 'http://example.org/other', None])))
    elif kind == 'loc0':
        loc.text = rng.choice([None, ''])
    elif kind == 'lastmod2':
        for _ in range(2 - len(e.findall(S + 'lastmod'))):
            e.insert(rng.randrange(len(e) + 1), elem(S + 'lastmod', '2012-01-01T00:00:00Z'))
    elif kind == 'md2':
        for _ in range(2 - len(e.findall(R + 'md'))):
            e.insert(rng.randrange(len(e) + 1), ET.Element(R + 'md', rng.choice([{}, {'length': '1'}])))
    elif kind == 'latemd':
        k = list(root).index(rng.choice(entries))
        root.insert(k + 1, ET.Element(R + 'md', {'at': '2012'}))
        if rng.random() < 0.5:
            first = root.find(R + 'md')
            if list(root).index(first) < k and rng.random() < 0.5 and cap == 'resourcelist':
                root.remove(first)
    elif kind == 'lateln':
        k = list(root).index(rng.choice(entries))
        root.insert(k + 1, ET.Element(R + 'ln', {'rel': 'up', 'href': 'http://example.org/'}))
    elif kind in ('change', 'length', 'mddate'):
        md = e.find(R + 'md')
        if md is None:
            md = ET.SubElement(e, R + 'md')
        if kind == 'change':
            md.set('change', rng.choice(['Updated', 'changed', '', ' updated', 'create', 'DELETED', 'updated deleted']))
        elif kind == 'length':
            md.set('length', rng.choice(['x', '', '1.5', '1e3', '0x10', '12 bytes', '--1', '1,000']))
        else:
            att = rng.choice(['datetime', 'at', 'completed', 'from', 'until'])
            if att == 'datetime' and spec == '1.0':
                return None
            md.set(att, rng.choice(BAD_DATES + ['']))
            return kind + ' ' + att
    elif kind == 'date':
        for x in e.findall(S + 'lastmod'):
            e.remove(x)
        e.insert(rng.randrange(len(e) + 1), elem(S + 'lastmod', rng.choice(BAD_DATES)))
    return kind


def elem(tag, text=None, attrib=None):
    x = ET.Element(tag, attrib or {})
    x.text = text
    return x


def foreign(rng):
    """An element that is not part of the format, perhaps with familiar content."""
    x = ET.Element(rng.choice([X + 'thing', X + 'loc', X + 'md', X + 'ln', X + 'lastmod', X + 'url', S + 'changefreq', S + 'priority',
                               R + 'other', R + 'LN', R + 'MD', S + 'Loc', S + 'LASTMOD', S + 'Url', R + 'loc', R + 'lastmod', 'plain', 'loc', 'lastmod', 'md', S + 'md', S + 'ln', R + 'url',
                               '{http://www.google.com/schemas/sitemap-image/1.1}image']), {})
    if rng.random() < 0.5:
        x.set(rng.choice(['length', 'change', X + 'y', 'href']), rng.choice(['bad', '', '12']))
    if rng.random() < 0.5:
        x.text = rng.choice(['text', '2012', 'http://example.org/no'])
    if rng.random() < 0.4:
        x.append(rng.choice([elem(S + 'loc', 'http://example.org/inner'), elem(R + 'md', None, {'length': 'bad', 'change': 'no'}),
                             elem(S + 'lastmod', 'never'), elem(R + 'ln'), elem(S + 'url')]))
    return x


def add_ignored(rng, root, index, spec):
    """Adds content without meaning; returns what was added."""
    item = S + ('sitemap' if index else 'url')
    done = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        entries = root.findall(item)
        e = rng.choice(entries) if entries else None
        k = rng.choice(['top', 'entry', 'attr', 'comment', 'pi', 'space', 'other item', 'order', 'nsattr', 'datetime'])
        if k == 'top':
            root.insert(rng.randrange(len(root) + 1), foreign(rng))
        elif k == 'comment':
            (e if e is not None and rng.random() < 0.5 else root).insert(0, ET.Comment(' <loc>http://x</loc> '))
        elif k == 'pi':
            root.insert(0, ET.ProcessingInstruction('xml-stylesheet', 'href="a.xsl"'))
        elif k == 'other item':
            o = elem(S + ('url' if index else 'sitemap'))
            if rng.random() < 0.5:
                o.append(elem(S + 'loc', 'http://example.org/not'))
            root.insert(rng.randrange(len(root) + 1), o)
        elif k == 'space':
            for x in root.iter():
                if len(x) and x.text is None:
                    x.text = '\n  '
                if x is not root and rng.random() < 0.5 and x.tail is None:
                    x.tail = rng.choice(['\n', ' \t', 'stray text'])
        elif e is None:
            continue
        elif k == 'entry':
            e.insert(rng.randrange(len(e) + 1), foreign(rng))
        elif k == 'order':
            c = [x for x in e if x.tag != R + 'ln']
            ln = [x for x in e if x.tag == R + 'ln']
            rng.shuffle(c)
            for x in list(e):
                e.remove(x)
            for x in (ln + c if rng.random() < 0.5 else c + ln):
                e.append(x)
        elif k in ('attr', 'nsattr'):
            x = rng.choice(list(e) + [e, root] + root.findall(R + 'md') + root.findall(R + 'ln') + e.findall(R + 'md'))
            if not isinstance(x.tag, str):
                continue
            pre = X if k == 'nsattr' else ''
            n = rng.choice(['change', 'length', 'capability', 'href', 'datetime', 'hash']) if pre else rng.choice(
                ['extra', 'Length', 'CHANGE', 'md5', 'lastmod', 'mime_type', 'md_at', 'uri', 'ts_from', 'loc', 'timestamp'])
            x.set(pre + n, rng.choice(['bad', '', '12']))
        elif k == 'datetime':
            if spec != '1.0':
                continue
            md = e.find(R + 'md')
            if md is not None:
                md.set('datetime', 'not a date')
        done.append(k)
    return done


def serialise(rng, root):
    """Bytes with a random choice of prefixes and encoding."""
    old = dict(ET._namespace_map)
    try:
        for u in (SM, RS, X[1:-1]):
            ET._namespace_map.pop(u, None)
        if rng.random() < 0.5:
            pre = rng.sample(['a', 'rs', 'sm', 'xhtml', 'url', 'z'], 3)
            for p, u in zip(pre, (SM, RS, X[1:-1])):
                ET._namespace_map[u] = p
        return ET.tostring(root, encoding=rng.choice(['utf-8', 'utf-8', 'us-ascii', 'utf-16', 'iso-8859-1']))
    finally:
        ET._namespace_map.clear()
        ET._namespace_map.update(old)


def case(rng, ctx, i):
    names = sorted(docs.CLASSES)
    name = names[i % len(names)]
    C = docs.cls(name)
    cap, kind = docs.CLASSES[name][1:]
    spec = '1.0' if rng.random() < 0.12 else '1.1'
    index = name != 'CapabilityList' and rng.random() < 0.12
    fs, seen = [], set()
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        f = docs.fields(rng, name, docs.uri(rng))
        if f['uri'] not in seen:
            seen.add(f['uri'])
            fs.append(f)
    md = {'at': '2013-01-03T09:00:00Z'} if rng.random() < 0.5 else {}
    lns = [docs.link(rng) for _ in range(rng.choice([0, 0, 1, 2]))]
    root = tree(cap, fs, md, lns, index)
    ignored = add_ignored(rng, root, index, spec)
    bad = mutate_bad(rng, root, cap, index, spec) if rng.random() < 0.7 else None
    data = serialise(rng, root)
    if bad == 'xml':
        data = broken(rng, data, root, spec)
    if bad is None and cap == 'resourcelist' and rng.random() < 0.1:
        root.find(R + 'md').attrib.pop('capability')    # not even this is needed
        data = serialise(rng, root)
    way = rng.choice(['fh', 'fh', 'parse', 'read', 'sitemap'])
    if index and way != 'sitemap':
        way = 'read'
    if bad == 'capability' and way == 'sitemap':
        way = 'fh' if not index else 'read'
    part = False
    d = ctx.dir()
    path = os.path.join(d, 'doc.xml')
    with open(path, 'wb') as f:
        f.write(data)
    if not index and way == 'read' and name != 'CapabilityList' and bad != 'capability' and rng.random() < 0.5:
        # the document as part of a split list
        part = True
        ctx.ev('part_documents')
        other = os.path.join(d, 'other.xml')
        with open(other, 'wb') as f:
            f.write(xmlw.doc(cap, []))
        locs = [{'loc': path}]
        locs.insert(rng.randrange(2), {'loc': other})
        path = os.path.join(d, 'index.xml')
        with open(path, 'wb') as f:
            f.write(xmlw.doc(cap, locs, index=True))
    ctx.note(type=name, way=way, spec=spec, error=bad, ignored=ignored, doc=data, part=part, index=index)
    ctx.ev('ignored_things', len(ignored))
    from resync.sitemap import Sitemap, SitemapParseError, SitemapIndexError
    from resync.list_base_with_index import ListBaseIndexError
    errors = (SitemapParseError, SitemapIndexError, ListBaseIndexError, ET.ParseError)
    import logging
    try:
        if way == 'sitemap':
            sm = Sitemap(spec_version=spec)
            o = sm.parse_xml(fh=io.BytesIO(data))
            ctx.eq(sm.resources_created, len(fs), 'number of resources created', error=bad)
            ctx.eq(sm.parsed_index, index, 'parsed_index')
        else:
            o = C(spec_version=spec)
            if way == 'fh':
                o.parse(fh=io.BytesIO(data))
            elif way == 'parse':
                o.parse(uri=path)
            elif index:
                o.read(path, index_only=True)
            else:
                o.read(path)
    except errors as e:
        if bad is None:
            ctx.fail('a good document was rejected: %s' % (e,), document=data)
        ctx.ev('rejected')
        ctx.ev('error ' + bad)
        ctx.events['oracle_checks'] += 1
        ctx.sig(name, way, bad, sorted(ignored), part, index)
        return
    if bad is not None:
        ctx.fail('a document with the error "%s" was accepted' % bad, document=data, entries=[docs.view(r) for r in o])
    ctx.ev('accepted')
    want = [docs.model(f) for f in fs]
    if spec == '1.0':       # knows no change datetime
        for w in want:
            w.pop('ts_datetime', None)
    if way != 'sitemap':
        want = docs.order(name, want)
    ctx.eq([docs.view(r) for r in o], want, 'entries read', document=data)
    if not part:
        ctx.eq([dict(l) for l in o.ln], lns, 'links read', document=data)
        got = {k: v for k, v in o.md.items() if v is not None}
        got.pop('capability', None)
        ctx.eq(got, {'md_at': md['at']} if md else {}, 'metadata read', document=data)
    if ignored:
        ctx.sig(name, way, None, sorted(ignored), part, index)


def broken(rng, data, root, spec):
    """Not well-formed."""
    data = ET.tostring(root, encoding='utf-8')
    k = rng.choice(['cut', 'amp', 'close', 'two', 'empty', 'text', 'dupattr'])
    if k == 'cut':
        return data[:rng.randrange(len(data) - 1)]
    if k == 'amp':
        return data[:data.rindex(b'<')] + b'<x>&nosuch;</x>' + data[data.rindex(b'<'):] if data.rindex(b'</') == data.rindex(b'<') else data + b'<'
    if k == 'close':
        return data + b'</url>'
    if k == 'two':
        return data + b'<urlset/>'
    if k == 'empty':
        return b''
    if k == 'text':
        return b'garbage' + data
    return data.replace(b'<', b'<a b="1" b="2"/><', 1) if data.startswith(b'<?') else b'<a b="1" b="2"/>'
