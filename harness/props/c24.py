"""C24 Capability lists and source descriptions keep canonical form."""
import io, os

from .. import docs, gen, xmlw

ID = 'C24'
LEVEL = 'exploration'
CASES = {'quick': 30000, 'thorough': 160000}
RULE = ('one case = a random history of additions (entries, names, lists as capabilities, whole collections, repeated URIs with and without '
        'replacement, unknown and missing capabilities) to a capability list or source description, compared after every step with a sort model '
        '(order of iteration, presence, entry found), then written, parsed independently and read back; and the same entries in another order '
        'give the same document; distinct = (class, capabilities in order of addition, refusals); non-trivial = at least two entries')
MIN = {'added': 40000, 'duplicates_refused': 5000, 'replaced': 3000, 'unknown_capabilities': 5000, 'queries': 60000, 'documents': 9000,
       'order_independent': 4000, 'same_capability_twice': 4000, 'list_objects': 3000, 'several_iterators': 3000}
NAMES = docs.ORDER + ['capabilitylist', 'description', 'newthing', 'zeta', 'alpha', 'resourcelist-', 'Resourcelist', 'é', 'resource list']


def setup(ctx):
    import resync.capability_list, resync.source_description, resync.resource_list


def ordered(model, caps):
    """The canonical order of a dict of fields by URI."""
    fs = list(model.values())
    return docs.caps_order(fs) if caps else sorted(fs, key=lambda f: f['uri'])


def fields(rng, caps, u):
    f = {'uri': u}
    if rng.random() < 0.92:
        f['capability'] = rng.choice(docs.ORDER if rng.random() < 0.6 else NAMES)
    if rng.random() < 0.3:
        f['timestamp'] = gen.ts(rng)
    if rng.random() < 0.3:
        f['ln'] = [docs.link(rng) for _ in range(rng.choice([1, 2]))]
    if rng.random() < 0.15:
        f['mime_type'] = 'application/xml'
    return f


def resource(f):
    from resync.resource import Resource
    return Resource(**{k: ([dict(l) for l in v] if k == 'ln' else v) for k, v in f.items()})


def case(rng, ctx, i):
    from resync.capability_list import CapabilityList
    from resync.source_description import SourceDescription
    from resync.resource_set import ResourceSetDupeError
    caps = rng.random() < 0.6
    C = CapabilityList if caps else SourceDescription
    l = C()
    model = {}
    pool = [docs.uri(rng, odd=rng.random() < 0.15) for _ in range(rng.choice([1, 3, 6, 10]))]
    pool += [rng.choice(pool) + rng.choice(['a', '/', '-', '.', '~', 'é']) for _ in range(2)]
    hist = []
    ctx.note(cls=C.__name__, history=hist)
    for _ in range(rng.choice([1, 2, 4, 8, 12])):
        u = rng.choice(pool)
        f = fields(rng, caps, u)
        how = rng.choice(['add', 'add', 'replace', 'bulk', 'bulkreplace', 'name', 'object'])
        if how in ('bulk', 'bulkreplace'):
            fs = [f] + [fields(rng, caps, rng.choice(pool)) for _ in range(rng.choice([0, 1, 2, 3]))]
            rs = [resource(x) for x in fs]
            arg = rng.choice([lambda: rs, lambda: tuple(rs), lambda: iter(rs)])()
            act = lambda: l.add(arg, replace=True) if how == 'bulkreplace' else l.add(arg)
        elif how == 'name' or how == 'object':
            if caps:
                name = rng.choice(NAMES)
                f = {'uri': u, 'capability': name}
                if how == 'object':
                    cn = rng.choice(['ResourceList', 'ChangeList', 'ResourceDump', 'ChangeDump', 'ResourceListArchive'])
                    o = docs.cls(cn)()
                    f['capability'] = docs.CLASSES[cn][1]
                    ctx.ev('list_objects')
                    if rng.random() < 0.5:
                        o.uri = u
                        # (the location of the list itself comes first)
                        act = rng.choice([lambda: l.add_capability(o), lambda: l.add_capability(o, u + 'x'), lambda: l.add_capability(o, u)])
                    else:
                        act = lambda: l.add_capability(o, u)
                else:
                    act = rng.choice([lambda: l.add_capability(uri=u, name=name), lambda: l.add_capability(None, u, name)])
            else:
                f = {'uri': u, 'capability': 'capabilitylist'}
                if how == 'object':
                    o = CapabilityList(uri=u)
                    ctx.ev('list_objects')
                    if rng.random() < 0.5:
                        o.describedby = d = docs.uri(rng)
                        f['ln'] = [{'rel': 'describedby', 'href': d}]
                    act = lambda: l.add_capability_list(o)
                else:
                    act = lambda: l.add_capability_list(u)
            fs = [f]
        else:
            fs = [f]
            r = resource(f)
            act = lambda: l.add(r, replace=True) if how == 'replace' else l.add(r)
        hist.append((how, fs))
        refused = False
        for x in fs:
            if x['uri'] in model and 'replace' not in how:
                refused = True
                break
            if x['uri'] in model:
                ctx.ev('replaced')
            model[x['uri']] = x
            ctx.ev('added')
        try:
            act()
            ctx.check(not refused, 'a second entry with the same URI was accepted')
        except ResourceSetDupeError:
            ctx.check(refused, 'an entry was refused as a duplicate although there is no other with its URI')
            ctx.ev('duplicates_refused')
        look(rng, ctx, l, model, caps)
    want = [docs.model(f) for f in ordered(model, caps)]
    kinds = [f.get('capability') for f in model.values()]
    if len(kinds) > 1:
        ctx.sig(C.__name__, kinds, len(hist))
    ctx.ev('unknown_capabilities', sum(1 for k in kinds if k not in docs.ORDER))
    ctx.ev('same_capability_twice', len(kinds) - len(set(kinds)))
    # the document
    if rng.random() < 0.4:
        l.up = up = docs.uri(rng)
    else:
        up = None
    if rng.random() < 0.4:
        l.describedby = de = docs.uri(rng)
    else:
        de = None
    l.pretty_xml = rng.random() < 0.5
    xml = l.as_xml()
    document(ctx, C, xml, want, up, de, 'written as string')
    if caps and rng.random() < 0.4 or not caps and rng.random() < 0.3:
        p = os.path.join(ctx.dir('w'), 'd.xml')
        l.write(p)
        with open(p, encoding='utf-8') as f:
            document(ctx, C, f.read(), want, up, de, 'written to a file')
        m = C()
        m.read(uri=p)
        ctx.eq([docs.view(r) for r in m], want, 'entries read back from a file')
    m = C()
    m.parse(str_data=xml)
    ctx.eq([docs.view(r) for r in m], want, 'entries read back')
    ctx.eq((m.up, m.describedby, m.capability), (up, de, docs.CLASSES[C.__name__][1]), 'links and type read back')
    look(rng, ctx, m, model, caps)
    # another order
    if len(model) > 1 and rng.random() < 0.6:
        fs = list(model.values())
        rng.shuffle(fs)
        n = C()
        for f in fs:
            if rng.random() < 0.1:
                n.add(resource(dict(f, length=5)))
                n.add(resource(f), replace=True)
            else:
                n.add(resource(f))
        n.ln = [dict(x) for x in l.ln]
        n.md = dict(l.md)
        n.pretty_xml = l.pretty_xml
        ctx.eq(n.as_xml(), xml, 'document of the same entries added in another order')
        ctx.ev('order_independent')


def document(ctx, C, xml, want, up, de, what):
    ctx.ev('documents')
    p = xmlw.Parsed(xml)
    ctx.eq((p.index, p.md.get('capability')), (False, docs.CLASSES[C.__name__][1]), 'type ' + what)
    ctx.eq([docs.entry_view(e) for e in p.entries], want, 'entries ' + what)
    ctx.eq(sorted((x['rel'], x['href']) for x in p.ln), sorted((r, h) for r, h in (('up', up), ('describedby', de)) if h), 'links ' + what)


def look(rng, ctx, l, model, caps):
    """Everything that can be asked, against the model."""
    want = [f['uri'] for f in ordered(model, caps)]
    ctx.eq([r.uri for r in l], want, 'order of iteration')
    ctx.eq([r.uri for r in l.resources], want, 'order of iteration of the set')
    ctx.eq(l.uris(), want, 'list of URIs')
    ctx.eq(len(l), len(model), 'length')
    ctx.ev('queries', 4)
    if want:
        ctx.eq(l.resources.first().uri, want[0], 'first entry')
    if rng.random() < 0.3:
        ctx.ev('several_iterators')
        a, got = iter(l), []
        for r in a:
            got.append(r.uri)
            ctx.eq([x.uri for x in l], want, 'inner iteration')
        ctx.eq(got, want, 'outer iteration')
    if caps:
        present = {f.get('capability') for f in model.values()}
        for name in rng.sample(NAMES, 4) + [n for n in present if n]:
            ctx.eq(bool(l.has_capability(name)), name in present, 'presence of %r' % name)
            r = l.capability_info(name)
            ctx.ev('queries')
            if name in present:
                best = [f for f in ordered(model, caps) if f.get('capability') == name]
                ctx.check(r is not None and r.capability == name, 'no entry found for %r' % name)
                ctx.eq(docs.view(r), docs.model(best[0]), 'entry found for %r' % name)
            else:
                ctx.eq(r, None, 'entry found for %r' % name)
    if model and rng.random() < 0.2:
        u = rng.choice(list(model))
        ctx.eq(docs.view(l.resources[u]), docs.model(model[u]), 'entry at its URI')
        ctx.ev('queries')
