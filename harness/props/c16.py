"""C16 Comparing two lists partitions them exactly."""
import io

from .. import docs, gen, xmlw

ID = 'C16'
LEVEL = 'exploration'
CASES = {'quick': 72000, 'thorough': 400000}
RULE = ('one case = two random resource lists over a shared pool of URIs (every combination of presence; times equal, apart by fractions of, '
        'exactly or more than a second, absent on either side; lengths and digests equal, different or absent on either side), stored in either '
        'kind of container, filled in random order and ways or read from a document, compared in both directions and with themselves; plus the '
        'equality of single descriptions for several tolerances; distinct = (storage, sizes, multiset of relations); non-trivial = some URI is in '
        'both lists')
MIN = {'compared': 20000, 'same': 8000, 'updated': 8000, 'created': 8000, 'deleted': 8000, 'tolerances': 8000, 'exactly_tolerance': 1000,
       'from_document': 2000, 'ordered': 4000}
ATTRS = ['timestamp', 'length', 'md5', 'sha1', 'sha256']


def setup(ctx):
    import resync.resource_list, resync.resource


def equal(a, b, delta=1.0):
    """Descriptions of one URI, from the statement of the property."""
    ta, tb = a.get('timestamp'), b.get('timestamp')
    if (ta is None) != (tb is None):
        return False
    if ta is not None:
        d = abs(ta - tb)
        if d >= delta and d > 0:
            return False
    for k in ('length', 'md5', 'sha1', 'sha256'):
        if a.get(k) is not None and b.get(k) is not None and a[k] != b[k]:
            return False
    return True


def describe(rng, u):
    f = {'uri': u}
    if rng.random() < 0.75:
        f['timestamp'] = rng.choice([0, 0.5, 1, gen.BASE, gen.BASE + 0.25, gen.ts(rng), gen.BASE + rng.randrange(5)])
    if rng.random() < 0.6:
        f['length'] = rng.choice([0, 1, 2, 10 ** 10])
    for k in ('md5', 'sha1', 'sha256'):
        if rng.random() < 0.4:
            f[k] = rng.choice(['a', 'b', 'A', 'a1'])
    extras(rng, f)
    return f


def extras(rng, f):
    """Fields that play no part in the comparison."""
    for k, v in (('mime_type', 'text/html'), ('change', 'updated'), ('path', '/x'), ('ts_datetime', 5.0), ('capability', 'resourcelist'),
                 ('ts_at', 7.0), ('ln', [{'rel': 'up', 'href': 'http://x.y/'}])):
        f.pop(k, None)
        if rng.random() < 0.15:
            f[k] = v


def vary(rng, f):
    g = dict(f)
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        k = rng.choice(ATTRS + ['timestamp', 'timestamp'])
        how = rng.choice(['drop', 'set', 'near', 'near'])
        if how == 'drop':
            g.pop(k, None)
        elif k == 'timestamp':
            if how == 'set' or k not in g:
                g[k] = gen.BASE + rng.randrange(3)
            else:
                g[k] = g[k] + rng.choice([-2, -1, -0.75, -0.5, -0.25, 0, 0.25, 0.5, 0.75, 1, 1.25, 2, 86400, 1 - 2 ** -20, 1 + 2 ** -20])
        elif k == 'length':
            g[k] = rng.choice([0, 1, 2, 10 ** 10])
        else:
            g[k] = rng.choice(['a', 'b', 'A', 'a1'])
    extras(rng, g)
    return g


def build(rng, ctx, fs, via):
    from resync.resource import Resource
    from resync.resource_list import ResourceList, ResourceListOrdered
    fs = list(fs)
    rng.shuffle(fs)
    if via == 'document':
        es = [{'loc': f['uri'], 'lastmod': xmlw.when(f.get('timestamp')),
               'md': {k: v for k, v in (('length', f.get('length')), ('hash', ' '.join(
                   t + ':' + f[k] for k, t in (('md5', 'md5'), ('sha1', 'sha-1'), ('sha256', 'sha-256')) if k in f) or None)) if v is not None}}
              for f in fs]
        rl = ResourceList()
        rl.parse(fh=io.BytesIO(xmlw.doc('resourcelist', es)))
        ctx.ev('from_document')
        return rl
    rs = [Resource(**{k: ([dict(l) for l in v] if k == 'ln' else v) for k, v in f.items()}) for f in fs]
    if via == 'ordered':
        ctx.ev('ordered')
        rl = ResourceList(resources_class=ResourceListOrdered)
    else:
        rl = ResourceList()
    if rng.random() < 0.5:
        rl.add(rs)
    else:
        for r in rs:
            if rng.random() < 0.1:
                rl.add(Resource(uri=r.uri, length=77777))
            rl.add(r, replace=True)
    return rl


def view(rl):
    return [docs.view(r) for r in rl]


def case(rng, ctx, i):
    if rng.random() < 0.35:
        single(rng, ctx)
    pool = []
    n = rng.choice([0, 1, 2, 3, 5, 8, 12])
    while len(pool) < n:
        u = docs.uri(rng, odd=rng.random() < 0.2)
        if pool and rng.random() < 0.3:
            u = rng.choice(pool) + rng.choice(['/', 'a', '.', '-', '~', 'A', '\u00e9', '%20', '?'])
        if u not in pool:
            pool.append(u)
    dst, src = [], []
    p = rng.choice([0.2, 0.5, 0.8])
    for u in pool:
        f = describe(rng, u)
        where = 'both' if rng.random() < p else rng.choice(['dst', 'src', 'dst', 'src', 'both'])
        if where != 'src':
            dst.append(f)
        if where != 'dst':
            src.append(vary(rng, f))
    if rng.random() < 0.05:
        src = []
    if rng.random() < 0.05:
        dst = []
    vd, vs = rng.choice(['dict', 'dict', 'ordered', 'document']), rng.choice(['dict', 'dict', 'ordered', 'document'])
    ctx.note(dst=dst, src=src, storage=(vd, vs))
    a, b = build(rng, ctx, dst, vd), build(rng, ctx, src, vs)
    rels = check(ctx, a, b)
    if any(k in rels for k in ('same', 'updated')):
        ctx.sig(vd, vs, len(dst), len(src), sorted(rels.items()))
    r = rng.random()
    if r < 0.2:
        check(ctx, b, a)
    elif r < 0.3:
        ctx.eq({k for k in check(ctx, a, a)} - {'same'}, set(), 'a list differs from itself')
    elif r < 0.4:
        check(ctx, a, b)     # once more, nothing may have been used up
    elif r < 0.5:
        # the order of addition does not matter
        x, y = build(rng, ctx, dst, rng.choice(['dict', 'ordered'])), build(rng, ctx, src, rng.choice(['dict', 'ordered']))
        ctx.eq([[r.uri for r in l] for l in a.compare(b)], [[r.uri for r in l] for l in x.compare(y)], 'result depends on storage')
    hashes = {t for f in src for k, t in (('md5', 'md5'), ('sha1', 'sha-1'), ('sha256', 'sha-256')) if k in f}
    ctx.eq(set(b.hashes()), hashes, 'digest types in the list')


def check(ctx, a, b):
    ctx.ev('compared')
    va, vb = view(a), view(b)
    da, db = {v['uri']: v for v in va}, {v['uri']: v for v in vb}
    same, updated, deleted, created = a.compare(b)
    ctx.eq(view(a), va, 'the destination list was altered')
    ctx.eq(view(b), vb, 'the source list was altered')
    want = {'same': [], 'updated': [], 'created': [], 'deleted': []}
    # the views have whole microseconds
    f = lambda v: dict(v, timestamp=v['timestamp'] / 1e6) if 'timestamp' in v else v
    exact = lambda l: {r.uri: r.timestamp for r in l}
    ta, tb = exact(a), exact(b)
    for u in sorted(set(da) | set(db)):
        if u not in db:
            want['deleted'].append(u)
        elif u not in da:
            want['created'].append(u)
        else:
            x, y = dict(da[u], timestamp=ta[u]), dict(db[u], timestamp=tb[u])
            want['same' if equal(x, y) else 'updated'].append(u)
    got = {'same': same, 'updated': updated, 'created': created, 'deleted': deleted}
    for k, l in got.items():
        us = [r.uri for r in l]
        ctx.eq(us, want[k], k, lists={k2: [r.uri for r in l2] for k2, l2 in got.items()})
        ctx.eq(len(l), len(us), 'length of ' + k)
        ctx.ev(k, len(us))
    for k, l, d in (('updated', updated, db), ('created', created, db), ('deleted', deleted, da)):
        for r in l:
            ctx.eq(docs.view(r), d[r.uri], 'description reported in ' + k)
    for r in same:
        ctx.check(docs.view(r) in (da[r.uri], db[r.uri]), 'description reported in same')
    return {k: len(v) for k, v in want.items() if v}


def single(rng, ctx):
    """Equality of two descriptions."""
    from resync.resource import Resource
    f = describe(rng, 'http://example.org/a')
    g = vary(rng, f)
    if rng.random() < 0.1:
        g['uri'] += 'b'
    delta = rng.choice([0, 0.0, 0.25, 0.5, 1, 1.0, 2, 10, 3600])
    if rng.random() < 0.3 and delta and 'timestamp' in f:
        g['timestamp'] = f['timestamp'] + rng.choice([-1, 1]) * delta
        ctx.ev('exactly_tolerance')
    a, b = Resource(**f), Resource(**g)
    ctx.note(a=f, b=g, delta=delta)
    for x, y in ((a, b), (b, a)):
        ctx.ev('tolerances')
        same = f['uri'] == g['uri']
        ctx.eq(bool(x.equal(y, delta=delta)), same and equal(f, g, delta), 'equality with tolerance %s' % delta)
        ctx.eq(x == y, same and equal(f, g, 1.0), 'equality with the default tolerance')
        ctx.eq(x != y, not (same and equal(f, g, 1.0)), 'inequality with the default tolerance')
    ctx.check(a == a and a.equal(a) and not a.equal(None), 'a description differs from itself or equals nothing')
