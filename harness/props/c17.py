"""C17 Pruning a change list keeps exactly what matters."""
import io

from .. import docs, gen, xmlw

ID = 'C17'
LEVEL = 'exploration'
CASES = {'quick': 90000, 'thorough': 500000}
RULE = ('one case = a random change list (few URIs, many changes, repeated and equal times, in or out of order; filled directly, in bulk or '
        'from a document), pruned by a time at, just before or just after an entry under either version, then of superseded changes, in either '
        'order and repeatedly, against a model; distinct = (sequence of (URI number, change), way, position of the time); non-trivial = at least '
        'two entries')
MIN = {'time_pruned': 15000, 'dupes_pruned': 15000, 'removed': 50000, 'kept': 30000, 'refused': 600, 'vanished': 1500, 'boundary': 8000}


def setup(ctx):
    import resync.change_list, resync.change_dump_manifest


def case(rng, ctx, i):
    from resync.change_list import ChangeList
    from resync.change_dump_manifest import ChangeDumpManifest
    from resync.resource import Resource
    n = rng.choice([0, 1, 2, 3, 4, 6, 9, 15])
    uris = ['http://example.org/%s' % c for c in 'abcdef'[:rng.choice([1, 2, 3, 6])]]
    spec = rng.choice(['1.1', '1.1', '1.0', None])
    t = gen.BASE
    ordered = rng.random() < 0.6
    incomplete = rng.random() < 0.1
    fs = []
    for k in range(n):
        t = t + rng.choice([0, 0.25, 1, 10, 0.000001]) if ordered else gen.BASE + rng.randrange(6) + rng.choice([0, 0.5])
        other = t + rng.choice([-50, 0, 50, -1, 1])
        f = {'uri': rng.choice(uris), 'change': rng.choice(['created', 'updated', 'deleted']), 'length': k}
        key, alt = ('timestamp', 'ts_datetime') if spec == '1.0' else ('ts_datetime', 'timestamp')
        if not (incomplete and rng.random() < 0.3):
            f[key] = t
        if rng.random() < 0.6:
            f[alt] = other
        fs.append(f)
    C = ChangeList if rng.random() < 0.85 else ChangeDumpManifest
    way = rng.choice(['add', 'bulk', 'document', 'changed'])
    cl = C()
    if way == 'document':
        for f in fs:
            for k in ('timestamp', 'ts_datetime'):
                if k in f:
                    f[k] = round(f[k] * 1000000) / 1000000
        es = [{'loc': f['uri'], 'lastmod': xmlw.when(f.get('timestamp')),
               'md': {k: v for k, v in (('change', f['change']), ('length', f['length']), ('datetime', xmlw.when(f.get('ts_datetime')))) if v is not None}}
              for f in fs]
        cl.parse(fh=io.BytesIO(xmlw.doc(docs.CLASSES[C.__name__][1], es)))
    else:
        rs = [Resource(**f) for f in fs]
        if way == 'bulk':
            cl.add(rs)
        elif way == 'changed':
            for f, r in zip(fs, rs):
                cl.add_changed_resources([r], change=f['change'])
        else:
            for r in rs:
                cl.add(r)
    want = [{k: (docs.us(v) if k in ('timestamp', 'ts_datetime') else v) for k, v in f.items()} for f in fs]
    ctx.note(entries=fs, spec=spec, cls=C.__name__, way=way)
    view = lambda: [docs.view(r) for r in cl]
    ctx.eq(view(), want, 'entries before pruning')

    key = 'timestamp' if spec == '1.0' else 'ts_datetime'
    times = [f[key] for f in fs if key in f]
    if rng.random() < 0.75 and times:
        x = rng.choice(times)
        at = rng.choice([x, x, x, x + 0.000001, x - 0.000001, x + 0.5, x - 0.5, min(times), max(times), max(times) + 1, min(times) - 1, 0])
        if at in times:
            ctx.ev('boundary')
    else:
        at = gen.BASE + rng.randrange(10)
    kw = {} if spec is None else {'spec_version': spec}
    order = rng.choice([['time', 'dupes'], ['dupes', 'time'], ['time'], ['dupes'], ['time', 'time'], ['dupes', 'dupes'],
                        ['dupes', 'time', 'dupes']])
    if n >= 2:
        ctx.sig([(uris.index(f['uri']), f['change']) for f in fs], order, sum(1 for f in fs if f.get(key, 0) < at))
    ctx.note(at=at, order=order)
    fs = list(zip(fs, want))
    for step in order:
        if step == 'time':
            if any(key not in f for f, w in fs):
                ctx.ev('refused')
                try:
                    got = cl.prune_updates_before(at, **kw)
                except Exception as e:
                    ctx.eq(view(), [w for f, w in fs], 'entries after a refusal')
                    return
                ctx.fail('list with an entry that lacks the time was not refused', returned=got)
            kept = [(f, w) for f, w in fs if f[key] >= at]
            got = cl.prune_updates_before(at, **kw)
            ctx.ev('time_pruned')
        else:
            first, last = {}, {}
            for k, (f, w) in enumerate(fs):
                first.setdefault(f['uri'], f['change'])
                last[f['uri']] = k
            kept = [(f, w) for k, (f, w) in enumerate(fs) if last[f['uri']] == k
                    and not (first[f['uri']] == 'created' and f['change'] == 'deleted')]
            ctx.ev('vanished', sum(1 for u in last if first[u] == 'created' and fs[last[u]][0]['change'] == 'deleted'))
            got = cl.prune_dupes()
            ctx.ev('dupes_pruned')
        ctx.eq(view(), [w for f, w in kept], 'entries kept (%s)' % step)
        ctx.eq(len(cl), len(kept), 'length after pruning (%s)' % step)
        ctx.eq(got, len(fs) - len(kept), 'number reported as removed (%s)' % step)
        ctx.ev('removed', len(fs) - len(kept))
        ctx.ev('kept', len(kept))
        fs = kept
        # once more removes nothing
        got = cl.prune_updates_before(at, **kw) if step == 'time' else cl.prune_dupes()
        ctx.eq((got, view()), (0, [w for f, w in fs]), 'pruning again (%s)' % step)
