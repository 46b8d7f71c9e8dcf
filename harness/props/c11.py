"""C11 Digests are right and are used to detect differences."""
import hashlib, os

from .. import client, fsm, gen, sync, xmlw
from ..httpd import Route

ID = 'C11'
LEVEL = 'exploration'
CASES = {'quick': 2700, 'thorough': 12000}
RULE = ('one case = (a) digests of a file with a size around block boundaries, any combination of types, repeated use, against hashlib; '
        '(b) a digest string with known, unknown and repeated types through a document; (c) an audit or baseline run with requested '
        'types over lists with any mix of listed types and content-only differences; or (d) downloads that do not match the listed '
        'length or digest; distinct = (part, types, sizes or outcomes); non-trivial = a digest was computed, parsed or compared')
MIN = {'digests_computed': 500, 'strings_parsed': 200, 'content_only_differences': 80, 'mismatches_reported': 60, 'client_runs': 120,
       'undetectable_differences': 10}
T = ['md5', 'sha-1', 'sha-256']
ATT = {'md5': 'md5', 'sha-1': 'sha1', 'sha-256': 'sha256'}
setup = sync.setup
SIZES = [0, 1, 55, 56, 63, 64, 65, 127, 128, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 49152, 65535,
         65536, 65537, 131072, 131073, 200000, (1 << 20) - 1, 1 << 20, (1 << 20) + 1]


def case(rng, ctx, i):
    x = i % 10
    if x < 4:
        compute(rng, ctx, i)
    elif x < 7:
        strings(rng, ctx)
    elif x < 9:
        runs(rng, ctx)
    else:
        mismatch(rng, ctx)


def compute(rng, ctx, i):
    from resync.hashes import Hashes
    from resync.resource import Resource
    d = ctx.dir()
    size = SIZES[(i // 10 * 4 + i % 10) % len(SIZES)] if rng.random() < 0.7 else rng.randrange(0, 60000)
    files = []
    for k in range(rng.choice([1, 1, 2])):
        p = os.path.join(d, 'f%d%s' % (k, rng.choice(['', ' x', '%41', '#1'])))
        data = rng.randbytes(size if k == 0 else rng.randrange(0, 40000))
        if rng.random() < 0.2:
            data = bytes(len(data))
        if rng.random() < 0.1:
            data = b'\r\n' * (len(data) // 2) + b'\x1a'
        with open(p, 'wb') as f:
            f.write(data)
        files.append((p, data))
    types = gen.subset(rng, T, 0.6)
    given = types + ([rng.choice(types)] if types and rng.random() < 0.2 else [])
    rng.shuffle(given)
    h = Hashes(rng.choice([list, set, tuple])(given))
    ctx.note(size=size, types=given)
    for p, data in files + files[:1]:      # the same object for several files
        if rng.random() < 0.3:
            h.compute_for_file(p, block_size=rng.choice([1 << 7, 1 << 14, 1 << 20, 384]))
        elif rng.random() < 0.5:
            h = Hashes(given, p)
        else:
            h.compute_for_file(p)
        want = gen.digests(data, types)
        for t in T:
            ctx.eq(getattr(h, ATT[t]), want.get(t), '%s of %d bytes' % (t, len(data)))
            ctx.ev('digests_computed')
        r = Resource(uri='http://example.org/x', md5='old', sha1='old', sha256='old')
        h.set(r)
        for t in T:
            ctx.eq(getattr(r, ATT[t]), want.get(t, 'old'), 'digest set on a resource')
        r = Resource(uri='http://example.org/x')
        h.set(r)
        ctx.eq(r.hash, gen.hash_attr(data, types), 'digest string of a resource')
    bad = False
    try:
        Hashes([rng.choice(['sha-512', 'MD5', 'sha1', 'sha256', '', 'crc32'])])
    except Exception:
        bad = True
    ctx.check(bad, 'an unsupported digest type was accepted')
    ctx.sig('compute', size, sorted(types))


def strings(rng, ctx):
    from resync.resource_list import ResourceList
    from resync.change_list import ChangeList
    import logging
    n = rng.randrange(1, 5)
    entries, want, reports = [], [], []
    for k in range(n):
        parts, vals, errs = [], {}, []
        for _ in range(rng.choice([1, 1, 2, 3, 3, 5])):
            t = rng.choice(T + T + ['sha-512', 'MD5', 'sha1', 'x', 'md5sum', 'sha-384'])
            v = rng.choice([hashlib.md5(rng.randbytes(3)).hexdigest(), 'abc', 'A+/=', 'a:b', 'z' * 64, hashlib.sha256(b'x').hexdigest()])
            parts.append('%s:%s' % (t, v))
            if t in [p.split(':')[0] for p in parts[:-1]]:
                errs.append(('duplicate', t))
            elif t in T:
                vals[t] = v
            else:
                errs.append(('unsupported', t))
        s = rng.choice([' ', ' ', '  ', ' \t ']).join(parts)
        if rng.random() < 0.1:
            s = ' ' + s + ' '
        entries.append({'loc': 'http://example.org/%d' % k, 'md': {'hash': s, 'length': k, 'change': 'updated',
                                                                  'datetime': '2012-01-01T00:00:00Z'}})
        want.append(vals)
        reports.append(errs)
    cls = rng.choice(['resourcelist', 'changelist'])
    if cls == 'resourcelist':
        for e in entries:
            del e['md']['change'], e['md']['datetime']
    doc = xmlw.doc(cls, entries).decode()
    recs = []

    class H(logging.Handler):
        def emit(self, r):
            recs.append(r.getMessage())
    h = H()
    lg = logging.getLogger('resync')
    old = lg.propagate
    lg.addHandler(h)
    lg.propagate = False
    try:
        o = ResourceList() if cls == 'resourcelist' else ChangeList()
        o.parse(str_data=doc)
    finally:
        lg.removeHandler(h)
        lg.propagate = old
    ctx.note(doc=doc)
    ctx.eq(len(list(o)), n, 'entries')
    for r, vals, errs, e in zip(list(o), want, reports, entries):
        ctx.ev('strings_parsed')
        ctx.eq({t: getattr(r, ATT[t]) for t in T if getattr(r, ATT[t]) is not None}, vals, 'typed values of %r' % e['md']['hash'])
        ctx.eq(r.length, e['md']['length'], 'attribute next to a digest string')
        for kind, t in errs:
            ctx.check(any(t in m and e['loc'] in m for m in recs), 'an %s digest type was not reported' % kind, type=t, records=recs)
        if not errs:
            ctx.check(not any(e['loc'] in m and 'hash' in m for m in recs), 'a good digest string was reported', records=recs)
    # written back
    p = xmlw.Parsed(o.as_xml())
    for e, vals in zip(p.entries, want):
        ctx.eq(e['md'].get('hash'), ' '.join('%s:%s' % (t, vals[t]) for t in T if t in vals) or None, 'digest string written back')
    o2 = ResourceList() if cls == 'resourcelist' else ChangeList()
    o2.parse(str_data=o.as_xml())
    ctx.eq([r.hash for r in o2], [r.hash for r in o], 'digest strings after a round trip')
    ctx.sig('strings', [sorted(v) for v in want], [sorted(set(k for k, t in e)) for e in reports])


def runs(rng, ctx):
    """Differences in nothing but content."""
    s = sync.Scn(ctx, rng, nmax=8, nmin=2, allow_none_ts=False)
    s.asked = gen.subset(rng, T, 0.5) or [rng.choice(T)]
    lm = rng.choice(['all', 'one', 'mixed', 'other'])
    for r in s.res:
        r.hashes = {'all': T, 'one': [s.asked[0]], 'mixed': gen.subset(rng, T), 'other': [t for t in T if t not in s.asked]}[lm]
    diff = []
    for r in s.res:
        data = r.data
        if rng.random() < 0.6 and data:
            k = rng.choice([0, len(data) - 1, rng.randrange(len(data))])
            data = data[:k] + bytes([data[k] ^ rng.choice([1, 128, 255])]) + data[k + 1:]
            diff.append(r)
        s.put(s.dstpath(r), data, r.ts)
    s.publish(s.list_docs([r.entry() for r in s.res], base=s.resource_list_uri()))
    same, created, updated, deleted = s.compare()
    detect = {r.uri for r in diff if set(r.hashes) & set(s.asked)}
    ctx.eq({r.uri for r in updated}, detect, 'generator: model of differences')
    ctx.ev('content_only_differences', len(detect))
    ctx.ev('undetectable_differences', len(diff) - len(detect))
    audit = rng.random() < 0.4
    argv = s.argv('audit' if audit else 'baseline', False, ['-v', '--noauth'])
    ctx.note(scn=s.brief(), argv=argv, differing=[r.uri for r in diff], detectable=sorted(detect))
    r = s.run(argv)
    sync.need_clean(r, 'run with digests')
    st = sync.status_lines(r)
    ctx.check(len(st) >= 1, 'no status', run=r.brief())
    ctx.eq((st[0][1].get('same'), st[0][1].get('to update')), (len(s.res) - len(detect), len(detect)), 'counts of an audit with digests',
           status=st)
    ctx.eq(sorted(s.downloads()), [] if audit else sorted(detect), 'resources downloaded because of digests')
    if not audit:
        after = s.dst_files()
        for x in s.res:
            if x.uri in detect:
                ctx.check(after[s.dstpath(x)][0] == x.data, 'content not repaired', uri=x.uri)
        ctx.check(not any('mismatch' in m or 'does not match' in m for n, l, m in r.logs), 'a good download was reported as mismatching',
                  logs=[m for n, l, m in r.logs if 'match' in m])
    ctx.sig('runs', audit, sorted(s.asked), lm, len(detect), len(diff))


def mismatch(rng, ctx):
    """Downloads whose digest or length is not the listed one are reported."""
    s = sync.Scn(ctx, rng, nmax=6, nmin=2)
    s.asked = gen.subset(rng, T, 0.7)
    wrong = {}
    entries = []
    incremental = rng.random() < 0.4
    for k, r in enumerate(s.res):
        r.hashes = gen.subset(rng, T, 0.7)
        e = r.entry()
        what = set()
        if 'length' in e['md'] and rng.random() < 0.4:
            e['md']['length'] += rng.choice([1, -1, 100]) if e['md']['length'] else 1
            what.add('length')
        if r.hashes:
            d = gen.digests(r.data, r.hashes)
            for t in r.hashes:
                if rng.random() < 0.35:
                    d[t] = rng.choice([d[t][:-1] + ('0' if d[t][-1] != '0' else '1'), gen.digests(b'other', [t])[t]])
                    what.add(t)
            e['md']['hash'] = ' '.join('%s:%s' % (t, d[t]) for t in r.hashes)
        if incremental:
            e['md']['change'] = rng.choice(['created', 'updated'])
            e['md']['datetime'] = xmlw.when(gen.BASE + k)
        wrong[r.uri] = {w for w in what if w == 'length' or w in s.asked}
        entries.append(e)
    base = s.maps[0][0] + ('/changelist.xml' if incremental else '/resourcelist.xml')
    s.publish(s.list_docs(entries, 'changelist' if incremental else 'resourcelist', base=base))
    argv = s.argv('incremental' if incremental else 'baseline', False, ['-v', '--noauth'] + (
        ['--from', '2001-01-01T00:00:00Z'] if incremental else []))
    ctx.note(scn=s.brief(), argv=argv, wrong={u: sorted(w) for u, w in wrong.items()})
    r = s.run(argv)
    sync.need_clean(r, 'run with wrong digests')
    ctx.eq(sorted(s.downloads()), sorted(x.uri for x in s.res), 'resources downloaded')
    words = {'length': 'size', 'md5': 'MD5', 'sha-1': 'SHA-1', 'sha-256': 'SHA-256'}
    for u, ws in wrong.items():
        lines = [l for l in r.err.splitlines() if ('match' in l or 'mismatch' in l) and (' %s of ' % u in l or ' %s, got ' % u in l)]
        got = {w for w, k in words.items() if any(k in l for l in lines)}
        ctx.eq(got, ws, 'mismatches reported for ' + u, lines=lines)
        ctx.ev('mismatches_reported', len(ws))
    for x in s.res:
        ctx.check(s.dst_files()[s.dstpath(x)][0] == x.data, 'content', uri=x.uri)
    ctx.sig('mismatch', incremental, sorted(map(sorted, wrong.values())))
