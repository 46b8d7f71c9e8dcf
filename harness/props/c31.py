"""C31 Parsing a document from the command line reports its type and entries."""
import os, re

from .. import client, docs, fsm, gen, xmlw
from ..httpd import Route, Server

ID = 'C31'
LEVEL = 'exploration'
CASES = {'quick': 3000, 'thorough': 12000}
RULE = ('one case = one run of resync-sync --parse on a document of any type (index or not, with no or an unknown type, 0 to 130 entries, at the '
        'place the mapping gives or an explicit one, on the web or on local disk), or on one that is missing, refused, cut short, not XML, with a '
        'wrong root or a bad entry; what is printed, the requests made and the files touched are compared with the document; distinct = (type, '
        'index, entries, limit, verbose, fault); non-trivial = every case')
MIN = {'summaries': 900, 'faulty': 150, 'shown': 6000, 'cut': 100, 'exactly_at_limit': 40, 'local': 300, 'web': 700, 'index': 150, 'no_type': 60,
       'unknown_type': 60, 'mapped': 250, 'explicit': 500}
FAULTS = ['missing', 500, 'reset', 'badstatus', 'not-xml', 'root', 'loc', 'date', 'md', 'change', 'empty', 'cut']
KINDS = docs.ORDER + ['description', 'capabilitylist', 'resourcedump-manifest', 'changedump-manifest']


def setup(ctx):
    ctx.server = Server()


def entry(rng, k, kind):
    e = {'loc': 'http://example.org/%s%d' % (rng.choice(['', 'a/', 'ü', 'x+y(1)&', '%41', 'q?z=']), rng.choice([k, k, rng.randrange(9), 1000 - k])), 'md': {}}
    if rng.random() < 0.6:
        e['lastmod'] = xmlw.when(gen.ts(rng))
    if rng.random() < 0.5:
        e['md']['length'] = str(rng.randrange(5000))
    if rng.random() < 0.4:
        e['md']['hash'] = gen.hash_attr(b'%d' % k, rng.choice([['md5'], ['sha-1'], ['sha-256'], ['md5', 'sha-256']]))
    if 'change' in kind and rng.random() < 0.8:
        e['md']['change'] = rng.choice(['created', 'updated', 'deleted'])
        e['md']['datetime'] = xmlw.when(gen.ts(rng))
    if kind in ('capabilitylist', 'description'):
        e['md']['capability'] = rng.choice(docs.ORDER)
    if rng.random() < 0.1:
        e['ln'] = [{'rel': 'up', 'href': 'http://example.org/up'}]
    return e


def case(rng, ctx, i):
    cwd = ctx.dir('w')
    ctx.ev('runs')
    kind = rng.choice(KINDS)
    how = rng.random()
    cap = None if how < 0.08 else rng.choice(['other', 'ResourceList', 'resourcelistindex', 'x y']) if how < 0.16 else kind
    index = rng.random() < 0.2
    n = rng.choice([0, 1, 2, 3, 5, 9, 20, 99, 100, 101, 130])
    es = [entry(rng, k, kind) for k in range(n)]
    fault = rng.choice(FAULTS) if rng.random() < 0.2 else None
    ln = [{'rel': rng.choice(['up', 'describedby', 'index']), 'href': 'http://example.org/l%d' % k} for k in range(rng.choice([0, 0, 1, 2]))]
    if fault in ('loc', 'date', 'change'):
        es = es or [entry(rng, 0, kind)]
        bad = rng.choice(es)
        if fault == 'loc':
            bad['loc'] = ''
        elif fault == 'date':
            bad['lastmod'] = rng.choice(['yesterday', '2013-01-01T00:00:00', '2013-99-01'])
        else:
            bad['md']['change'] = 'moved'
    body = xmlw.doc(cap, es, index=index, ln=ln, md=rng.choice([{}, {'at': '2013-01-01T00:00:00Z'}]), pretty=rng.random() < 0.5)
    if fault == 'not-xml':
        body = rng.choice([b'not xml', b'<html><body>', b'{"a": 1}', body + b'<x/>'])
    elif fault == 'root':
        body = body.replace(b'urlset', b'urls').replace(b'sitemapindex', b'urls')
    elif fault == 'md':
        m = ('<rs:md capability="%s"/>' % kind).encode()
        k = body.rindex(b'</')
        body = body[:k] + m + (m if not es else b'') + body[k:]
        if not es and cap is None:
            body = body[:k] + m + m + body[k + 2 * len(m):]
    elif fault == 'empty':
        body = b''
    elif fault == 'cut':
        body = body[:rng.randrange(1, len(body.rstrip()) - 1)]
    local = rng.random() < 0.3
    mapped = rng.random() < 0.35
    name = 'resourcelist.xml' if mapped else rng.choice(['x.xml', 'resourcelist.xml', 'doc', 'a b.xml' if local else 'a%20b.xml'])
    if local:
        d = ctx.dir('site')
        if fault in (500, 'reset', 'badstatus'):
            fault = 'missing'
        if fault != 'missing':
            with open(os.path.join(d, name), 'wb') as f:
                f.write(body)
        base = rng.choice([d, os.path.relpath(d, cwd)]) if not mapped else d
        where = base + '/' + name
        ctx.server.set({})
    else:
        base = 'http://%s%s' % (rng.choice(gen.HOSTS), rng.choice(['', '/d', '/d/e']))
        where = base + '/' + name
        routes = {} if fault == 'missing' else {where: Route(body)}
        if fault in (500, 'reset', 'badstatus'):
            routes[where].plan = [fault] * 9
        # nothing else is to be read
        for e in es[:5]:
            routes[e['loc']] = Route(b'x')
        ctx.server.set(routes)
    dest = rng.choice(['dst', os.path.join(cwd, 'dst')])
    argv = []
    if not mapped or rng.random() < 0.1:
        argv += ['--sitemap', re.sub('^http:', rng.choice(['http:', 'http:', 'HTTP:', 'Http:']), where)]
    if mapped or rng.random() < 0.3:
        argv += rng.choice([['%s=%s' % (base + rng.choice(['', '/']) if mapped else 'http://other.org/x', dest)],
                            [base if mapped else 'http://other.org/x', dest]])
    verbose = rng.random() < 0.65
    limit = None
    if verbose:
        argv.append(rng.choice(['-v', '--verbose']))
    if rng.random() < 0.5:
        limit = max(1, rng.choice([1, 2, n - 1, n, n + 1, 50, 100, 1000]))
        argv += ['--max-sitemap-entries', str(limit)]
    rng.shuffle(argv) if all(a.startswith('-v') or '=' in a for a in argv) else None
    argv = [rng.choice(['--parse', '-p'])] + argv
    ctx.note(argv=argv, where=where, kind=kind, cap=cap, index=index, entries=n, fault=fault)
    before = fsm.files(ctx.casedir)
    r = client.run(ctx, cwd, argv)
    ctx.ev('local' if local else 'web')
    ctx.ev('mapped' if mapped else 'explicit')
    ctx.eq([e for e in r.effects() if '.std' not in str(e)], [], 'effects on files')
    m = re.search(r'^Parsed (.*) document with (\d+) entries', r.out, re.M)
    if not local:
        uris = [q['uri'] for q in ctx.server.log()]
        ctx.eq(uris, [where], 'requests made')
    ctx.sig(cap, index, n, limit, verbose, fault)
    if fault is not None:
        ctx.ev('faulty')
        ctx.check(r.failed, 'no error for a document that cannot be read (%s)' % fault, run=r.brief())
        ctx.check(m is None and not entries(r), 'summary of a document that cannot be read (%s)' % fault, run=r.brief())
        return
    ctx.check(not r.failed, 'the program failed', run=r.brief(), tb=r.tb)
    ctx.check(m, 'no summary', run=r.brief())
    ctx.eq(m.group(2), str(n), 'number of entries reported')
    if cap is None:
        ctx.check('unknown' in m.group(1), 'type reported for a document without one', got=m.group(1))
        ctx.ev('no_type')
    else:
        ctx.eq(m.group(1), cap, 'document type reported')
        if cap != kind:
            ctx.ev('unknown_type')
    if index:
        ctx.ev('index')
    ctx.ev('summaries')
    want = min(n, limit or 100) if verbose else 0
    got = entries(r)
    ctx.eq([k for k, s in got], list(range(want)), 'numbers of the entries shown')
    ctx.ev('shown', want)
    if want < n and verbose:
        ctx.ev('cut')
        m = re.search(r'first (\d+) entries', r.out)
        ctx.check(m and m.group(1) == str(want), 'not said that only the first entries are shown', out=r.out[:300])
    elif verbose:
        ctx.check('first' not in r.out.split('\n[')[0], 'said that only some entries are shown', out=r.out[:300])
        if n == (limit or 100):
            ctx.ev('exactly_at_limit')
    for (k, s), e in zip(got, es):
        parts = [p.strip() for p in s.strip('[] ').split(' | ')]
        ctx.eq(parts[0], e['loc'], 'URI of entry %d' % k)
        ctx.check(e.get('lastmod') is None or xmlw.parse_when(parts[1]) == xmlw.parse_when(e['lastmod']), 'time of entry %d' % k, got=s)
        ctx.check('length' not in e['md'] or e['md']['length'] in parts, 'length of entry %d' % k, got=s)
        if e['md'].get('hash'):
            ctx.check(any(h.split(':', 1)[1] in parts for h in e['md']['hash'].split()), 'digest of entry %d' % k, got=s)
        if e['md'].get('change'):
            ctx.check(any(p.startswith(e['md']['change']) for p in parts), 'change of entry %d' % k, got=s)



def entries(r):
    return [(int(a), b) for a, b in re.findall(r'^\[(\d+)\] (.*)$', r.out, re.M)]
