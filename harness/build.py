"""Help for checks of resync-build: trees, arguments for links, reading back what was written."""
import os

from . import docs, fsm, gen, xmlw

RELS = ['up', 'describedby', 'duplicate', 'alternate', 'http://x.y/z', 'contents', 'index-of', 'é', 'http://x.Y/Rel', 'describedBy', ' up']
HREFS = ['http://example.org/a', 'http://example.org/?a=b&c=d', 'rel/ative.xml', 'http://h/é', 'x', 'http://h/a%20b#f', 'http://h/<&>"\'']
ATTS = {'type': ['text/html', 'application/xml'], 'hash': ['md5:abc'], 'length': ['0', '17'], 'path': ['/a/b', 'x y'], 'pri': ['1', '99'],
        'modified': ['2013-01-03T09:00:00Z'], 'title': ['ti tle', '<&"'], 'x': ['é']}


def link_args(rng, mode):
    """(arguments, [attributes of every expected link in order])"""
    argv, links = [], []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
        l = {'rel': rng.choice(RELS), 'href': rng.choice(HREFS)}
        atts = {k: rng.choice(ATTS[k]) for k in rng.sample(sorted(ATTS), rng.choice([0, 0, 1, 2, 4]))}
        text = ','.join([l['rel'], l['href']] + ['%s=%s' % x for x in atts.items()])
        l.update(atts)
        argv += ['--link', text] if rng.random() < 0.6 else ['--link=' + text]
        links.append(l)
    head = []
    if rng.random() < 0.35:
        u = rng.choice(HREFS)
        argv += ['--describedby-link', u]
        head.append({'rel': 'describedby', 'href': u})
    for opt, modes in (('--capabilitylist-link', ('resourcelist', 'changelist')), ('--sourcedescription-link', ('capabilitylist',))):
        if rng.random() < 0.3:
            u = rng.choice(HREFS)
            argv += [rng.choice([opt, opt.replace('list-', '-list-').replace('source', 'source-')]), u]
            if mode in modes:
                head.append({'rel': 'up', 'href': u})
    return argv, head + links


def same_links(ctx, got, want, what):
    key = lambda l: sorted(l.items())
    ctx.eq(sorted(map(key, got)), sorted(map(key, want)), 'links ' + what)


def tree(rng, root, n, links=False):
    """Files below root: rel -> (bytes, mtime)"""
    for rel in gen.relpaths(rng, n, local=True):
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(gen.content(rng))
        t = gen.ts(rng) + rng.choice([0, 0, 0.125, rng.randrange(10 ** 6) / 10 ** 6])
        os.utime(p, (t, t))
    os.makedirs(root, exist_ok=True)
    return fsm.files(root)


def describe(uri, data, mtime, hashes):
    """Fields of the entry for a file."""
    d = {'uri': uri, 'timestamp': mtime, 'length': len(data)}
    d.update({k.replace('-', ''): v for k, v in gen.digests(data, hashes).items()})
    return d


def read(ctx, run, cwd, out, before, base=None, capability=None):
    """(Parsed top document, [Parsed parts]) of what a run wrote, on standard output or at out."""
    new = {k: v[0] for k, v in fsm.files(cwd).items() if k not in before or before[k][0] != v[0]}
    gone = set(before) - set(fsm.files(cwd))
    ctx.eq(gone, set(), 'files removed by the run')
    if out is None:
        ctx.eq(sorted(new), [], 'files written although the output goes to standard output')
        text = run.out
    else:
        ctx.eq(run.out, '', 'standard output although the output goes to a file')
        rel = os.path.relpath(os.path.join(cwd, out), cwd)
        ctx.check(rel in new or rel in before, 'no file was written', wanted=rel, new=sorted(new))
        text = fsm.files(cwd)[rel][0]
        new.pop(rel, None)
    try:
        top = xmlw.Parsed(text)
    except Exception as e:
        ctx.fail('output is not one well-formed document', error=str(e), output=text[:2000])
    if capability:
        ctx.eq(top.md.get('capability'), capability, 'type of the document')
    parts = []
    if top.index:
        for u in top.locs:
            name = base(u)
            ctx.check(name in new, 'part named by the index was not written', uri=u, new=sorted(new))
            parts.append(xmlw.Parsed(new.pop(name)))
            if capability:
                ctx.eq((parts[-1].md.get('capability'), parts[-1].index), (capability, False), 'type of a part')
    ctx.eq(sorted(new), [], 'other files written')
    return top, parts
