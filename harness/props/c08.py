"""C08 Local files are deleted only when asked and only for cause; unusable lists change nothing."""
import os, re

from .. import client, fsm, gen, sync, xmlw
from ..httpd import Route

ID = 'C08'
LEVEL = 'fault_enumeration'
CASES = {'quick': 1920, 'thorough': 9000}
RULE = ('one case = a random situation and either (a) an undamaged run with or without deletion, judged by every removal seen, or '
        '(b) one damage of the list (missing, error status, connection failure, cut at a random byte, non-XML, wrong type, bad entry, '
        'empty; to the whole list or to one part of a split one; web and local; default, explicit or discovered location), judged by '
        'outcome, requests and effects; distinct = (mode, damage, place, split, how found); non-trivial = always')
MIN = {'client_runs': 400, 'damaged_runs': 250, 'part_damaged': 60, 'removals_seen': 60, 'nodelete_runs': 40,
       'files_kept_without_delete': 60, 'failed_downloads': 40, 'links': 25}
setup = sync.setup


def case(rng, ctx, i):
    r = rng.random()
    if r < 0.03:
        linked(rng, ctx)
    elif r < 0.37:
        undamaged(rng, ctx)
    else:
        damaged(rng, ctx)


def removals(r):
    return [e for e in r.events if e[0] in ('remove', 'rmdir', 'rename-from', 'truncate') and not sync.own_state(e[1])]


def undamaged(rng, ctx):
    s = sync.Scn(ctx, rng, nmax=8)
    incremental = rng.random() < 0.5
    delete = rng.random() < 0.6
    opts = ['--noauth']
    if incremental:
        inc = sync.Inc(s, nmax=9)
        inc.fill_destination()
        inc.publish()
        start = inc.start()
        opts += ['--from', xmlw.when(start)]
        opts += ['--spec-version', inc.spec] if inc.spec == '1.0' else []
        may = sorted(s.dstpath(r) for r, c, lm in inc.model(start) if c == 'deleted' and os.path.isfile(s.dstpath(r)))
        what = [(e['loc'], e['md'], e['lastmod']) for e in inc.entries()]
    else:
        s.fill_destination()
        res = list(s.res)
        s.publish(s.list_docs([r.entry() for r in s.res], base=s.resource_list_uri()))
        may = s.compare()[3]
        what = None
    # things nearby that must stay: siblings with similar names, an unmapped directory, files in the working directory
    keep = []
    for k in range(len(s.maps)):
        for d in (s.dstdir(k) + 'x', s.dstdir(k) + '.bak', os.path.join(os.path.dirname(s.dstdir(k)), 'other')):
            if all(os.path.abspath(d) != os.path.abspath(s.dstdir(j)) and not os.path.abspath(s.dstdir(j)).startswith(d + os.sep)
                   for j in range(len(s.maps))) and not os.path.exists(d) and d not in [os.path.join(s.cwd, m[0]) for m in s.maps]:
                s.put(os.path.join(d, 'a'), b'keep', gen.ts(rng))
    if rng.random() < 0.3:
        opts.append('--ignore-failures')
    failing = rng.random() < 0.45 and s.res
    if failing:     # some downloads fail, which is no cause for removing anything either
        opts += ['--tries', rng.choice(['1', '2'])]
        for x in s.res:
            if rng.random() < 0.6:
                fail_download(rng, s, x)
    argv = s.argv('incremental' if incremental else 'baseline', delete, opts)
    before = s.dst_files()
    outside = s.outside()
    ctx.note(scn=s.brief(), argv=argv, changes=what, may_delete=may)
    r = s.run(argv)
    if not failing:
        sync.need_clean(r, 'synchronization')
    elif r.failed or 'Failed to GET' in r.err:
        ctx.ev('failed_downloads')
    after = s.dst_files()
    real = {os.path.realpath(p): p for p in before}
    # what was there before and is removed; a file that is written anew counts as replaced
    removed = sorted({e[1] for e in removals(r) if not (e[1] in real and real[e[1]] in after) and (e[0] == 'rmdir' or e[1] in real)})
    gone = sorted(p for p in before if p not in after)
    ctx.ev('removals_seen', len(removed))
    real = {os.path.realpath(p): p for p in may}
    if not delete:
        ctx.ev('nodelete_runs')
        ctx.ev('files_kept_without_delete', len(may))
        ctx.eq(removed, [], 'something was removed although deletion was not enabled')
        ctx.eq(gone, [], 'files are gone although deletion was not enabled')
    else:
        bad = [p for p in removed if p not in real]
        ctx.eq(bad, [], 'removed for no cause', may=may)
        ctx.eq([p for p in gone if p not in may], [], 'gone for no cause', may=may)
    # whatever is neither deleted nor replaced is as before
    listed = {s.dstpath(x) for x in s.res}
    for p in before:
        if p not in may and p not in listed:
            ctx.check(after.get(p) == before[p], 'an unlisted file changed', path=p)
    ctx.eq(fsm.diff(sync.drop_state(outside), sync.drop_state(s.outside())), [], 'something outside the destinations changed')
    ctx.sig('undamaged', incremental, delete, s.kind, len(may), len(gone))


def linked(rng, ctx):
    """Symbolic links of the user at the destination."""
    s = sync.Scn(ctx, rng, local=False, nmaps=1, nmin=1, nmax=4, nohash=True)
    base, d = s.maps[0][0], s.dstdir(0)
    incremental, delete = rng.random() < 0.7, rng.random() < 0.7
    s.put(os.path.join(s.cwd, 'mine', 'x'), b'mine', gen.BASE)
    link = os.path.join(d, 'link')
    os.makedirs(d, exist_ok=True)
    os.symlink(os.path.join(s.cwd, 'mine', 'x'), link)
    s.put(os.path.join(d, 'plain'), b'plain', gen.BASE)
    if incremental:
        es = [{'loc': base + '/' + n, 'lastmod': None, 'md': {'change': 'deleted', 'datetime': xmlw.when(gen.BASE + k)}} for k, n in enumerate(rng.sample(['link', 'plain', 'none'], 3))]
        s.publish(s.list_docs(es, 'changelist', base=base + '/changelist.xml', md={'from': '2011-01-01T00:00:00Z'}))
        argv = s.argv('incremental', delete, ['--noauth', '--from', '2001-01-01T00:00:00Z'])
    else:
        s.publish(s.list_docs([r.entry() for r in s.res], base=s.resource_list_uri()))
        argv = s.argv('baseline', delete, ['--noauth'])
    ctx.note(scn=s.brief(), argv=argv)
    r = s.run(argv)
    sync.need_clean(r, 'synchronization')
    ctx.eq(fsm.files(os.path.join(s.cwd, 'mine')).get('x', (None,))[0], b'mine', 'file to which a link at the destination leads')
    ctx.eq(os.path.lexists(link), not (incremental and delete), 'link at the destination is there')
    ctx.eq(os.path.exists(os.path.join(d, 'plain')), not delete, 'file at the destination is there')
    ctx.ev('links', 1)
    ctx.sig('linked', incremental, delete)


def fail_download(rng, s, x):
    if s.local:
        p = s.local_path(x.uri)
        if os.path.isfile(p):
            os.remove(p)
    elif x.uri in s.routes:
        s.routes[x.uri].plan = [rng.choice([404, 500, 'reset', 'close', 'trunc', 'badstatus', 'chunktrunc'])] * 9
        s.ctx.server.set(s.routes)


def cut(rng, b):
    """A proper prefix that is not a complete document."""
    end = b.rindex(b'>')
    k = rng.choice([rng.randrange(0, end), rng.randrange(0, end), end, b.rindex(b'</'), 0, rng.randrange(max(0, end - 15), end)])
    return b[:min(k, end)]


BAD_ENTRY = {
    'noloc': (rb'<loc>[^<]*</loc>', b''), 'emptyloc': (rb'<loc>[^<]*</loc>', b'<loc></loc>'),
    'twoloc': (rb'(<loc>[^<]*</loc>)', rb'\1\1'), 'badlastmod': (rb'<lastmod>[^<]*</lastmod>', b'<lastmod>yesterday</lastmod>'),
    'badlength': (rb' length="[^"]*"', b' length="12x"'), 'badchange': (rb' change="[^"]*"', b' change="mutated"'),
    'mismatched': (rb'</loc>', b'</lox>'), 'badentity': (rb'<loc>', b'<loc>&nope;')}


def damage_doc(rng, ctx, b, capability, part):
    """(name, new body or None for a fault plan, plan) of one damage of a document."""
    other = rng.choice([c for c in ['resourcelist', 'changelist', 'capabilitylist', 'description', 'resourcedump', 'changedump',
                                    'resourcedump-manifest', 'changelist-archive', capability + '-archive'] if c != capability])
    names = ['cut', 'cut', 'html', 'othertype', 'zero', 'text', 'binary', 'entry', 'wrongroot', 'unclosed']
    name = rng.choice(names)
    if name == 'cut':
        return name, cut(rng, b)
    if name == 'html':
        return name, b'<html><head><title>503</title></head><body><p>Service Unavailable<br></body></html>'
    if name == 'othertype':
        return name + ' ' + other, b.replace(b'capability="%s"' % capability.encode(), b'capability="%s"' % other.encode())
    if name == 'zero':
        return name, b''
    if name == 'text':
        return name, b'Not here\n'
    if name == 'binary':
        return name, rng.randbytes(300)
    if name == 'wrongroot':
        root = b'sitemapindex' if b'<sitemapindex' in b else b'urlset'
        return name, b.replace(root, rng.choice([b'feed', b'rss', b'Urlset', b'urlsets']))
    if name == 'unclosed':
        return name, re.sub(rb'</(url|sitemap)>', b'', b, count=1) if re.search(rb'</(url|sitemap)>', b) else cut(rng, b)
    kinds = [k for k in sorted(BAD_ENTRY) if re.search(BAD_ENTRY[k][0], b)]
    k = rng.choice(kinds)
    hits = list(re.finditer(BAD_ENTRY[k][0], b))
    h = rng.choice(hits)
    new = h.expand(BAD_ENTRY[k][1])
    return 'entry ' + k, b[:h.start()] + new + b[h.end():]


FAULTS = [404, 500, 503, 403, 'reset', 'close', 'badstatus']


def damaged(rng, ctx):
    s = sync.Scn(ctx, rng, nmax=8, nmin=1)
    incremental = rng.random() < 0.5
    capability = 'changelist' if incremental else 'resourcelist'
    opts = ['--noauth'] if rng.random() < 0.7 else []
    split = rng.random() < 0.5
    how = rng.choice(['default', 'explicit', 'capability'])
    uri = s.maps[0][0] + '/' + capability + '.xml'
    if how != 'default':
        uri = s.maps[0][0] + '/' + rng.choice(['list.xml', 'l/rl.xml', 'r'])
    if incremental:
        inc = sync.Inc(s, nmax=9, spec='1.1')
        while not inc.changes:
            inc = sync.Inc(s, nmax=9, spec='1.1')
        inc.fill_destination()
        entries = inc.entries()
        res = inc.present
        opts += ['--from', '2001-01-01T00:00:00Z']
        if how != 'default':
            opts += ['--changelist-uri', uri]
            if s.kind == 'rel':
                opts[-1] = uri[len(s.maps[0][0]) + 1:]
        how = 'default' if how == 'default' else 'explicit'
    else:
        s.fill_destination()
        entries = [r.entry() for r in s.res]
        res = s.res
    docs = s.list_docs(entries, capability, base=uri, split=split, md={'from': '2011-01-01T00:00:00Z'} if incremental else None)
    order = list(docs)
    parts = [u for u in order if u != uri]
    target = rng.choice(parts) if parts and rng.random() < 0.7 else uri
    if not incremental and how == 'explicit':
        opts += ['--sitemap', uri]
    if not incremental and how == 'capability':
        cl = s.maps[0][0] + '/caps.xml'
        docs[cl] = xmlw.doc('capabilitylist', [{'loc': uri, 'md': {'capability': 'resourcelist'}}])
        opts += ['--capabilitylist', cl]
    kind = rng.choice(['fault', 'doc', 'doc', 'doc', 'special'])
    post = None
    plan = []
    if kind == 'special':
        choices = ['noindex', 'multifile'] if parts else []
        if not incremental:
            choices += ['empty', 'emptyparts']
        else:
            choices += ['notype']
        name = rng.choice(choices) if choices else 'cut'
        if name == 'noindex':      # a part refers to an index instead of being a list
            target = rng.choice(parts)
            docs[target] = docs[uri]
        elif name == 'empty':
            for p in parts:
                del docs[p]
            target = uri
            docs[uri] = xmlw.doc(capability, [], md={'at': '2019-01-01T00:00:00Z'}, index=rng.random() < 0.3)
        elif name == 'emptyparts':
            target = uri
            docs.update(s.list_docs([], capability, base=uri))
            if parts:
                docs[uri] = xmlw.doc(capability, [{'loc': p} for p in parts], index=True)
                for p in parts:
                    docs[p] = xmlw.doc(capability, [])
        elif name == 'multifile':
            target = uri
            opts.append('--multifile')
        elif name == 'notype':
            target = uri
            docs[uri] = re.sub(rb'capability="[^"]*"', b'', docs[uri], count=1)
        else:
            docs[target] = cut(rng, docs[target])
    elif kind == 'doc':
        name, body = damage_doc(rng, ctx, docs[target], capability, target != uri)
        docs[target] = body
    elif s.local:
        name = rng.choice(['missing', 'unreadable', 'directory'])
        body = docs.pop(target)

        def post(p=s.local_path(target)):
            if name == 'unreadable':
                s._write(target, body)
                os.chmod(p, 0)
            elif name == 'directory':
                os.makedirs(p)
    else:
        name = rng.choice(FAULTS)
        plan = [name] * 30
    s.publish(docs, res)
    if post:
        post()
    if plan:
        s.routes[target].plan = plan
        ctx.server.set(s.routes)
    if rng.random() < 0.5:
        sync.set_state(s, gen.BASE + 3)
    argv = s.argv('incremental' if incremental else 'baseline', rng.random() < 0.8, opts)
    if rng.random() < 0.4:
        argv.insert(1, '--ignore-failures')
    before = fsm.snapshot(s.cwd)
    ctx.note(scn=s.brief(), argv=argv, damage=name, to=target, docs={u: b[:3000] for u, b in docs.items()})
    r = s.run(argv)
    ctx.ev('damaged_runs')
    if target != uri:
        ctx.ev('part_damaged')
    ctx.check(r.failed, 'a synchronization with an unusable list did not end with an error', damage=name, to=target, run=r.brief())
    ctx.eq(s.downloads(), [], 'resources were downloaded although the list is unusable', damage=name)
    ctx.eq(r.effects(), [], 'file-system effects although the list is unusable', damage=name)
    ctx.eq(fsm.diff(before, fsm.snapshot(s.cwd)), [], 'something changed although the list is unusable', damage=name)
    ctx.sig('damaged', incremental, str(name), target != uri, split, how, s.kind)
