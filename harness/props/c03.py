"""C03 Sources cannot make the client write outside its mapped directories."""
import os

from .. import fsm, gen, sync, xmlw
from ..httpd import Route

ID = 'C03'
LEVEL = 'exploration'
CASES = {'quick': 2100, 'thorough': 9000}
RULE = ('one case = a source publishing hostile URIs, paths and change entries (parent segments, absolute and encoded paths, bases '
        'extended without slash, other schemes and hosts, md paths, hostile index locations), one baseline or incremental run with '
        'victim files planted around the destination; every file-system effect is observed by an interpreter audit hook and by '
        'snapshots; distinct = (mode, kind, hostile forms used, outcome class); non-trivial = at least one hostile entry')
MIN = {'client_runs': 300, 'hostile_entries': 500, 'effects_inside': 100, 'hostile_deletes': 30}
setup = sync.setup

FORMS = ['dotdot', 'dotdot_deep', 'dotdot_mid', 'dotdot_end', 'enc_dotdot', 'enc_slash', 'backslash', 'abs_after', 'noslash', 'baseonly',
         'baseslash', 'otherhost', 'filescheme', 'abspath', 'relpath', 'dot', 'query', 'fragment', 'longname', 'nul', 'tilde', 'env',
         'unmapped', 'sibling', 'victim_abs', 'dots3', 'space', 'newline', 'pipe', 'param',
         'glued']


def hostile(rng, s, form, victims):
    """A URI that would lead outside if it were mapped carelessly."""
    base = rng.choice(s.maps)[0]
    v = rng.choice(victims)
    rel = os.path.relpath(v, s.dstdir(0))
    return {
        'dotdot': base + '/' + rel,
        'dotdot_deep': base + '/a/b/../../../../../../' + os.path.basename(v),
        'dotdot_mid': base + '/x/../../' + os.path.basename(v),
        'dotdot_end': base + '/x/..',
        'enc_dotdot': base + '/%2e%2e/' + os.path.basename(v),
        'enc_slash': base + '/..%2f' + os.path.basename(v),
        'backslash': base + '/..\\' + os.path.basename(v),
        'abs_after': base + '/' + v,
        'noslash': base + '/../' + os.path.basename(s.dstdir(0)) + 'X/new' if rng.random() < 0.5 else base + 'X/new',
        'baseonly': base,
        'baseslash': base + '/',
        'otherhost': 'http://evil.test/' + rel,
        'filescheme': 'file://' + v,
        'abspath': v,
        'relpath': os.path.relpath(v, s.cwd),
        'dot': base + '/./a/./b',
        'query': base + '/a?../../' + os.path.basename(v),
        'fragment': base + '/a#/../../' + os.path.basename(v),
        'longname': base + '/' + 'n' * 300,
        'nul': base + '/a%00/../' + os.path.basename(v),
        'tilde': base + '/~/' + os.path.basename(v),
        'env': base + '/$HOME/x',
        'unmapped': base.rsplit('/', 1)[0] + '/elsewhere/x',
        'sibling': base + '-sibling/f',
        'victim_abs': 'file:' + v,
        'dots3': base + '/.../' + 'x',
        'space': base + '/ ../' + os.path.basename(v),
        'newline': base + '/a\n/../../' + os.path.basename(v),
        'pipe': base + '/|touch ' + os.path.basename(v),
        'param': base + '/..;/' + os.path.basename(v),
        'glued': base + rng.choice(';?#-._%&:,+~!|\\@$*( xX0') + rng.choice(['', 'x', 'x/y', '/x', 'f/../f', os.path.basename(v)]),
    }[form]


def case(rng, ctx, i):
    s = sync.Scn(ctx, rng, nmax=4, nmin=0)
    s.fill_destination()
    victims = []
    for p in ['victim.txt', 'w/victim2', 'w/dstX/new', 'w/src_victim/f', 'w/' + s.maps[0][1].strip('/') + 'X/f' if not s.absdst else 'w/v3',
              'deep/er/victim']:
        q = os.path.join(ctx.casedir, p)
        s.put(q, b'victim', gen.BASE + 1000)
        victims.append(q)
    incremental = rng.random() < 0.55
    forms = rng.sample(FORMS, rng.randrange(1, 4))
    uris = []
    for f in forms:
        u = hostile(rng, s, f, victims)
        if u not in uris and u not in [r.uri for r in s.res]:
            uris.append(u)
    ctx.ev('hostile_entries', len(uris))
    delete = rng.random() < 0.7
    extra = ['--noauth'] if rng.random() < 0.7 else rng.choice([[], ['--strictauth']])
    if rng.random() < 0.5:
        extra += ['--ignore-failures']
    if rng.random() < 0.2:
        extra += ['--logger']
    extra += ['--tries', '2']
    entries = []
    good = rng.random() < 0.6
    t = gen.BASE + 2000
    ndel = 0
    for u in uris:
        c = rng.choice(['created', 'updated', 'deleted', 'deleted'])
        md = {'length': 6, 'path': rng.choice(['../victim.txt', '/../../victim.txt', victims[0], '/a'])} if rng.random() < 0.4 else {}
        if incremental:
            md.update({'change': c, 'datetime': xmlw.when(t)})
            ndel += c == 'deleted' and delete
        ln = []
        if rng.random() < 0.3:
            ln = [{'rel': rng.choice(['duplicate', 'alternate', 'describedby', 'http://www.openarchives.org/rs/terms/patch']),
                   'href': 'file://' + victims[1], 'path': '../victim.txt'}]
        entries.append({'loc': u, 'lastmod': xmlw.when(t) if rng.random() < 0.8 else None, 'md': md, 'ln': ln})
        t += 1
    ctx.ev('hostile_deletes', ndel)
    if good:
        for r in s.res:
            e = r.entry()
            if incremental:
                e['md'].update({'change': rng.choice(['created', 'updated']), 'datetime': xmlw.when(t)})
            entries.append(e)
    rng.shuffle(entries)
    uri = s.maps[0][0] + ('/changelist.xml' if incremental else '/resourcelist.xml')
    docs = s.list_docs(entries, 'changelist' if incremental else 'resourcelist', base=uri)
    if len(docs) > 1 and rng.random() < 0.3 and not s.local:   # index naming a hostile part
        idx = docs[uri]
        docs[uri] = idx.replace(b'</sitemapindex>', b'<sitemap><loc>file://%s</loc></sitemap></sitemapindex>' % victims[0].encode())
    routes = {u: Route(b'EVIL!!') for u in uris}
    s.publish(docs, extra_routes=routes)
    before = s.outside()
    argv = s.argv('incremental' if incremental else 'baseline', delete,
                  extra + (['--from', xmlw.when(gen.BASE)] if incremental else []))
    ctx.note(scn=s.brief(), argv=argv, hostile=dict(zip(forms, uris)), entries=entries)
    roots = [os.path.realpath(s.dstdir(k)) for k in range(len(s.maps))]
    # containment does not rely on the code: unprivileged process, and the monitor refuses effects outside the case directory
    r = s.run(argv)
    own = [os.path.join(os.path.realpath(s.cwd), '.resync-client-status.cfg'), os.path.join(os.path.realpath(s.cwd), 'resync-client.log')]

    def inside(kind, p):
        real = os.path.realpath(p)
        if any(real == x or real.startswith(x + os.sep) for x in roots):
            return True
        if kind == 'mkdir':     # directories leading to a mapped destination
            return any(x.startswith(real + os.sep) for x in roots)
        return p in own or (sync.own_state(p) and os.path.dirname(p) == os.path.dirname(own[0]))
    bad = [e for e in r.effects() if not inside(*e[:2])]
    ctx.eq(bad, [], 'file-system effects outside the mapped destinations', run=r.brief())
    after = {k: v for k, v in sync.drop_state(s.outside()).items() if k != 'w/resync-client.log'}
    ctx.eq(fsm.diff(before, after), [], 'something outside the mapped destinations changed', run=r.brief())
    ctx.ev('effects_inside', len(r.effects()))
    bad = [e for e in r.events if e[0] in ('subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn', 'os.fork', 'os.forkpty')]
    ctx.eq(bad, [], 'the client started another program')
    ctx.ev('outcome_' + ('clean' if r.clean else 'error'))
    ctx.sig(incremental, s.kind, sorted(forms), r.clean, delete)
