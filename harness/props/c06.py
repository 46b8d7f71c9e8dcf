"""C06 No update is lost over a history of synchronizations."""
import os

from .. import client, fsm, gen, sync, xmlw
from ..httpd import Route

ID = 'C06'
LEVEL = 'exploration'
CASES = {'quick': 450, 'thorough': 1600}
RULE = ('one case = a history of 6-30 steps (source create/update/delete with non-decreasing times, publish, baseline, incremental, '
        'failing and dry runs, local edits; the lists at the usual places, named by options or found through descriptions) against the real program '
        'with its stored start time; after every successful '
        'synchronization the destination is compared with the published source, after every step the stored time with the model; '
        'distinct = the sequence of step kinds and outcomes; non-trivial = at least one synchronization after a change')
MIN = {'client_runs': 300, 'baselines_ok': 100, 'incrementals_ok': 100, 'failed_syncs': 20, 'dry_runs': 15, 'states_checked': 300,
       'local_edits': 30, 'times_stored': 100, 'other_ways_to_lists': 300, 'named_change_lists': 100}
setup = sync.setup


class Source:
    """The source: current files, all changes so far, and what was last published."""

    def __init__(self, rng, base, style):
        self.rng, self.base, self.style = rng, base, style
        self.clock = gen.BASE + rng.randrange(0, 1000)
        self.files = {}      # name -> (data, lastmod)
        self.changes = []    # (name, change, datetime, lastmod)
        self.pub = {}
        self.npub = 0
        self.count = 0
        # how the lists are found
        self.access = rng.choice(['default'] * 5 + ['sitemap', 'other', 'description', 'sitemap.xml', 'caps'])
        self.listuri = base + '/' + {'default': 'resourcelist.xml', 'sitemap': 'resourcelist.xml', 'sitemap.xml': 'sitemap.xml'}.get(
            self.access, 'lists/all.xml')
        self.clist, self.opts = base + '/changelist.xml', []
        if self.access in ('sitemap', 'other'):
            self.opts = ['--sitemap', self.listuri]
        elif self.access == 'caps':
            self.opts = ['--capabilitylist', base + '/caps.xml']
        self.clopts = []
        if rng.random() < 0.3:
            self.clist = base + '/cl/changes.xml'
            self.clopts = ['--changelist-uri', rng.choice(['cl/changes.xml', self.clist])]
        self.site = self.listuri if self.access in ('sitemap', 'other') else base + '/resourcelist.xml'
        self.more = ['n%d' % k for k in range(9)] if rng.random() < 0.3 else []

    def tick(self):
        self.clock += self.rng.choice([0, 0, 0, 0.25, 1, 1, 2, 3600])

    def change(self):
        rng = self.rng
        self.tick()
        name = rng.choice(['a', 'b', 'c', 'd/e', 'd/f', 'g.h'] + self.more)
        if name in self.files and rng.random() < 0.4 and len(self.files) > 1:
            del self.files[name]
            self.changes.append((name, 'deleted', self.clock, None if self.style != 'lastmod' else self.clock))
            return 'deleted'
        kind = 'updated' if name in self.files else 'created'
        self.count += 1
        # length always differs from that of the version before, so the change shows
        data = b'%d:' % self.count + b'x' * self.count
        lm = self.clock
        if self.style == 'early' and rng.random() < 0.5:
            lm = self.clock - rng.choice([0.25, 1, 30])
        self.files[name] = (data, lm)
        self.changes.append((name, kind, self.clock, lm))
        return kind

    def publish(self):
        self.pub = dict(self.files)
        self.npub = len(self.changes)

    def routes(self, s):
        res = []
        for n, (d, lm) in sorted(self.pub.items()):
            res.append({'loc': self.base + '/' + n, 'lastmod': xmlw.when(lm), 'md': {'length': len(d)}})
        ch = []
        for n, c, dt, lm in self.changes[:self.npub]:
            md = {'change': c}
            if self.style != 'lastmod':
                md['datetime'] = xmlw.when(dt)
            if self.style == 'nolm':
                lm = None
            ch.append({'loc': self.base + '/' + n, 'lastmod': xmlw.when(lm), 'md': md})
        docs = s.list_docs(res, 'resourcelist', base=self.listuri)
        docs.update(s.list_docs(ch, 'changelist', base=self.clist, md={'from': '2001-01-01T00:00:00Z'}))
        if self.access == 'description':
            docs[self.base + '/.well-known/resourcesync'] = xmlw.doc('description', [{'loc': self.base + '/caps.xml', 'md': {
                'capability': 'capabilitylist'}}])
        if self.access in ('description', 'caps'):
            docs[self.base + '/caps.xml'] = xmlw.doc('capabilitylist', [{'loc': self.listuri, 'md': {'capability': 'resourcelist'}}])
        routes = {u: Route(b) for u, b in docs.items()}
        # the source serves the published version (a later one is published before it is served)
        routes.update({self.base + '/' + n: Route(d) for n, (d, lm) in self.pub.items()})
        return routes


def case(rng, ctx, i):
    s = sync.Scn(ctx, rng, local=False, nmax=1, nmaps=1, nohash=True, host='example.org')
    base = s.maps[0][0]
    style = rng.choice(['same', 'early', 'lastmod', 'nolm'])
    spec = '1.0' if style == 'lastmod' and rng.random() < 0.7 else '1.1'
    src = Source(rng, base, style)
    for _ in range(rng.randrange(6, 20) if src.more else rng.randrange(1, 5)):
        src.change()
    while not src.files:
        src.change()
    src.publish()
    dst = s.dstdir(0)
    state = None
    dirty = set()       # names edited locally since the last baseline
    # before the first baseline the destination is arbitrary
    if rng.random() < 0.5:
        for n in ['a', 'zz', 'd/e', 'q/r']:
            if rng.random() < 0.5:
                s.put(os.path.join(dst, n), b'prior', rng.choice([gen.BASE - 500, gen.BASE + 5e8, 4000000000]))
    baselined = False
    history = []
    published_at = src.clock

    def check_state(expect_same):
        nonlocal state
        ctx.ev('states_checked')
        new = sync.get_state(s, src.site)
        if expect_same:
            ctx.eq(new, state, 'stored start time changed by a run that failed, was dry or had nothing to do', history=history)
        if new is not None:
            # everything published is applied after a success; anything not yet published has a time of at least published_at
            ctx.check(new <= published_at, 'stored start time is later than any change seen', stored=new, last=published_at,
                      history=history)
        state = new

    steps = rng.randrange(6, 31)
    for k in range(steps):
        op = rng.choice(['change', 'change', 'change', 'publish', 'publish', 'baseline', 'incremental', 'incremental', 'incremental',
                         'edit', 'failing', 'dry'])
        if not baselined and op == 'incremental':
            op = 'baseline'
        if op == 'change':
            history.append('%s@%s' % (src.change(), src.clock - gen.BASE))
        elif op == 'publish':
            src.publish()
            published_at = src.clock
            history.append('publish')
        elif op == 'edit':
            ctx.ev('local_edits')
            n = rng.choice(['a', 'b', 'd/e', 'extra', 'd/x'])
            p = os.path.join(dst, n)
            if os.path.exists(p) and rng.random() < 0.4:
                os.unlink(p)
            else:
                s.put(p, b'edited locally %d' % k + b'y' * 100, rng.choice([gen.BASE, 4000000000, src.clock + 10]))
            dirty.add(n)
            history.append('edit ' + n)
        else:
            routes = src.routes(s)
            mode = 'baseline' if op == 'baseline' or not baselined or rng.random() < 0.4 else 'incremental'
            if op == 'incremental':
                mode = 'incremental'
            extra = ['--delete', '--spec-version', spec, '--tries', '2']
            fault = None
            if op == 'failing':
                names = sorted(src.pub)
                which = rng.choice(names)
                fault = rng.choice(['list404', 'listbad', 404, 500, 'trunc', 'reset', 'close'])
                if fault in ('list404', 'listbad'):
                    u = src.listuri if mode == 'baseline' else src.clist
                    if fault == 'list404':
                        del routes[u]
                    else:
                        routes[u] = Route(routes[u].body[:-20])
                else:
                    routes[base + '/' + which].plan = [fault] * 10
            if op == 'dry':
                extra.append('--dryrun')
            ctx.server.set(routes)
            before = fsm.snapshot(dst)
            r = s.run(['--' + mode] + extra + src.opts + (src.clopts if mode == 'incremental' else []) + s.map_args(rng))
            if src.access != 'default':
                ctx.ev('other_ways_to_lists')
            if src.clopts and mode == 'incremental':
                ctx.ev('named_change_lists')
            hist = '%s%s%s' % (op if op in ('failing', 'dry') else '', ' ' if op in ('failing', 'dry') else '', mode)
            history.append(hist + (' failed' if r.failed else ''))
            if op == 'dry':
                ctx.ev('dry_runs')
                if mode == 'incremental' and state is None:
                    pass
                else:
                    sync.need_clean(r, 'dry run', history=history)
                ctx.eq(fsm.diff(before, fsm.snapshot(dst)), [], 'dry run changed the destination')
                check_state(True)
                continue
            if mode == 'incremental' and state is None:
                ctx.check(r.failed, 'incremental without start time did not fail', run=r.brief())
                check_state(True)
                continue
            if fault is None:
                sync.need_clean(r, mode + ' synchronization', history=history)
            elif r.failed:
                ctx.ev('failed_syncs')
                check_state(True)
                # a broken off run may leave a partly written file; it is repaired by the repetition
                if mode == 'baseline':
                    dirty = dirty | set(src.pub)
                    baselined = False
                else:
                    for n, c, dt, lm in src.changes[:src.npub]:
                        t = lm if spec == '1.0' or style == 'lastmod' else dt
                        if t >= state:
                            pass    # considered again by the next incremental synchronization
                continue
            elif fault in ('list404', 'listbad'):
                ctx.fail('synchronization succeeded without its list', run=r.brief(), history=history)
            # success
            have = {p: v[0] for p, v in fsm.files(dst).items()}
            want = {n: d for n, (d, lm) in src.pub.items()}
            if mode == 'baseline':
                ctx.ev('baselines_ok')
                baselined = True
                dirty = set()
                ctx.eq(have, want, 'destination after baseline', history=history)
            else:
                ctx.ev('incrementals_ok')
                drop = lambda d: {n: v for n, v in d.items() if n not in dirty}
                ctx.eq(drop(have), drop(want), 'destination after incremental', history=history, ignoring=sorted(dirty))
            was, asked = state, {q['uri'] for q in s.requests if not q['uri'].endswith(('.xml', '/resourcesync'))}
            check_state(False)
            # the time stored is the latest that was met, so that the next incremental synchronization can go on from there
            if mode == 'baseline':
                met = [lm for n, (d, lm) in src.pub.items() if base + '/' + n in asked]
            else:
                met = [lm if style == 'lastmod' else dt for n, c, dt, lm in src.changes[:src.npub]] if asked else []
            if met:
                ctx.ev('times_stored')
                ctx.eq(state, float(max(met)), 'start time stored after a synchronization that downloaded something', before=was, history=history)
    ctx.note(style=style, spec=spec, base=base, history=history, access=src.access, opts=src.opts + src.clopts)
    if any('incremental' in h or 'baseline' in h for h in history):
        ctx.sig(style, spec, src.access, src.clopts[1:], [h.split('@')[0] for h in history])
