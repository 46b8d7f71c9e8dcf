"""C19 URI/path mapping is literal, ordered and invertible."""
import os

from .. import client, fsm, gen

ID = 'C19'
LEVEL = 'exploration'
CASES = {'quick': 48000, 'thorough': 600000}
RULE = ('one case = a random set of mappings given in one of the accepted forms (bases and paths with pattern characters, common prefixes, '
        'nested and repeated ones, with and without trailing slashes), translations of many URIs and paths at and near every base in both '
        'directions against string replacement, refusals, the safety judgement against real directories (relative, through links, file URIs), '
        'and for some an actual run of a program with an unsafe or safe mapping; distinct = (mappings, form, verdicts); non-trivial = some URI '
        'is translated')
MIN = {'translated': 60000, 'refused': 60000, 'back': 30000, 'round_trips': 40000, 'dotdot': 3000, 'duplicates_refused': 800, 'bad_refused': 300, 'alone_web': 500, 'alone_local': 150,
       'unsafe': 1500, 'safe': 1500, 'program_refused': 30, 'program_ran': 10, 'second_mapping_decides': 3000, 'root_directories': 200}
# names that are prefixes of each other and full of characters special in patterns
WORDS = ['a', 'ab', 'a.b', 'a+b', 'axb', 'aab', 'a(b)', '[a]', 'a*', 'a|b', '^a', 'a$', 'a\\d', 'a\\', 'a?b', 'data', 'dat', 'data2', 'é', 'a b', '{2}', '.',
         '...', '..a', 'a..', '%2e%2e', '%20', '~', 'a;b', 'a&b', '\\1', '\\g<0>', '日']
SCHEMES = ['http://h', 'http://h.x', 'http://hxx', 'https://h', 'http://h:80', 'file:///t', '/t', 't', 'http://h/']


def setup(ctx):
    import resync.mapper, resync.client


def seg(rng):
    return rng.choice(WORDS)


def base(rng, pool):
    if pool and rng.random() < 0.4:
        return rng.choice(pool) + rng.choice(['', '/', '//', 'a', '.', '/' + seg(rng), '2', '/a', '-'])
    s = rng.choice(SCHEMES)
    for _ in range(rng.choice([0, 1, 1, 2])):
        s += '/' + seg(rng)
    return s


def path(rng, pool):
    if pool and rng.random() < 0.4:
        return rng.choice(pool) + rng.choice(['', '/', 'a', '.', '/' + seg(rng), '2'])
    return rng.choice(['', '/', '/t/', './', '../']) + '/'.join(seg(rng) for _ in range(rng.choice([1, 1, 2, 3])))


class Model:
    """Literal prefixes, in order."""

    def __init__(self, pairs):
        self.pairs = [(s.rstrip('/'), d.rstrip('/')) for s, d in pairs]

    def duplicate(self):
        return any(a[0] == b[0] or a[1] == b[1] for i, a in enumerate(self.pairs) for b in self.pairs[:i])

    @staticmethod
    def one(a, b, x, forbid):
        if x == a:
            return b + '/'
        if x[:len(a) + 1] == a + '/':
            rest = x[len(a):]
            if forbid and '..' in rest.split('/'):
                return None
            return b + rest
        return None

    def to_dst(self, u):
        for k, (s, d) in enumerate(self.pairs):
            r = self.one(s, d, u, True)
            if r is not None:
                return r, k
        return None, None

    def to_src(self, p):
        for k, (s, d) in enumerate(self.pairs):
            r = self.one(d, s, p, False)
            if r is not None:
                return r, k
        return None, None


def attempt(f, *a):
    from resync.mapper import MapperError
    try:
        return f(*a)
    except MapperError:
        return None


def case(rng, ctx, i):
    from resync.mapper import Mapper, MapperError
    from resync.client import Client
    if rng.random() < 0.22:
        safety(rng, ctx)
        return
    if rng.random() < 0.05:
        bad(rng, ctx)
        return
    if rng.random() < 0.08:
        alone(rng, ctx)
        return
    n = rng.choice([1, 1, 2, 2, 3, 5])
    srcs, dsts, pairs = [], [], []
    for _ in range(n):
        s, d = base(rng, srcs), path(rng, dsts)
        srcs.append(s.rstrip('/'))
        dsts.append(d.rstrip('/'))
        if rng.random() < 0.05:
            d = ''
            dsts[-1] = ''
        pairs.append((s + rng.choice(['', '', '/', '//']), d + rng.choice(['', '', '/', '///'])))
    m = Model(pairs)
    if n == 1 and rng.random() < 0.5:
        args, form = list(pairs[0]), 'two'
    else:
        args, form = ['%s=%s' % p for p in pairs], 'pairs'
    ctx.note(args=args)
    how = rng.choice(['new', 'new', 'client'])
    try:
        if how == 'new':
            mapper = Mapper(args, use_default_path=rng.random() < 0.5)
        else:
            c = Client()
            c.set_mappings(args)
            mapper = c.mapper
    except MapperError as e:
        ctx.check(m.duplicate(), 'mappings that are not duplicates were refused', error=str(e))
        ctx.ev('duplicates_refused')
        return
    ctx.check(not m.duplicate(), 'duplicate mappings were accepted')
    ctx.eq(len(mapper), n, 'number of mappings')
    ctx.eq(mapper.default_src_uri(), m.pairs[0][0], 'default source URI')
    verdicts = []
    for _ in range(rng.choice([10, 20])):
        u = near(rng, [s for s, d in m.pairs])
        want, k = m.to_dst(u)
        got = attempt(mapper.src_to_dst, u)
        ctx.eq(got, want, 'translation of URI %r' % u)
        ctx.ev('refused' if want is None else 'translated')
        if '..' in u.split('/'):
            ctx.ev('dotdot')
        verdicts.append(k)
        if want is not None and k:
            ctx.ev('second_mapping_decides')
        if want is not None:
            back, j = m.to_src(want)
            got = attempt(mapper.dst_to_src, want)
            ctx.eq(got, back, 'translation back of path %r' % want)
            if j == k:
                ctx.ev('round_trips')
                ctx.eq(got, u if u != m.pairs[k][0] else u + '/', 'round trip of URI %r' % u)
        p = near(rng, [d for s, d in m.pairs])
        want, k = m.to_src(p)
        got = attempt(mapper.dst_to_src, p)
        ctx.eq(got, want, 'translation of path %r' % p)
        ctx.ev('refused' if want is None else 'back')
        if want is not None:
            again, j = m.to_dst(want)
            got = attempt(mapper.src_to_dst, want)
            ctx.eq(got, again, 'translation of URI %r' % want)
            if j == k:
                ctx.ev('round_trips')
                ctx.eq(got, p if p != m.pairs[k][1] else p + '/', 'round trip of path %r' % p)
    if any(k is not None for k in verdicts):
        ctx.sig(m.pairs, form, sorted({str(k) for k in verdicts}))


def near(rng, bases):
    b = rng.choice(bases)
    r = rng.random()
    if r < 0.1:
        return b
    if r < 0.2:
        return b + '/'
    if r < 0.65:
        rest = [rng.choice(WORDS + ['..', '.', '']) if rng.random() < 0.25 else seg(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
        return b + '/' + '/'.join(rest) + rng.choice(['', '', '', '/', '?a=b', '#f', '?../x', '/..'])
    if r < 0.75:
        return b + rng.choice(['a', '.', 'b', '-', '?x', '#', ' ', '%2f'])
    if r < 0.8:
        return b[:-1] or '/'
    if r < 0.85:       # a change of one character of the base
        if not b:
            return 'x'
        k = rng.randrange(len(b))
        return b[:k] + rng.choice('aX.x/') + b[k + 1:] + '/f'
    if r < 0.9:
        return 'x' + b + '/f'
    if r < 0.95:
        return b.upper() + '/f'
    return rng.choice(['', '/', 'http://h', 'f', 'http://other/x', b + '/../' + b + '/x', '..', '/..'])


def bad(rng, ctx):
    """Arguments that are not mappings."""
    from resync.mapper import Mapper, MapperError
    args = rng.choice([['http://h/a=b=c'], ['a'], ['a', 'b', 'c'], ['a=b', 'c'], ['c', 'a=b'], ['a=b', 'c=d', 'e'], ['a=b=c', 'd=e'], ['']])
    ctx.note(args=args)
    ctx.ev('bad_refused')
    try:
        Mapper(args)
    except MapperError as e:
        return
    ctx.fail('malformed mappings were accepted')


def alone(rng, ctx):
    """A source given without a destination."""
    from resync.client import Client
    from resync.mapper import Mapper
    if rng.random() < 0.25:
        u = rng.choice(['/t', 't', './t', '/é', '../u']) + ''.join('/' + seg(rng) for _ in range(rng.choice([0, 1, 2])))
        local = True
    else:
        host = rng.choice(['', '', '', '_', '.', '..', '-', '~']) + rng.choice(
            ['h', 'h.x', 'hxx', 'example.org', 'a.b:8080', 'u:p@h', 'é.example', 'h.'])
        u = rng.choice(['http://', 'https://', 'ftp://']) + host + ''.join(
            '/' + rng.choice(WORDS + ['..', '.', '', '.git', '_', '-', '../..']) for _ in range(rng.choice([0, 1, 2, 4]))) + rng.choice(
            ['', '', '/', '//', '?q/../r', '#/f'])
        local = False
    if '=' in u:
        return
    ctx.note(alone=u)
    if rng.random() < 0.5:
        mapper = Mapper([u], use_default_path=True)
    else:
        c = Client()
        c.set_mappings([u])
        mapper = c.mapper
    ctx.eq(len(mapper), 1, 'number of mappings')
    b = u.rstrip('/')
    got = mapper.src_to_dst(b + '/x/y')
    ctx.check(got.endswith('/x/y'), 'translation below a source given alone', got=got)
    d = got[:-4]
    if local:
        ctx.ev('alone_local')
        ctx.eq(d, b, 'directory for a local source given alone')
        ctx.check(mapper.unsafe(), 'a local source that is its own destination is not unsafe')
    else:
        ctx.ev('alone_web')
        ctx.check(d != '' and all(ch.isalnum() or ch in '_-.' for ch in d), 'directory for a web source given alone is not one safe name', dir=d)
        ctx.check(d[0] not in '._' and d[-1] not in '._', 'directory for a web source given alone starts or ends with a dot or underscore', dir=d)
        ctx.check(mapper.src_to_dst(b + '/x/y') == got and mapper.dst_to_src(got) == b + '/x/y', 'translation back below a source given alone', got=got)
        ctx.check(not mapper.unsafe(), 'a web source given alone is unsafe')
    ctx.sig('alone', u)


def safety(rng, ctx):
    """unsafe() against the real directories."""
    from resync.mapper import Mapper
    root = ctx.dir('w')
    os.chdir(root)
    names = ['a', 'ab', 'a b', 'a.b', 'b', 'a%20b', 'c/d', 'c', 'c/de', 'a/b', 'é']
    link = None
    for d in names:
        os.makedirs(d, exist_ok=True)
    if rng.random() < 0.3:
        link = rng.choice(['l', 'a/l'])
        os.symlink(os.path.join(root, rng.choice(names)), link)

    def spell(d):
        """A way to name a directory."""
        r = rng.random()
        s = d
        if d == '/':
            return rng.choice(['/', '//', '/./', root + '/../../../../../../../../..'])
        if r < 0.3:
            s = os.path.join(root, d)
        elif r < 0.4:
            s = './' + d
        elif r < 0.5:
            s = rng.choice(names) + '/../' * 2 + os.path.basename(root) + '/' + d if False else 'a/../' + d
        elif r < 0.55:
            s = os.path.join(root, d).replace('/', '//', 1) if False else root + '/./' + d
        return s + rng.choice(['', '', '/', '//'])
    k = rng.choice([1, 1, 1, 2, 3])
    args, truth, rooted = [], [], False
    used = set()
    for _ in range(k):
        pick = names + ([link] * 3 if link else []) + ['.', 'new', 'new/x', 'a/new']
        s, d = rng.choice(pick), rng.choice(pick)
        kind = rng.choice(['path', 'path', 'path', 'file', 'web'])
        if rng.random() < 0.25:
            d = s + rng.choice(['', '/sub', 'x', '2', '/b/c'])
        elif rng.random() < 0.15:
            s = d + rng.choice(['/sub', 'x', '/b/c'])
        top = rng.choice(['s', 'd', 'both']) if rng.random() < 0.06 else ''
        if top:         # the root of the file system
            s, d = ('/' if top != 'd' else s), ('/' if top != 's' else d)
            rooted = True
        rs, rd = os.path.realpath(s), os.path.realpath(d)
        if kind == 'web':
            su = rng.choice(['http://example.org/', 'https://example.org', 'ftp://x']) + '/' + s
            t = False
        else:
            t = bool(top) or rs == rd or rd.startswith(rs + '/') or rs.startswith(rd + '/')
            if kind == 'file':
                from urllib.parse import quote
                su = rng.choice(['file://', 'file://', 'file:', 'FILE://', 'File:', 'file://localhost']) + quote(os.path.join(root, s)) + rng.choice(['', '/'])
            else:
                su = spell(s)
        du = spell(d)
        if su.rstrip('/') in used or du.rstrip('/') in used:
            continue
        used |= {su.rstrip('/'), du.rstrip('/')}
        args.append('%s=%s' % (su, du))
        truth.append(t)
    if not args:
        return
    ctx.note(args=args, truth=truth, link=link)
    m = Mapper(args)
    ctx.eq(bool(m.unsafe()), any(truth), 'judgement whether the mappings are unsafe')
    ctx.ev('unsafe' if any(truth) else 'safe')
    ctx.sig(sorted(zip(args, truth)) if len(args) == 1 else len(args), link)
    ctx.ev('root_directories', rooted)
    if rng.random() < 0.025 and not rooted:
        program(rng, ctx, root, args, any(truth))


def program(rng, ctx, root, args, unsafe):
    mode = rng.choice(['--baseline', '--incremental'])
    with open(os.path.join(root, 'rl.xml'), 'wb') as f:
        f.write(b'<?xml version="1.0"?><urlset xmlns="http://www.sitemaps.org/schemas/sitemap/0.9" xmlns:rs="http://www.openarchives.org/rs/terms/">'
                b'<rs:md capability="%s"/>' % (b'resourcelist' if mode == '--baseline' else b'changelist'))
        if mode == '--baseline':
            f.write(b'<url><loc>' + args[0].split('=')[0].rstrip('/').encode() + b'/not/there</loc></url>')
        f.write(b'</urlset>')
    before = fsm.snapshot(ctx.casedir, skip=('.stdout', '.stderr'))
    argv = [mode, '--delete', '--noauth', '--ignore-failures', '--sitemap', os.path.join(root, 'rl.xml')]
    if mode == '--incremental':
        argv += ['--from', '2000-01-01T00:00:00Z', '--changelist-uri', os.path.join(root, 'rl.xml')]
    r = client.run(ctx, root, argv + args)
    if unsafe:
        ctx.ev('program_refused')
        ctx.check(r.failed and 'unsafe' in r.errtext, 'the program did not refuse to synchronize with an unsafe mapping', run=r.brief())
        ctx.eq(r.effects(), [], 'effects although the mapping is unsafe')
        ctx.eq(fsm.diff(before, fsm.snapshot(ctx.casedir, skip=('.stdout', '.stderr'))), [], 'changes although the mapping is unsafe')
    else:
        ctx.check('unsafe' not in r.errtext, 'the program refused a safe mapping', run=r.brief())
        ctx.ev('program_ran')
    # an audit changes nothing and is never refused for this reason
    a = client.run(ctx, root, ['--audit', '--noauth', '--sitemap', os.path.join(root, 'rl.xml')] + args)
    ctx.check('unsafe' not in a.errtext, 'an audit was refused as unsafe', run=a.brief())
