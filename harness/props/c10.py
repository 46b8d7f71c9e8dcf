"""C10 A disk scan lists exactly the files on disk."""
import os, re, stat, time

from .. import client, gen, xmlw

ID = 'C10'
LEVEL = 'exploration'
CASES = {'quick': 7500, 'thorough': 40000}
RULE = ('one case = a random tree (special names, deep and empty directories, symbolic links to files, directories, nothing and upwards, '
        'pipes, unreadable files and directories, odd dates and sizes), one to three possibly nested mappings, whole-mapping or '
        'explicit-path scan, excludes, digest types, length and path options, or files vanishing during the scan; the result is '
        'compared with an independent walk; distinct = (options, kinds of things present); non-trivial = something is listed or skipped')
MIN = {'scans': 500, 'files_listed': 2000, 'links_present': 200, 'excluded': 100, 'unreadable_present': 60, 'nested_mappings': 30,
       'explicit_paths': 80, 'vanishing': 20, 'special_files': 30, 'hard_links': 100, 'scan_times': 2000, 'scan_times_observed': 20}
TYPES = ['md5', 'sha-1', 'sha-256']
PATTERNS = ['a', 'b', r'.*\.bak$', r'^\.', 'file', r'.*~$', r'd\d', '.*1', '[ab]$', 'x(1)', r'.*\.xml', 'data', 'z9?$']


def setup(ctx):
    import resync.resource_list_builder, resync.mapper


def mkfile(rng, p):
    with open(p, 'wb') as f:
        f.write(gen.content(rng, True))
    t = rng.choice([gen.ts(rng), gen.ts(rng), gen.BASE + rng.randrange(10 ** 11) / 10 ** 6, 0, 1, -5.5, 86399.75, 4102444800.5, 2 ** 31 + 0.25])
    os.utime(p, (t, t))


def build(rng, ctx, base):
    """A random tree below base; returns directories."""
    dirs = [base]
    for rel in gen.relpaths(rng, rng.randrange(0, 14), local=True):
        p = os.path.join(base, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        mkfile(rng, p)
    for extra in ['x.bak', '.hid', 'n~', 'sub.xml', 'd1/deep/er/f']:
        if rng.random() < 0.2:
            p = os.path.join(base, extra)
            try:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if not os.path.lexists(p):
                    mkfile(rng, p)
            except OSError:
                pass
    for dp, dn, fn in os.walk(base):
        dirs += [os.path.join(dp, d) for d in dn]
    if rng.random() < 0.3:
        os.makedirs(os.path.join(base, 'empty', 'in'), exist_ok=True)
    if rng.random() < 0.2:      # one file under several names
        fs = [os.path.join(dp, f) for dp, _, fn in os.walk(base) for f in fn]
        for _ in range(2 if fs else 0):
            new = os.path.join(rng.choice(dirs), rng.choice(['same', 'a0', 'z.bak']))
            if not os.path.lexists(new):
                os.link(rng.choice(fs), new)
                ctx.ev('hard_links')
    return dirs


def walk(path, prune, seen, linked=()):
    """Regular files reachable below path without following links (other than roots that are), by scandir and lstat."""
    out = []
    st = os.stat(path) if os.path.lexists(path) and (path in linked or not os.path.islink(path)) else None
    if st is None:
        return out
    if stat.S_ISREG(st.st_mode):
        return [(path, None)]
    if not stat.S_ISDIR(st.st_mode):
        return out

    def rec(d):
        try:
            names = sorted(os.listdir(d))
        except OSError:
            return
        for n in names:
            p = os.path.join(d, n)
            try:
                st = os.lstat(p)
            except OSError:
                continue
            if prune(n):
                seen['excluded'] = seen.get('excluded', 0) + 1
                continue
            if stat.S_ISDIR(st.st_mode):
                rec(p)
            elif stat.S_ISREG(st.st_mode):
                out.append((p, n))
    rec(path.rstrip('/') if path != '/' else path)
    return out


def case(rng, ctx, i):
    from resync.mapper import Mapper
    from resync.resource_list_builder import ResourceListBuilder
    from resync.resource_list import ResourceList
    w = ctx.dir('w')
    os.chdir(w)
    absolute = rng.random() < 0.5
    root = w if absolute else ''
    n = rng.choice([1, 1, 2, 3])
    names = rng.sample(['dst', 'd.s+t', 'a', 'ds', 'dst2', 'p(1)', 'deep/er/x'], n)
    nested = False
    if n > 1 and rng.random() < 0.5:
        nested = True
        names[-1] = names[0] + '/' + rng.choice(['sub', 'd0', 'a'])
        ctx.ev('nested_mappings')
        if rng.random() < 0.5:
            names.reverse()
    uris = rng.sample(['http://example.org', 'http://example.org/x', 'http://h.test/~a', 'http://h.test/a(b)+', 'file:///src', '/local/src'], n)
    if len({u.rstrip('/') for u in uris}) < n:
        return
    # conflicting URIs (one URI below another with the same tail) are avoided: two files would have one URI
    if any(a != b and b.startswith(a + '/') for a in uris for b in uris):
        uris = ['http://h%d.test/p' % k for k in range(n)]
    paths = [os.path.join(root, x) for x in names]
    alldirs = []
    for p in sorted(paths, key=len):
        if rng.random() < 0.04:
            continue
        try:
            os.makedirs(p, exist_ok=True)
        except OSError:     # a file of the outer mapping is in the way
            return
        try:
            alldirs += build(rng, ctx, p)
        except OSError:
            return
    if not alldirs:
        return
    kinds = set()
    # links, special and unreadable things
    for _ in range(rng.choice([0, 1, 2, 4])):
        d = rng.choice(alldirs)
        name = os.path.join(d, rng.choice(['ln', 'link1', 'a', 'up', 'zz', 'file9']))
        target = rng.choice(['nothing', '.', '..', rng.choice(alldirs), os.path.abspath(rng.choice(alldirs)), '/etc/hostname', 'ln', '/etc'])
        fs = [os.path.join(dp, f) for dd in alldirs[:3] for dp, _, fn in os.walk(dd) for f in fn]
        if fs and rng.random() < 0.4:
            target = os.path.abspath(rng.choice(fs))
        if not os.path.lexists(name) and os.access(d, os.W_OK):
            os.symlink(target, name)
            ctx.ev('links_present')
            kinds.add('link')
    if rng.random() < 0.12:
        p = os.path.join(rng.choice(alldirs), 'pipe')
        if not os.path.lexists(p):
            os.mkfifo(p)
            ctx.ev('special_files')
            kinds.add('pipe')
    if any(os.path.lexists(p) and (os.path.islink(p) or not os.path.isdir(p)) for p in paths):
        return      # a mapping whose root is a file is not a case of this property
    explicit = None
    mode = rng.choice(['all', 'all', 'explicit'])
    linked = []
    if mode == 'all' and not nested and rng.random() < 0.15:
        p = rng.choice(paths)
        if os.path.isdir(p) and '/' not in os.path.relpath(p, root or '.'):
            os.rename(p, p + '.real')
            os.symlink(rng.choice([os.path.basename(p), os.path.abspath(p)]) + '.real', p)
            linked.append(p)
            kinds.add('linked root')
            ctx.ev('linked_roots')
    prune_pats = rng.sample(PATTERNS, rng.choice([0, 0, 1, 2, 3]))
    if mode == 'explicit':
        cands = list(alldirs)
        files = [os.path.join(dp, f) for d in paths for dp, _, fn in os.walk(d) for f in fn]
        if not prune_pats:
            cands += files
        explicit = [rng.choice(cands) for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < 0.2:
            explicit.append(os.path.join(paths[0], 'not', 'there'))
        if rng.random() < 0.2:
            explicit = [p + '/' if os.path.isdir(p) and not os.path.islink(p) else p for p in explicit]
        ctx.ev('explicit_paths')
        explicit = [p for p in explicit if not (os.path.islink(p) and os.path.isdir(p))]
        if not explicit:
            return
    hashes = gen.subset(rng, TYPES) if rng.random() < 0.5 else []
    set_length = rng.random() < 0.7
    set_path = rng.random() < 0.3
    vanishing = False
    if rng.random() < 0.25:
        for _ in range(2):
            d = rng.choice(alldirs)
            fs = [os.path.join(dp, f) for dp, _, fn in os.walk(d) for f in fn if not os.path.islink(os.path.join(dp, f))]
            if fs:
                p = rng.choice(fs)
                if os.path.isfile(p):
                    os.chmod(p, 0)
                    kinds.add('unreadable file')
                    ctx.ev('unreadable_present')
            if d not in paths and rng.random() < 0.5 and os.path.isdir(d):
                os.chmod(d, rng.choice([0, 0o400, 0o100, 0o300]))
                kinds.add('unreadable dir')
                ctx.ev('unreadable_present')
    # what the scan must return
    pats = [re.compile(p) for p in prune_pats]
    seen = {}
    want = {}
    start = explicit if explicit is not None else paths
    for p in start:
        for f, nm in walk(p, (lambda n: any(x.match(n) for x in pats)), seen, linked):
            k = next((k for k in range(n) if f.startswith(paths[k] + '/')), None)
            if k is None:
                ctx.fail('generator: no mapping', path=f)
            uri = uris[k] + f[len(paths[k]):]
            try:
                st = os.stat(f)
                data = None
                if hashes:
                    with open(f, 'rb') as fh:
                        data = fh.read()
            except OSError:
                kinds.add('skipped')
                continue
            if uri in want and want[uri][0] != f:
                return      # two files for one URI: not a case of this property
            want[uri] = (f, st.st_mtime, st.st_size, gen.digests(data, hashes) if hashes else {})
    ctx.ev('excluded', seen.get('excluded', 0))
    slash = rng.random() < 0.2
    maps = ['%s%s=%s%s' % (u, '/' if slash else '', p, '/' if slash else '') for u, p in zip(uris, paths)]
    ctx.note(maps=maps, explicit=explicit, exclude=prune_pats, hashes=hashes, length=set_length, path=set_path, kinds=sorted(kinds),
             expected=len(want))

    def scan():
        b = ResourceListBuilder(mapper=Mapper(maps), set_hashes=set(hashes) if rng.random() < 0.5 else hashes, set_length=set_length,
                                set_path=set_path)
        if prune_pats:
            b.add_exclude_patterns(prune_pats[:1])
            b.add_exclude_patterns(prune_pats[1:])
        rl = b.from_disk(paths=explicit) if explicit is not None else b.from_disk()
        return b, rl
    ctx.ev('scans')
    if hashes and want and rng.random() < 0.15:
        return vanish(rng, ctx, w, scan, want, kinds, paths)
    import logging
    logging.disable(logging.CRITICAL)
    try:
        t0 = time.time()
        b, rl = scan()
        t1 = time.time()
        got = list(rl)
        at, completed = xmlw.parse_when(rl.md_at), xmlw.parse_when(rl.md_completed)
        ctx.check(t0 * 1e6 - 2 <= at <= completed <= t1 * 1e6 + 2, 'times of the scan', at=rl.md_at, completed=rl.md_completed, before=t0, after=t1)
        ctx.ev('scan_times')
        if rng.random() < 0.2:      # in two parts: it began when the first did
            half = [p for p in (explicit or paths)][:1]
            rl2 = b.from_disk(paths=half)
            at2 = rl2.md_at
            t2 = time.time()
            twice = not any(os.path.relpath(p, half[0]).startswith('..') is False for p in (explicit or paths)[1:]) and not any(
                os.path.relpath(half[0], p).startswith('..') is False for p in (explicit or paths)[1:])
            if twice and len(explicit or paths) > 1:
                rl3 = b.from_disk(resource_list=rl2, paths=(explicit or paths)[1:])
                ctx.check(rl3 is rl2, 'not the list given was extended')
                ctx.eq(rl2.md_at, at2, 'start of a scan in two parts')
                ctx.check(xmlw.parse_when(rl2.md_completed) >= t2 * 1e6 - 2, 'end of a scan in two parts', completed=rl2.md_completed)
                ctx.eq([r.uri for r in rl2], [r.uri for r in got], 'scan in two parts')
                ctx.ev('two_parts')
        if rng.random() < 0.2:      # the same builder again
            rl = b.from_disk(paths=explicit)
            ctx.eq([r.uri for r in rl], [r.uri for r in got], 'second scan of the same builder')
    finally:
        logging.disable(logging.NOTSET)
    judge(ctx, got, want, hashes, set_length, set_path)
    ctx.ev('files_listed', len(got))
    if want or kinds:
        ctx.sig(n, nested, mode, len(prune_pats), sorted(hashes), set_length, set_path, sorted(kinds), min(len(want), 4))


def judge(ctx, got, want, hashes, set_length, set_path):
    ctx.eq(sorted(r.uri for r in got), sorted(want), 'URIs listed by the scan')
    for r in got:
        f, mtime, size, dig = want[r.uri]
        ctx.check(r.timestamp == mtime, 'time of entry', uri=r.uri, got=r.timestamp, want=mtime)
        ctx.check(r.length == (size if set_length else None), 'length of entry', uri=r.uri, got=r.length, want=size)
        ctx.eq({t: v for t, v in (('md5', r.md5), ('sha-1', r.sha1), ('sha-256', r.sha256)) if v is not None}, dig, 'digests of entry')
        if set_path:
            ctx.check(r.path is not None and os.path.normpath(r.path) == os.path.normpath(f), 'path of entry', got=r.path, want=f)
        else:
            ctx.check(r.path is None, 'unrequested path', got=r.path)


def vanish(rng, ctx, w, scan, want, kinds, tops):
    """Some files disappear in the moment the scan opens them."""
    victims = {os.path.realpath(f): u for u, (f, m, s, d) in want.items() if rng.random() < 0.5 and os.access(os.path.dirname(f), os.W_OK)}
    if not victims:
        return
    moments, tops = [], [p for p in (tops or []) for p in (p, os.path.abspath(p))]

    def pre():
        import sys
        gone = set()

        def hook(event, args):
            if event in ('open', 'os.scandir', 'os.listdir') and str(args[0]).startswith(tuple(tops)):
                moments.append(time.time())
            if event == 'open' and isinstance(args[0], str):
                p = os.path.realpath(args[0])
                if p in victims and p not in gone:
                    gone.add(p)
                    os.unlink(p)
        sys.addaudithook(hook)

    def f():
        b, rl = scan()
        return [(r.uri, r.timestamp, r.length, r.md5, r.sha1, r.sha256) for r in rl], rl.md_at, rl.md_completed, moments[:1] + moments[-1:]
    r = client.run(ctx, w, func=f, pre=pre, proxy=False)
    ctx.ev('vanishing')
    ctx.check(r.outcome == 'ok', 'a file that vanished made the scan fail', run=r.brief(), tb=r.tb)
    entries, at, completed, seen = r.value
    if seen:
        ctx.check(xmlw.parse_when(at) <= seen[0] * 1e6 + 2 and xmlw.parse_when(completed) >= seen[-1] * 1e6 - 2,
                  'times of the scan and of its first and last file-system access', at=at, completed=completed, seen=seen)
        ctx.ev('scan_times_observed')
    gone = {u for p, u in victims.items() if not os.path.exists(p)}
    ctx.eq(sorted(x[0] for x in entries), sorted(u for u in want if u not in gone), 'URIs listed when files vanish')
    ctx.sig('vanish', len(gone), len(want))
