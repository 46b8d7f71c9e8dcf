"""Generators shared by the workloads."""
import hashlib

WEB_SPECIAL = ['a+b', 'x(1)', "o'k", 'a.b', 'p%20q', 'a&b', 'm;n', 'q=1', 'at@me', '~t', 'A', 'a', 'a.html', 'index.html',
               'resource_1', 'b-c', '%2e', 'x,y', 'e!', 'co:lon', 'star*', '[br]', '$dollar', 'back^', 'pipe|', 'mani.xml', 'b$']
LOCAL_SPECIAL = ['with space', 'hash#tag', 'per%cent', 'p%41q', 'ünï', '日本', 'q?x=1', 'a"b', 'back\\slash', 'tab\there', '<lt>',
                 '{b}', ' lead', 'trail ', '-dash', 'emoji😀', '.hidden']
# names that programs treat as special
NOTABLE = ['.git', 'CVS', 'lost+found', 'robots.txt', '.DS_Store', 'Thumbs.db', 'x.part', 'x.tmp', 'x.bak', 'x~', 'x.new', '.x.swp', 'f.gz', 'p.php',
           '.htaccess', 'f.lock', '.well-known', 'x.md5', 'node_modules', '__pycache__', '#x#', 'x.xml']
TOKENS = ['a', 'b', 'c', 'ab', 'abc', 'a1', 'd0', 'z9', 'file', 'data', 'pub', 'x', 'y']


def name(rng, local=False):
    r = rng.random()
    if r < 0.006:
        return rng.choice('nm') * rng.choice([100, 200, 240])
    if r < 0.04:
        n = rng.choice(NOTABLE)
        return n if local or n != '#x#' else 'x.pyc'
    if r < 0.45:
        return rng.choice(TOKENS) + (str(rng.randrange(30)) if rng.random() < 0.6 else '')
    if r < 0.75 or not local:
        return rng.choice(WEB_SPECIAL) + (str(rng.randrange(10)) if rng.random() < 0.3 else '')
    return rng.choice(LOCAL_SPECIAL) + (str(rng.randrange(10)) if rng.random() < 0.3 else '')


def relpaths(rng, n, local=False, maxdepth=4):
    """n distinct relative paths, none of which is a directory of another (also not when case is ignored)."""
    out = []
    files, dirs = set(), set()
    pool = []
    tries = 0
    while len(out) < n and tries < 60 * n + 200:
        tries += 1
        depth = rng.choice([0, 0, 0, 1, 1, 2, maxdepth])
        if pool and rng.random() < 0.5:
            d = rng.choice(pool)
        else:
            d = tuple(name(rng, local) for _ in range(depth))
        p = d + (name(rng, local),)
        if any(c in ('.', '..', '') for c in p):
            continue
        if p in files or p in dirs or any(p[:k] in files for k in range(1, len(p))):
            continue
        files.add(p)
        for k in range(1, len(p)):
            dirs.add(p[:k])
        if d:
            pool.append(d)
        out.append('/'.join(p))
    return out


def content(rng, big=False):
    r = rng.random()
    if r < 0.08:
        return b''
    if r < 0.75:
        return rng.randbytes(rng.randrange(1, 60))
    if r < 0.97 or not big:
        return rng.randbytes(rng.randrange(60, 3000))
    k = rng.choice([4096, 8192, 65536, 131072, 1 << 17, 1 << 20])
    return rng.randbytes(max(0, k + rng.choice([-1, 0, 1, 17])))


BASE = 1300000000


def ts(rng, lo=0, hi=400000, frac=True):
    """Time in the past with at most quarter second fractions."""
    t = BASE + rng.randrange(lo, hi)
    if frac and rng.random() < 0.25:
        t += rng.choice([0.25, 0.5, 0.75])
    return t


# the epoch (false as a number), ends of ranges of integers, the change of the century, a leap day
ODD_TIMES = [0, 1, 0.5, 59, 86399, 86400, 999999999, 1000000000, 951782400, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 4102444800, -1, -86400, -2000000000]


def digests(data, types):
    f = {'md5': hashlib.md5, 'sha-1': hashlib.sha1, 'sha-256': hashlib.sha256}
    return {t: f[t](data).hexdigest() for t in types}


def hash_attr(data, types):
    d = digests(data, types)
    return ' '.join('%s:%s' % (t, d[t]) for t in types) or None


def subset(rng, xs, p=0.5):
    return [x for x in xs if rng.random() < p]


HOSTS = ['example.org', 'data.example.org', 'src.example.com', 'h.test']
