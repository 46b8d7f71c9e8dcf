"""Random documents through the library's classes, with a plain model of their content."""
import importlib

from . import gen

# class -> (module, capability, kind); kind: how entries are stored
CLASSES = {
    'ResourceList': ('resync.resource_list', 'resourcelist', 'sorted'),
    'ChangeList': ('resync.change_list', 'changelist', 'list'),
    'ResourceDump': ('resync.resource_dump', 'resourcedump', 'sorted'),
    'ChangeDump': ('resync.change_dump', 'changedump', 'sorted'),
    'ResourceDumpManifest': ('resync.resource_dump_manifest', 'resourcedump-manifest', 'sorted'),
    'ChangeDumpManifest': ('resync.change_dump_manifest', 'changedump-manifest', 'list'),
    'ResourceListArchive': ('resync.archives', 'resourcelist-archive', 'list'),
    'ChangeListArchive': ('resync.archives', 'changelist-archive', 'list'),
    'ResourceDumpArchive': ('resync.archives', 'resourcedump-archive', 'list'),
    'ChangeDumpArchive': ('resync.archives', 'changedump-archive', 'list'),
    'CapabilityList': ('resync.capability_list', 'capabilitylist', 'caps'),
    'SourceDescription': ('resync.source_description', 'description', 'sorted'),
}
ORDER = ['resourcelist', 'resourcedump', 'changelist', 'changedump', 'resourcelist-archive', 'resourcedump-archive',
         'changelist-archive', 'changedump-archive']


def cls(name):
    return getattr(importlib.import_module(CLASSES[name][0]), name)


def needs_change(name):
    return name in ('ChangeList', 'ChangeDumpManifest')


STRINGS = ['a', 'x y', '<>&"\'', 'ünïcödé', '日本語', '😀', 'a\tb', 'a\nb', ' lead', 'trail ', ']]>', '&amp;', '&#65;', '\u0085', '\u2028', '\ufffd',
           '\U0010ffff', '%41', 'é', 'e\u0301', '\ue000', '--', '<!--', '{ns}x', '\u00a0', 'x' * 300, '\ud7ff', '\t', '\x7f', '퟿']


def string(rng, cr=False):
    r = rng.random()
    if r < 0.5:
        s = rng.choice(STRINGS)
    elif r < 0.6:
        s = ''.join(rng.choice(STRINGS) for _ in range(3))
    else:
        s = ''.join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(0xa0, 0xd800), rng.randrange(0xe000, 0xfffe),
                                    rng.randrange(0x10000, 0x110000)])) for _ in range(rng.randrange(1, 9)))
    if cr and rng.random() < 0.1:
        s += '\r\n'
    return s


def uri(rng, odd=True):
    u = 'http://' + rng.choice(gen.HOSTS) + '/' + '/'.join(gen.name(rng) for _ in range(rng.randrange(1, 4)))
    if odd and rng.random() < 0.3:
        u += string(rng)
    elif rng.random() < 0.1:
        u += '?a=1&b=%d#f' % rng.randrange(9)
    return u


def time(rng):
    """Seconds with at most microsecond resolution, between 1970 and 2200, as a float."""
    r = rng.random()
    if r < 0.3:
        return float(rng.choice([0, 1, 86399, 951782400, 951868799, 4102444800, 2 ** 31 - 1, 2 ** 31, 7258118399, 1072915199, 1330473600]))
    t = rng.randrange(0, 7258118400)
    if r < 0.5:
        return t
    if t >= 2 ** 32:        # a float cannot tell microseconds there
        return t + rng.choice([0.5, 0.25, 0.75])
    return t + rng.choice([rng.randrange(1, 1000000), 1, 999999, 500000, 100000, 10]) / 1000000


def us(t):
    return None if t is None else round(t * 1000000)


def link(rng):
    d = {'rel': rng.choice(['up', 'describedby', 'duplicate', 'alternate', 'contents', 'http://x.y/z', string(rng)]), 'href': uri(rng)}
    if rng.random() < 0.3:
        d['mime_type'] = rng.choice(['text/html', 'application/xml', string(rng), string(rng), ''])
    if rng.random() < 0.3:
        d['pri'] = rng.choice([1, 2, 999999, 17])
    if rng.random() < 0.3:
        d['length'] = rng.choice([0, 1, 2 ** 40])
    if rng.random() < 0.2:
        d['modified'] = '2013-01-03T09:00:00Z'
    if rng.random() < 0.2:
        d['path'] = rng.choice([string(rng, True), string(rng, True), ''])
    if rng.random() < 0.2:
        d['hash'] = 'md5:abc sha-1:def'
    return d


def fields(rng, name, u):
    """Model of an entry: keyword arguments for Resource."""
    f = {'uri': u}
    p = rng.choice([0.1, 0.5, 0.9])

    def maybe(k, v):
        if rng.random() < p:
            f[k] = v()
    maybe('timestamp', lambda: time(rng))
    maybe('length', lambda: rng.choice([0, 1, 1000, 2 ** 33, rng.randrange(10 ** 6)]))
    maybe('mime_type', lambda: rng.choice(['text/html', 'application/zip', string(rng, True), string(rng, True), '']))
    maybe('md5', lambda: rng.choice(['9e107d9d372bb6826bd81d3542a419d6', 'x', 'a:b']))
    maybe('sha1', lambda: rng.choice(['da39a3ee5e6b4b0d3255bfef95601890afd80709', 'y']))
    maybe('sha256', lambda: rng.choice(['e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855', 'z=']))
    maybe('path', lambda: rng.choice(['/resources/a', string(rng, True), string(rng, True), '']))
    if needs_change(name) or rng.random() < 0.2:
        f['change'] = rng.choice(['created', 'updated', 'deleted'])
    maybe('ts_datetime', lambda: time(rng))
    if name in ('CapabilityList', 'SourceDescription') or rng.random() < 0.1:
        if rng.random() < 0.9:
            f['capability'] = rng.choice(ORDER + ['capabilitylist', 'newthing', string(rng)])
    for k in ('ts_at', 'ts_completed', 'ts_from', 'ts_until'):
        if rng.random() < 0.25:
            f[k] = time(rng)
    if rng.random() < 0.35:
        f['ln'] = [link(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    return f


def order(name, fs):
    kind = CLASSES[name][2]
    if kind == 'list':
        return list(fs)
    if kind == 'sorted':
        return sorted(fs, key=lambda f: f['uri'])
    return caps_order(fs)


def caps_order(fs):
    def key(f):
        c = f.get('capability')
        return (ORDER.index(c), '', f['uri']) if c in ORDER else (len(ORDER), c or '', f['uri'])
    return sorted(fs, key=key)


def view(r):
    """Everything a resource object says, times in microseconds."""
    d = {'uri': r.uri}
    for k in ('length', 'mime_type', 'md5', 'sha1', 'sha256', 'change', 'path', 'capability'):
        v = getattr(r, k)
        if v is not None:
            d[k] = v
    for k in ('timestamp', 'ts_datetime', 'ts_at', 'ts_completed', 'ts_from', 'ts_until'):
        v = getattr(r, k)
        if v is not None:
            d[k] = us(v)
    if r.ln:
        d['ln'] = [dict(l) for l in r.ln]
    return d


def model(f, spec='1.1', add_lastmod=False):
    """What must be seen of the fields f after they are written and read."""
    d = {k: (us(v) if k in ('timestamp', 'ts_datetime', 'ts_at', 'ts_completed', 'ts_from', 'ts_until') else v) for k, v in f.items()}
    if 'ts_datetime' in d and 'timestamp' not in d and (spec == '1.0' or add_lastmod):
        d['timestamp'] = d['ts_datetime']
    if spec == '1.0':
        d.pop('ts_datetime', None)
    if 'ln' in d:
        d['ln'] = [dict(l) for l in d['ln']]
        if not d['ln']:
            del d['ln']
    return d


def entry_view(e):
    """The same view of an entry of an independently parsed document."""
    from .xmlw import parse_when
    d = {'uri': e['loc']}
    if e['lastmod'] is not None:
        d['timestamp'] = parse_when(e['lastmod'])
    names = {'length': 'length', 'type': 'mime_type', 'change': 'change', 'path': 'path', 'capability': 'capability', 'datetime': 'ts_datetime',
             'at': 'ts_at', 'completed': 'ts_completed', 'from': 'ts_from', 'until': 'ts_until', 'hash': 'hash'}
    for k, v in e['md'].items():
        n = names.get(k, 'UNKNOWN ' + k)
        if n.startswith('ts_'):
            v = parse_when(v)
        elif n == 'length':
            v = int(v)
        d[n] = v
    for h in (d.pop('hash', None) or '').split():
        t, v = h.split(':', 1)
        d[{'md5': 'md5', 'sha-1': 'sha1', 'sha-256': 'sha256'}[t]] = v
    ln = [link_view(l) for l in e['ln']]
    if ln:
        d['ln'] = ln
    if e['other'] or max(e['n']) > 1:
        d['UNEXPECTED'] = (e['other'], e['n'])
    return d


def link_view(l):
    d = dict(l)
    if 'type' in d:
        d['mime_type'] = d.pop('type')
    for k in ('length', 'pri'):
        if k in d:
            d[k] = int(d[k])
    return d
