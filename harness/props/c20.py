"""C20 W3C datetimes are read and written exactly."""
import datetime, os, re, time
from fractions import Fraction
from math import ulp

from .. import docs, gen, xmlw

ID = 'C20'
LEVEL = 'exploration'
CASES = {'quick': 120000, 'thorough': 900000}
RULE = ('one case = (a) a random time from 1970 to 2200 (whole, microsecond and finer fractions, calendar boundaries) written and read through the '
        'functions or the accessors of the classes, or (b) a random string of the format, at or just outside of the range of every field, or '
        'mutated, read and compared with a strict independent reader; in one of eight local time zones; distinct = the string; non-trivial = '
        'always')
MIN = {'written': 10000, 'read_valid': 7000, 'refused': 6000, 'offsets': 2000, 'fractions': 3000, 'zones': 1000, 'accessors': 5000, 'leap_days': 200}
ASSUMPTIONS = ['the sign of numeric zone offsets is inverted in the code and pinned by its tests: reported as known finding, any other value '
               'for a time with an offset is a violation', 'white space after a datetime is not judged']
# names of POSIX zones, to be independent of installed zone files
ZONES = ['UTC', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'LINT-14', 'Y12', 'CET-1CEST,M3.5.0,M10.5.0/3', 'NST3:30NDT', 'ACST-9:30ACDT']
FORM = re.compile(r'([0-9]{4})(?:-([0-9]{2})(?:-([0-9]{2})(?:T([0-9]{2}):([0-9]{2})(?::([0-9]{2})(\.[0-9]+)?)?(Z|[+-][0-9]{2}:[0-9]{2}))?)?)?')
WRITTEN = re.compile(r'[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}(\.[0-9]{1,9})?Z')
EPOCH = datetime.datetime(1970, 1, 1)
INSTANTS = [0, 1, 59, 60, 86399, 86400, 951782399, 951782400, 951868800, 1330473600, 4107542399, 4107542400, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1,
            2 ** 32, 7258118399, 1351386000, 1351389600, 1331449200, 1672531199]


def setup(ctx):
    import resync.w3c_datetime, resync.resource, resync.resource_container
    import warnings
    warnings.simplefilter('ignore', DeprecationWarning)


def read(s):
    """(UTC seconds as a fraction if the offset is 0, offset in seconds) or None, independently."""
    m = FORM.fullmatch(s)
    if not m:
        return None
    y, mo, d, h, mi, se, fr, tz = m.groups()
    try:
        dt = datetime.datetime(int(y), int(mo or 1), int(d or 1), int(h or 0), int(mi or 0), int(se or 0))
    except ValueError:
        return None
    off = 0
    if tz and tz != 'Z':
        hh, mm = int(tz[1:3]), int(tz[4:])
        if hh > 23 or mm > 59:
            return None
        off = (hh * 60 + mm) * 60 * (1 if tz[0] == '+' else -1)
    e = dt - EPOCH
    return Fraction(e.days * 86400 + e.seconds) + Fraction('0' + fr if fr else 0), off


def close(got, want):
    return abs(Fraction(got) - want) <= max(Fraction(1, 10 ** 6), 2 * Fraction(ulp(float(want))))


def case(rng, ctx, i):
    zone = ZONES[i // 8 % len(ZONES)]
    os.environ['TZ'] = zone
    time.tzset()
    ctx.ev('zones', zone != 'UTC')
    try:
        for _ in range(2):
            (writing if rng.random() < 0.45 else reading)(rng, ctx, zone)
    finally:
        os.environ['TZ'] = 'UTC'
        time.tzset()


def writing(rng, ctx, zone):
    from resync.w3c_datetime import datetime_to_str, str_to_datetime
    from resync.resource import Resource
    from resync.resource_list import ResourceList
    r = rng.random()
    t = rng.choice(INSTANTS) if r < 0.25 else rng.randrange(0, 7258118400)
    r = rng.random()
    if r < 0.25:
        t = t + rng.choice([-1, 0, 1]) if t else t
    elif r < 0.5:
        t = t + rng.choice([1, 10, 999999, 500000, 499999, 123456, rng.randrange(1000000)]) / 1000000
    elif r < 0.65:
        t = t + rng.random()
    elif r < 0.7:
        t = t + rng.choice([0.9999995, 0.9999994, 0.9999999, 0.0000004, 0.0000005, 0.0000006, 0.1, 0.3, 1e-9])
    elif r < 0.8:
        t = float(t)
    if not 0 <= t < 7258118400:
        t = 86400.5
    ctx.note(time=repr(t), zone=zone)
    ctx.ev('written')
    how = rng.random()
    if how < 0.55:
        s = datetime_to_str(t)
        back = str_to_datetime(s)
    elif how < 0.85:
        ctx.ev('accessors')
        att, acc = rng.choice([('timestamp', 'lastmod'), ('ts_datetime', 'datetime'), ('ts_at', 'md_at'), ('ts_completed', 'md_completed'),
                               ('ts_from', 'md_from'), ('ts_until', 'md_until')])
        s = getattr(Resource(uri='http://e.org/', **{att: t}), acc)
        r2 = Resource(uri='http://e.org/')
        if rng.random() < 0.5:
            setattr(r2, acc, s)
        else:
            r2 = Resource(uri='http://e.org/', **{acc: s})
        back = getattr(r2, att)
    elif how < 0.95:
        ctx.ev('accessors')
        acc = rng.choice(['md_at', 'md_completed', 'md_from', 'md_until'])
        l = ResourceList()
        setattr(l, acc, t)
        s = getattr(l, acc)
        back = str_to_datetime(s)
    else:
        s = datetime_to_str(t, no_fractions=True)
        ctx.check('.' not in s, 'fraction of a second although none was wanted', s=s)
        t = int(t)
        back = str_to_datetime(s)
        lo = time.time()
        now = str_to_datetime(datetime_to_str())
        ctx.check(lo - 1e-5 <= now <= time.time() + 1e-5, 'current time', now=now, lo=lo)
        ctx.eq(datetime_to_str(None), None, 'no time as a string')
    ctx.sig('w', s)
    ctx.check(WRITTEN.fullmatch(s) is not None, 'what is written is not a W3C datetime in UTC', written=s, time=repr(t))
    w = read(s)
    ctx.check(w is not None and abs(w[0] - Fraction(t)) <= Fraction(1, 10 ** 6), 'what is written is another instant', written=s, time=repr(t))
    ctx.check(abs(Fraction(back) - Fraction(t)) <= Fraction(1, 10 ** 6), 'time written and read back', time=repr(t), written=s, back=repr(back))
    if isinstance(t, int):
        ctx.eq(back, t, 'whole seconds written and read back')


def pick(rng, lo, hi):
    return '%02d' % rng.choice([lo, hi, hi + 1, rng.randrange(0, 100), rng.randrange(lo, hi + 1), rng.randrange(lo, hi + 1), rng.randrange(lo, hi + 1)])


def reading(rng, ctx, zone):
    from resync.w3c_datetime import str_to_datetime
    y = rng.choice(['%04d' % rng.randrange(1900, 2300)] * 3 + ['%04d' % rng.randrange(1, 10000), '%04d' % rng.randrange(0, 120), '1970', '2000', '2100'])
    s = y
    r = rng.random()
    if r < 0.96:
        s += '-' + pick(rng, 1, 12)
    if r < 0.90:
        s += '-' + pick(rng, 1, rng.choice([28, 28, 29, 30, 31]))
    if rng.random() < 0.08:
        s = '%04d-02-%s' % (rng.choice([2000, 1900, 2012, 2013, 2100, 2096, 2400]), rng.choice(['28', '29', '30']))
        ctx.ev('leap_days')
        r = 0
    if r < 0.85:
        s += 'T' + pick(rng, 0, 23) + ':' + pick(rng, 0, 59)
        if rng.random() < 0.8:
            s += ':' + pick(rng, 0, 59)
            if rng.random() < 0.4:
                s += '.' + rng.choice(['0', '5', '25', '000001', '999999', '123456789', '9999999', '00', '1' * 30, '%06d' % rng.randrange(10 ** 6)])
                ctx.ev('fractions')
        s += rng.choice(['Z', 'Z', 'Z', '+' + pick(rng, 0, 23) + ':' + pick(rng, 0, 59), '-' + pick(rng, 0, 12) + ':' + pick(rng, 0, 59),
                         '+00:00', '-00:00', '+01:00', '-05:00', '+05:30', ''])
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        if not s:
            break
        j = rng.randrange(len(s))
        c = rng.choice(' :-+.TZztW0９٣x/\t,')
        s = rng.choice([s[:j] + s[j + 1:], s[:j] + c + s[j:], s[:j] + c + s[j + 1:], s + c, c + s, s[:j], s.replace('T', ' '), s.replace('-', ''),
                        s.lower(), s + s, '"%s"' % s, s.replace('Z', ' Z'), s.replace('.', ',')])
    if s.rstrip() != s:
        return
    ctx.note(string=s, zone=zone)
    ctx.sig('r', s)
    want = read(s)
    try:
        got = str_to_datetime(s)
    except ValueError:
        got = None
        if want is not None:
            ctx.fail('a datetime of the format was refused', string=s)
        ctx.ev('refused')
        return
    if want is None:
        ctx.fail('what is no valid datetime was accepted', string=s, got=repr(got))
    base, off = want
    ctx.ev('read_valid')
    if off == 0:
        ctx.check(close(got, base), 'datetime read as another time', string=s, got=repr(got), expected=float(base))
        return
    ctx.ev('offsets')
    if close(got, base - off):
        return
    if close(got, base + off):
        ctx.known('offset-sign', 'datetime with a zone offset read with the sign of the offset inverted', string=s, got=repr(got))
        return
    ctx.fail('datetime with a zone offset read as another time', string=s, got=repr(got), expected=float(base - off))
