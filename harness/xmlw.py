"""Writer and parser for ResourceSync documents that share no code with the code under test."""
import datetime, io
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr

from . import core

SM = 'http://www.sitemaps.org/schemas/sitemap/0.9'
RS = 'http://www.openarchives.org/rs/terms/'


class Unreadable(core.Violation):
    """What the code under test wrote is not what it should be."""


EPOCH = datetime.datetime(1970, 1, 1)


def when(ts):
    """W3C datetime of seconds since the epoch (exact to the microsecond for the values generated)."""
    if ts is None:
        return None
    us = round(ts * 1000000)
    d = EPOCH + datetime.timedelta(microseconds=us)
    s = d.strftime('%Y-%m-%dT%H:%M:%S') if d.year >= 1000 else '%04d-%02d-%02dT%02d:%02d:%02d' % d.timetuple()[:6]
    if d.microsecond:
        s += ('.%06d' % d.microsecond).rstrip('0')
    return s + 'Z'


def parse_when(s):
    """Seconds as (int microseconds) from the UTC forms that when() and the library write."""
    try:
        body, _, frac = s[:-1].partition('.')
        d = datetime.datetime.strptime(body + s[-1], '%Y-%m-%dT%H:%M:%SZ') - EPOCH
        int(frac or 0)
    except (ValueError, IndexError):
        raise Unreadable('not the datetime of a UTC time', got=s)
    return (d.days * 86400 + d.seconds) * 1000000 + int((frac + '000000')[:6])


def text(s):
    return escape(s).replace('\r', '&#13;')


def attrs(d):
    return ''.join(' %s=%s' % (k, quoteattr(str(v))) for k, v in d.items() if v is not None)


def doc(capability=None, entries=(), md=None, ln=(), index=False, pretty=False, decl=True, raw_md=None):
    """entries: dicts with loc, lastmod (string), md (dict), ln (list of dicts)."""
    nl = '\n' if pretty else ''
    root = 'sitemapindex' if index else 'urlset'
    item = 'sitemap' if index else 'url'
    out = []
    if decl:
        out.append('<?xml version="1.0" encoding="UTF-8"?>\n')
    out.append('<%s xmlns="%s" xmlns:rs="%s">%s' % (root, SM, RS, nl))
    for l in ln:
        out.append('<rs:ln%s/>%s' % (attrs(l), nl))
    m = {}
    if capability is not None:
        m['capability'] = capability
    m.update(md or {})
    if m:
        out.append('<rs:md%s/>%s' % (attrs(m), nl))
    for e in entries:
        out.append('<%s><loc>%s</loc>' % (item, text(e['loc'])))
        if e.get('lastmod') is not None:
            out.append('<lastmod>%s</lastmod>' % e['lastmod'])
        if e.get('md'):
            out.append('<rs:md%s/>' % attrs(e['md']))
        for l in e.get('ln', ()):
            out.append('<rs:ln%s/>' % attrs(l))
        out.append('</%s>%s' % (item, nl))
    out.append('</%s>' % root)
    return ''.join(out).encode('utf-8')


class Parsed:
    """What an independent parser sees in a document."""

    def __init__(self, data):
        try:
            root = ET.parse(io.BytesIO(data if isinstance(data, bytes) else data.encode('utf-8'))).getroot()
        except ET.ParseError as e:
            raise Unreadable('not well-formed XML: %s' % e, got=data)
        self.root = root
        self.index = root.tag == '{%s}sitemapindex' % SM
        if root.tag not in ('{%s}sitemapindex' % SM, '{%s}urlset' % SM):
            raise Unreadable('wrong root element', got=root.tag)
        self.md, self.ln, self.entries, self.other = {}, [], [], []
        self.nmd = 0
        for e in root:
            if e.tag == '{%s}md' % RS:
                self.md = dict(e.attrib)
                self.nmd += 1
            elif e.tag == '{%s}ln' % RS:
                self.ln.append(dict(e.attrib))
            elif e.tag == '{%s}%s' % (SM, 'sitemap' if self.index else 'url'):
                self.entries.append(self.entry(e))
            else:
                self.other.append(e.tag)
        self.capability = self.md.get('capability')

    def entry(self, e):
        d = {'loc': None, 'lastmod': None, 'md': {}, 'ln': [], 'other': [], 'n': [0, 0, 0]}
        for c in e:
            if c.tag == '{%s}loc' % SM:
                d['loc'] = c.text
                d['n'][0] += 1
            elif c.tag == '{%s}lastmod' % SM:
                d['lastmod'] = c.text
                d['n'][1] += 1
            elif c.tag == '{%s}md' % RS:
                d['md'] = dict(c.attrib)
                d['n'][2] += 1
            elif c.tag == '{%s}ln' % RS:
                d['ln'].append(dict(c.attrib))
            else:
                d['other'].append(c.tag)
        return d

    @property
    def locs(self):
        return [e['loc'] for e in self.entries]
