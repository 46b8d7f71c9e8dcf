"""C28 Resource collections keep unique keys, order and iterators apart."""
import threading

from .. import docs, gen

ID = 'C28'
LEVEL = 'exploration'
CASES = {'quick': 210000, 'thorough': 900000}
RULE = ('one case = a random history of operations (additions one by one and in bulk from lists, tuples, generators and other collections, with '
        'repeated URIs with and without replacement, removals from the storage, lookups, several iterations begun, advanced in random turns, abandoned and finished, in some '
        'cases by several threads at once) on one of fourteen kinds of collection against a sequential model; distinct = (kind, operations, '
        'sizes); non-trivial = at least two entries')
MIN = {'added': 60000, 'duplicates_refused': 8000, 'replaced': 4000, 'queries': 100000, 'iterators': 60000, 'interleaved_steps': 100000,
       'bulk_adds': 10000, 'threads': 200, 'removed': 6000, 'empty': 500, 'same_again': 5000}
KINDS = ['ResourceList', 'ResourceList', 'ResourceListOrdered', 'ResourceListOrdered', 'ResourceDump', 'ResourceDumpManifest', 'ChangeList',
         'ChangeDumpManifest', 'ChangeDump', 'ResourceListArchive', 'ChangeListArchive', 'SourceDescription', 'CapabilityList', 'ResourceSet',
         'ResourceListDict', 'OrderedDict', 'ResourceContainer', 'ListBase']


def setup(ctx):
    import resync.resource_list, resync.resource_set, resync.resource_container, resync.capability_list, resync.source_description


def make(kind):
    """(collection, unique keys?, order, whether it has bulk addition)"""
    from resync.resource_list import ResourceList, ResourceListOrdered, ResourceListDict
    from resync.resource_set import ResourceSet
    from resync.resource_container import ResourceContainer
    from resync.list_base import ListBase
    if kind == 'ResourceListOrdered':
        return ResourceList(resources_class=ResourceListOrdered), True, 'added', True
    if kind == 'OrderedDict':
        return ResourceListOrdered(), True, 'added', False
    if kind == 'ResourceListDict':
        return ResourceListDict(), True, 'uri', False
    if kind == 'ResourceSet':
        return ResourceSet(), True, 'uri', False
    if kind == 'ResourceContainer':
        return ResourceContainer(), False, 'added', True
    if kind == 'ListBase':
        return ListBase(), False, 'added', True
    C = docs.cls(kind)
    k = docs.CLASSES[kind][2]
    return C(), k != 'list', {'list': 'added', 'sorted': 'uri', 'caps': 'caps'}[k], True


class Dup(Exception):
    pass


class Model:
    def __init__(self, unique, order):
        self.unique, self.order = unique, order
        self.entries = []       # (uri, token, capability) in order of addition

    def add(self, u, token, cap, replace):
        if self.unique:
            for k, e in enumerate(self.entries):
                if e[0] == u:
                    if not replace:
                        raise Dup()
                    self.entries[k] = (u, token, cap)
                    return 'replaced'
        self.entries.append((u, token, cap))
        return 'added'

    def listed(self):
        if self.order == 'uri':
            return sorted(self.entries, key=lambda e: e[0])
        if self.order == 'caps':
            o = docs.ORDER
            return sorted(self.entries, key=lambda e: (o.index(e[2]) if e[2] in o else len(o), '' if e[2] in o else e[2] or '', e[0]))
        return list(self.entries)


def case(rng, ctx, i):
    from resync.resource import Resource
    from resync.resource_list import ResourceListDupeError
    from resync.resource_set import ResourceSetDupeError
    kind = rng.choice(KINDS)
    c, unique, order, bulk = make(kind)
    m = Model(unique, order)
    pool = [docs.uri(rng, odd=rng.random() < 0.2) for _ in range(rng.choice([1, 2, 5, 12, 30]))]
    pool += [rng.choice(pool) + rng.choice(['a', '/', '-', '.', '~', 'A', 'é', '%41'])]
    hist = []
    ctx.note(kind=kind, history=hist)
    token = 0
    iters = []          # [iterator, expected, position] begun since the last change
    ops = []

    last = []           # the entry made last

    def entry(u):
        nonlocal token
        if last and rng.random() < 0.1:     # the same again, or one equal to it
            ctx.ev('same_again')
            r, e = last
            return r if rng.random() < 0.5 else Resource(uri=e[0], length=e[1], change='updated', capability=e[2]), e
        token += 1
        cap = rng.choice(docs.ORDER[:4] + [None, 'x']) if order == 'caps' else None
        last[:] = Resource(uri=u, length=token, change='updated', capability=cap), (u, token, cap)
        return last

    def snap():
        return [(u, t) for u, t, cap in m.listed()]

    for _ in range(rng.choice([1, 3, 8, 16])):
        op = rng.choice(['add', 'add', 'add', 'bulk', 'bulk', 'query', 'iterate', 'iterate', 'step', 'step', 'remove'])
        ops.append(op[0])
        if op in ('add', 'bulk'):
            iters = []          # what an iterator does after a change is not specified
            replace = unique and rng.random() < 0.3
            if op == 'bulk' and bulk:
                es = [entry(rng.choice(pool)) for _ in range(rng.choice([0, 1, 2, 4, 8]))]
                rs = [r for r, e in es]
                form = rng.choice(['list', 'tuple', 'generator', 'iterator', 'collection'])
                if form == 'collection':
                    from resync.change_list import ChangeList
                    arg = ChangeList(resources=rs)
                else:
                    arg = {'list': lambda: rs, 'tuple': lambda: tuple(rs), 'generator': lambda: (r for r in rs),
                           'iterator': lambda: iter(rs)}[form]()
                ctx.ev('bulk_adds')
            else:
                es = [entry(rng.choice(pool))]
                arg = es[0][0]
                form = 'one'
            hist.append((form, replace, [e for r, e in es]))
            refused = False
            for r, (u, t, cap) in es:
                try:
                    ctx.ev(m.add(u, t, cap, replace))
                except Dup:
                    refused = True
                    break
            try:
                if replace or unique and rng.random() < 0.1:
                    c.add(arg, replace=replace)
                else:
                    c.add(arg)
                ctx.check(not refused, 'a second entry with the same URI was accepted')
            except (ResourceListDupeError, ResourceSetDupeError):
                ctx.check(refused, 'an entry was refused as duplicate although its URI is not in the collection')
                ctx.ev('duplicates_refused')
            if rng.random() < 0.6:      # (asking may hide what the next operation would show)
                same(ctx, c, snap(), 'after an addition')
        elif op == 'remove':
            inner = getattr(c, 'resources', c)
            if not m.entries or not hasattr(inner, '__delitem__'):
                continue
            iters = []
            k = rng.randrange(len(m.entries))
            u = m.entries.pop(k)[0]
            hist.append(('remove', u))
            del inner[u if unique else k]
            ctx.ev('removed')
            if rng.random() < 0.5:
                same(ctx, c, snap(), 'after a removal')
        elif op == 'query':
            query(rng, ctx, c, m, kind, pool)
        elif op == 'iterate':
            hist.append(('iterate',))
            target = c if rng.random() < 0.7 or not hasattr(c, 'resources') else c.resources
            for _ in range(rng.choice([1, 1, 2, 3])):
                iters.append([iter(target), snap(), 0])
                ctx.ev('iterators')
        else:
            hist.append(('step',))
            for _ in range(rng.choice([1, 5, 20])):
                if not iters:
                    break
                step(ctx, rng.choice(iters), iters)
                ctx.ev('interleaved_steps')
                if rng.random() < 0.1:
                    query(rng, ctx, c, m, kind, pool)
    rng.shuffle(iters)
    while iters:
        step(ctx, iters[rng.randrange(len(iters))], iters)
        ctx.ev('interleaved_steps')
    query(rng, ctx, c, m, kind, pool)
    # nested loops
    if rng.random() < 0.3:
        want = snap()
        got = []
        for r in c:
            got.append((r.uri, r.length))
            ctx.eq([(x.uri, x.length) for x in c], want, 'inner loop')
            if len(got) > 6:
                break
        ctx.eq(got, want[:len(got)], 'outer loop')
    if not m.entries:
        ctx.ev('empty')
    if len(m.entries) > 1:
        ctx.sig(kind, ''.join(ops), len(m.entries))
    if rng.random() < 0.02 and m.entries:
        threads(ctx, c, snap())


def step(ctx, it, iters):
    r = next(it[0], None)
    if it[2] == len(it[1]):
        ctx.check(r is None, 'an iteration yields more entries than there are', extra=r and r.uri, entries=it[1])
        iters.remove(it)
        return
    ctx.check(r is not None, 'an iteration ended after %d of %d entries' % (it[2], len(it[1])))
    ctx.eq((r.uri, r.length), it[1][it[2]], 'entry %d of an iteration with others in progress' % it[2])
    it[2] += 1


def same(ctx, c, want, what):
    ctx.eq([(r.uri, r.length) for r in c], want, 'entries ' + what)
    if type(c).__name__ != 'ResourceContainer':
        ctx.eq(len(c), len(want), 'length ' + what)


def query(rng, ctx, c, m, kind, pool):
    want = [(u, t) for u, t, cap in m.listed()]
    ctx.ev('queries')
    same(ctx, c, want, 'asked for')
    if hasattr(c, 'uris'):
        ctx.eq(list(c.uris()), [u for u, t in want], 'list of URIs')
    inner = getattr(c, 'resources', c)
    if m.unique:
        for u in rng.sample(pool, min(3, len(pool))):
            have = [t for v, t in want if v == u]
            ctx.ev('queries')
            ctx.eq(u in inner, bool(have), 'presence of %r' % u)
            r = inner.get(u)
            ctx.eq(None if r is None else (r.uri, r.length), (u, have[0]) if have else None, 'lookup of %r' % u)
            if have:
                ctx.eq(inner[u].length, have[0], 'item %r' % u)
                if hasattr(c, '__getitem__'):
                    ctx.eq(c[u].length, have[0], 'item %r of the list' % u)
        if hasattr(inner, 'first') and want:
            ctx.eq(inner.first().uri, want[0][0], 'first entry')
        if hasattr(inner, 'sorted_iter'):
            ctx.eq([(r.uri, r.length) for r in inner.sorted_iter()], sorted(want), 'sorted iteration')
    elif want:
        k = rng.randrange(len(want))
        ctx.eq((c[k].uri, c[k].length), want[k], 'entry %d' % k)


def threads(ctx, c, want):
    """Iterations in several threads at once."""
    bad = []
    go = threading.Barrier(4)

    def run():
        go.wait()
        for _ in range(20):
            got = [(r.uri, r.length) for r in c]
            if got != want:
                bad.append(got)
    ts = [threading.Thread(target=run) for _ in range(4)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    ctx.ev('threads')
    ctx.eq(bad[:1], [], 'iterations in several threads')
