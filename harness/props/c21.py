"""C21 Stored synchronization state is durable and per source."""
import locale, os, re, resource, signal, sys

from .. import docs, gen

ID = 'C21'
LEVEL = 'fault_enumeration'
CASES = {'quick': 3200, 'thorough': 24000}
RULE = ('one case = a random history of storing, changing, removing and reading times for one to six sources by the same or fresh objects and '
        'in other processes, checked against a dictionary after every step; some stores run in a child that is killed before the n-th '
        'file-system operation, or whose writes are cut at byte k by a file size limit, either killing it or failing the write; distinct = '
        '(operations, kinds of names, fault, place of the fault); non-trivial = at least one store')
MIN = {'stores': 6000, 'removals': 1200, 'reads': 15000, 'faults': 2500, 'killed': 1200, 'write_errors': 500, 'new_found': 100, 'old_found': 1200,
       'other_process': 500, 'similar_names': 400, 'locale_changes': 500}
NAMES = ['http://example.org/resourcelist.xml', 'http://example.org/a/resourcelist.xml', 'http://example.org/b', 'https://example.org/b2',
         'http://example.org:8080/x?a=1&b=2#f', '/data/dir/resourcelist.xml', 'dir/resourcelist.xml', 'file:///tmp/x y', 'http://ex%20a.org/%41',
         'http://\u00fcn\u00ef.org/\u65e5\u672c', '#comment', '[section]', 'a=b', 'a:b:c', ';x', 'x' * 500, '\u00df', '%(name)s', '%', '  z  ',
         'incremental', 'DEFAULT', '\U0001f600q', 'http://example.org/\u0130', '0', 'rem this']


def setup(ctx):
    import resync.client_state


def norm(n):
    """Names equal under this are not distinguishable (case and characters other than letters, digits and underscore)."""
    return re.sub(r'\W', '_', n).lower()


def near(rng, n):
    """A name that differs from n by one character added, removed or replaced, often at an end or beside the like."""
    k = rng.choice([0, len(n), rng.randrange(len(n) + 1), rng.randrange(len(n) + 1)])
    c = rng.choice(['_', '_', 'a', '1', '/', '.', n[k - 1:k] or 'z'])
    how = rng.choice(['add', 'add', 'drop', 'replace'])
    m = n[:k] + c + n[k:] if how == 'add' else n[:k] + n[k + 1:] if how == 'drop' else n[:k] + c + n[k + 1:]
    return m or c


def value(rng):
    return rng.choice([gen.BASE, gen.BASE + 0.25, gen.ts(rng), docs.time(rng) + 1e6, 1300000000.123457, 1e9 + rng.random(), 2 ** 40, 2 ** 33 + 0.5,
                       1.7976931348623157e308, 1400000000, 1234567890.1234567, 0, 0.0, 1, 0.5, 12.3456789, rng.random() * 100, 86400.123456, 12345.678901, 1e-6, -1.5, 1e5 + rng.random(), float(rng.randrange(10 ** 9, 2 ** 32))])


def child(f):
    """Runs f in a forked process; returns the wait status."""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            devnull = os.open('/dev/null', os.O_WRONLY)
            os.dup2(devnull, 2)
            f()
            code = 0
        except BaseException:
            code = 4
        finally:
            os._exit(code)
    return os.waitpid(pid, 0)[1]


FS = ('os.remove', 'os.rename', 'os.truncate', 'os.link', 'os.symlink', 'os.chmod', 'os.mkdir', 'os.rmdir', 'os.utime')


def arm_kill(n):
    """The process dies just before its n-th file-system operation."""
    state = [0]

    def hook(event, args):
        if event in FS or (event == 'open' and isinstance(args[0], (str, bytes))):
            state[0] += 1
            if state[0] > n:
                os._exit(9)
    sys.addaudithook(hook)


def arm_size(k, kill):
    signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))


def case(rng, ctx, i):
    from resync.client_state import ClientState
    os.chdir(ctx.dir('w'))
    names = []
    for _ in range(rng.randrange(1, 7)):
        n = rng.choice(NAMES)
        if rng.random() < 0.3:
            n += rng.choice(['x', '1', '/sub', '_a', '_', '__'])
        if names and rng.random() < 0.35:      # differs a little from another
            n = near(rng, rng.choice(names))
        if norm(n) not in [norm(m) for m in names]:
            names.append(n)
            if any(abs(len(norm(n)) - len(norm(m))) <= 1 and norm(n)[:len(norm(m)) // 2] == norm(m)[:len(norm(m)) // 2] for m in names[:-1]):
                ctx.ev('similar_names')
    model = {n: None for n in names}
    shared = ClientState()
    obj = lambda: shared if rng.random() < 0.5 else ClientState()
    ops = []
    ctx.note(names=names, ops=ops)
    faults = []

    def verify(why, only=None):
        for n in names:
            got = obj().get_state(n)
            ctx.ev('reads')
            ctx.eq(got, model[n], 'time found for %r after %s' % (n, why))
    for step in range(rng.randrange(2, 11)):
        n = rng.choice(names)
        r = rng.random()
        if rng.random() < 0.1:     # programs run in various locales
            locale.setlocale(locale.LC_CTYPE, rng.choice(['C', 'C.UTF-8']))
            ctx.ev('locale_changes')
        if r < 0.12:
            ops.append(('remove', n))
            obj().set_state(n, None) if rng.random() < 0.5 else obj().set_state(n)
            model[n] = None
            ctx.ev('removals')
        elif r < 0.2:
            ops.append(('remove in another process', n))
            st = child(lambda: ClientState().set_state(n))
            ctx.eq(st, 0, 'removal in another process')
            model[n] = None
            ctx.ev('removals')
            ctx.ev('other_process')
        elif r < 0.3:
            v = value(rng)
            ops.append(('store in another process', n, v))
            ctx.eq(child(lambda: ClientState().set_state(n, v)), 0, 'store in another process')
            model[n] = v
            ctx.ev('stores')
            ctx.ev('other_process')
        elif r < 0.55:
            fault(rng, ctx, ClientState, n, model, names, ops, faults)
        else:
            v = value(rng)
            ops.append(('store', n, v))
            obj().set_state(n, v)
            model[n] = v
            ctx.ev('stores')
        verify(ops[-1])
        if rng.random() < 0.2:
            n = 'http://never.test/stored'
            ctx.eq(obj().get_state(n), None, 'time of a source nothing was stored for')
    ctx.sig([o[0] for o in ops], len(names), faults)


def fault(rng, ctx, ClientState, n, model, names, ops, faults):
    new = value(rng) if rng.random() < 0.85 else None
    size = os.path.getsize('.resync-client-status.cfg') if os.path.exists('.resync-client-status.cfg') else 0
    kind = rng.choice(['kill', 'cut', 'cut', 'error'])
    # what is at stake: every place of the fault in turn (thorough) or some of them
    places = list(range(0, 9)) if kind == 'kill' else list(range(0, size + 80))
    if ctx.tier == 'quick' or len(places) > 40:
        places = sorted(rng.sample(places, min(len(places), 6 if ctx.tier == 'quick' else 40)) + ([0] if rng.random() < 0.5 else []))
    for p in places:
        ops.append((kind, p, n, new))
        ctx.ev('faults')

        def f():
            if kind == 'kill':
                arm_kill(p)
            else:
                arm_size(p, kind == 'cut')
            ClientState().set_state(n, new)
        st = child(f)
        died = os.WIFSIGNALED(st) or os.WEXITSTATUS(st) == 9
        if died:
            ctx.ev('killed')
        elif st != 0:
            ctx.ev('write_errors')
        try:
            got = ClientState().get_state(n)
        except Exception as e:
            ctx.fail('stored state cannot be read after a fault: %s' % e, fault=ops[-1])
        old = model[n]
        if st == 0:
            ctx.eq(got, new, 'time found after storing succeeded', fault=ops[-1])
        ctx.check(got in (old, new), 'time found after a fault is neither the old nor the new one', fault=ops[-1], got=got, old=old, new=new)
        ctx.ev('new_found' if got == new else 'old_found')
        model[n] = got
        for m in names:
            if m != n:
                ctx.eq(ClientState().get_state(m), model[m], 'time of another source after a fault', fault=ops[-1])
        faults.append((kind, 'completed' if st == 0 else 'died' if died else 'error'))
        if got == new:
            new = value(rng)
    # storing works again
    v = value(rng)
    ClientState().set_state(n, v)
    ctx.eq(ClientState().get_state(n), v, 'time found after storing again')
    model[n] = v
    ctx.ev('stores')
