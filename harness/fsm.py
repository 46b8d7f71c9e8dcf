"""File-system observation: tree snapshots and interpreter audit events of effects."""
import hashlib, os, stat, sys


def snapshot(root, skip=()):
    """rel path -> (type, mode, size, mtime_ns, digest or link target)."""
    out = {}

    def add(rel, p):
        st = os.lstat(p)
        if stat.S_ISLNK(st.st_mode):
            out[rel] = ('l', os.readlink(p))
        elif stat.S_ISDIR(st.st_mode):
            out[rel] = ('d', stat.S_IMODE(st.st_mode))
        elif stat.S_ISREG(st.st_mode):
            try:
                with open(p, 'rb') as f:
                    d = hashlib.sha1(f.read()).hexdigest()
            except OSError as e:
                d = 'unreadable'
            out[rel] = ('f', stat.S_IMODE(st.st_mode), st.st_size, st.st_mtime_ns, d)
        else:
            out[rel] = ('o', stat.S_IFMT(st.st_mode))
    for dp, dn, fn in os.walk(root):
        for x in dn + fn:
            p = os.path.join(dp, x)
            rel = os.path.relpath(p, root)
            if rel in skip:
                continue
            add(rel, p)
    return out


def files(root):
    """rel path -> (bytes, mtime float) of regular files."""
    out = {}
    for dp, dn, fn in os.walk(root):
        for x in fn:
            p = os.path.join(dp, x)
            if not os.path.islink(p) and os.path.isfile(p):
                with open(p, 'rb') as f:
                    out[os.path.relpath(p, root)] = (f.read(), os.stat(p).st_mtime)
    return out


def diff(a, b):
    """Human readable difference of two snapshots."""
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append('%s: %s -> %s' % (k, a.get(k), b.get(k)))
    return out


WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


class Recorder:
    """Audit hook that records effects (and opens) with absolute paths; blocks effects outside allowed roots."""

    def __init__(self, allowed):
        self.allowed = [os.path.realpath(a) for a in allowed]
        self.events = []
        self.on = True
        sys.addaudithook(self.hook)

    def path(self, p):
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if isinstance(p, int):
            return None
        p = os.path.abspath(os.fspath(p))
        return os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))

    def hook(self, event, args):
        if not self.on:
            return
        try:
            effect = None
            if event == 'open':
                p, mode, flags = args
                if not isinstance(p, (str, bytes, os.PathLike)):
                    return
                w = bool(flags & WRITE) if isinstance(flags, int) else any(c in (mode or '') for c in 'wax+')
                effect = ('write' if w else 'read', p)
            elif event in ('os.remove', 'os.rmdir', 'os.truncate', 'os.chmod', 'os.chown', 'os.utime', 'os.setxattr',
                           'os.removexattr', 'os.chflags'):
                effect = (event[3:], args[0])
            elif event == 'os.mkdir':
                if os.path.lexists(args[0]):
                    return
                effect = ('mkdir', args[0])
            elif event in ('os.rename', 'os.link', 'os.symlink'):
                effect = (event[3:], args[1])
                self.add(event[3:] + '-from', args[0])
            elif event in ('subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn', 'os.fork', 'os.forkpty'):
                self.events.append((event, short(args)))
                return
            elif event == 'socket.connect':
                self.events.append(('connect', repr(args[1])))
                return
            elif event == 'socket.getaddrinfo':
                self.events.append(('resolve', repr(args[0])))
                return
            if effect is None:
                return
        except Exception:
            return
        self.add(*effect)

    def add(self, kind, p):
        p = self.path(p)
        if p is None or p == '/dev/null':
            return
        if kind == 'remove' and not os.path.lexists(p):
            return
        self.events.append((kind, p))
        if kind != 'read' and not any(p == a or p.startswith(a + os.sep) for a in self.allowed):
            self.events.append(('BLOCKED', kind, p))
            raise PermissionError(13, 'blocked by monitor: %s' % kind, p)


def short(x):
    s = repr(x)
    return s[:300]
