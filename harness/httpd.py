"""An HTTP source in a process of its own, with per-request fault plans and a complete request log.

Clients reach it as a proxy (http_proxy), so that documents can use any host name
and do not depend on the port. Routes are full URIs. For https URIs the proxy ends the
tunnel itself (with a throw-away certificate that the observed programs do not verify).
"""
import os, pickle, signal, socket, ssl, struct, threading, time

REASON = {200: 'OK', 301: 'Moved', 302: 'Found', 404: 'Not Found', 403: 'Forbidden', 410: 'Gone',
          500: 'Internal Server Error', 503: 'Service Unavailable', 401: 'Unauthorized'}


class Route:
    """body/headers served for a URI; plan is the list of faults for the first requests.

    Faults: 'ok', integer status, ('redirect', uri), 'reset', 'close', 'stall', 'trunc',
    'chunktrunc', 'badstatus', 'stallbody', 'chunked'.
    """

    def __init__(self, body=b'', headers=None, plan=(), status=200):
        self.body, self.headers, self.plan, self.status = body, dict(headers or {}), list(plan), status


def _send(sock, obj):
    b = pickle.dumps(obj)
    sock.sendall(struct.pack('>Q', len(b)) + b)


def _recv(sock):
    b = b''
    while len(b) < 8:
        c = sock.recv(8 - len(b))
        if not c:
            raise EOFError()
        b += c
    n = struct.unpack('>Q', b)[0]
    b = bytearray()
    while len(b) < n:
        c = sock.recv(min(1 << 20, n - len(b)))
        if not c:
            raise EOFError()
        b += c
    return pickle.loads(bytes(b))


class Server:
    """Handle held by a worker."""

    def __init__(self):
        a, b = socket.socketpair()
        lst = socket.socket()
        lst.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        lst.bind(('127.0.0.1', 0))
        lst.listen(64)
        self.port = lst.getsockname()[1]
        self.pid = os.fork()
        if self.pid == 0:
            try:
                signal.setitimer(signal.ITIMER_PROF, 0)
                a.close()
                _Proc(lst, b).run()
            finally:
                os._exit(0)
        b.close()
        lst.close()
        self.ctl = a

    def set(self, routes):
        """Replaces all routes and clears the log."""
        _send(self.ctl, ('set', routes))
        _recv(self.ctl)

    def log(self):
        _send(self.ctl, ('log',))
        return _recv(self.ctl)

    def clear(self):
        _send(self.ctl, ('clear',))
        _recv(self.ctl)

    @property
    def proxy(self):
        return 'http://127.0.0.1:%d' % self.port

    def stop(self):
        try:
            self.ctl.close()
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
        except OSError:
            pass


class _Proc:
    def __init__(self, lst, ctl):
        self.lst, self.ctl = lst, ctl
        self.routes, self.entries, self.lock = {}, [], threading.Lock()
        self.used, self.tls = {}, None

    def run(self):
        threading.Thread(target=self.accept, daemon=True).start()
        try:
            while True:
                m = _recv(self.ctl)
                with self.lock:
                    if m[0] == 'set':
                        self.routes, self.entries, self.used = m[1], [], {}
                        r = True
                    elif m[0] == 'clear':
                        self.entries = []
                        r = True
                    else:
                        r = list(self.entries)
                _send(self.ctl, r)
        except (EOFError, OSError):
            return

    def accept(self):
        while True:
            try:
                c, _ = self.lst.accept()
            except OSError:
                return
            threading.Thread(target=self.handle, args=(c,), daemon=True).start()

    def handle(self, c):
        try:
            self._handle(c)
        except OSError:
            pass
        finally:
            try:
                c.close()
            except OSError:
                pass

    def tunnel(self, c, target):
        """Ends the TLS connection that the client opens to target and serves one request of it."""
        if self.tls is None:
            self.tls = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            self.tls.load_cert_chain(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tls.pem'))
        c.sendall(b'HTTP/1.1 200 Connection established\r\n\r\n')
        with self.tls.wrap_socket(c, server_side=True) as t:
            self._handle(t, 'https://' + (target[:-4] if target.endswith(':443') else target))

    def _handle(self, c, base=None):
        c.settimeout(60)
        b = b''
        while b'\r\n\r\n' not in b:
            d = c.recv(65536)
            if not d:
                if b:
                    self.entries.append({'t': time.monotonic(), 'method': '?', 'uri': repr(b), 'headers': {}, 'served': 'garbage'})
                return
            b += d
        t = time.monotonic()
        head = b.split(b'\r\n\r\n', 1)[0].decode('latin-1').split('\r\n')
        parts = head[0].split(' ')
        method, target = parts[0], ' '.join(parts[1:-1])
        headers = {}
        for h in head[1:]:
            k, _, v = h.partition(':')
            headers.setdefault(k.strip().lower(), []).append(v.strip())
        if method == 'CONNECT' and base is None:
            return self.tunnel(c, target)
        if target.startswith('/'):
            target = (base or 'http://' + headers.get('host', ['?'])[0]) + target
        if '://' in target:     # letter case of the scheme does not matter
            target = target[:target.index('://')].lower() + target[target.index('://'):]
        with self.lock:
            route = self.routes.get(target)
            n = self.used.get(target, 0)
            self.used[target] = n + 1
            fault = 'ok'
            if route is None:
                fault = 404
            elif n < len(route.plan):
                fault = route.plan[n]
            entry = {'t': t, 'method': method, 'uri': target, 'headers': headers, 'served': fault, 'n': n,
                     'known': route is not None}
            self.entries.append(entry)
        body = route.body if route is not None else b''
        if fault == 'ok' and route.status != 200:
            fault = route.status
        if fault == 'reset':
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            return
        if fault == 'close':
            return
        if fault == 'badstatus':
            c.sendall(b'I AM NOT HTTP\r\n\r\n')
            return
        if fault == 'stall':
            self.stall(c, entry)
            return
        if fault == 'stallbody':
            c.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n' % (len(body) + 10) + body[:len(body) // 2])
            self.stall(c, entry)
            return
        if isinstance(fault, tuple) and fault[0] == 'redirect':
            c.sendall(b'HTTP/1.1 302 Found\r\nLocation: %s\r\nContent-Length: 0\r\nConnection: close\r\n\r\n' % fault[1].encode())
            return
        if isinstance(fault, int):
            msg = b'' if method == 'HEAD' else b'<html>error page %d</html>' % fault
            c.sendall(b'HTTP/1.1 %d %s\r\nContent-Type: text/html\r\nContent-Length: %d\r\nConnection: close\r\n\r\n' % (
                fault, REASON.get(fault, 'X').encode(), len(msg)) + msg)
            return
        hs = {'Content-Type': 'application/octet-stream', 'Connection': 'close'}
        hs.update(route.headers)
        if fault in ('chunked', 'chunktrunc'):
            h = ''.join('%s: %s\r\n' % kv for kv in hs.items())
            c.sendall(('HTTP/1.1 200 OK\r\n%sTransfer-Encoding: chunked\r\n\r\n' % h).encode('latin-1'))
            if method != 'HEAD':
                half = len(body) // 2
                if body[:half]:
                    c.sendall(b'%x\r\n' % half + body[:half] + b'\r\n')
                if fault == 'chunktrunc':
                    c.sendall(b'%x\r\n' % (len(body) - half + 5) + body[half:])
                    return
                if body[half:]:
                    c.sendall(b'%x\r\n' % (len(body) - half) + body[half:] + b'\r\n')
                c.sendall(b'0\r\n\r\n')
            return
        if 'Content-Length' not in hs and not getattr(route, 'nolength', False):
            hs['Content-Length'] = str(len(body) + (7 if fault == 'trunc' else 0))
        h = ''.join('%s: %s\r\n' % kv for kv in hs.items() if kv[1] is not None)
        c.sendall(('HTTP/1.1 200 OK\r\n%s\r\n' % h).encode('latin-1'))
        if method == 'HEAD':
            return
        c.sendall(body)

    def stall(self, c, entry):
        """Nothing more is sent until the client gives up (bounded by 45 s)."""
        c.settimeout(45)
        try:
            c.recv(1)
            entry['gave_up'] = True
        except socket.timeout:
            entry['gave_up'] = False
        except OSError:
            entry['gave_up'] = True
