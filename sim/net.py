"""The simulated network: an origin server reached through the real http.client / urllib code.

Only the socket is replaced.  Each request gets a scripted response and at most one planned fault.
"""
import http.client
import hashlib
import io
import re
import socket
import ssl

from . import seams
from . import world as W

_real = {}


class Origin:
    """url -> body.  A plain static file server."""

    def __init__(self):
        self.files = {}
        self.up = True
        self.style = "length"  # or "chunked"
        self.requests = []  # (op, method, url)
        self.redirects = {}

    def publish(self, base, name, body):
        self.files[base.rstrip("/") + "/" + name] = body


class SimSocket:
    def __init__(self, w, host, port, tls=False):
        self.w, self.host, self.port = w, host, port
        self.tls = tls
        self.out = bytearray()
        self.resp = None
        self.pos = 0
        self.fault = None
        self.closed = False

    # -- plumbing expected by http.client
    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass

    def close(self):
        self.closed = True

    def shutdown(self, *a):
        pass

    def fileno(self):
        return -1

    def makefile(self, mode="rb", *a, **k):
        return io.BufferedReader(_Raw(self), 8192)

    def sendall(self, data):
        if hasattr(data, "read"):
            data = data.read()
        net_event(self.w, "net.send", self.host)
        self.out += data
        if b"\r\n\r\n" in self.out and self.resp is None:
            self._answer()

    send = sendall

    # -- the server
    def _answer(self):
        line = bytes(self.out).split(b"\r\n", 1)[0].decode()
        method, path, _ = line.split(" ", 2)
        default = 443 if self.tls else 80
        hostport = self.host if self.port == default else f"{self.host}:{self.port}"
        url = ("https" if self.tls else "http") + "://" + hostport + path
        o = self.w.origin
        t = W.current()
        self.w.note("REQ", method, url)
        f = self.fault
        body, status, extra = o.files.get(url), "200 OK", []
        if url in o.redirects:
            status, body, extra = "302 Found", b"", [f"Location: {o.redirects[url]}"]
        elif body is None:
            status, body = "404 Not Found", b"<html>not found</html>"
        what = f["what"] if f else None
        if what == "net_http" and status != "302 Found":
            status = {404: "404 Not Found", 500: "500 Internal Server Error", 503: "503 Service Unavailable",
                      403: "403 Forbidden", 429: "429 Too Many Requests"}[int(f["arg"])]
            body = b"<html><body>error</body></html>"
            self.w.fired["net_http_error"] += 1
        if status == "200 OK":  # what usual web servers do: ETags, conditional requests, ranges
            asked = {k.strip().lower(): v.strip() for k, _, v in
                     (x.partition(":") for x in bytes(self.out).split(b"\r\n\r\n")[0].decode("latin1").split("\r\n")[1:])}
            etag = '"%s"' % hashlib.sha256(body).hexdigest()[:12]
            extra = [f"ETag: {etag}", "Accept-Ranges: bytes"]
            m = re.fullmatch(r"bytes=(\d+)-(\d*)", asked.get("range", ""))
            if asked.get("if-none-match") in (etag, "*"):
                status, body = "304 Not Modified", b""
            elif m and asked.get("if-range", etag) == etag:
                a, b = int(m[1]), int(m[2]) if m[2] else len(body) - 1
                if a >= len(body) or b < a:
                    status, extra, body = "416 Range Not Satisfiable", [f"Content-Range: bytes */{len(body)}"], b""
                else:
                    extra.append(f"Content-Range: bytes {a}-{min(b, len(body) - 1)}/{len(body)}")
                    status, body = "206 Partial Content", body[a:b + 1]
        head = [f"HTTP/1.1 {status}", "Server: sim", "Connection: close", *extra]
        if o.style == "chunked":
            head.append("Transfer-Encoding: chunked")
            enc = bytearray()
            step = 3000
            for i in range(0, len(body), step):
                c = body[i:i + step]
                enc += b"%x\r\n" % len(c) + c + b"\r\n"
            enc += b"0\r\n\r\n"
            payload = bytes(enc)
        else:
            head.append(f"Content-Length: {len(body)}")
            payload = body
        if method == "HEAD":
            payload = b""
        hb = ("\r\n".join(head) + "\r\n\r\n").encode()
        self.resp = hb + payload
        self.head_len = len(hb)
        self.cut = None
        if what in ("net_reset", "net_truncate", "net_timeout"):
            frac = float(f.get("arg", 0.5))
            if frac < 0:  # inside the headers
                self.cut = int(self.head_len * (-frac))
            else:
                n = len(payload)
                self.cut = self.head_len + min(int(n * frac), max(0, n - 1))


class _Raw(io.RawIOBase):
    def __init__(self, s):
        self.s = s

    def readable(self):
        return True

    def readinto(self, b):
        s = self.s
        net_event(s.w, "net.recv", s.host)
        f = s.fault
        end = len(s.resp) if s.resp is not None else 0
        cut = s.cut if s.resp is not None else None
        if cut is not None and s.pos >= cut:
            what = f["what"]
            s.w.fired[what] += 1
            s.w.note("FAULT", what, s.pos)
            if what == "net_reset":
                raise ConnectionResetError(104, "Connection reset by peer")
            if what == "net_timeout":
                s.w.now += 120
                raise socket.timeout("timed out")
            return 0
        lim = min(end, cut) if cut is not None else end
        n = min(len(b), lim - s.pos, 2048)
        b[:n] = s.resp[s.pos:s.pos + n]
        s.pos += n
        s.w.now += 0.02
        return n


def net_event(w, kind, detail):
    f = w.event(kind, detail)
    if f is None:
        return
    if f["what"] in ("crash", "torn_crash"):
        w.crash(None, "crash")
    if f["what"] == "interrupt":
        w.fired["interrupt"] += 1
        raise KeyboardInterrupt("simulated Ctrl-C")
    w.fired["net_reset"] += 1
    raise ConnectionResetError(104, "Connection reset by peer")


def _create_connection(address, *a, **k):
    w = W.world()
    if w is None:
        return _real["create_connection"](address, *a, **k)
    host, port = address[0], address[1]
    t = W.current()
    o = w.origin
    key = (t.op, sum(1 for r in o.requests if r[0] == t.op))
    o.requests.append((t.op, host, port))
    net_event(w, "net.connect", f"{host}:{port}")
    f = w.net_faults.get(key)
    what = f["what"] if f else None
    if not o.up or what in ("net_refused",):
        w.fired["net_refused"] += 1
        w.note("FAULT refused")
        raise ConnectionRefusedError(111, "Connection refused")
    if what == "net_dns":
        w.fired["net_dns"] += 1
        w.note("FAULT dns")
        raise socket.gaierror(-2, "Name or service not known")
    s = SimSocket(w, host, port, tls=False)
    s.fault = f
    return s


def _wrap_socket(self, sock, *a, **k):
    if isinstance(sock, SimSocket):
        sock.tls = True
        return sock
    return _real["wrap_socket"](self, sock, *a, **k)


def install():
    if _real:
        return
    _real["create_connection"] = socket.create_connection
    socket.create_connection = _create_connection
    _real["wrap_socket"] = ssl.SSLContext.wrap_socket
    ssl.SSLContext.wrap_socket = _wrap_socket
    ctx = ssl.create_default_context()
    ssl._create_default_https_context = lambda *a, **k: ctx
    if hasattr(http.client, "_create_https_context"):
        http.client._create_https_context = lambda v: ctx
    import urllib.request
    urllib.request.getproxies = lambda: {}
    import os
    for k in list(os.environ):
        if k.lower().endswith("_proxy"):
            del os.environ[k]
