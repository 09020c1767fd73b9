"""An in-memory network: connections that any python code opens (socket.create_connection) are answered by a scripted
http server in the same process, byte by byte: complete, cut at any byte, reset, timed out or refused."""
import gzip
import io
import socket
from contextlib import contextmanager


class Request:
    def __init__(self, host, port, method, target, version, headers, body, conn):
        self.host, self.port, self.method, self.target, self.version = host, port, method, target, version
        self.headers, self.body, self.conn = headers, body, conn

    def __repr__(self):
        return f"{self.method} {self.host}:{self.port}{self.target}"


class Plan:
    """what is sent back, and what happens to the connection afterwards: keep, eof, reset, timeout"""

    def __init__(self, data: bytes, end="keep"):
        self.data, self.end = data, end


class Net:
    def __init__(self, server, segment=1 << 30, dead="eof", hook=None):
        """server: function(Request) -> Plan; dead: what a client that uses a connection the server has closed meets"""
        self.server, self.segment, self.dead = server, segment, dead
        self.log = []
        self.problems = []
        self.refuse = None  # function(host, port) -> exception to raise or None
        self.conns = 0
        self.hook = hook or (lambda what: None)

    @contextmanager
    def active(self):
        real, real_socket = socket.create_connection, socket.getaddrinfo

        def create_connection(address, timeout=None, source_address=None, **_):
            self.hook("connect")
            host, port = address
            if self.refuse and (e := self.refuse(host, port)):
                raise e
            self.conns += 1
            return Sock(self, host, port, self.conns)

        def none(*a, **kw):
            raise socket.gaierror("the in-memory network has no such host")

        socket.create_connection, socket.getaddrinfo = create_connection, none
        try:
            yield self
        finally:
            socket.create_connection, socket.getaddrinfo = real, real_socket


class Sock:
    def __init__(self, net, host, port, number):
        self.net, self.host, self.port, self.number = net, host, port, number
        self.inp = b""
        self.out = b""
        self.end = "keep"  # of the connection, once `out` is read
        self.closed = False

    def settimeout(self, *_):
        ...

    def setsockopt(self, *_):
        ...

    def gettimeout(self):
        return 10

    def fileno(self):
        return -1

    def shutdown(self, *_):
        ...

    def close(self):
        self.closed = True

    def sendall(self, data):
        self.net.hook("send")
        if self.end != "keep":  # the server is gone
            if self.net.dead == "pipe":
                raise BrokenPipeError(32, "Broken pipe")
            return
        self.inp += bytes(data) if not isinstance(data, io.IOBase) else data.read()
        while (parsed := self._parse()) is not None:
            if self.out:
                self.net.problems.append("a request was sent before the response of the one before it was read")
            self.net.log.append(parsed)
            plan = self.net.server(parsed)
            self.out += plan.data
            self.end = plan.end

    send = sendall

    def _parse(self):
        head, sep, rest = self.inp.partition(b"\r\n\r\n")
        if not sep:
            return None
        lines = head.split(b"\r\n")
        method, target, version = lines[0].decode("latin1").split(" ")
        headers = {}
        for line in lines[1:]:
            k, _, v = line.decode("latin1").partition(":")
            headers.setdefault(k.strip().lower(), v.strip())
        body = b""
        if "chunked" in headers.get("transfer-encoding", ""):
            while True:
                size, sep, rest = rest.partition(b"\r\n")
                if not sep:
                    return None
                n = int(size, 16)
                if len(rest) < n + 2:
                    return None
                body, rest = body + rest[:n], rest[n + 2:]
                if n == 0:
                    break
        else:
            n = int(headers.get("content-length", "0"))
            if len(rest) < n:
                return None
            body, rest = rest[:n], rest[n:]
        self.inp = rest
        return Request(self.host, self.port, method, target, version, headers, body, self.number)

    def makefile(self, mode="r", *a, **kw):
        return io.BufferedReader(_Raw(self))

    def recv(self, n, *_):
        self.net.hook("recv")
        if self.out:
            n = min(n, self.net.segment)
            data, self.out = self.out[:n], self.out[n:]
            return data
        if self.end == "eof":
            return b""
        if self.end == "reset":
            raise ConnectionResetError(104, "Connection reset by peer")
        raise TimeoutError("timed out")

    def recv_into(self, b, *_):
        data = self.recv(len(b))
        b[:len(data)] = data
        return len(data)


class _Raw(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, b):
        return self.sock.recv_into(b)


REASONS = {200: "OK", 204: "No Content", 301: "Moved Permanently", 302: "Found", 303: "See Other", 304: "Not Modified",
           307: "Temporary Redirect", 308: "Permanent Redirect", 403: "Forbidden", 404: "Not Found", 500: "Oops",
           503: "Busy"}


def response(status=200, body=b"", framing="length", headers=(), version="1.1", end=None):
    """-> Plan of a complete response; framings: length, close, chunked, gzip, gzip-chunked, none"""
    head = [f"HTTP/{version} {status} {REASONS.get(status, 'X')}"]
    close = framing == "close" or version == "1.0"
    data = body
    if framing.startswith("gzip"):
        data = gzip.compress(body, mtime=0)
        head.append("Content-Encoding: gzip")
    if framing.endswith("chunked"):
        head.append("Transfer-Encoding: chunked")
        half = max(1, len(data) // 2)
        chunks = [c for c in (data[:half], data[half:]) if c]
        data = b"".join(b"%x\r\n%s\r\n" % (len(c), c) for c in chunks) + b"0\r\n\r\n"
    elif framing in ("length", "gzip", "length-close"):
        head.append(f"Content-Length: {len(data)}")
    if close or framing == "length-close":
        head.append("Connection: close")
        close = True
    head.extend(f"{k}: {v}" for k, v in headers)
    raw = ("\r\n".join(head) + "\r\n\r\n").encode("latin1") + data
    return Plan(raw, end or ("eof" if close else "keep"))
