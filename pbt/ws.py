"""A raw websocket and HTTP client, and a served process, for P18 and P19"""
import base64
import json
import os
import socket
import struct
import threading
import time

import cothread

_token = None


def free_port():
    """A TCP port no other check in this sandbox uses: a UDP socket on the same
    number is held as the token for as long as this process lives"""
    global _token
    if _token is None:
        for i in range(2000):
            port = 10000 + (os.getpid() * 131 + i * 17) % 20000
            s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            probe = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            try:
                s.bind(("127.0.0.1", port))
                probe.bind(("127.0.0.1", port))
                _token = s, port
                break
            except OSError:
                s.close()
            finally:
                probe.close()
    return _token[1]


def wait_for(cond, timeout=20.0):
    """Let cothreads run until cond() or timeout, returns cond()"""
    end = time.time() + timeout
    n = 0
    while not cond():
        if time.time() > end:
            return False
        n += 1
        if n < 5:
            cothread.Yield()
        else:
            cothread.Sleep(0.0005)
    return True


def connect(port, source=None, timeout=20.0):
    end = time.time() + timeout
    while True:
        s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        try:
            if source:
                s.bind((source, 0))
            s.connect(("127.0.0.1", port))
            return s
        except OSError:
            s.close()
            if time.time() > end:
                raise
            cothread.Sleep(0.002)


class WSClient:
    """Messages are appended to .got by a reader thread"""

    def __init__(self, port, source=None, path="/ws"):
        self.got = []
        self.closed = False
        self.sock = connect(port, source)
        key = base64.b64encode(os.urandom(16)).decode()
        self.sock.sendall((
            "GET %s HTTP/1.1\r\nHost: 127.0.0.1\r\nUpgrade: websocket\r\n"
            "Connection: Upgrade\r\nSec-WebSocket-Key: %s\r\n"
            "Sec-WebSocket-Version: 13\r\n\r\n" % (path, key)).encode())
        self.ready = False
        self.thread = threading.Thread(target=self._read, daemon=True)
        self.thread.start()
        wait_for(lambda: self.ready or self.closed)

    def _read(self):
        try:
            f = self.sock.makefile("rb")
            self.status = f.readline()
            while f.readline() not in (b"\r\n", b""):
                pass
            self.ready = True
            parts = []
            while True:
                h = f.read(2)
                if len(h) < 2:
                    break
                n = h[1] & 127
                if n == 126:
                    n = struct.unpack("!H", f.read(2))[0]
                elif n == 127:
                    n = struct.unpack("!Q", f.read(8))[0]
                data = f.read(n)
                op = h[0] & 15
                if op == 8:
                    break
                if op in (0, 1, 2):
                    parts.append(data)
                    if h[0] & 128:
                        self.got.append(json.loads(b"".join(parts).decode()))
                        parts = []
        except (OSError, ValueError):
            pass
        self.closed = True

    def send(self, text):
        data = text.encode()
        if len(data) < 126:
            head = struct.pack("!BB", 0x81, 0x80 | len(data))
        elif len(data) < 65536:
            head = struct.pack("!BBH", 0x81, 0x80 | 126, len(data))
        else:
            head = struct.pack("!BBQ", 0x81, 0x80 | 127, len(data))
        self.sock.sendall(head + b"\0\0\0\0" + data)

    def close(self):
        """Drop the connection"""
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()


def http(port, method, path, body=None, source=None):
    """One HTTP request, returns (status, reason, body text)"""
    result = []

    def run(s):
        try:
            f = s.makefile("rb")
            status = f.readline().decode("latin1").rstrip("\r\n")
            n = None
            while True:
                line = f.readline()
                if line in (b"\r\n", b""):
                    break
                k, _, v = line.decode("latin1").partition(":")
                if k.lower() == "content-length":
                    n = int(v)
            data = f.read() if n is None else f.read(n)
            _, code, reason = (status + "  ").split(" ", 2)
            result.append((int(code or 0), reason.strip(), data.decode()))
        except Exception as e:
            result.append((0, repr(e), ""))

    s = connect(port, source)
    head = "%s %s HTTP/1.1\r\nHost: 127.0.0.1\r\nConnection: close\r\n" % (
        method, path)
    data = b"" if body is None else body.encode()
    if body is not None:
        head += "Content-Length: %d\r\n" % len(data)
    s.sendall((head + "\r\n").encode() + data)
    th = threading.Thread(target=run, args=(s,), daemon=True)
    th.start()
    wait_for(lambda: result)
    s.close()
    return result[0] if result else (0, "no answer", "")


def scrub(o):
    """Drop what may differ between two runs: time stamps"""
    if isinstance(o, dict):
        if o.get("typeid") == "time_t":
            return "time"
        return {k: scrub(v) for k, v in o.items()}
    if isinstance(o, list):
        return [scrub(v) for v in o]
    return o
