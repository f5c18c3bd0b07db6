"""A scriptable symbol server on the loopback interface, recording every request."""
import os
import socket
import threading
import time
import urllib.parse


def q(s):
    return urllib.parse.quote(s, safe="")


class Server:
    """Resources: path -> dict(body, status, and misbehaviour). Behaviours (GET): 'ok', 'short' (Content-Length larger than the
    body), 'reset' (connection reset midway), 'chunked', 'chunkcut' (chunked without end), 'close' (no length, complete),
    'slow' (trickled)."""

    def __init__(self, hold=None):
        self.res, self.log, self.lock = {}, [], threading.Lock()
        self.redirect = {}
        self.sock = socket.socket()
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(128)
        self.port = self.sock.getsockname()[1]
        self.url = "http://127.0.0.1:%d" % self.port
        self.stop = False
        self.hold = hold           # threading.Event: bodies are only sent once set
        self.default = dict(status=404, body=b"Symbol Not Found\n", head=404, behave="ok")
        self.threads = []

    def add(self, path, body, status=200, head=None, behave="ok", cut=None, headers=()):
        self.res[urllib.parse.unquote(path)] = dict(body=body, status=status, head=status if head is None else head, behave=behave, cut=cut, headers=headers)

    def __enter__(self):
        self.t = threading.Thread(target=self._loop, daemon=True)
        self.t.start()
        return self

    def __exit__(self, *a):
        self.stop = True
        try:
            socket.create_connection(("127.0.0.1", self.port), timeout=1).close()
        except OSError:
            pass
        self.sock.close()
        self.t.join(2)

    def _loop(self):
        while not self.stop:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            if self.stop:
                c.close()
                return
            t = threading.Thread(target=self._conn, args=(c,), daemon=True)
            t.start()

    def _conn(self, c):
        try:
            c.settimeout(30)
            buf = b""
            while True:
                while b"\r\n\r\n" not in buf:
                    x = c.recv(65536)
                    if not x:
                        return
                    buf += x
                head, buf = buf.split(b"\r\n\r\n", 1)
                lines = head.decode("latin-1").split("\r\n")
                method, path, _ = lines[0].split(" ", 2)
                agent = next((l.split(":", 1)[1].strip() for l in lines[1:] if l.lower().startswith("user-agent:")), None)
                with self.lock:
                    self.log.append((time.monotonic(), method, path, agent))
                if not self._answer(c, method, path):
                    return
        except OSError:
            pass
        finally:
            c.close()

    def _answer(self, c, method, path):
        r = self.res.get(urllib.parse.unquote(path)) or self.default
        if r.get("hdelay"):
            time.sleep(r["hdelay"])
        if r.get("dead"):
            return False
        extra = "".join("%s: %s\r\n" % h for h in r.get("headers", ()))
        if method == "HEAD":
            c.sendall(("HTTP/1.1 %d X\r\nContent-Length: %d\r\n%s\r\n" % (r["head"], len(r["body"]), extra)).encode())
            return True
        if self.hold is not None:
            self.hold.wait(30)
        body, b = r["body"], r["behave"]
        cut = r.get("cut")
        if cut is None:
            cut = len(body) // 2
        st = "HTTP/1.1 %d X\r\n%s" % (r["status"], extra)
        if b == "ok":
            c.sendall((st + "Content-Length: %d\r\n\r\n" % len(body)).encode() + body)
            return True
        if b == "short":
            c.sendall((st + "Content-Length: %d\r\n\r\n" % len(body)).encode() + body[:cut])
            return False
        if b == "reset":
            c.sendall((st + "Content-Length: %d\r\n\r\n" % len(body)).encode() + body[:cut])
            import struct
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            return False
        if b in ("chunked", "chunkcut"):
            c.sendall((st + "Transfer-Encoding: chunked\r\n\r\n").encode())
            data = body if b == "chunked" else body[:cut]
            for o in range(0, len(data), 7777):
                ch = data[o:o + 7777]
                c.sendall(b"%x\r\n" % len(ch) + ch + b"\r\n")
            if b == "chunked":
                c.sendall(b"0\r\n\r\n")
                return True
            return False
        if b == "close":
            c.sendall((st + "Connection: close\r\n\r\n").encode() + body)
            return False
        if b in ("slow", "stall"):
            c.sendall((st + "Content-Length: %d\r\n\r\n" % len(body)).encode())
            step = max(1, len(body) // 10)
            for k, o in enumerate(range(0, len(body), step)):
                c.sendall(body[o:o + step])
                time.sleep(5 if b == "stall" and k == 4 else 0.01)
            return True
        raise ValueError(b)
