"""A loopback distribution server whose every answer can be made to fail at a chosen point."""
import gzip
import hashlib
import io
import socket
import struct
import tarfile
import threading


class Server:
    """answers: {path: {"body": bytes, "status": int, "fault": None|"cut"|"reset"|"close"|"stall"|"long", "at": n}}"""

    def __init__(self, tls=None):
        self.answers = {}
        self.requests = []
        self.stalled = threading.Event()
        self.tls = tls
        self.sock = socket.socket()
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.url = "%s://127.0.0.1:%d" % ("https" if tls else "http", self.port)
        self.alive = True
        self.lock = threading.Lock()
        threading.Thread(target=self._accept, daemon=True).start()

    def reset(self, answers):
        with self.lock:
            self.answers = answers
            self.requests = []
            self.stalled.clear()

    def _accept(self):
        while self.alive:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=self._serve, args=(c,), daemon=True).start()

    def _serve(self, c):
        try:
            c.settimeout(30)
            if self.tls is not None:
                c = self.tls.wrap_socket(c, server_side=True)
            f = c.makefile("rb")
            while True:
                line = f.readline()
                if not line.strip():
                    return
                method, target, _ = line.decode("latin-1").split(" ", 2)
                heads = []
                while True:
                    h = f.readline().decode("latin-1")
                    if h in ("\r\n", "\n", ""):
                        break
                    k, _, v = h.partition(":")
                    heads.append((k.strip().lower(), v.strip()))
                with self.lock:
                    self.requests.append({"method": method, "target": target, "headers": dict(heads)})
                if not self.answer(c, method, target, dict(heads)):
                    return
        except (OSError, ValueError):
            pass
        finally:
            try:
                c.close()
            except OSError:
                pass

    def answer(self, c, method, target, heads):
        if target.startswith("http"):
            # npm's agent uses the form meant for proxies inside of tunnels, too
            target = "/" + target.split("/", 3)[-1]
        a = self.answers.get(target)
        if a is None:
            a = {"status": 404, "body": b"not here"}
        body = a.get("body", b"")
        fault, at = a.get("fault"), a.get("at", 0)
        if fault == "close":
            return False
        if fault == "reset" and at <= 0:
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            return False
        head = "HTTP/1.1 %d X\r\n" % a.get("status", 200)
        for k, v in a.get("headers", {}).items():
            head += "%s: %s\r\n" % (k, v)
        head += "Content-Length: %d\r\nConnection: close\r\n\r\n" % len(body)
        if fault == "headstall":
            self.stalled.set()
            self._wait()
            return False
        c.sendall(head.encode())
        if fault in ("cut", "reset", "stall"):
            n = min(at, len(body))
            c.sendall(body[:n])
            if fault == "stall":
                self.stalled.set()
                self._wait()
            if fault == "reset":
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            return False
        c.sendall(body)
        return False

    def _wait(self):
        threading.Event().wait(20)

    def close(self):
        self.alive = False
        self.sock.close()


def tarball(entries, root="node-v1.2.3"):
    """entries: [[path, kind, text]]; kind file/dir/link/hard; deterministic bytes."""
    raw = io.BytesIO()
    t = tarfile.open(fileobj=raw, mode="w", format=tarfile.GNU_FORMAT)
    for path, kind, text in entries:
        ti = tarfile.TarInfo(root + "/" + path)
        data = None
        if kind == "dir":
            ti.type, ti.mode = tarfile.DIRTYPE, 0o755
        elif kind == "link":
            ti.type, ti.linkname = tarfile.SYMTYPE, text
        else:
            data = text.encode("utf-8", "surrogatepass")
            ti.size, ti.mode = len(data), 0o644
        t.addfile(ti, io.BytesIO(data) if data is not None else None)
    t.close()
    return gzip.compress(raw.getvalue(), mtime=0)


def sha(b):
    return hashlib.sha256(b).hexdigest()
