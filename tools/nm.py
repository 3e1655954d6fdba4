"""Native messaging helper of the demonstrations."""
import json, os, struct, subprocess, sys, time


def fr(o):
    b = o if isinstance(o, bytes) else json.dumps(o).encode()
    return struct.pack("=I", len(b)) + b


class B:
    def __init__(self, *argv, **kw):
        kw.setdefault("stderr", subprocess.DEVNULL)
        self.p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0, **kw)

    def send(self, data):
        self.p.stdin.write(data)

    def exact(self, n):
        b = b""
        while len(b) < n:
            d = self.p.stdout.read(n - len(b))
            if not d:
                break
            b += d
        return b

    def recv(self):
        h = self.exact(4)
        if len(h) < 4:
            return None
        return json.loads(self.exact(struct.unpack("=I", h)[0]))

    def call(self, method, *params, id=1):
        self.send(fr(dict(id=id, method=method, params=list(params))))
        return self.recv()

    def end(self):
        self.p.stdin.close()
        rest = self.p.stdout.read()
        return rest, self.p.wait(20)


HELLO = {"formats": [{"format": "org-protocol", "version": "1"}], "version": "1"}


def need(cond, *what):
    if not cond:
        print("FAILED", *what)
        sys.stdout.flush()
        os._exit(1)
