"""Running probes natively, in a child process, to confirm what the solver found."""
import ctypes
import os
import struct
import subprocess
import sys


class Native:
    """Outcome of p(inp): ("ret", bytes) | ("panic", b"") | ("trap", b"")."""

    def __init__(self, so):
        self.so = so
        self.p = None

    def start(self):
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__), self.so], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def run(self, name, inp, out_size, timeout=20):
        if self.p is None or self.p.poll() is not None:
            self.start()
        nb = name.encode()
        self.p.stdin.write(struct.pack("<III", len(nb), len(inp), out_size) + nb + inp)
        self.p.stdin.flush()
        import select
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            self.p.kill()
            self.p.wait()
            self.p = None
            return "hang", b""
        h = self.p.stdout.read(4)
        if len(h) < 4:
            self.p.wait()
            self.p = None
            return "trap", b""
        k, = struct.unpack("<i", h)
        b = self.p.stdout.read(out_size)
        return ("ret" if k == 0 else "panic"), b

    def close(self):
        if self.p is not None:
            self.p.stdin.close()
            self.p.wait()
            self.p = None


def serve(so):
    lib = ctypes.CDLL(so)
    i, o = sys.stdin.buffer, sys.stdout.buffer
    while True:
        h = i.read(12)
        if len(h) < 12:
            return
        a, b, n = struct.unpack("<III", h)
        name = i.read(a).decode()
        inp = i.read(b)
        f = getattr(lib, "r_" + name)
        f.restype = ctypes.c_int
        ob = ctypes.create_string_buffer(n + 64)
        ib = ctypes.create_string_buffer(inp, len(inp) + 64)
        k = f(ctypes.cast(ob, ctypes.c_void_p), ctypes.cast(ib, ctypes.c_void_p))
        o.write(struct.pack("<i", k) + ob.raw[:n])
        o.flush()


if __name__ == "__main__":
    serve(sys.argv[1])
