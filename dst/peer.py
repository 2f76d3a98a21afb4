"""Node B: a separate interpreter with another string-hash seed. It imports the library once and forks a
pristine child for every request, so no request sees what another left behind."""
import importlib
import os
import pickle
import struct
import subprocess
import sys

from . import env


def _read_exact(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            raise EOFError
        out += b
    return out


def _recv(fd):
    n, = struct.unpack(">I", _read_exact(fd, 4))
    return pickle.loads(_read_exact(fd, n))


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack(">I", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


class Peer:
    def __init__(self, hashseed):
        e = dict(os.environ, **env.ENV)
        e["PYTHONHASHSEED"] = str(hashseed)
        e["DST_REPO"] = env.REPO
        self.proc = subprocess.Popen([env.PY, "-B", "-m", "dst.peer"], cwd=env.VERIF, env=e, stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.w = self.proc.stdin.fileno()
        self.r = self.proc.stdout.fileno()
        self.n = 0

    def call(self, mod, fn, *args):
        """Runs mod.fn(*args) in a fresh fork of node B."""
        rid = (os.getpid(), self.n)
        self.n += 1
        _send(self.w, (rid, mod, fn, args))
        while True:
            got, res = _recv(self.r)
            if got == rid:
                break
        if res[0] != "ok":
            raise RuntimeError("node B: %s %s" % res)
        return res[1]

    def close(self):
        try:
            self.proc.stdin.close()
            self.proc.kill()
            self.proc.wait()
        except Exception:
            pass


CURRENT = None


def get():
    return CURRENT


def start(hashseed):
    global CURRENT
    CURRENT = Peer(hashseed)
    return CURRENT


def stop():
    global CURRENT
    if CURRENT:
        CURRENT.close()
    CURRENT = None


def _resolve(mod, fn):
    m = importlib.import_module(mod)
    return getattr(m, fn)


def _exec(mod, fn, args):
    return _resolve(mod, fn)(*args)


def main():
    out = os.dup(1)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    env.import_pysad()
    from . import kernel, catalog  # noqa
    while True:
        try:
            rid, mod, fn, args = _recv(0)
        except EOFError:
            return
        _resolve(mod, fn)
        _send(out, (rid, kernel.call_forked(_exec, mod, fn, args)))


if __name__ == "__main__":
    main()
