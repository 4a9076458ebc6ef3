"""Fresh processes for the same computation.

`fresh(fn_name, arg)` forks a child of this (pristine) process, `Zygote(hash_seed)` keeps an
interpreter with another hash seed from which such children are forked.  A child runs
module-level function `mod.name(arg)` and returns its pickled result.
"""
import importlib
import os
import pickle
import struct
import subprocess
import sys

from .core import HarnessError

_zygotes = {}


def _child(mod, name, arg, w):
    code = 0
    try:
        devnull = os.open("/dev/null", os.O_RDWR)
        os.dup2(devnull, 1)
        try:
            r = ("ok", getattr(importlib.import_module(mod), name)(arg))
        except BaseException as e:
            import traceback
            r = ("err", "".join(traceback.format_exception(e))[-3000:])
        b = pickle.dumps(r)
        i = 0
        while i < len(b):
            i += os.write(w, b[i:i + (1 << 20)])
    except BaseException:
        code = 3
    finally:
        os._exit(code)


def _fork(mod, name, arg):
    sys.stdout.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _child(mod, name, arg, w)
    os.close(w)
    out = b""
    while True:
        c = os.read(r, 1 << 20)
        if not c:
            break
        out += c
    os.close(r)
    os.waitpid(pid, 0)
    return out


def _unpack(b):
    if not b:
        raise HarnessError("a fresh process died")
    kind, r = pickle.loads(b)
    if kind == "err":
        raise HarnessError("fresh process: " + r)
    return r


def fresh(mod, name, arg):
    return _unpack(_fork(mod, name, arg))


class Zygote:
    def __init__(self, hash_seed, mods):
        env = dict(os.environ, PYTHONHASHSEED=str(hash_seed))
        self.p = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "sim.zygote", *mods], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=env, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

    def ask(self, mod, name, arg):
        b = pickle.dumps((mod, name, arg))
        self.p.stdin.write(struct.pack("<Q", len(b)) + b)
        self.p.stdin.flush()
        n = self.p.stdout.read(8)
        if len(n) < 8:
            raise HarnessError("the interpreter with another hash seed died")
        return _unpack(self.p.stdout.read(struct.unpack("<Q", n)[0]))


def with_hash_seed(hash_seed, mod, name, arg):
    key = (os.getpid(), hash_seed)
    z = _zygotes.get(key)
    if z is None:
        z = _zygotes[key] = Zygote(hash_seed, [mod])
    return z.ask(mod, name, arg)


def _serve(mods):
    for m in mods:
        importlib.import_module(m)
    inp = os.fdopen(os.dup(0), "rb")
    out = os.fdopen(os.dup(1), "wb")
    null = os.open("/dev/null", os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    while True:
        h = inp.read(8)
        if len(h) < 8:
            return
        mod, name, arg = pickle.loads(inp.read(struct.unpack("<Q", h)[0]))
        b = _fork(mod, name, arg)
        out.write(struct.pack("<Q", len(b)) + b)
        out.flush()


if __name__ == "__main__":
    _serve(sys.argv[1:])
