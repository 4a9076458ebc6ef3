"""Simulated outside world: programs, the command interpreter and the network.

While a World is active no real process is started and no real connection is made:
subprocess, os.system and urllib go through here.  A command line is read by a small
shell (words, quotes, escapes, pipes, redirections, lists, substitution), every command
it would execute is recorded with its words, and the programs themselves are functions
which act in numbered steps.  At any step the program may die, the calling process may
be killed (with the program or leaving it behind), or both may be interrupted.
"""
import io
import os
import subprocess
import urllib.error
import urllib.request

from .core import HarnessError
from .fs import SimKill, _REAL, _REAL_OPEN

_ACTIVE = None


class ProgDied(BaseException):
    def __init__(self, sig):
        self.sig = sig


class ProgExit(BaseException):
    def __init__(self, rc):
        self.rc = rc


class Proc:
    """one running program"""

    def __init__(self, world, argv, cwd, stdin=b""):
        self.world, self.argv, self.cwd, self.stdin = world, argv, cwd, stdin
        self.out, self.err = [], []

    def path(self, p):
        return os.path.join(self.cwd, p)

    def step(self, kind):
        self.world.step(kind)

    def print(self, s):
        self.out.append(s.encode() if isinstance(s, str) else s)

    def error(self, s):
        self.err.append(s.encode() if isinstance(s, str) else s)

    def exit(self, rc):
        raise ProgExit(rc)

    def read(self, p):
        with _REAL_OPEN(self.path(p), "rb") as f:
            return f.read()

    def write(self, p, data, chunks=4, append=False, on=None):
        """write in several steps: a death in between leaves a part"""
        self.step("open")
        fl = os.O_WRONLY | os.O_CREAT | (os.O_APPEND if append else os.O_TRUNC)
        fd = _REAL["open"](self.path(p), fl, 0o644)
        try:
            n = len(data)
            cuts = self.world.cuts(n, chunks)
            i = 0
            for c in cuts + [n]:
                if c > i:
                    _REAL["write"](fd, data[i:c])
                    i = c
                self.step("write")
                if on is not None:
                    on(i)
        finally:
            _REAL["close"](fd)

    def touch(self, p):
        self.step("open")
        _REAL["close"](_REAL["open"](self.path(p), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644))


class World:
    def __init__(self, root, programs=None, rng=None, net=None):
        self.root = root
        self.programs = dict(BASIC)
        self.programs.update(programs or {})
        self.rng = rng
        self.net = net              # function(url) -> ("ok", bytes) | ("404",) | ("refuse",) | ("cut", bytes, n)
        self.execs = []             # every command: list of words
        self.lines = []             # every command line given to an interpreter
        self.n = 0
        self.fault = None           # {"at": step, "kind": "die"|"kill"|"KI", "orphan": bool}
        self.fired = None
        self.killed = False
        self.interrupted = False
        self.pending = []
        self.env = {"HOME": "/nonexistent", "PATH": "/usr/bin"}

    def cuts(self, n, chunks):
        if self.rng is None or n < 2:
            return [n // 2] if n > 1 else []
        return sorted({self.rng.randrange(0, n) for _ in range(chunks)})

    def step(self, kind):
        i = self.n
        self.n += 1
        f = self.fault
        if f is not None and i == f["at"] and self.fired is None:
            self.fired = (i, kind)
            if f["kind"] == "die":
                raise ProgDied(9)
            if f["kind"] == "kill":
                self.killed = True
                if not f.get("orphan"):
                    raise ProgDied(9)
                return
            self.interrupted = True
            raise ProgDied(2)

    # ---------------------------------------------------- running
    def run_prog(self, argv, cwd, stdin=b""):
        """(return code as by waitpid, stdout, stderr)"""
        self.execs.append(list(argv))
        p = Proc(self, argv, cwd, stdin)
        f = self.programs.get(os.path.basename(argv[0]) if argv and "/" in argv[0] else (argv[0] if argv else ""))
        if f is None:
            return 127, b"", f"sh: 1: {argv[0] if argv else ''}: not found\n".encode()
        try:
            rc = f(p)
        except ProgExit as e:
            rc = e.rc
        except ProgDied as e:
            rc = -e.sig
        except FileNotFoundError as e:
            rc = 1
            p.error(str(e))
        return rc or 0, b"".join(p.out), b"".join(p.err)

    def after(self):
        """the parent notices what happened meanwhile"""
        if self.killed:
            raise SimKill()
        if self.interrupted:
            self.interrupted = False
            raise KeyboardInterrupt()

    def shell(self, line, cwd, stdin=b""):
        self.lines.append(line)
        sh = Shell(self, cwd)
        rc = sh.run(line, stdin)
        return rc, b"".join(sh.out), b"".join(sh.err)

    def __enter__(self):
        global _ACTIVE
        if _ACTIVE is not None:
            raise HarnessError("nested world")
        _ACTIVE = self
        install()
        return self

    def __exit__(self, *a):
        global _ACTIVE
        for p in self.pending:
            try:
                p.run()
            except (SimKill, KeyboardInterrupt):
                pass
        _ACTIVE = None
        uninstall()
        return False


# ---------------------------------------------------------------- shell

class Shell:
    def __init__(self, world, cwd):
        self.w, self.cwd = world, cwd
        self.out, self.err = [], []

    def run(self, line, stdin=b""):
        try:
            toks = self.lex(line)
        except SyntaxError as e:
            self.err.append(str(e).encode())
            return 2
        rc = 0
        i = 0
        skip = False
        while i < len(toks):
            pipe = []
            cmd = []
            while i < len(toks) and toks[i] not in OPS_LIST:
                if toks[i] == ("op", "|"):
                    pipe.append(cmd)
                    cmd = []
                else:
                    cmd.append(toks[i])
                i += 1
            pipe.append(cmd)
            op = toks[i][1] if i < len(toks) else ";"
            i += 1
            if not skip and any(pipe):
                rc = self.pipeline(pipe, stdin)
                if rc < 0:
                    rc = 128 - rc
            skip = (op == "&&" and rc != 0) or (op == "||" and rc == 0)
        return rc

    def pipeline(self, cmds, stdin):
        rc = 0
        data = stdin
        for j, toks in enumerate(cmds):
            words, redir = [], []
            k = 0
            while k < len(toks):
                t = toks[k]
                if t[0] == "op":
                    if k + 1 >= len(toks) and t[1] not in ("2>&1", "1>&2"):
                        self.err.append(b"syntax error")
                        return 2
                    if t[1] in ("2>&1", "1>&2"):
                        redir.append((t[1], None))
                    else:
                        redir.append((t[1], toks[k + 1][1]))
                        k += 1
                else:
                    words.append(t[1])
                k += 1
            while words and "=" in words[0] and words[0].split("=")[0].isidentifier() and len(words) > 1:
                words.pop(0)
            for op, target in redir:
                if op == "<":
                    try:
                        with _REAL_OPEN(os.path.join(self.cwd, target), "rb") as f:
                            data = f.read()
                    except OSError as e:
                        self.err.append(str(e).encode())
                        return 2
            if words and words[0] == "cd":
                self.cwd = os.path.join(self.cwd, words[1] if len(words) > 1 else "/nonexistent")
                data = b""
                continue
            # the output is opened before the program starts
            outs = {}
            for op, target in redir:
                if op in (">", ">>", "2>", "2>>", "&>", "1>"):
                    if target != "/dev/null":
                        p = os.path.join(self.cwd, target)
                        if not os.path.abspath(p).startswith(self.w.root + os.sep):
                            self.w.execs.append(["(redirection)", target])
                            target = None
                        else:
                            with _REAL_OPEN(p, "ab" if op.endswith(">>") else "wb"):
                                pass
                    outs["err" if op.startswith("2") else "out"] = target
                    if op == "&>":
                        outs["err"] = target
            if words:
                rc, o, e = self.w.run_prog(words, self.cwd, data)
            else:
                rc, o, e = 0, b"", b""
            merged = any(r[0] == "2>&1" for r in redir)
            if merged:
                o, e = o + e, b""
            if "out" in outs:
                self.put(outs["out"], o)
                o = b""
            if "err" in outs:
                self.put(outs["err"], e)
                e = b""
            self.err.append(e)
            data = o
        self.out.append(data)
        return rc

    def put(self, target, b):
        if target and target != "/dev/null":
            with _REAL_OPEN(os.path.join(self.cwd, target), "ab") as f:
                f.write(b)

    def subst(self, cmd):
        sh = Shell(self.w, self.cwd)
        sh.run(cmd)
        self.err += sh.err
        return b"".join(sh.out).decode("utf-8", "replace").rstrip("\n")

    def lex(self, s):
        toks = []
        i, n = 0, len(s)
        cur, has = "", False

        def end():
            nonlocal cur, has
            if has:
                toks.append(("w", cur))
            cur, has = "", False

        while i < n:
            c = s[i]
            if c in " \t":
                end()
                i += 1
            elif c == "#" and not has:
                while i < n and s[i] != "\n":
                    i += 1
            elif c in "\n;":
                end()
                toks.append(("op", ";"))
                i += 1
            elif c == "'":
                j = s.find("'", i + 1)
                if j < 0:
                    raise SyntaxError("Unterminated quoted string")
                cur += s[i + 1:j]
                has = True
                i = j + 1
            elif c == '"':
                has = True
                i += 1
                while i < n and s[i] != '"':
                    if s[i] == "\\" and i + 1 < n and s[i + 1] in '"\\$`\n':
                        cur += s[i + 1]
                        i += 2
                    elif s[i] in "$`":
                        v, i = self.expand(s, i)
                        cur += v
                    else:
                        cur += s[i]
                        i += 1
                if i >= n:
                    raise SyntaxError("Unterminated quoted string")
                i += 1
            elif c == "\\":
                if i + 1 < n and s[i + 1] != "\n":
                    cur += s[i + 1]
                    has = True
                i += 2
            elif c in "$`":
                v, i = self.expand(s, i)
                # word splitting of an unquoted expansion
                parts = v.split()
                for k, p in enumerate(parts):
                    if k:
                        end()
                    cur += p
                    has = True
            elif c in "|&<>()":
                for op in ("2>&1", "1>&2", "&&", "||", "&>", ">>", "|", "&", "<", ">", "(", ")"):
                    if s.startswith(op, i):
                        break
                if c in "<>" and cur in ("1", "2") and has:
                    fd, cur, has = cur, "", False
                    rest = s[i:]
                    if rest.startswith(">&1") or rest.startswith(">&2"):
                        toks.append(("op", fd + rest[:3]))
                        i += 3
                        continue
                    end()
                    toks.append(("op", (fd if fd == "2" else "") + op))
                    i += len(op)
                    continue
                end()
                if op in "()":
                    op = ";"
                    toks.append(("op", op))
                    i += 1
                    continue
                if op == "&":
                    toks.append(("op", ";"))
                    i += 1
                    continue
                toks.append(("op", op))
                i += len(op)
            else:
                cur += c
                has = True
                i += 1
        end()
        return toks

    def expand(self, s, i):
        n = len(s)
        if s[i] == "`":
            j = s.find("`", i + 1)
            if j < 0:
                raise SyntaxError("Unterminated `")
            return self.subst(s[i + 1:j]), j + 1
        if i + 1 < n and s[i + 1] == "(":
            depth, j = 1, i + 2
            while j < n and depth:
                depth += {"(": 1, ")": -1}.get(s[j], 0)
                j += 1
            if depth:
                raise SyntaxError("Unterminated $(")
            return self.subst(s[i + 2:j - 1]), j
        if i + 1 < n and s[i + 1] == "{":
            j = s.find("}", i)
            if j < 0:
                raise SyntaxError("Bad substitution")
            return self.w.env.get(s[i + 2:j], ""), j + 1
        j = i + 1
        while j < n and (s[j].isalnum() or s[j] == "_"):
            j += 1
        if j == i + 1:
            return "$", j
        return self.w.env.get(s[i + 1:j], ""), j


OPS_LIST = {("op", ";"), ("op", "&&"), ("op", "||")}


# ---------------------------------------------------------------- basic programs

def p_tee(p):
    files = [a for a in p.argv[1:] if not a.startswith("-")]
    for f in files:
        p.write(f, p.stdin, append="-a" in p.argv)
    p.print(p.stdin)


def p_cat(p):
    for a in p.argv[1:]:
        p.print(p.read(a))
    if len(p.argv) == 1:
        p.print(p.stdin)


def p_mv(p):
    a = [x for x in p.argv[1:] if not x.startswith("-")]
    dst = p.path(a[1])
    if os.path.isdir(dst):
        dst = os.path.join(dst, os.path.basename(a[0]))
    p.step("rename")
    _REAL["replace"](p.path(a[0]), dst)


def p_cp(p):
    a = [x for x in p.argv[1:] if not x.startswith("-")]
    p.write(a[1], p.read(a[0]))


def p_rm(p):
    rc = 0
    for a in p.argv[1:]:
        if a.startswith("-"):
            continue
        p.step("unlink")
        try:
            _REAL["unlink"](p.path(a))
        except OSError:
            rc = 0 if "-f" in p.argv else 1
    return rc


def p_echo(p):
    a = p.argv[1:]
    nl = "\n"
    if a and a[0] == "-n":
        a, nl = a[1:], ""
    p.print(" ".join(a) + nl)


def p_touch(p):
    for a in p.argv[1:]:
        q = os.path.abspath(p.path(a))
        if q.startswith(p.world.root + os.sep):
            p.touch(a)


def p_test(p):
    a = [x for x in p.argv[1:] if x != "]"]
    neg = a and a[0] == "!"
    if neg:
        a = a[1:]
    r = False
    if len(a) == 2:
        q = p.path(a[1])
        r = {"-f": os.path.isfile, "-e": os.path.exists, "-d": os.path.isdir,
             "-s": lambda x: os.path.isfile(x) and os.path.getsize(x) > 0}.get(a[0], lambda x: False)(q)
    return int(r == bool(neg))


def p_sleep(p):
    p.step("sleep")


BASIC = {"tee": p_tee, "cat": p_cat, "mv": p_mv, "cp": p_cp, "rm": p_rm, "echo": p_echo, "touch": p_touch,
         "true": lambda p: 0, ":": lambda p: 0, "false": lambda p: 1, "test": p_test, "[": p_test, "sleep": p_sleep}


# ---------------------------------------------------------------- network programs

def fetch(p, url, name, append=False):
    """transfer into file `name`; returns 'ok' | '404' | 'refuse' | 'cut' | 'full'"""
    p.step("connect")
    r = p.world.net(url)
    if r[0] in ("404", "refuse"):
        return r[0]
    data = r[1]
    if append and os.path.exists(p.path(name)):
        have = os.path.getsize(p.path(name))
        data = data[have:]
    if r[0] in ("cut", "full"):
        data = data[:r[2]]
    p.write(name, data, append=append)
    return r[0]


def url_of(argv, with_value):
    urls, opts = [], {}
    i = 1
    while i < len(argv):
        a = argv[i]
        if a.startswith("--") and "=" in a:
            k, v = a.split("=", 1)
            opts[k] = v
        elif a in with_value:
            opts[a] = argv[i + 1] if i + 1 < len(argv) else ""
            i += 1
        elif a.startswith("-") and not a.startswith("--") and len(a) > 2 and a[:2] in with_value:
            opts[a[:2]] = a[2:]
        elif a.startswith("-") and len(a) > 1:
            opts[a] = True
        else:
            urls.append(a)
        i += 1
    return urls, opts


def p_wget(p):
    urls, o = url_of(p.argv, {"-O", "-P", "-t", "-T", "-o", "--output-document", "--tries", "--timeout", "-U", "-w",
                              "--directory-prefix", "-a"})
    rc = 0
    target = o.get("-O") or o.get("--output-document")
    for url in urls:
        base = url.split("?")[0].rstrip("/").split("/")[-1]
        name = target
        if name is None:
            name = os.path.join(o.get("-P") or o.get("--directory-prefix") or "", base)
            if os.path.exists(p.path(name)) and not ("-c" in o or "--continue" in o):
                if "-nc" in o or "--no-clobber" in o:
                    continue
                if "-N" not in o:
                    k = 1
                    while os.path.exists(p.path(f"{name}.{k}")):
                        k += 1
                    name = f"{name}.{k}"
        elif name != "-" and not ("-c" in o or "--continue" in o):
            p.touch(name)               # with -O the file exists before the first byte
        if name == "-":
            p.step("connect")
            r = p.world.net(url)
            if r[0] in ("404", "refuse"):
                rc = 8 if r[0] == "404" else 4
            else:
                p.print(r[1] if r[0] == "ok" else r[1][:r[2]])
                rc = 0 if r[0] == "ok" else 4
            continue
        how = fetch(p, url, name, "-c" in o or "--continue" in o)
        p.error({"ok": "saved\n", "404": "ERROR 404: Not Found.\n", "refuse": "failed: Connection refused.\n",
                 "cut": "Connection closed, giving up.\n", "full": "Cannot write: No space left on device\n"}[how])
        if how != "ok":
            rc = {"404": 8, "refuse": 4, "cut": 4, "full": 3}[how]
    return rc


def p_curl(p):
    urls, o = url_of(p.argv, {"-o", "--output", "-m", "--max-time", "--retry", "-A", "-H", "-C"})
    flags = "".join(k[1:] for k in o if k.startswith("-") and not k.startswith("--"))
    rc = 0
    for url in urls:
        base = url.split("/")[-1]
        name = o.get("-o") or o.get("--output") or (base if "O" in flags or "--remote-name" in o else None)
        p.step("connect")
        r = p.world.net(url)
        if r[0] == "refuse":
            rc = 7
            continue
        if r[0] == "404":
            if "f" in flags or "--fail" in o:
                rc = 22
                continue
            data = b"<html><head><title>404 Not Found</title></head></html>\n"
        else:
            data = r[1] if r[0] == "ok" else r[1][:r[2]]
        if name is None:
            p.print(data)
        else:
            p.write(name, data)
        if r[0] in ("cut", "full"):
            rc = 18 if r[0] == "cut" else 23
    return rc


class Response(io.RawIOBase):
    def __init__(self, world, data, total):
        self.world, self.data, self.total, self.i = world, data, total, 0
        self.status = self.code = 200
        self.length = total
        self.headers = {"Content-Length": str(total)}

    def getcode(self):
        return 200

    def getheader(self, k, d=None):
        return self.headers.get(k, d)

    def info(self):
        return self.headers

    def readable(self):
        return True

    def read(self, n=-1):
        import http.client
        try:
            self.world.step("receive")
        except ProgDied:
            self.world.after()
            raise ConnectionResetError(104, "Connection reset by peer")
        self.world.after()
        if n is None or n < 0:
            r = self.data[self.i:]
            self.i = len(self.data)
            if len(self.data) < self.total:
                raise http.client.IncompleteRead(r, self.total - len(self.data))
            return r
        r = self.data[self.i:self.i + min(n, max(1, len(self.data) // 3))]
        self.i += len(r)
        return r

    def readinto(self, b):
        r = self.read(len(b))
        b[:len(r)] = r
        return len(r)


def s_urlopen(url, data=None, timeout=None, **kw):
    w = _ACTIVE
    if not isinstance(url, str):
        url = url.full_url
    w.execs.append(["(urlopen)", url])
    try:
        w.step("connect")
    except ProgDied:
        pass
    w.after()
    r = w.net(url)
    if r[0] == "refuse":
        raise urllib.error.URLError(ConnectionRefusedError(111, "Connection refused"))
    if r[0] == "404":
        raise urllib.error.HTTPError(url, 404, "Not Found", {}, io.BytesIO(b""))
    return Response(w, r[1] if r[0] == "ok" else r[1][:r[2]], len(r[1]))


def s_urlretrieve(url, filename=None, reporthook=None, data=None):
    r = s_urlopen(url)
    if filename is None:
        raise HarnessError("urlretrieve without a name is not simulated")
    got = 0
    with open(filename, "wb") as f:
        while True:
            b = r.read(8192)
            if not b:
                break
            f.write(b)
            got += len(b)
    if got < r.total:
        raise urllib.error.ContentTooShortError("retrieval incomplete", (filename, r.headers))
    return filename, r.headers


# ---------------------------------------------------------------- seams

class SimPopen:
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                 close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None,
                 creationflags=0, restore_signals=True, start_new_session=False, pass_fds=(), *, user=None, group=None,
                 extra_groups=None, encoding=None, errors=None, text=None, umask=-1, pipesize=-1, process_group=None):
        self.world = _ACTIVE
        self.args = args
        self.pid = 4000 + len(self.world.execs)
        self.returncode = None
        self.shell = shell
        self.cwd = os.path.abspath(cwd or os.getcwd())
        if not os.path.isdir(self.cwd):
            raise FileNotFoundError(2, "No such file or directory", cwd)
        self.text = bool(text or encoding or universal_newlines)
        self._stdin, self._stdout, self._stderr = stdin, stdout, stderr
        self.done = False
        self.result = None
        if not shell:
            argv = [os.fspath(args)] if isinstance(args, (str, bytes, os.PathLike)) else [os.fspath(a) for a in args]
            argv = [a.decode() if isinstance(a, bytes) else a for a in argv]
            if os.path.basename(argv[0]) not in self.world.programs:
                self.world.execs.append(argv)
                raise FileNotFoundError(2, "No such file or directory", argv[0])
            self.argv = argv
        else:
            if isinstance(args, (list, tuple)):
                args = args[0]
            self.argv = args
        self.stdin = io.StringIO() if self.text else io.BytesIO()
        if stdin != subprocess.PIPE:
            self.stdin = None
        self.stdout = _Lazy(self, 1) if stdout == subprocess.PIPE else None
        self.stderr = _Lazy(self, 2) if stderr == subprocess.PIPE else None
        self.world.pending.append(self)

    def run(self, input=None):
        if self.done:
            return
        self.done = True
        data = input
        if data is None and self.stdin is not None:
            data = self.stdin.getvalue() if not self.stdin.closed else b""
        if data is None and hasattr(self._stdin, "read"):
            data = self._stdin.read()
        if isinstance(data, str):
            data = data.encode()
        w = self.world
        if self.shell:
            rc, o, e = w.shell(self.argv, self.cwd, data or b"")
        else:
            rc, o, e = w.run_prog(self.argv, self.cwd, data or b"")
        self.result = (rc, o, e)
        if self._stderr == subprocess.STDOUT:
            o, e = o + e, b""
        for target, b in ((self._stdout, o), (self._stderr, e)):
            if target not in (None, subprocess.PIPE, subprocess.DEVNULL, subprocess.STDOUT):
                fd = target if isinstance(target, int) else target.fileno()
                if not isinstance(target, int):
                    target.flush()
                i = 0
                while i < len(b):
                    i += os.write(fd, b[i:])
        self.o, self.e = o, e
        w.after()
        self.returncode = rc

    def _conv(self, b):
        return b.decode("utf-8", "replace") if self.text else b

    def communicate(self, input=None, timeout=None):
        self.run(input)
        return (self._conv(self.o) if self._stdout == subprocess.PIPE else None,
                self._conv(self.e) if self._stderr == subprocess.PIPE else None)

    def wait(self, timeout=None):
        self.run()
        if self.result is not None:
            self.returncode = self.result[0]
        return self.returncode

    def poll(self):
        self.run()
        return self.returncode

    def send_signal(self, sig):
        if not self.done:
            self.done = True
            self.result = (-int(sig), b"", b"")
            self.o = self.e = b""
            self.returncode = -int(sig)

    def kill(self):
        self.send_signal(9)

    def terminate(self):
        self.send_signal(15)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


class _Lazy:
    def __init__(self, p, which):
        self.p, self.which, self.buf = p, which, None

    def _get(self):
        if self.buf is None:
            self.p.run()
            b = self.p._conv(self.p.o if self.which == 1 else self.p.e)
            self.buf = io.StringIO(b) if self.p.text else io.BytesIO(b)
        return self.buf

    def read(self, n=-1):
        return self._get().read(n)

    def readline(self):
        return self._get().readline()

    def readlines(self):
        return self._get().readlines()

    def __iter__(self):
        return iter(self._get())

    def close(self):
        pass

    def fileno(self):
        raise HarnessError("pipes between simulated processes are not simulated")


def s_system(cmd):
    w = _ACTIVE
    rc, o, e = w.shell(os.fsdecode(cmd), os.path.abspath(os.getcwd()))
    if w.interrupted:
        w.interrupted = False       # system() ignores the interrupt in the parent
        rc = 130
    w.after()
    return (-rc) if rc < 0 else rc << 8


def s_forbidden(name):
    def f(*a, **k):
        raise HarnessError(f"{name} is not simulated")
    return f


def s_which(cmd, mode=None, path=None):
    return "/usr/bin/" + cmd if cmd in _ACTIVE.programs else None


_saved = []


def install():
    import shutil
    for mod, name, new in [(os, "system", s_system), (subprocess, "Popen", SimPopen),
                           (urllib.request, "urlopen", s_urlopen), (urllib.request, "urlretrieve", s_urlretrieve),
                           (shutil, "which", s_which)]:
        _saved.append((mod, name, getattr(mod, name)))
        setattr(mod, name, new)
    for name in ("execv", "execve", "execvp", "execvpe", "posix_spawn", "posix_spawnp", "spawnv", "spawnve", "spawnvp",
                 "spawnvpe", "fork", "forkpty", "startfile"):
        if hasattr(os, name):
            _saved.append((os, name, getattr(os, name)))
            setattr(os, name, s_forbidden("os." + name))


def uninstall():
    while _saved:
        mod, name, old = _saved.pop()
        setattr(mod, name, old)
