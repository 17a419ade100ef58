"""Checks of single server functions: each case runs in a forked child against the
functions themselves, with every argument flush against an unreadable page."""
import ctypes, json, mmap, os, resource, signal
import build as simbuild
import pbt
from pbt import Violation

_libc = ctypes.CDLL(None, use_errno=True)
_libc.mmap.restype = ctypes.c_void_p
_libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
_libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
PAGE = 4096


class Guard:
    """A buffer whose last byte is the last readable (and writable) one; bytes before it are a canary."""
    PAGES = 2

    def __init__(self):
        n = self.PAGES * PAGE
        base = _libc.mmap(None, n + PAGE, 3, 0x22, -1, 0)
        assert base not in (None, 2 ** 64 - 1)
        _libc.mprotect(base + n, PAGE, 0)
        self.base, self.end = base, base + n

    def put(self, data):
        """A pointer to data, which ends at the guard."""
        p = self.end - len(data)
        ctypes.memmove(p, data, len(data))
        return p

    def s(self, text):
        return self.put(text.encode("latin-1") + b"\0")

    def room(self, n, fill=0xA5):
        """n writable bytes, with 64 canary bytes before them."""
        ctypes.memset(self.end - n - 64, fill, n + 64)
        self.n, self.fill = n, fill
        return self.end - n

    def intact(self):
        return ctypes.string_at(self.end - self.n - 64, 64) == bytes([self.fill]) * 64

    def bytes(self, p, n):
        return ctypes.string_at(p, n)

    def str(self, p):
        return ctypes.string_at(p).decode("latin-1")


class Bad(Exception):
    pass


class UnitCheck(pbt.Check):
    LEVEL = "exploration"
    ASSUMPTIONS = ["functions called directly, one at a time, from the sources in /repo/ircd built as a shared library"]
    lib = None

    def prepare(self):
        simbuild.unit()

    def load(self):
        if self.lib is None:
            self.lib = ctypes.CDLL(str(simbuild.unit()))
            self.setup(self.lib)
        return self.lib

    def setup(self, L):
        pass

    def eval(self, L, case):
        """Runs in the child: raises Bad, or returns the info dictionary."""
        raise NotImplementedError

    def run(self, case):
        L = self.load()
        r, w = os.pipe()
        e, ew = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.close(e)
                os.dup2(ew, 2)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_CPU, (20, 20))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                self.wfd = w
                try:
                    out = self.eval(L, case)
                except Bad as b:
                    out = {"bad": str(b.args[0]), "key": b.args[1] if len(b.args) > 1 else None}
                data = json.dumps(out).encode()
                while data:
                    data = data[os.write(w, data):]
            except BaseException:
                import traceback
                os.write(2, traceback.format_exc().encode()[-3000:])
                os._exit(77)
            os._exit(0)
        os.close(w)
        os.close(ew)
        data = b""
        while True:
            d = os.read(r, 65536)
            if not d:
                break
            data += d
        err = os.read(e, 4000).decode("latin-1")
        os.close(r)
        os.close(e)
        _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st):
            raise Violation("the call died with signal %d (%s) in one of %s" % (os.WTERMSIG(st), signal.Signals(os.WTERMSIG(st)).name, json.dumps(case)[:1500]), "signal")
        if os.WEXITSTATUS(st):
            raise RuntimeError("child: " + err)
        out = json.loads(data)
        if "bad" in out:
            raise Violation(out["bad"], out["key"])
        return out
