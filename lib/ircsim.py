"""Python side of the simulator: one process, many servers, a virtual clock."""
import collections, os, re, shutil, signal, subprocess, sys, tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF / "sim"))
import build as simbuild  # noqa: E402


class Crash(Exception):
    """The server died, hung or corrupted memory while running a case."""


class SimError(Exception):
    """The harness itself went wrong."""


class Msg:
    __slots__ = ("raw", "tags", "src", "cmd", "params")

    def __init__(self, raw):
        self.raw = raw
        s = raw
        self.tags = {}
        if s.startswith("@"):
            t, _, s = s[1:].partition(" ")
            s = s.lstrip(" ")
            for kv in t.split(";"):
                k, _, v = kv.partition("=")
                self.tags[k] = v
        self.src = None
        if s.startswith(":"):
            self.src, _, s = s[1:].partition(" ")
            s = s.lstrip(" ")
        if s.startswith(":"):
            head, trail = "", s[1:]
        else:
            head, sep, trail = s.partition(" :")
            if not sep:
                trail = None
        p = head.split(" ")
        p = [x for x in p if x != ""]
        if trail is not None:
            p.append(trail)
        self.cmd = p[0].upper() if p else ""
        self.params = p[1:]

    @property
    def nick(self):
        return self.src.split("!")[0] if self.src else None

    def __repr__(self):
        return "<%s>" % self.raw


def dec(b):
    return b.decode("latin-1")


def enc(s):
    return s if isinstance(s, bytes) else s.encode("latin-1")


class Sim:
    """One ircsim process."""

    def __init__(self, variant="asan"):
        with_build = simbuild.build(variant)
        self.exe, self.so = map(str, with_build)
        self.variant = variant
        self.root = tempfile.mkdtemp(prefix="ircsim.", dir=scratch())
        LIVE.append(self)
        self.errpath = os.path.join(self.root, "stderr")
        self.errf = open(self.errpath, "wb")
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = ("detect_leaks=1:leak_check_at_exit=0:abort_on_error=0:exitcode=66:handle_abort=0:detect_stack_use_after_return=0:"
                               "handle_segv=1:allocator_may_return_null=1:max_allocation_size_mb=512:"
                               "quarantine_size_mb=8:malloc_context_size=8:symbolize=1:fast_unwind_on_malloc=1")
        env["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1:exitcode=66"
        env["LLVM_PROFILE_FILE"] = os.environ.get("LLVM_PROFILE_FILE", "/dev/null")
        env["TZ"] = "UTC"
        cmd = ["setarch", "-R", self.exe] if shutil.which("setarch") and NORANDOM else [self.exe]
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf,
                                  env=env, cwd=self.root, start_new_session=True)
        self.q = []
        self.inst = {}
        self.in_case = False

    # -- raw protocol
    def cmd(self, s, data=None):
        self.q.append(enc(s) + b"\n")
        if data is not None:
            self.q.append(data)

    def flush(self):
        b = b"".join(self.q)
        self.q = []
        try:
            self.p.stdin.write(b)
            self.p.stdin.flush()
        except BrokenPipeError:
            pass

    def frame(self):
        h = self.p.stdout.readline()
        if not h:
            rc = self.p.wait()
            raise Crash("simulator exited with %s\n%s" % (rc, self.stderr_tail()))
        n = int(h)
        b = self.p.stdout.read(n)
        if len(b) != n:
            raise Crash("simulator exited mid reply\n" + self.stderr_tail())
        return b

    def go(self):
        """Runs the queued commands; returns the reply's records."""
        self.q.append(b"go\n")
        self.flush()
        b = self.frame()
        if b[:1] == b"!":
            self.in_case = False
            self.dead = True
            raise Crash("server crashed: %s\n%s" % (dec(b).strip(), self.stderr_tail()))
        return parse_reply(b)

    def stderr_tail(self, n=12000):
        self.errf.flush()
        try:
            d = open(self.errpath, "rb").read()
        except OSError:
            return ""
        d = d[getattr(self, "errmark", 0):]
        i = d.find(b"ERROR: AddressSanitizer")
        if i >= 0:
            return dec(d[i:i + n])
        return dec(d[-n:])

    # -- servers
    def boot(self, inst, conf, files=None, args=()):
        d = os.path.join(self.root, "s%d" % inst)
        os.makedirs(d, exist_ok=True)
        so = os.path.join(self.root, "ircd%d.so" % inst)
        if not os.path.exists(so):
            try:
                os.symlink(self.so, so) if inst == 0 else shutil.copyfile(self.so, so)
            except OSError:
                shutil.copyfile(self.so, so)
        self.write(inst, "ircd.conf", conf)
        for k, v in (files or {}).items():
            self.write(inst, k, v)
        self.cmd("boot %d %s %s %s" % (inst, so, d, " ".join(args)))
        return self.go()

    def path(self, inst, name):
        return os.path.join(self.root, "s%d" % inst, name)

    def write(self, inst, name, text):
        with open(self.path(inst, name), "wb") as f:
            f.write(enc(text))

    def fork(self, cpu=60):
        self.errmark = os.path.getsize(self.errpath)
        self.cmd("fork %d" % cpu)
        self.flush()
        self.frame()
        self.in_case = True
        self.dead = False

    def end(self, leak=False):
        self.cmd("end 1" if leak else "end")
        self.flush()
        b = self.frame()
        self.in_case = False
        if b[:1] != b"K":
            raise Crash("server crashed at end of case: %s\n%s" % (dec(b), self.stderr_tail()))

    def close(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()
        self.errf.close()
        shutil.rmtree(self.root, ignore_errors=True)
        if self in LIVE:
            LIVE.remove(self)


NORANDOM = True
LIVE = []          # every simulator this process started
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = os.environ.get("IRCSIM_TMP")
        if not base:
            base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and \
                shutil.disk_usage("/dev/shm").free > (1 << 30) else tempfile.gettempdir()
        _scratch = base
    return _scratch


def parse_reply(b):
    r, i, n = [], 0, len(b)
    while i < n:
        j = b.index(b"\n", i)
        w = b[i:j].decode("latin-1").split(" ")
        i = j + 1
        if w[0] in ("O", "U"):
            k = int(w[-1])
            r.append((w[0], *w[1:-1], b[i:i + k]))
            i += k + 1
        else:
            r.append(tuple(w))
    return r


class Conn:
    """A harness-owned connection to a server."""

    def __init__(self, world, ext, inst):
        self.w, self.ext, self.inst = world, ext, inst
        self.buf = b""       # all bytes received and not yet consumed as lines
        self.eof = False
        self.closed = False
        self.raw_log = None  # optional full byte record
        self.auto = True
        self.pingcount = 0

    def feed(self, data):
        if self.raw_log is not None:
            self.raw_log += data
        self.buf += data

    def lines(self):
        """Consumes and returns the complete lines received so far."""
        if b"\n" not in self.buf:
            return []
        head, _, self.buf = self.buf.rpartition(b"\n")
        return [dec(x[:-1] if x.endswith(b"\r") else x) for x in head.split(b"\n")]

    def msgs(self):
        return [Msg(x) for x in self.lines() if x]

    def send(self, *lines):
        for x in lines:
            self.raw(enc(x) + b"\r\n")

    def raw(self, b):
        self.w.sim.cmd("send %d %d" % (self.ext, len(b)), b)

    def close(self):
        self.closed = True
        self.w.sim.cmd("close %d" % self.ext)

    def rst(self):
        self.closed = True
        self.w.sim.cmd("rst %d" % self.ext)

    # send, run the network until idle, return what came back
    def do(self, *lines):
        self.send(*lines)
        self.w.run()
        return self.msgs()


class World:
    """A booted network; case() gives a pristine forked copy of it."""

    def __init__(self, sim):
        self.sim = sim
        self.next_ext = 1
        self.conns = {}
        self.events = []     # non-output records, in order
        self.exited = {}
        self.sport = 20000
        self.peers = []      # objects with save()/restore(), rolled back after each case

    def absorb(self, recs):
        for r in recs:
            t = r[0]
            if t == "O":
                c = self.conns.get(int(r[1]))
                if c is None:
                    c = self.conns[int(r[1])] = Conn(self, int(r[1]), None)
                c.feed(r[2])
            elif t == "E":
                c = self.conns.get(int(r[1]))
                if c is None:
                    c = self.conns[int(r[1])] = Conn(self, int(r[1]), None)
                c.eof = True
            elif t == "B":
                self.events.append(r)
                if r[1] != "nolisten":
                    raise SimError("bad command: %r" % (r,))
            else:
                if t == "X":
                    self.exited[int(r[1])] = r
                self.events.append(r)

    def run(self):
        """Run everything until every server is idle."""
        self.sim.cmd("run")
        self.absorb(self.sim.go())

    def adv(self, ms):
        self.sim.cmd("adv %d" % ms)
        self.absorb(self.sim.go())

    def sync(self):
        self.absorb(self.sim.go())

    def take_events(self, kind=None):
        ev = [e for e in self.events if kind is None or e[0] == kind]
        self.events = [e for e in self.events if not (kind is None or e[0] == kind)]
        return ev

    def connect(self, inst=0, ip="10.0.0.1", port=6667, sport=None):
        e = self.next_ext
        self.next_ext += 1
        if sport is None:
            self.sport += 1
            sport = self.sport
        self.sim.cmd("conn %d %d %s %d %d" % (e, inst, ip, sport, port))
        c = Conn(self, e, inst)
        c.ip = ip
        self.conns[e] = c
        return c

    def client(self, nick, inst=0, ip="10.0.0.1", user=None, real="r", port=6667, caps=(), passwd=None, run=True, expect=True):
        """A registered client."""
        c = self.connect(inst, ip, port)
        c.nick = nick
        if caps:
            c.send("CAP LS 302")
        if passwd is not None:
            c.send("PASS :" + passwd)
        c.send("NICK " + nick, "USER %s 0 * :%s" % (user or nick.lower(), real))
        if caps:
            c.send("CAP REQ :" + " ".join(caps), "CAP END")
        self.run()
        c.welcome = c.msgs()
        for m in c.welcome:
            if m.cmd == "PING":
                c.send("PONG :" + m.params[-1])
                self.run()
                c.welcome += c.msgs()
        if caps:         # so many lines meet the flood limit of a new client
            self.adv(6000)
            c.welcome += c.msgs()
        if expect and not any(m.cmd == "001" for m in c.welcome):
            raise SimError("registration of %s failed: %r" % (nick, c.welcome[-5:]))
        return c

    # snapshot / restore of the harness-side state around a forked case
    def begin(self, cpu=60):
        self._saved = (self.next_ext, dict(self.conns), list(self.events), dict(self.exited), self.sport,
                       {e: (c.buf, c.eof, c.closed, c.raw_log) for e, c in self.conns.items()})
        self._psaved = [(p, p.save()) for p in self.peers]
        self.sim.fork(cpu)

    def finish(self, leak=False):
        try:
            if self.sim.in_case:
                self.sim.end(leak)
        finally:
            self.next_ext, self.conns, self.events, self.exited, self.sport, cs = self._saved
            self.peers = [p for p, _ in self._psaved]
            for p, st in self._psaved:
                p.restore(st)
            for e, (b, eof, cl, raw) in cs.items():
                c = self.conns[e]
                c.buf, c.eof, c.closed, c.raw_log = b, eof, cl, raw


# ---------------------------------------------------------------- configuration
SERVERS = ["hub.test.net", "leaf1.test.net", "leaf2.test.net", "leaf3.test.net"]


def inst_ip(i):
    return "10.1.0.%d" % (i + 1)


BASE_FEATURES = {
    "NODNS": "TRUE", "CONFIG_OPERCMDS": "TRUE", "IPCHECK_CLONE_LIMIT": "1000", "IPCHECK_CLONE_PERIOD": "1",
    "CAP_MESSAGE_TAGS": "TRUE", "CAP_SERVER_TIME": "TRUE", "CAP_ACCOUNT_TAG": "TRUE",
    "MAXCHANNELSPERUSER": "20", "DEFAULT_LIST_PARAM": "", "PINGFREQUENCY": "120",
}


def conf(inst=0, nservers=1, features=None, extra="", hub=True, maxflood=262144, sendq=1600000, clients=None,
         opers=True, services=True, pingfreq=90, links=None):
    f = dict(BASE_FEATURES)
    if hub:
        f["HUB"] = "TRUE"
    f.update(features or {})
    f = {k: v for k, v in f.items() if v is not None and v != ""}
    o = []
    a = o.append
    a('General { name = "%s"; vhost = "0.0.0.0"; description = "Server %d"; numeric = %d; };' % (SERVERS[inst], inst, inst + 1))
    a('Admin { Location = "L1"; Location = "L2"; Contact = "c@t"; };')
    a('Class { name = "Server"; pingfreq = %d seconds; connectfreq = 300 seconds; sendq = 9 megabytes; maxlinks = 20; };' % pingfreq)
    a('Class { name = "Local"; pingfreq = %d seconds; sendq = %d; maxflood = %d; maxlinks = 1000; };' % (pingfreq, sendq, maxflood))
    for j in range(nservers) if links is None else links:
        if j != inst:
            a('Connect { name = "%s"; host = "%s"; port = 4400; password = "lp"; class = "Server"; hub; autoconnect = no; };'
              % (SERVERS[j], inst_ip(j)))
    if services:
        # fake servers the harness plays
        for n in ("services.test.net", "peer1.test.net", "peer2.test.net"):
            a('Connect { name = "%s"; host = "10.9.0.1"; port = 4400; password = "lp"; class = "Server"; hub; autoconnect = no; };' % n)
        a('UWorld { oper = "services.test.net"; };')
    for c in clients if clients is not None else ['Client { ip = "*"; class = "Local"; };']:
        a(c)
    if opers:
        a('Operator { local = no; class = "Local"; host = "*@*"; password = "$PLAIN$operpass"; name = "oper"; set = yes; };')
        a('Operator { local = yes; class = "Local"; host = "*@*"; password = "$PLAIN$lpass"; name = "locop"; };')
    a('Port { server = yes; port = 4400; };')
    a('Port { port = 6667; };')
    a('Port { websocket = yes; port = 7000; };')
    a(extra)
    a('Features {')
    for k, v in f.items():
        a('  "%s" = "%s";' % (k, v))
    a('};')
    return "\n".join(o) + "\n"


def boot_network(n=1, variant="asan", topology=None, link=True, confs=None, files=None, **kw):
    """Boots n servers and links them (default: a star around 0)."""
    sim = Sim(variant)
    w = World(sim)
    for i in range(n):
        w.absorb(sim.boot(i, confs[i] if confs else conf(i, n, **kw), files))
    w.sync()
    if w.exited:
        raise SimError("server did not start: %r\n%s" % (w.exited, sim.stderr_tail(2000)))
    w.n = n
    w.topology = topology if topology is not None else [(0, i) for i in range(1, n)]
    if link:
        for a, b in w.topology:
            link_servers(w, a, b)
    w.adv(1500)
    for c in w.conns.values():
        c.lines()
    return w


def link_servers(w, a, b):
    """Makes server a connect to server b, by an operator on a."""
    op = w.client("Lnk%d%d" % (a, b), a, ip="10.200.0.1", user="lnk")
    dbg = op.do("OPER oper operpass")
    dbg += op.do("CONNECT %s 4400" % SERVERS[b])
    for _ in range(5):
        w.adv(500); dbg += op.msgs()
    msgs = op.do("MAP")
    if not any(SERVERS[b] in m.raw for m in msgs):
        raise SimError("link %d-%d failed: %r" % (a, b, dbg + msgs + w.events))
    op.send("QUIT")
    w.run()
    op.close()
    w.run()
    w.sim.cmd("drop %d" % op.ext)
    w.conns.pop(op.ext)
    w.events = []
