"""Runs the real ircd from /repo (cwd) as nobody in a scratch directory, with socket clients and a fake P10 server."""
import os, pwd, shutil, signal, socket, subprocess, sys, tempfile, time

B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789[]"


def b64(v, w):
    s = ""
    for _ in range(w):
        s = B64[v & 63] + s
        v >>= 6
    return s


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


class Ircd:
    def __init__(self, features="", extra="", name="hub.test.net", numeric=1, connect="", client=None, base=True, sendq=1000000):
        self.dir = tempfile.mkdtemp(prefix="ircddemo.")
        self.port, self.sport = free_port(), free_port()
        self.name = name
        f = ('"NODNS" = "TRUE"; "NOIDENT" = "TRUE"; "HUB" = "TRUE"; "IPCHECK_CLONE_LIMIT" = "1000"; "CONFIG_OPERCMDS" = "TRUE"; '
             '"RANDOM_SEED" = "abcdefghijkl";' if base else "")
        self.conf = """
General { name = "%s"; vhost = "127.0.0.1"; description = "x"; numeric = %d; };
Admin { Location = "a"; Location = "b"; Contact = "c"; };
Class { name = "Server"; pingfreq = 90 seconds; connectfreq = 300 seconds; sendq = 9 megabytes; maxlinks = 20; };
Class { name = "Local"; pingfreq = 90 seconds; sendq = %d; maxflood = 100000; maxlinks = 1000; };
%s
Operator { local = no; class = "Local"; host = "*@*"; password = "$PLAIN$operpass"; name = "oper"; set = yes; };
Connect { name = "peer.test.net"; host = "127.0.0.1"; port = 4400; password = "lp"; class = "Server"; hub; autoconnect = no; };
UWorld { oper = "peer.test.net"; };
Connect { name = "peer2.test.net"; host = "127.0.0.1"; port = 4400; password = "lp"; class = "Server"; hub; autoconnect = no; };
%s
Port { server = yes; port = %d; };
Port { port = %d; };
%s
Features { %s %s };
""" % (name, numeric, sendq, client or 'Client { ip = "*"; class = "Local"; };', connect, self.sport, self.port, extra, f, features)
        self.start()

    def start(self):
        cf = os.path.join(self.dir, "ircd.conf")
        open(cf, "w").write(self.conf)
        exe = os.path.join(self.dir, "ircd")
        shutil.copyfile(os.path.join(os.getcwd(), "ircd", "ircd"), exe)
        os.chmod(exe, 0o755)
        kw = {}
        if os.geteuid() == 0:
            for p in (self.dir, cf, exe):
                os.chown(p, 65534, 65534)
            kw = dict(user=65534, group=65534, extra_groups=[])
        self.log = open(os.path.join(self.dir, "out"), "wb")
        self.p = subprocess.Popen([exe, "-n", "-d", self.dir, "-f", cf], stdin=subprocess.DEVNULL, stdout=self.log,
                                  stderr=subprocess.STDOUT, start_new_session=True, **kw)
        for _ in range(100):
            try:
                socket.create_connection(("127.0.0.1", self.port), 1).close()
                return
            except OSError:
                time.sleep(.1)
        print(open(os.path.join(self.dir, "out")).read())
        raise SystemExit("ircd did not start")

    def rehash(self, conf):
        self.conf = conf
        open(os.path.join(self.dir, "ircd.conf"), "w").write(conf)
        os.kill(self.p.pid, signal.SIGHUP)
        time.sleep(.5)

    def alive(self):
        return self.p.poll() is None

    def stop(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


class Conn:
    def __init__(self, port, src="127.0.0.1", rcvbuf=None):
        self.s = socket.socket()
        if rcvbuf:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.bind((src, 0))
        self.s.connect(("127.0.0.1", port))
        self.buf = b""
        self.eof = False
        self.all = []

    def send(self, *lines):
        for l in lines:
            try:
                self.s.sendall(l.encode("latin-1") + b"\r\n")
            except OSError:
                self.eof = True

    def read(self, t=.4):
        """Lines that arrive until t seconds pass in silence."""
        out = []
        self.s.settimeout(t)
        while not self.eof:
            try:
                d = self.s.recv(65536)
            except socket.timeout:
                break
            except OSError:
                d = b""
            if not d:
                self.eof = True
                break
            self.buf += d
            while b"\n" in self.buf:
                l, self.buf = self.buf.split(b"\n", 1)
                l = l.rstrip(b"\r").decode("latin-1")
                if l.startswith("PING ") or (l[:1] == "@" and " PING :" in l):
                    self.send("PONG " + l.split("PING ", 1)[1])
                elif " G " in l[:6] and getattr(self, "num", None):
                    self.send("%s Z %s" % (self.num, l.split(" G ")[1]))
                else:
                    out.append(l)
        self.all += out
        return out

    def do(self, *lines, t=.4):
        self.send(*lines)
        return self.read(t)

    def close(self):
        self.s.close()


def client(d, nick, user=None, src="127.0.0.1", caps=None, **kw):
    c = Conn(d.port, src, **kw)
    if caps:
        c.send("CAP REQ :" + caps)
    c.send("NICK " + nick, "USER %s 0 * :real %s" % (user or nick.lower(), nick))
    if caps:
        c.send("CAP END")
    for _ in range(40):
        c.read(.2)
        if any(" 376 " in l or " 422 " in l for l in c.all) or c.eof:
            break
    c.nick = nick
    return c


class Peer(Conn):
    """A fake server, numeric 50."""

    def __init__(self, d, name="peer.test.net", num=50, burst=(), start=None):
        super().__init__(d.sport)
        now = int(time.time())
        self.num = b64(num, 2)
        self.send("PASS :lp", "SERVER %s 1 %d %d J10 %s]]] +s6 :fake" % (name, start or now, now, self.num))
        self.read(.5)
        self.send(*burst)
        self.send(self.num + " EB")
        self.read(.5)
        self.send(self.num + " EA")
        self.read(.3)

    def user(self, nick, n, ts=None, ident=None, host="h.example", ip="B]AAAB", modes="", real="x"):
        u = self.num + b64(n, 3)
        self.send("%s N %s 1 %d %s %s %s%s %s :%s" % (self.num, nick, ts or int(time.time()), ident or nick.lower(), host,
                                                     modes + " " if modes else "", ip, u, real))
        return u


_bad = []


def check(ok, what):
    if not ok:
        print("BROKEN: " + what)
        _bad.append(what)
    else:
        print("fine: " + what)


def finish(*ds):
    for d in ds:
        d.stop()
    sys.exit(1 if _bad else 0)
