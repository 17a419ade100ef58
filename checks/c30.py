"""Timeouts: registration, pings, silent connections."""
import ircsim, pbt, p10
from pbt import Violation

PROP = {
    "id": "C30",
    "title": "A connection is dropped for silence only after it was pinged and given its class's time to answer, and always then; one that does not register in time is dropped",
    "statement": "A registered connection that sends nothing is sent a PING once the ping frequency of its connection class has passed, not before, and if it stays silent for as long again it is dropped with the reason \"Ping timeout\", which everyone who shares a channel and every linked server sees; "
                 "any data in between, answered PING or not, keeps it for another round. No connection is dropped for silence that was not sent a PING the class's ping frequency before, and linked servers are held to the same. "
                 "A connection that has not finished its registration within the time limit is dropped, whatever it sends, and no earlier.",
    "quantifier": {"over": ["histories", "schedules"],
                   "text": "histories of connections in classes with different ping frequencies, below and above the server's own, registering at any moment, talking, answering or ignoring PINGs, with configured limits and a linked server that falls silent"},
    "why_tests_cant": "The moments of connecting, talking and falling silent relative to the server's own schedule of checks decide, with minutes between them; tests do not wait that long.",
    "anchors": {
        "files": ["ircd/ircd.c", "ircd/client.c", "ircd/class.c", "ircd/s_auth.c", "ircd/s_bsd.c", "ircd/m_pong.c", "ircd/m_ping.c"],
        "mechanism": [{"name": "silence", "where": "ircd/ircd.c check_pings()"},
                      {"name": "ping frequency", "where": "ircd/client.c client_get_ping(), ircd/class.c get_conf_ping()"},
                      {"name": "registration time limit", "where": "ircd/s_auth.c auth_ping_timeout()"},
                      {"name": "signs of life", "where": "ircd/s_bsd.c read_packet(), ircd/m_pong.c"}],
        "observe_at": ["PING and ERROR at every connection", "QUIT at users and at the linked server", "the moment of each"],
    },
}
TECHNIQUE = "model-based random testing in virtual time: every PING and every drop of every connection within the bounds of a model of its last signs of life; under AddressSanitizer without free lists"

NS = 7
CLASSES = [("Fast", 20, "10.21"), ("Mid", 60, "10.22"), ("Long", 150, "10.23")]
CHAN = "#c"


class S:
    pass


class CHECK(pbt.Check):
    RULE = "a silent registered connection was dropped for silence and another was kept by an answer or other data after its PING"
    QUICK, THOROUGH = 1600, 60000
    VARIANT = "asan"

    def gen(self, rng, i, tier):
        ops = []
        for _ in range(rng.randint(8, 40)):
            r = rng.random()
            s = rng.randrange(NS)
            if r < .26:
                ops.append(["conn", s, rng.randrange(3), 6667 if rng.random() < .9 else rng.choice([4400, 7000]), rng.choice(["all", "all", "all", "all", "", "nick", "user", "cap", "nopong"]), int(rng.random() < .5)])
            elif r < .34:
                ops.append(["reg", s])
            elif r < .46:
                ops.append(["data", s, rng.randrange(7)])
            elif r < .50:
                ops.append(["mute", s, rng.randint(0, 1)])
            elif r < .53:
                ops.append(["quit", s])
            elif r < .61:
                ops.append(["peer", rng.choice(["mute", "mute", "talk", "data", "data", "link", "link"])])
            else:
                ops.append(["adv", rng.choice([1, 3, 10, 19, 20, 21, 25, 40, 59, 60, 61, 89, 90, 110, 120, 150])])
        return {"pf": rng.choice([120, 120, 50]), "ct": rng.choice([90, 30, 200]), "ps": rng.choice([30, 70, 150]), "ops": ops}

    def simplify(self, op):
        if op[0] == "adv":
            return [["adv", x] for x in (1, 20, 60) if x < op[1]]
        return []

    def boot(self, pf, ct, ps):
        f = {"CONNECTTIMEOUT": str(ct), "PINGFREQUENCY": str(pf), "NICKDELAY": None}
        extra = "".join('Class { name = "%s"; pingfreq = %d seconds; sendq = 1600000; maxflood = 262144; maxlinks = 1000; };\n' % (n, p) for n, p, _ in CLASSES)
        cl = ['Client { ip = "*"; class = "Local"; };'] + ['Client { ip = "%s.*"; class = "%s"; };' % (ip, n) for n, _, ip in CLASSES]
        conf = ircsim.conf(0, 1, features=f, clients=cl, pingfreq=ps)
        conf = conf.replace('Class { name = "Local"; pingfreq = %d' % ps, 'Class { name = "Local"; pingfreq = 60000').replace('Class { name = "Local"', extra + 'Class { name = "Local"', 1)
        return ircsim.boot_network(1, self.VARIANT, confs=[conf])

    def run(self, case):
        key = (case["pf"], case["ct"], case["ps"])
        w = self.world(key, lambda: self.boot(*key))
        with pbt.case_of(self, w):
            self.w = w
            self.pf, self.ct, self.ps = key
            self.now = 0
            self.seq = 0
            self.seen = set()
            self.slots = [None] * NS
            self.quits = {}
            self.obs = w.client("Obs", 0, ip="10.250.0.1", user="obs")
            self.obs.do("JOIN " + CHAN)
            self.obs.lines()
            self.peer = None
            for n, op in enumerate(case["ops"]):
                self.op = "op %d %r, second %d" % (n, op, self.now)
                getattr(self, "do_" + op[0])(*op[1:])
                self.look()
            self.op = "after the operations"
            for _ in range(3):
                self.do_adv(25)
            return {"nontrivial": {"dropped", "kept"} <= self.seen, "labels": sorted(self.seen)}

    def fail(self, text, *a):
        raise Violation("%s: %s" % (self.op, text % a))

    # -- operations
    def do_adv(self, secs):
        for _ in range(secs):
            self.w.adv(1000)
            self.now += 1
            self.look()

    def do_conn(self, i, k, port, how, pong):
        if self.slots[i]:
            return
        s = self.slots[i] = S()
        self.seq += 1
        s.i, s.k, s.port, s.P = i, k, port, CLASSES[k][1]
        s.nick = "Us%d" % self.seq
        s.c = self.w.connect(0, "%s.0.%d" % (CLASSES[k][2], i + 1), port)
        s.pong, s.reg, s.first, s.last, s.ping, s.cookie, s.n = pong, False, self.now, self.now, None, None, 0
        s.todo = {"nick", "user"}
        s.how = how
        self.w.run()
        if port != 6667:
            s.todo = None
            return
        if how == "all":
            self.do_reg(i)
        elif how == "nick":
            s.c.send("NICK " + s.nick)
            s.todo.discard("nick")
        elif how == "user":
            s.c.send("USER u 0 * :r")
            s.todo.discard("user")
        elif how == "cap":
            s.c.send("CAP LS 302", "NICK " + s.nick, "USER u 0 * :r")
            s.todo = {"cap"}
        elif how == "nopong":
            s.c.send("NICK " + s.nick, "USER u 0 * :r")
            s.todo = set()
        self.w.run()
        self.look()

    def do_reg(self, i):
        s = self.slots[i]
        if not s or s.reg or s.todo is None:
            return
        if s.n:
            s.c.raw(b"\r\n")
        for x in ("nick", "user", "cap"):
            if x in s.todo:
                s.c.send({"nick": "NICK " + s.nick, "user": "USER u 0 * :r", "cap": "CAP END"}[x])
        s.todo = set()
        s.how = "all"
        self.w.run()
        for _ in range(2):
            self.look()
            if not self.slots[i]:
                return
            if s.cookie:
                s.c.send("PONG :" + s.cookie)
                s.cookie = None
                self.w.run()
        self.look()
        if self.slots[i] and not s.reg:
            # the flood limit of new clients
            self.do_adv(12)
            if self.slots[i] and not s.reg:
                self.fail("%s cannot register: %r", s.nick, s.c.buf)

    def do_data(self, i, kind):
        s = self.slots[i]
        if not s:
            return
        if not s.reg:
            if s.port == 6667:
                s.c.raw(b"x" if kind % 2 else b"PRIVMSG a\r\n" if s.n < 3 else b"y")
                s.n += 1
                self.w.run()
            return
        s.c.raw([b"PRIVMSG #c :hello\r\n", b"AWAY :x\r\n", b"\r\n", b" ", b"PONG :other\r\n", b"PING :z\r\n", b"ISON a\r\n"][kind])
        self.alive(s)
        self.w.run()

    def alive(self, s):
        if s.ping is not None:
            self.seen.add("kept")
        s.last, s.ping = self.now, None

    def do_mute(self, i, m):
        if self.slots[i]:
            self.slots[i].pong = not m

    def do_quit(self, i):
        s = self.slots[i]
        if not s or s.port != 6667 or not s.reg:
            return
        s.c.send("QUIT :bye")
        self.w.run()
        s.c.lines()
        if not s.c.eof:
            self.fail("%s still connected after QUIT", s.nick)
        self.quits[s.nick] = "Quit: bye"
        if self.peer:
            self.peer.quits[s.nick] = "Quit: bye"
        self.slots[i] = None

    def do_peer(self, what):
        if what == "link":
            if self.peer is None:
                for p in list(self.w.peers):
                    self.w.peers.remove(p)
                p = self.peer = p10.Peer(self.w, "peer1.test.net", 90, 0, "10.9.0.1", flags="+s6")
                p.handshake(burst=["$ME N Far 1 %d f far.test + DAqAoB $MEAAA :far" % p.now(), "$ME B %s %d $MEAAA" % (CHAN, p.now())])
                p.talk, p.last, p.asll, p.pinged = True, self.now, None, None
                p.since = self.now
                p.quits, p.local = {}, {}
                for l in p.log:
                    self.local_user(p, l.split(" "), l)
            return
        if not self.peer:
            return
        if what in ("mute", "talk"):
            self.peer.talk = what == "talk"
        else:
            self.peer.send("%sAAA P %s :x" % (self.peer.num, CHAN))
            self.peer.last, self.peer.pinged = self.now, None
            self.w.run()

    # -- what must be and what may be
    def look(self):
        again = True
        while again:
            again = False
            for i, s in enumerate(self.slots):
                if s and self.look_at(i, s):
                    again = True
            if self.peer and self.look_peer():
                again = True
            if again:
                self.w.run()
        for l in self.obs.lines():
            p = l.split(" ")
            if p[1] == "QUIT":
                n = p[0][1:].split("!")[0]
                self.note_quit(self.quits, n, l.split(" :", 1)[1], "Obs")
            elif p[0] == "PING":
                self.obs.send("PONG :x")
            elif p[0] == "ERROR":
                self.fail("Obs was dropped: %s", l)
        if self.obs.eof:
            self.fail("Obs was dropped")
        if self.quits:
            self.fail("Obs was not shown these departures: %r", self.quits)
        if self.peer and self.peer.quits:
            self.fail("the linked server was not shown these departures: %r", self.peer.quits)

    def note_quit(self, q, nick, reason, who):
        if q.pop(nick, None) != reason and not (nick == "Obs"):
            self.fail("%s was shown that %s quit with %r", who, nick, reason)

    def look_at(self, i, s):
        act = False
        for l in s.c.lines():
            p = l.split(" ")
            if p[0] == "PING":
                if not s.reg:
                    s.cookie = p[1].lstrip(":")
                    continue
                if s.ping is not None:
                    self.fail("%s was sent a second PING, %d seconds after the first", s.nick, self.now - s.ping)
                if self.now - s.last < s.P - 1:
                    self.fail("%s was sent a PING %d seconds after its last data; ping frequency %d", s.nick, self.now - s.last, s.P)
                s.ping = self.now
                self.seen.add("ping")
                if s.pong:
                    s.c.send("PONG :" + p[1].lstrip(":"))
                    self.alive(s)
                    act = True
            elif p[1] == "001" and not s.reg:
                s.reg, s.last, s.ping = True, self.now, None
                s.c.send("JOIN " + CHAN)
                act = True
            elif p[0] == "ERROR":
                s.why = l
        if s.c.eof:
            self.slots[i] = None
            why = getattr(s, "why", "nothing")
            if not s.reg:
                if s.port == 6667 and "Registration Timeout" not in why:
                    self.fail("unregistered %s was dropped: %s", s.nick, why)
                if self.now - s.first < self.ct - 1:
                    self.fail("unregistered %s was dropped %d seconds after it connected: %s", s.nick, self.now - s.first, why)
                self.seen.add("not registered")
                return act
            if "(Ping timeout)" not in why:
                self.fail("%s was dropped: %s", s.nick, why)
            if s.ping is None:
                self.fail("%s was dropped for silence without having been sent a PING; last data %d seconds ago, ping frequency %d", s.nick, self.now - s.last, s.P)
            if self.now - s.ping < s.P - 1:
                self.fail("%s was dropped %d seconds after its PING; ping frequency %d", s.nick, self.now - s.ping, s.P)
            self.seen.add("dropped")
            self.quits[s.nick] = "Ping timeout"
            if self.peer:
                self.peer.quits[s.nick] = "Ping timeout"
            return act
        if not s.reg:
            if self.now - s.first > max(self.ct, self.pf) + 2:
                self.fail("unregistered %s is still connected after %d seconds; time limit %d", s.nick, self.now - s.first, self.ct)
        elif s.ping is None:
            if self.now - s.last > max(s.P, self.pf) + 2:
                self.fail("%s has not been sent a PING %d seconds after its last data; ping frequency %d", s.nick, self.now - s.last, s.P)
        elif self.now - s.ping > s.P + 2:
            self.fail("%s is still connected %d seconds after its PING; ping frequency %d", s.nick, self.now - s.ping, s.P)
        return act

    def local_user(self, p, t, l):
        if len(t) > 8 and t[1] == "N":
            p.local[t[2]] = l.split(" :", 1)[0].split(" ")[-1]

    def look_peer(self):
        p = self.peer
        act = False
        n = 0
        new = p.pump() if p.talk else p.c.lines()
        for l in new:
            if l.startswith("@"):
                l = l.split(" ", 1)[1]
            t = l.split(" ")
            if len(t) < 2:
                continue
            if t[1] == "G":
                if p.asll is not None and t[2].startswith("!") and self.now - p.asll < self.ps - 1:
                    self.fail("the linked server was sent another PING after %d seconds; ping frequency %d", self.now - p.asll, self.ps)
                if t[2].startswith("!"):
                    p.asll = self.now
                if p.pinged is None:
                    p.pinged = self.now
                self.seen.add("server ping")
                if p.talk and not p.c.eof:
                    p.last, p.pinged = self.now, None
                    act = True
            elif t[1] == "Q":
                nick = [k for k, v in p.local.items() if v == t[0]]
                if nick:
                    self.note_quit(p.quits, nick[0], l.split(" :", 1)[1], "the linked server")
            else:
                self.local_user(p, t, l)
        if p.c.eof:
            self.peer = None
            if p.pinged is None or self.now - p.pinged < self.ps - 1 or self.now - p.last < 2 * self.ps - 2:
                self.fail("the linked server was dropped %d seconds after its last data, PINGed %s seconds ago; ping frequency %d", self.now - p.last, "no" if p.pinged is None else self.now - p.pinged, self.ps)
            self.seen.add("server dropped")
            self.quits["Far"] = "*.net *.split"
            return act
        if self.now - p.last > max(self.ps, self.pf) + self.ps + 3:
            self.fail("the linked server is still linked %d seconds after its last data; ping frequency %d", self.now - p.last, self.ps)
        if self.now - (p.asll if p.asll is not None else p.since) > max(self.ps, self.pf) + 2:
            self.fail("the linked server has not been sent a PING for %d seconds; ping frequency %d", self.now - (p.asll or p.since), self.ps)
        return act
