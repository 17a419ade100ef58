"""WHOWAS and nick chasing: the nick history."""
import time
import ircsim, pbt, p10
from ircutil import lower
from pbt import Violation

PROP = {
    "id": "C24",
    "title": "The nick history tells the truth, newest first, and KICK, MODE and KILL find a user under a nick just left",
    "statement": "Every server remembers the last NICKNAMEHISTORYLENGTH departures from a nickname in the order they happened, whether by nick change or by sign-off and on whichever server. WHOWAS, local or remote, answers for every nickname asked for, "
                 "newest first and at most as many as asked for, with the user name, the host as others saw it, the real name, server, time and away text of that moment (the real host only to operators), or that there was no such nickname. "
                 "A KICK, MODE or KILL naming a nickname that nobody uses finds the user who left it last if he is still online and left within KILLCHASETIMELIMIT, and nobody else; the history never refers to somebody who is gone.",
    "quantifier": {"over": ["histories", "inputs"],
                   "text": "histories of nick changes, sign-offs, kills, reconnects, away and host changes, splits, history length and chase limit changes on two servers, with a services peer"},
    "why_tests_cant": "What the history must hold depends on the whole past, on its length and on who is still online; no test looks at WHOWAS at all.",
    "anchors": {
        "files": ["ircd/whowas.c", "ircd/m_whowas.c", "ircd/channel.c", "ircd/m_kick.c", "ircd/m_kill.c", "ircd/s_user.c", "ircd/list.c"],
        "mechanism": [{"name": "history", "where": "ircd/whowas.c add_history(), off_history(), whowas_clean()"},
                      {"name": "chasing", "where": "ircd/whowas.c get_history(), ircd/channel.c find_chasing()"}],
        "observe_at": ["numerics 314, 338, 312, 301, 406, 369, 401, 441", "KICK, MODE and KILL messages"],
    },
}
TECHNIQUE = "model-based random testing: histories in a simulated network, every answer compared with a reference model of the nick history; under AddressSanitizer without free lists"

CHAN = "#k"
SERVERS = ["hub.test.net", "leaf1.test.net"]


def bucket(n):
    h = h2 = 0
    for c in lower(n):
        h = (h << 1) + ord(c)
        h2 = (h2 >> 1) + ord(c)
    return (h & 15) << 3 | h2 & 7


def colliding():
    by = {}
    for a in "abcdefghijklmnop":
        for b in "uvwxyz{[]}":
            n = a + "n" + b + "k"
            by.setdefault(bucket(n), []).append(n)
    l = [v for v in by.values() if len({lower(x) for x in v}) == len(v) > 2]
    return l[0][:3] + l[1][:3]


POOL = ["Tom", "tom_", "[x]", "{Y}"] + colliding()
# base nick, kind (0, 1: client of that server, 2: of the services peer), user name, host, real name
US = [("Ann", 0, "ann", "10.1.0.1", "Ann A"), ("Ben", 0, "ben", "10.1.0.2", "Ben"), ("Cat", 1, "cat", "10.1.1.1", "Cat C C"), ("Don", 1, "don", "10.1.1.2", "Don"),
      ("Rex", 2, "rex", "rex.svc", "Rex R"), ("Sam", 2, "sam", "sam.svc", "Sam"), ("Una", 2, "una", "una.svc", "Una")]
NU = len(US)
ASK = [("AskHub", 0), ("OpHub", 0), ("AskLeaf", 1), ("OpLeaf", 1)]


class U:
    pass


class E:
    pass


class CHECK(pbt.Check):
    RULE = "at least five answers named somebody from the history, or a chase succeeded"
    QUICK, THOROUGH = 6000, 200000
    VARIANT = "asan"

    def nickof(self, rng):
        n = rng.choice(POOL + [US[rng.randrange(NU)][0]])
        return n.swapcase() if rng.random() < .15 else n

    def gen(self, rng, i, tier):
        ops = []
        long_ = rng.random() < .4       # with splits, and a history that never runs full
        if not long_:
            ops.append(["len", 0, rng.choice([1, 2, 3, 5, 8, 800])])
            ops.append(["len", 1, rng.choice([1, 2, 3, 5, 8, 800])])
        ops.append(["chase", rng.choice([2, 5, 30, 100])])
        for _ in range(rng.randint(15, 70)):
            r = rng.random()
            u = rng.randrange(NU)
            if r < .34:
                ops.append(["nick", u, self.nickof(rng)])
            elif r < .44:
                ops.append([rng.choice(["quit", "back", "back"]), u])
            elif r < .48:
                ops.append(["away", u, rng.choice(["", "gone", "back: soon"])])
            elif r < .50:
                ops.append(["hide", u])
            elif r < .55:
                ops.append(["join", u])
            elif r < .60:
                ops.append(["adv", rng.choice([1, 3, 5, 28, 31, 99, 101, 4000])])
            elif r < .62 and not long_:
                ops.append(["len", rng.randrange(2), rng.choice([0, 1, 2, 3, 5, 8])])
            elif r < .63:
                ops.append(["chase", rng.choice([0, 1, 2, 5, 30, 100])])
            elif r < .66 and long_:
                ops.append([rng.choice(["split", "heal"])])
            elif r < .80:
                ns = [self.nickof(rng) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
                ops.append(["whowas", rng.randrange(4), ",".join(ns), rng.choice([None, None, "0", "-1", "1", "1", "2", "3", "99", "x"]), rng.random() < .3])
            elif r < .88:
                ops.append(["kick", rng.randrange(4), self.nickof(rng)])
            elif r < .94:
                ops.append(["voice", rng.randrange(4), self.nickof(rng)])
            else:
                ops.append(["kill", rng.choice([1, 3]), self.nickof(rng)])
        return {"ops": ops}

    def boot(self):
        f = {"CONNECTTIMEOUT": "60000", "NICKDELAY": None, "OPLEVELS": "FALSE", "HIS_WHOIS_SERVERNAME": "FALSE", "HIS_KILLWHO": "FALSE", "HIS_REMOTE": "FALSE"}
        w = ircsim.boot_network(2, self.VARIANT, features=f, pingfreq=60000)
        w.svc = p10.Peer(w).handshake()
        w.ask = []
        for n, s in ASK:
            c = w.client(n, s, ip="10.250.%d.%d" % (s, len(w.ask)), user="u")
            if n[:2] == "Op":
                c.do("OPER oper operpass")
            c.do("JOIN " + CHAN)
            w.ask.append(c)
            w.adv(1000)
        w.svc.pump()
        w.svc.send("%s M %s +oooo %s" % (w.svc.num, CHAN, " ".join(w.svc.nicks[n] for n, s in ASK)))
        w.run()
        w.us = [self.enter(w, i, first=True) for i in range(NU)]
        w.adv(20000)
        w.svc.pump()
        for c in w.ask:
            c.lines()
        return w

    def enter(self, w, i, first=False):
        nick, kind, user, host, real = US[i]
        u = U()
        u.i, u.nick, u.user, u.host, u.rhost, u.real = i, nick, user, host, None, real
        u.server = SERVERS[kind] if kind < 2 else "services.test.net"
        u.away, u.acct, u.on, u.v, u.side = "", False, False, False, kind if kind < 2 else 0
        u.next = 0
        if kind < 2:
            u.c = w.client(nick, kind, ip=host, user=user, real=real)
            w.svc.pump()
            u.num = w.svc.nicks.get(nick)
        else:
            u.c = None
            u.num = w.svc.user(nick, ident=user, host=host, real=real)
            w.run()
        if first:
            self.w = w
            self.tojoin(u)
        return u

    def tojoin(self, u):
        if u.c:
            u.c.do("JOIN " + CHAN)
        else:
            self.w.svc.send("%s J %s 0" % (u.num, CHAN))
            self.w.run()
        u.on, u.v = True, False

    def run(self, case):
        w = self.world("net", self.boot)
        with pbt.case_of(self, w):
            self.w = w
            self.us = []
            for u in w.us:
                v = U()
                v.__dict__.update(u.__dict__)
                self.us.append(v)
            self.hist = [[], []]         # newest first
            self.len = [800, 800]
            self.limit = 30
            self.cut = False
            self.hits = self.chased = self.nq = 0
            self.labels = set()
            for o in case["ops"]:
                w.adv(1000)
                self.now = w.svc.now()
                w.svc.pump()
                self.do(o)
            return {"nontrivial": self.hits >= 5 or self.chased > 0, "labels": sorted(self.labels), "checks": self.nq}

    def entry(self, u, still):
        e = E()
        e.nick, e.user, e.host, e.rhost, e.real, e.server, e.away, e.t = u.nick, u.user, u.host, u.rhost, u.real, u.server, u.away, self.now
        e.u = u if still else None
        return e

    def left(self, u, still, sides):
        for s in sides:
            self.hist[s].insert(0, self.entry(u, still))
            if not still:
                for e in self.hist[s]:
                    if e.u is u:
                        e.u = None
            del self.hist[s][self.len[s]:]

    def sides(self, u):
        return [u.side] if self.cut else [0, 1]

    def seen(self, s, nick):
        """who uses nick as server s knows"""
        for u in self.us:
            if u is not None and lower(u.nick) == lower(nick) and s in self.sides(u):
                return u

    def gone(self, u):
        self.left(u, False, self.sides(u))
        self.us[u.i] = None

    def sv(self, line):
        self.w.svc.send(line)
        self.w.run()

    def do(self, o):
        w, k = self.w, o[0]
        if k == "adv":
            for _ in range(o[1] // 1000):
                w.adv(1000000)
                for c in w.ask + [u.c for u in self.us if u is not None and u.c]:
                    c.send("PONG x")
                w.run()
                w.svc.pump()
            w.adv(o[1] % 1000 * 1000)
        elif k == "len":
            n = w.ask[o[1] * 2 + 1].do("SET NICKNAMEHISTORYLENGTH %d" % o[2])
            self.len[o[1]] = o[2]
            del self.hist[o[1]][o[2]:]
            self.labels.add("length set")
        elif k == "chase":
            for s in (1, 3):
                w.ask[s].do("SET KILLCHASETIMELIMIT %d" % o[1])
            self.limit = o[1]
        elif k == "split":
            if not self.cut:
                w.sim.cmd("cut 0 1")
                w.run()
                w.adv(1000)
                self.cut = True
                self.labels.add("split")
                # each side loses the other's users
                for s in (0, 1):
                    for u in self.us:
                        if u is not None and u.side != s:
                            self.left(u, False, [s])
        elif k == "heal":
            if self.cut:
                ns = [lower(u.nick) for u in self.us if u is not None]
                if len(set(ns)) < len(ns):
                    return      # colliding nicks: not this check's business
                ircsim.link_servers(w, 0, 1)
                w.adv(2000)
                self.cut = False
                w.svc.pump()
                for u in self.us:
                    if u is not None and u.c:
                        u.num = w.svc.nicks[u.nick]
        elif k == "whowas":
            self.whowas(o)
        elif k in ("kick", "voice", "kill"):
            self.chase(o)
        else:
            u = self.us[o[1]]
            if k == "back":
                if u is None and not any(v is not None and lower(v.nick) == lower(US[o[1]][0]) for v in self.us):
                    self.us[o[1]] = self.enter(w, o[1])
                    self.labels.add("back")
                return
            if u is None:
                return
            if k == "nick":
                new = o[2]
                if new == u.nick or any(v is not None and v is not u and lower(v.nick) == lower(new) for v in self.us):
                    return
                if u.c:
                    if self.now < u.next:
                        w.adv((u.next - self.now) * 1000)
                        self.now = u.next
                    u.next = self.now + 31
                    u.c.do("NICK " + new)
                else:
                    self.sv("%s N %s %d" % (u.num, new, self.now))
                self.left(u, True, self.sides(u))
                u.nick = new
            elif k == "quit":
                if u.c:
                    u.c.do("QUIT")
                else:
                    self.sv("%s Q :bye" % u.num)
                self.gone(u)
            elif k == "away":
                if u.away and o[2]:
                    return      # a changed text is not passed on
                if u.c:
                    u.c.do("AWAY :" + o[2])
                else:
                    self.sv("%s A%s" % (u.num, " :" + o[2] if o[2] else ""))
                u.away = o[2]
            elif k == "hide":
                if u.acct or self.cut:
                    return
                a = "acc%d" % u.i
                if not u.c:
                    self.sv("%s M %s +x" % (u.num, u.nick))
                else:
                    u.c.do("MODE %s +x" % u.nick)
                self.sv("%s AC %s %s" % (w.svc.num, u.num, a))
                u.acct, u.rhost, u.host = True, u.host, a + ".users.undernet.org"
                self.labels.add("hidden host")
            elif k == "join":
                if not u.on and not self.cut:
                    self.tojoin(u)

    def whowas(self, o):
        _, who, names, mx, rem = o
        c, s = self.w.ask[who], ASK[who][1]
        oper = who in (1, 3)
        n = -1 if mx is None else 0 if mx == "x" else int(mx)
        line = "WHOWAS " + names
        if rem and not (oper and not self.cut):
            rem = False
        if rem:
            s = 1 - s
            mx = mx or "0"
            n = int(mx) if mx != "x" else 0
            self.labels.add("remote")
        if mx is not None:
            line += " " + mx
        if rem:
            line += " " + SERVERS[s]
        want = []
        ask = []
        for x in names.split(","):
            if lower(x) not in [lower(y) for y in ask]:
                ask.append(x)
        for x in ask:
            es = [e for e in self.hist[s] if lower(e.nick) == lower(x)]
            if n >= 1:
                es = es[:n]
            for e in es:
                want.append("314 %s %s %s * %s" % (e.nick, e.user, e.host, e.real))
                if oper and e.rhost:
                    want.append("338 %s %s@%s" % (e.nick, e.user, e.rhost))
                want.append("312 %s %s %s" % (e.nick, e.server, time.strftime("%a %b %e %H:%M:%S %Y", time.gmtime(e.t))))
                if e.away:
                    want.append("301 %s %s" % (e.nick, e.away))
            self.hits += bool(es)
            if not es:
                want.append("406 " + x)
        want.append("369 " + ",".join(ask))
        c.lines()
        got = []
        for m in c.do(line):
            if m.cmd in ("314", "338", "312", "301"):
                got.append(m.cmd + " " + " ".join(m.params[1:3] if m.cmd == "338" else m.params[1:]))
            elif m.cmd.isdigit():
                got.append(m.cmd + " " + m.params[1])
        self.nq += 1
        if got != want:
            raise Violation("%s by %s at %d:\n  answer   %s\n  expected %s\n  history of %s: %s" % (line, ASK[who][0], self.now, got, want, SERVERS[s],
                                                                                     ["%s@%d%s" % (e.nick, e.t, " (now %s)" % e.u.nick if e.u else "") for e in self.hist[s]]))

    def target(self, s, nick):
        u = self.seen(s, nick)
        if u:
            return u, False
        for n, x in ASK:
            if lower(n) == lower(nick):
                return None, False
        for e in self.hist[s]:
            if lower(e.nick) == lower(nick) and e.t > self.now - self.limit:
                return e.u, True
        return None, False

    def chase(self, o):
        k, who, nick = o
        c, s = self.w.ask[who], ASK[who][1]
        u, chased = self.target(s, nick)
        c.lines()
        ms = c.do({"kick": "KICK %s %s :out", "voice": "MODE %s +v %s", "kill": "KILL%.0s %s :bye"}[k] % (CHAN, nick))
        self.nq += 1
        desc = "%s of %s by %s at %d (chase limit %d, history %s)" % (k, nick, ASK[who][0], self.now, self.limit,
                                                                     ["%s@%d%s" % (e.nick, e.t, " (now %s)" % e.u.nick if e.u else " (gone)") for e in self.hist[s] if lower(e.nick) == lower(nick)])
        nums = [(m.cmd, m.params[1]) for m in ms if m.cmd.isdigit()]
        acts = [(m.cmd, m.params) for m in ms if m.cmd in ("KICK", "MODE", "QUIT") and m.cmd != "QUIT" or m.cmd == "NOTICE" and "Changed" in m.params[-1]]
        quits = [m.nick for m in ms if m.cmd == "QUIT"]
        if u is None:
            if nums != [("401", nick)] or acts or quits:
                raise Violation("%s: nobody is to be found, but %r" % (desc, ms))
            return
        if chased:
            self.chased += 1
            self.labels.add("chase " + k)
        if k == "kick":
            if not u.on:
                ok = nums == [("441", u.nick)] or nums == [("441", nick)]
                ok = ok and not acts
            else:
                ok = not nums and acts == [("KICK", [CHAN, u.nick, "out"])]
                u.on = u.v = False
                if not u.c and s in self.sides(u):
                    self.sv("%s L %s" % (u.num, CHAN))      # as the server of a kicked user acknowledges it
        elif k == "voice":
            if not u.on:
                ok = not acts and [x for x, y in nums] in (["441"], [])
            elif u.v:
                ok = not acts and not nums
            else:
                ok = not nums and acts == [("MODE", [CHAN, "+v", u.nick])]
                u.v = True
        else:
            ok = not nums and [x for x, y in acts] == ["NOTICE"] * chased and quits == [u.nick] * u.on
            if chased and ok:
                ok = acts[0][1][-1] == "Changed KILL %s into %s" % (nick, u.nick)
            self.gone(u)
        if not ok:
            raise Violation("%s: %s expected to be affected%s, but %r" % (desc, u.nick, "" if u.on else ", who is not on the channel", ms))
