"""Nicknames: unique everywhere, and who survives when two users hold the same one."""
import re
import burst, ircsim, p10, pbt
from ircutil import lower
from pbt import Violation

PROP = {
    "id": "C08",
    "title": "One nickname, one user",
    "statement": "At rest no two users anywhere share a nickname (in RFC 1459 case), all servers agree who holds it, and every client's idea of its own nickname is right. "
                 "A nickname in use is refused (433) and nothing changes; a free, valid one is granted. When two sides of a split meet, the user with the older "
                 "nickname survives, or the newer one if user name and address are the same, or neither if the times are equal, and no other user is removed.",
    "quantifier": {"over": ["histories", "schedules", "fault_sequences"],
                   "text": "all histories of sign-ons, half-finished registrations, nickname changes, departures, splits and rejoins by six users on three servers over a "
                           "tiny pool of nicknames and case variants, with arbitrary delays on the links"},
    "why_tests_cant": "Collisions need two users to take a name on different sides of a split or of a delayed link; every ordering and timestamp relation matters.",
    "anchors": {
        "files": ["ircd/m_nick.c", "ircd/s_user.c", "ircd/hash.c", "ircd/s_auth.c", "ircd/m_kill.c", "ircd/s_misc.c"],
        "mechanism": [{"name": "collision rules", "where": "ircd/m_nick.c ms_nick()"},
                      {"name": "local nickname changes", "where": "ircd/m_nick.c m_nick(); ircd/s_user.c set_nick_name()"},
                      {"name": "lookup", "where": "ircd/hash.c hSeekClient(), hAddClient(), hRemClient()"}],
        "observe_at": ["net.burst sent to a new link by each server", "NICK, 433, KILL and disconnects seen by clients"],
    },
}

POOL = ["foo", "FOO", "Foo", "b[r", "b{R", "B{r", "qux", "x|y", "X\\Y"]
BAD = ["-bad", "9lives", "a*b", "", "foo.bar", "two words", "~x"]
VALID = re.compile(r"^[A-Za-z\[\]\\`_^{|}][A-Za-z0-9\[\]\\`_^{|}-]*$")


class U:
    """A connection and what its owner knows."""

    def __init__(self, c, server, ip, ident, real):
        self.c, self.server, self.ip, self.ident, self.real = c, server, ip, ident, real
        self.nick = None
        self.reg = False
        self.user_sent = False
        self.fresh = []

    def pump(self):
        self.fresh = self.c.msgs()
        for m in self.fresh:
            if m.cmd == "PING":
                self.c.send("PONG :" + m.params[-1])
            elif m.cmd == "001":
                self.reg, self.nick = True, m.params[0]
            elif m.cmd == "NICK" and self.reg and m.nick == self.nick:
                self.nick = m.params[0]
        return self.fresh

    @property
    def alive(self):
        return not (self.c.eof or self.c.closed)


class CHECK(pbt.Check):
    RULE = "at least one collision, refusal or override occurred, or crossing messages were in flight, and at least two users were compared at the end"
    QUICK, THOROUGH = 7000, 120000
    VARIANT = "plain"
    NETS = [(3, None), (3, [(0, 1), (1, 2)])]
    NU = 6

    def gen(self, rng, i, tier):
        ops = []
        manual = rng.random() < .4
        net = rng.randrange(2)
        pool = rng.sample(POOL, rng.choice([3, 5, 9]))
        for u in range(self.NU):
            if rng.random() < .5:
                ops.append(["conn", u, rng.choice(pool), rng.randrange(3), rng.choice([0, 0, 1, 1, 2, 3])])
        if manual:
            ops.append(["manual"])
        links = self.NETS[net][1] or [(0, 1), (0, 2)]
        for _ in range(rng.randint(6, 40)):
            r = rng.random()
            u = rng.randrange(self.NU)
            if r < .30:
                ops.append(["nick", u, rng.choice(pool) if rng.random() < .9 else rng.choice(BAD)])
            elif r < .50:
                ops.append(["conn", u, rng.choice(pool), rng.randrange(3), rng.choice([0, 0, 1, 1, 2, 3])])
            elif r < .57:
                ops.append(["hold", u, rng.choice(pool), rng.randrange(3), rng.choice([0, 0, 1, 1, 2, 3])])
            elif r < .62:
                ops.append(["finish", u])
            elif r < .67:
                ops.append([rng.choice(["quit", "rst"]), u])
            elif r < .75:
                ops.append(["adv", rng.choice([1000, 1000, 31000, 2000])])
            elif r < .83:
                ops.append(["split", rng.randrange(2)])
            elif r < .91:
                ops.append(["heal"])
            elif r < .94:
                ops.append(["settle"])
            else:
                ops.append(["nick", u, rng.choice(pool)])
            if manual and rng.random() < .5:
                a, b = rng.choice(links)
                if rng.random() < .5:
                    a, b = b, a
                ops.append(["dlv", a, b, rng.choice([1, 1, 2, 5])])
        return {"net": net, "ops": ops}

    def boot(self, net):
        n, topology = self.NETS[net]
        return ircsim.boot_network(n, self.VARIANT, topology=topology, pingfreq=100000)

    def run(self, case):
        net = case["net"]
        w = self.world("net%d" % net, lambda: self.boot(net))
        with pbt.case_of(self, w):
            return self.run_case(w, case)

    # -- state of the run
    def run_case(self, w, case):
        self.us = [None] * self.NU
        self.manual, self.cut, self.labels, self.gen_no, self.compared = False, None, set(), 0, 0
        self.crossed = False
        for op in case["ops"]:
            self.step(w, op)
            if not self.manual:
                self.quick_check()
        self.heal(w)
        self.settle(w)
        self.compare(w)
        return {"nontrivial": bool(self.labels & {"collision", "refused", "override", "crossing"}) and self.compared >= 2,
                "labels": sorted(self.labels), "checks": self.compared}

    def pump(self, w):
        for u in self.us:
            if u is not None:
                u.recent = []
        for _ in range(6):
            for u in self.us:
                if u is not None:
                    u.recent += u.pump()
            if not any(u is not None and any(m.cmd == "PING" for m in u.fresh) for u in self.us):
                break
            w.run()
        for u in self.us:
            if u is not None:
                u.fresh = u.recent
                u.log = getattr(u, "log", []) + u.fresh

    def quick_check(self):
        seen = {}
        for u in self.us:
            if u is not None and u.alive and u.reg and self.cut is None:
                k = lower(u.nick)
                if k in seen:
                    raise Violation("two connected users both hold %s: %s and %s" % (u.nick, u.real, seen[k].real))
                seen[k] = u

    def holders(self, w, u, nick):
        """Registered users that u's server must know to hold nick."""
        out = []
        for v in self.us:
            if v is not None and v is not u and v.alive and v.reg and lower(v.nick) == lower(nick):
                if v.server == u.server or (not self.manual and self.side(w, v.server) == self.side(w, u.server)):
                    out.append(v)
        return out

    def side(self, w, s):
        if self.cut is None:
            return 0
        a, b = w.topology[self.cut]
        adj = {i: set() for i in range(w.n)}
        for k, (x, y) in enumerate(w.topology):
            if k != self.cut:
                adj[x].add(y)
                adj[y].add(x)
        comp, st = {a}, [a]
        while st:
            for y in adj[st.pop()]:
                if y not in comp:
                    comp.add(y)
                    st.append(y)
        return 0 if s in comp else 1

    def start(self, w, i, nick, server, same):
        if self.us[i] is not None and self.us[i].alive:
            return None
        self.gen_no += 1
        # bit 0: shared user name, bit 1: an address of one's own
        ip = "10.0.7.7" if same in (1, 2) else "10.0.8.%d" % (i + 1)
        c = w.connect(server, ip)
        u = self.us[i] = U(c, server, ip, "same" if same in (1, 3) else "u%d" % i, "r%d" % self.gen_no)
        c.send("NICK " + nick)
        u.want = nick
        return u

    def step(self, w, op):
        k = op[0]
        if k in ("conn", "hold"):
            u = self.start(w, op[1], op[2], op[3], op[4])
            if u is None:
                return
            blocked = self.holders(w, u, op[2])
            if k == "conn":
                u.c.send("USER %s 0 * :%s" % (u.ident, u.real))
                u.user_sent = True
            w.run()
            self.pump(w)
            w.run()
            self.pump(w)
            refused = any(m.cmd == "433" for m in u.log)
            if blocked and not refused:
                raise Violation("%s is held by %s, but a new connection was not refused it: %r" % (op[2], blocked[0].real, [m.raw for m in u.log]))
            if refused:
                self.labels.add("refused")
                if not blocked and not self.manual:
                    raise Violation("%s is free, but a new connection was refused it: %r" % (op[2], [m.raw for m in u.log]))
                u.want = None
                u.c.send("NICK alt%d" % self.gen_no)
                w.run()
                self.pump(w)
                u.want = "alt%d" % self.gen_no
            if k == "conn" and not u.reg and u.alive:
                raise Violation("a new connection with nickname %s did not get in: %r" % (u.want, [m.raw for m in u.log[-6:]]))
            if u.reg and u.nick != u.want:
                raise Violation("asked for %s, got %s" % (u.want, u.nick))
        elif k == "finish":
            u = self.us[op[1]]
            if u is None or u.reg or not u.alive or u.user_sent:
                return
            u.c.send("USER %s 0 * :%s" % (u.ident, u.real))
            u.user_sent = True
            w.run()
            self.pump(w)
            w.run()
            self.pump(w)
            if u.alive and not u.reg:
                raise Violation("a half-open connection holding %s was not let in: %r" % (u.want, [m.raw for m in u.log[-6:]]))
            self.labels.add("finish")
        elif k == "nick":
            u = self.us[op[1]]
            if u is None or not u.alive or not u.reg:
                return
            nick, old = op[2], u.nick
            blocked = self.holders(w, u, nick)
            half = [v for v in self.us if v is not None and v.alive and not v.reg and v.server == u.server and v.want and lower(v.want) == lower(nick)]
            u.c.send("NICK " + (":" + nick if " " in nick or not nick else nick))
            w.run()
            self.pump(w)
            codes = [m.cmd for m in u.fresh if m.cmd in ("433", "438", "432", "431", "437", "NICK")]
            if nick != old and VALID.match(nick) and u.alive:
                if lower(nick) != lower(old) and blocked:
                    if "433" not in codes or u.nick != old:
                        raise Violation("%s is held by %s, but %s asking for it got %r" % (nick, blocked[0].real, old, [m.raw for m in u.fresh]))
                    self.labels.add("refused")
                elif "438" in codes:
                    if u.nick != old:
                        raise Violation("a nickname change refused as too fast took effect: %r" % [m.raw for m in u.fresh])
                    self.labels.add("too-fast")
                elif not self.manual and u.nick != nick:
                    raise Violation("%s is free, but %s asking for it got %r" % (nick, old, [m.raw for m in u.fresh]))
                else:
                    self.labels.add("change")
                    if half:
                        self.labels.add("override")
            elif not VALID.match(nick) and u.nick != old and not VALID.match(u.nick):
                raise Violation("an invalid nickname was accepted: %r" % u.nick)
        elif k in ("quit", "rst"):
            u = self.us[op[1]]
            if u is None or not u.alive:
                return
            if k == "quit":
                u.c.send("QUIT")
            else:
                u.c.rst()
            w.run()
            u.c.closed = True
        elif k == "adv":
            w.adv(op[1])
        elif k == "settle":
            self.settle(w)
            if not self.cut:
                self.compare(w)
        elif k == "manual":
            w.sim.cmd("linkmode 1")
            w.run()
            self.manual = self.crossed = True
            self.labels.add("crossing")
        elif k == "dlv" and self.manual:
            w.sim.cmd("dlv %d %d %d" % (op[1], op[2], op[3]))
            w.sync()
            w.take_events("D")
            w.run()
        elif k == "split" and self.cut is None:
            self.settle(w)
            if self.manual:
                w.sim.cmd("linkmode 0")
                w.run()
                self.manual = False
            self.compare(w)
            a, b = w.topology[op[1]]
            w.sim.cmd("cut %d %d" % (a, b))
            w.run()
            self.cut = op[1]
            self.labels.add("split")
        elif k == "heal":
            self.heal(w)
        self.pump(w)

    def settle(self, w):
        if self.manual:
            w.sim.cmd("dlvall")
        w.run()
        self.pump(w)

    def heal(self, w):
        if self.cut is None:
            if self.manual:
                self.settle(w)
                w.sim.cmd("linkmode 0")
                w.run()
                self.manual = False
            return
        a, b = w.topology[self.cut]
        w.adv(1500)
        self.pump(w)
        sa, sb = burst.snapshot(w, a), burst.snapshot(w, b)
        expect = self.merge(sa, sb)
        try:
            ircsim.link_servers(w, a, b)
        except ircsim.SimError:
            w.adv(70000)
            ircsim.link_servers(w, a, b)
        self.cut = None
        w.run()
        self.pump(w)
        got = {u["real"]: u["nick"] for u in burst.snapshot(w, a).users.values()}
        if got != expect:
            raise Violation("after the split, expected users %r, found %r\n  side A: %s\n  side B: %s" % (
                sorted(expect.items()), sorted(got.items()), self.brief(sa), self.brief(sb)))
        self.compare(w)

    def brief(self, s):
        return ["%s=%s@%s ts %s (%s)" % (u["nick"], u["user"], u["ip"], u["ts"], u["real"]) for u in s.users.values()]

    def merge(self, sa, sb):
        A = {lower(u["nick"]): u for u in sa.users.values()}
        B = {lower(u["nick"]): u for u in sb.users.values()}
        for s, d in ((sa, A), (sb, B)):
            if len(d) != len(s.users):
                raise Violation("one server holds two users with the same nickname: %s" % self.brief(s))
        out = {}
        for k in set(A) | set(B):
            a, b = A.get(k), B.get(k)
            if a is None or b is None:
                u = a or b
                out[u["real"]] = u["nick"]
                continue
            self.labels.add("collision")
            same = a["ip"] == b["ip"] and lower(a["user"]) == lower(b["user"])
            ta, tb = int(a["ts"]), int(b["ts"])
            if ta == tb:
                self.labels.add("tie")
                continue
            win = a if (ta < tb) != same else b
            self.labels.add("same-user" if same else "different-user")
            out[win["real"]] = win["nick"]
        return out

    def compare(self, w):
        if self.cut is not None:
            return
        snaps = [burst.snapshot(w, i) for i in range(w.n)]
        maps = []
        for i, s in enumerate(snaps):
            m = {}
            for num, u in s.users.items():
                if lower(u["nick"]) in m:
                    raise Violation("%s holds two users called %s: %s" % (ircsim.SERVERS[i], u["nick"], self.brief(s)))
                if not VALID.match(u["nick"]):
                    raise Violation("%s holds a user with the invalid nickname %r" % (ircsim.SERVERS[i], u["nick"]))
                m[lower(u["nick"])] = (u["nick"], num, u["real"])
            maps.append(m)
        for i in range(1, w.n):
            if maps[i] != maps[0]:
                raise Violation("%s and %s disagree who holds which nickname:\n  %s\n  %s" % (
                    ircsim.SERVERS[0], ircsim.SERVERS[i], self.brief(snaps[0]), self.brief(snaps[i])))
        w.run()
        self.pump(w)
        mine = {u.real: u.nick for u in self.us if u is not None and u.alive and u.reg}
        have = {r: n for n, _, r in maps[0].values()}
        if mine != have:
            raise Violation("clients believe %r, servers say %r" % (sorted(mine.items()), sorted(have.items())))
        self.compared += len(mine)
