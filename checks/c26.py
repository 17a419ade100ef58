"""Settings and spam filters that services give to the whole network."""
import re
import ircsim, pbt, p10
from pbt import Violation

PROP = {
    "id": "C26",
    "title": "Network settings and spam filters: the newest change wins on every server, whatever the order, through splits and joins",
    "statement": "A setting (CF) or spam filter (SL) carries the time of its last change. Whatever the order in which changes reach the servers of a network, and whether a server was split off meanwhile or linked later, every server ends with the newest change of each, "
                 "a deletion being a change like any other; changes that are older than what a server knows, malformed or too long have no effect anywhere and are passed on to nobody. "
                 "What operators see in STATS, what a newly linked server is told, and what a filter does to the part messages it applies to all follow from that newest change.",
    "quantifier": {"over": ["histories", "inputs", "schedules"],
                   "text": "histories of settings and filters sent at three servers in any order of their timestamps, at once or one after another, with the links between the servers cut and made again in between"},
    "why_tests_cant": "Convergence is about every order of changes and every placement of splits; tests send one change and look at one server.",
    "anchors": {
        "files": ["ircd/ircd_netconf.c", "ircd/m_config.c", "ircd/sline.c", "ircd/m_sline.c", "ircd/m_part.c", "ircd/s_serv.c"],
        "mechanism": [{"name": "newest wins", "where": "ircd/ircd_netconf.c config_set(); ircd/m_sline.c ms_sline()"},
                      {"name": "bursts", "where": "ircd/ircd_netconf.c config_burst(); ircd/sline.c sline_burst()"},
                      {"name": "part messages", "where": "ircd/sline.c sline_check_pattern_bool(), ircd/m_part.c m_part()"}],
        "observe_at": ["STATS C", "STATS s", "CF and SL messages at the servers linked to each", "PART as members see it"],
    },
}
TECHNIQUE = "model-based random testing: histories of changes in a simulated network of three servers with cuts and joins, every server's tables and effects compared with a newest-wins model"

KEYS = ["test.alpha", "test.beta", "Test.Gamma", "x", "sasl.timeout", "k" * 60]
PATS = ["sp[a-m]m", "^buy (now|later)", "free.*money$", "SP[a-m]m", "x{2}y", "bad(", "[[:digit:]]{3}-[0-9]+", "p" * 380 + "q*"]
TEXTS = ["spam here", "SPAM here", "SPam here", "buy now or never", "do buy now", "free as in money", "free money!", "xxy", "xy", "call 555-1", "call 55-1", "p" * 390, "hello", "bad("]
TYPES = {"A": 15, "P": 1, "C": 2, "L": 4, "Q": 8, "PC": 3, "LQ": 12, "QL": 12, "PL": 5, "PCLQ": 15, "LL": 4, "AX": 15}


def tname(t):
    return "A" if t == 15 else "".join(c for b, c in ((1, "P"), (2, "C"), (4, "L"), (8, "Q")) if t & b)


def ere(p):
    """The pattern as a Python one; None when it is not one."""
    if p == "bad(":
        return None
    return re.compile(p.replace("[[:digit:]]", "[0-9]"))


class CHECK(pbt.Check):
    RULE = "an older change arrived after a newer one, and servers were split while changes were made"
    QUICK, THOROUGH = 400, 12000
    VARIANT = "asan"

    def gen(self, rng, i, tier):
        used = {}
        ops = []
        keys = rng.sample(KEYS, rng.randint(1, 3))
        pats = rng.sample(PATS, rng.randint(1, 3))
        spread = rng.choice([6, 30, 1000])

        def stamp(k):
            for _ in range(50):
                t = rng.choice([rng.randint(-spread, spread)] * 8 + [rng.randint(1, 9) - 1700000000, 1 << 31, 1 << 40])
                if t not in used.setdefault(k, set()):
                    used[k].add(t)
                    return t
            used[k].add(max(used[k]) + 1)
            return max(used[k])

        for _ in range(rng.randint(8, 40)):
            r = rng.random()
            s = rng.randrange(3)
            more = rng.random() < .3
            if r < .36:
                k = rng.choice(keys)
                v = rng.choice(["", "", "1", "two words", ":colon", "Two Words", "é", "v" * 300, None, "7"])
                ops.append(["cf", s, k if rng.random() < .8 else k.swapcase(), stamp(k.lower()), v, more])
            elif r < .72:
                k = rng.choice(pats)
                x = rng.choice([0, 0, 0, 100000, 200000])
                ops.append(["sl", s, rng.choice("++-"), stamp(k), x, rng.choice(list(TYPES)), k, more])
            elif r < .76:
                b = rng.choice([["*", 1, "A", "sp[a-m]m"], ["+", 1, "Z", "sp[a-m]m"], ["+", 1, "PZ", "new"], ["+", 1, "A", ""], ["+", 1, "A", "L" * 470]])
                ops.append(["bad", s] + b)
            elif r < .84:
                ops.append(["part", s, rng.choice(TEXTS)])
            elif r < .91:
                ops.append(["cut", rng.randrange(2)])
            elif r < .97:
                ops.append(["link", rng.randrange(2)])
            else:
                ops.append(["look"])
        return {"ops": ops, "late": rng.random() < .3}

    def simplify(self, op):
        if op[0] in ("cf", "sl") and op[-1]:
            yield op[:-1] + [False]

    def boot(self):
        w = ircsim.boot_network(3, self.VARIANT, topology=[(0, 1), (1, 2)], features={"CONNECTTIMEOUT": "60000", "NICKDELAY": None, "NETWORK_FEATURES": None}, pingfreq=60000)
        w.sv = [p10.Peer(w).handshake(), p10.Peer(w, "peer1.test.net", 90, 1, "10.9.0.1").handshake(), p10.Peer(w, "peer2.test.net", 91, 2, "10.9.0.1").handshake()]
        w.sv[0].send("%s CF %d sline.server :none.test.net" % (w.sv[0].num, w.sv[0].now()))
        w.adv(1000)
        w.op = [w.client("Oper%d" % s, s, ip="10.250.0.%d" % s, user="o") for s in range(3)]
        w.cl = [w.client("User%d" % s, s, ip="10.250.1.%d" % s, user="u") for s in range(3)]
        w.adv(30000)
        for o in w.op:
            o.do("OPER oper operpass")
            o.do("JOIN &w")
        w.adv(30000)
        for c in w.op + w.cl:
            c.lines()
        for p in w.sv:
            p.pump()
        return w

    def run(self, case):
        w = self.world("net", self.boot)
        with pbt.case_of(self, w):
            self.w = w
            self.base = w.sv[0].now()
            now = self.base
            self.cf = [{"sline.server": (now - 100, "none.test.net")} for _ in range(3)]
            self.sl = [{} for _ in range(3)]
            self.links = {0, 1}
            self.labels, self.stale, self.split = set(), 0, 0
            self.mine = {("cf", s, "sline.server"): now for s in range(3)}
            for p in w.sv:
                p.pump()
                p.log = []
            for o in case["ops"]:
                self.do(o)
            for l in (0, 1):
                self.do(["link", l])
            self.look()
            for s in range(3):
                self.do(["part", s, TEXTS[len(case["ops"]) % len(TEXTS)]])
            self.peers()
            if case["late"]:
                for _ in range(10):
                    w.adv(20100000)
                    for p in w.sv:
                        p.pump()
                    for c in w.op + w.cl:
                        for m in c.msgs():
                            if m.cmd == "PING":
                                c.send("PONG :" + m.params[-1])
                    w.adv(1000)
                self.look()
                for s in range(3):
                    for t in TEXTS[-len(case["ops"]) % 9::5]:
                        self.do(["part", s, t])
                self.labels.add("expired")
            return {"nontrivial": self.stale > 0 and self.split > 0, "labels": sorted(self.labels), "checks": len(case["ops"])}

    def part_of(self, s):
        c = {s}
        for _ in range(2):
            for l in self.links:
                if l in c or l + 1 in c:
                    c |= {l, l + 1}
        return c

    def merge(self, tab, s, k, v):
        """Does the change reach a server that does not know a newer one?"""
        for x in self.part_of(s):
            old = tab[x].get(k)
            if old is None or v[0] > old[0]:
                tab[x][k] = v
            else:
                self.stale += 1
        if len(self.links) < 2:
            self.split += 1

    def do(self, o):
        w, k = self.w, o[0]
        if k == "cf":
            _, s, key, t, v, more = o
            t += self.base
            w.sv[s].send("%s CF %d %s%s" % (w.sv[s].num, t, key, "" if v is None else " :" + v))
            if not more:
                w.run()
            self.merge(self.cf, s, key.lower(), (t, v or ""))
            self.mine["cf", s, key.lower()] = max(t, self.own(key.lower(), s, "cf"))
            if not v:
                self.labels.add("deletion")
            return
        if k == "sl":
            _, s, state, t, x, typ, pat, more = o
            t += self.base
            x = x and self.base + x
            w.sv[s].send("%s SL %s %d %d %s :%s" % (w.sv[s].num, state, t, x, typ, pat))
            if not more:
                w.run()
            self.merge(self.sl, s, pat, (t, x, TYPES[typ], state == "+"))
            self.mine["sl", s, pat] = max(t, self.own(pat, s, "sl"))
            return
        w.run()
        if k == "bad":
            _, s, state, dt, typ, pat = o
            w.sv[s].send("%s SL %s %d 0 %s :%s" % (w.sv[s].num, state, self.base + 2000000 + dt, typ, pat))
            w.run()
            self.labels.add("malformed")
        elif k == "cut":
            if o[1] in self.links:
                self.look()
                self.links.discard(o[1])
                w.sim.cmd("cut %d %d" % (o[1], o[1] + 1))
                w.run()
        elif k == "link":
            if o[1] not in self.links:
                ircsim.link_servers(w, o[1], o[1] + 1)
                w.adv(2000)
                self.links.add(o[1])
                for tab in (self.cf, self.sl):
                    for s in range(3):
                        for x in self.part_of(s):
                            for key, v in list(tab[x].items()):
                                if key not in tab[s] or tab[s][key][0] < v[0]:
                                    tab[s][key] = v
                self.labels.add("joined")
                self.look()
        elif k == "look":
            self.look()
        elif k == "part":
            s, text = o[1], o[2]
            w.adv(4000)
            w.cl[s].do("JOIN &w")
            w.op[s].lines()
            w.cl[s].send("PART &w :" + text)
            w.run()
            ms = w.op[s].msgs()
            got = [m.params[1:] for m in ms if m.cmd == "PART"]
            now = w.sv[0].now()
            hit = [p for p, (t, x, typ, on) in self.sl[s].items() if on and typ & 4 and not (x and x < now) and ere(p) and ere(p).search(text)]
            if not self.cf[s].get("sline.server", (0, ""))[1]:
                hit = []
            if hit:
                self.labels.add("part message withheld")
            if got != ([[]] if hit else [[text]]):
                raise Violation("a part message %r at server %d was shown as %r, filters that apply: %r" % (text, s, got, hit))

    def look(self):
        w = self.w
        w.run()
        w.adv(3000)
        now = w.sv[0].now()
        for s in range(3):
            o = w.op[s]
            o.lines()
            got = {}
            for m in o.do("STATS C"):
                if m.cmd == "249":
                    k = m.params[2].lower()
                    if k in got:
                        raise Violation("STATS C at server %d lists %s twice" % (s, k))
                    got[k] = (int(m.params[1]), m.params[3])
            want = {k: v for k, v in self.cf[s].items() if v[1]}
            self.compare("settings", s, got, want)
            got = {}
            for m in o.do("STATS s"):
                if m.cmd == "240" and m.params[1].isdigit():
                    if m.params[5] in got:
                        raise Violation("STATS s at server %d lists %s twice" % (s, m.params[5]))
                    x = int(m.params[2])
                    if x and x < now:
                        continue
                    got[m.params[5]] = (int(m.params[1]), x, m.params[4])
            want = {p: (t, x, tname(typ) if ere(p) else "I") for p, (t, x, typ, on) in self.sl[s].items() if on and not (x and x < now)}
            self.compare("filters", s, got, want)

    def compare(self, what, s, got, want):
        for k in set(got) | set(want):
            if k == "sline.server" and what == "settings":
                continue
            if got.get(k) != want.get(k):
                raise Violation("%s of server %d: %s is %r, expected %r" % (what, s, k, got.get(k), want.get(k)))

    def peers(self):
        """What the servers linked to each were told."""
        for s, p in enumerate(self.w.sv):
            p.pump()
            cf, sl = {}, {}
            for l in p.log:
                head, _, tail = l.partition(" :")
                a = head.split(" ")
                if a[1] == "CF":
                    self.told(cf, s, a[3].lower(), (int(a[2]), tail))
                elif a[1] == "SL":
                    self.told(sl, s, tail, (int(a[3]), int(a[4]), TYPES.get(a[5], 0), a[2] == "+"))
            now = p.now()
            self.compare("settings told to the server linked to", s, {k: v for k, v in cf.items() if v[0] > self.own(k, s, "cf")},
                         {k: v for k, v in self.cf[s].items() if v[0] > self.own(k, s, "cf")})
            self.compare("filters told to the server linked to", s, {k: v for k, v in sl.items() if v[0] > self.own(k, s, "sl") and not (v[1] and v[1] < now)},
                         {k: v for k, v in self.sl[s].items() if v[0] > self.own(k, s, "sl") and not (v[1] and v[1] < now)})

    def told(self, tab, s, k, v):
        if k in tab and tab[k][0] >= v[0]:
            raise Violation("the server linked to %d was told of %r after the newer %r of %s" % (s, v, tab[k], k))
        tab[k] = v

    def own(self, k, s, which):
        return self.mine.get((which, s, k), -1)
