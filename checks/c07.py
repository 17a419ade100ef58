"""Channel merge at a net.burst, against a model of the timestamp rules."""
import burst, ircsim, p10, pbt, viewrun
from ircutil import lower, glob
from pbt import Violation

PROP = {
    "id": "C07",
    "title": "When the network rejoins, the older channel prevails",
    "statement": "When a net.burst describes a channel that also exists here, the channel with the older timestamp keeps its modes, key, limit, operators, voices and "
                 "bans and the newer one loses all of its own (including its topic); with equal timestamps the two are united (smaller key, lower limit, +s over +p, "
                 "bans covered by others dropped). Nobody becomes operator by way of a newer channel, and local users who could not have joined the older "
                 "channel (wrong key, +i, +r) are removed. Members elsewhere and behind other servers see the same outcome, and are told of it.",
    "quantifier": {"over": ["inputs", "histories"],
                   "text": "all local channel states reachable by commands on two servers, and all bursts of channels with older, equal and newer timestamps, "
                           "any modes, keys, limits, bans and member lists, in one or several BURST lines"},
    "why_tests_cant": "The outcome is a function of two arbitrary channel states and their timestamps; no existing test performs a burst merge.",
    "anchors": {
        "files": ["ircd/m_burst.c", "ircd/channel.c", "ircd/m_create.c", "ircd/m_join.c"],
        "mechanism": [{"name": "merge", "where": "ircd/m_burst.c ms_burst(), netride_modes()"},
                      {"name": "mode, key and limit parsing in a burst", "where": "ircd/channel.c mode_parse()"},
                      {"name": "CREATE and JOIN timestamps", "where": "ircd/m_create.c ms_create(); ircd/m_join.c ms_join()"}],
        "observe_at": ["net.burst sent to a new link by each server before and after", "lines the local members receive"],
    },
}

SIMPLE = "psmtinrDcCuMR"
KEYS = ["alpha", "beta", "zulu"]
MASKS = ["*!*@*", "bob!*@*", "*!*@10.0.0.*", "*!u1@*", "b*!*@*", "Ann!*@*", "*!*@*.org", "x!y@z.org", "*!u?@*"]
CH = ["#a", "#b", "#C[x"]


class Model:
    """One channel as one server must hold it."""

    def __init__(self, c=None):
        self.ts, self.modes, self.key, self.limit, self.members, self.bans, self.topic = 0, set(), None, None, {}, [], None
        if c is not None:
            self.ts, self.modes, self.key, self.limit = int(c.ts), set(c.modes) - {"k", "l"}, c.key, c.limit and int(c.limit)
            self.members, self.bans, self.topic = dict(c.members), list(c.bans), c.topic

    def burst(self, ts, modes, key, limit, members, bans, mine, opers, accounts):
        """One BURST line; returns the nicks (numerics) kicked."""
        kicked = []
        wipe = not self.ts or ts < self.ts
        nothing = not modes and not members and not bans
        if self.ts and nothing and ts < self.ts <= ts + 4 and self.members:
            ts, wipe = self.ts, False
        elif self.ts and not nothing and self.ts < ts <= self.ts + 4 and not self.members:
            self.ts = ts
        if wipe:
            for m in list(self.members):
                if m not in mine:
                    continue
                if ("k" in modes and key != (self.key or "")) or ("i" in modes and m not in opers) or ("r" in modes and m not in accounts):
                    kicked.append(m)
                    del self.members[m]
            if kicked and not self.members:
                self.__init__()
            self.ts = ts
            self.modes, self.key, self.limit, self.topic, self.bans = set(), None, None, None, []
            self.members = {m: "" for m in self.members}
        take = wipe or ts == self.ts
        if take:
            for m in modes:
                if m == "k":
                    self.key = key if self.key is None or lower(key) < lower(self.key) else self.key
                elif m == "l":
                    self.limit = limit if not self.limit or limit < self.limit else self.limit
                elif m == "s":
                    self.modes.discard("p")
                    self.modes.add("s")
                elif m == "p":
                    if "s" not in self.modes:
                        self.modes.add("p")
                else:
                    self.modes.add(m)
            for b in bans:
                if any(lower(x) == lower(b) for x in self.bans) or any(glob(x, b) for x in self.bans):
                    continue
                self.bans = [x for x in self.bans if not glob(b, x)] + [b]
        for m, st in members:
            self.members[m] = st if take else ""
        return kicked

    def facts(self):
        return {"ts": self.ts, "modes": "".join(sorted(self.modes)), "key": self.key, "limit": self.limit, "members": self.members, "bans": sorted(self.bans),
                "topic": self.topic and self.topic[0]}


def observed(c):
    m = Model(c)
    m.members = {k: "".join(sorted(x for x in v if x in "ov")) for k, v in m.members.items()}
    return m.facts()


class CHECK(pbt.Check):
    RULE = "the burst describes at least one channel that existed with at least one member and one mode, operator or ban of its own"
    QUICK, THOROUGH = 7000, 120000
    VARIANT = "plain"
    NU = 5

    def gen(self, rng, i, tier):
        ops = []
        for u in range(self.NU):
            for c in CH[:rng.choice([1, 1, 2, 3])]:
                if rng.random() < .7:
                    ops.append(["u", u, "JOIN " + c])
        rng.shuffle(ops)
        if rng.random() < .5:
            ops.insert(rng.randint(0, len(ops)), ["adv", rng.choice([1000, 3000, 20000])])
        for _ in range(rng.randint(0, 14)):
            u = rng.choice([rng.randrange(self.NU), "op"])
            c = rng.choice(CH + CH[:1] * 3)
            ops.append(["u", u, rng.choice([
                "MODE %s +%s" % (c, "".join(rng.sample(SIMPLE[:-1], rng.randint(1, 4)))), "MODE %s +k %s" % (c, rng.choice(KEYS)),
                "MODE %s +l %d" % (c, rng.randint(1, 9)), "MODE %s +b %s" % (c, rng.choice(MASKS)), "MODE %s +bb %s %s" % (c, *rng.sample(MASKS, 2)),
                "MODE %s +v {u%d}" % (c, rng.randrange(self.NU)), "MODE %s +o {u%d}" % (c, rng.randrange(self.NU)), "TOPIC %s :t%d" % (c, rng.randint(1, 3)),
                "MODE %s +kl %s %d" % (c, rng.choice(KEYS), rng.randint(1, 9)), "PART " + c, "JOIN " + c])])
        if rng.random() < .5:
            ops.append(["adv", rng.choice([1000, 5000])])
        for _ in range(rng.randint(1, 5)):
            modes = "".join(rng.sample(SIMPLE, rng.choice([0, 0, 1, 2, 3])))
            if "s" in modes:
                modes = modes.replace("p", "")
            if rng.random() < .35:
                modes += "l"
            if rng.random() < .35:
                modes += "k"
            if rng.random() < .4:
                modes = modes.replace("i", "").replace("r", "").replace("k", "")
            mem = [(n, rng.choice(["", "", "o", "v", "ov"])) for n in rng.sample(range(4), rng.choice([0, 1, 2, 3, 4]))]
            bans = []
            for b in ([] if rng.random() < .5 else rng.sample(MASKS, rng.randint(1, 3))):
                if not any(glob(x, b) or glob(b, x) for x in bans):
                    bans.append(b)       # a server's own list has no mask that covers another
            ops.append(["b", rng.choice(CH + CH[:1] * 4), rng.choice([-100, -10, -3, -1, 0, 0, 0, 1, 3, 100]), modes, rng.choice(KEYS), rng.randint(1, 9), mem,
                        bans])
        return {"ops": ops, "opers": [u for u in range(self.NU) if rng.random() < .15], "accts": [u for u in range(self.NU) if rng.random() < .3],
                "eob": rng.random() < .3}

    def boot(self):
        w = ircsim.boot_network(2, self.VARIANT, pingfreq=100000, features={"TOPIC_BURST": "TRUE"})
        w.svc = p10.Peer(w).handshake()
        w.run()
        return w

    def run(self, case):
        w = self.world("net", self.boot)
        with pbt.case_of(self, w):
            return self.run_case(w, case)

    def run_case(self, w, case):
        nicks = ["Ann", "bob", "cal", "dee", "eve"]
        cl, views = [], []
        for i, n in enumerate(nicks):
            c = w.client(n, i % 2, "10.0.0.%d" % (10 + i), user="u%d" % i)
            cl.append(c)
            views.append(viewrun.View(n))
        for i in case["opers"]:
            cl[i].send("OPER oper operpass")
        for i in case["accts"]:
            w.svc.account(nicks[i], "acc%d" % i)
        w.run()
        pump = viewrun.ViewCheck.pump
        labels = set()
        bursts = []
        for op in case["ops"]:
            if op[0] == "adv":
                w.adv(op[1])
            elif op[0] == "u":
                u = op[1]
                t = op[2]
                if u == "op":
                    # whoever is the channel's operator
                    ch = t.split(" ")[1]
                    u = None
                    for v, c in zip(views, cl):
                        vc = v.chans.get(lower(ch))
                        if vc and vc.members:
                            names = [m for m in vc.members.values() if m[1]]
                            if names:
                                u = nicks.index(names[0][0])
                                break
                    if u is None:
                        continue
                for i, n in enumerate(nicks):
                    t = t.replace("{u%d}" % i, n)
                cl[u].send(t)
                w.run()
                pump(self, w, cl, views)
            else:
                bursts.append(op)
        w.svc.pump()
        w.run()
        num = {lower(k): v for k, v in w.svc.nicks.items()}
        mine = [num[lower(n)] for n in nicks]
        before = [burst.snapshot(w, i) for i in range(2)]
        d = burst.diff(before[0].facts()["channels"], before[1].facts()["channels"])
        if d:
            raise Violation("the two servers disagree before the burst: " + d[0])
        # every server: its own users are the ones it may have to remove
        model = {lower(c): Model(before[0].chans.get(lower(c))) for c in CH}
        for m in model.values():
            m.members = {k: "".join(sorted(x for x in v if x in "ov")) for k, v in m.members.items()}
        had = {k: bool(m.members) and bool(m.modes or m.key or m.limit or m.bans or any(m.members.values())) for k, m in model.items()}
        opers = {mine[i] for i in case["opers"]}
        accts = {mine[i] for i in case["accts"]}
        # the peer and its burst
        p = p10.Peer(w, "peer2.test.net", 80, 0, "10.9.0.1", flags="+6")
        p.handshake(eob=False)
        now = p.now()
        pu = []
        for n in range(4):
            pu.append(p.user("peer%d" % n, ip="10.9.1.%d" % n, ts=now - 50))
        used = False
        base = {k: m.ts or now for k, m in model.items()}
        joined, skip = set(), set()
        for _, ch, dts, modes, key, limit, mem, bans in bursts:
            k = lower(ch)
            ts = base[k] + dts
            if ts > now:
                ts = now
            # a member appears in one BURST line of its channel only
            mem = [(n, st) for n, st in mem if (k, n) not in joined]
            joined |= {(k, n) for n, _ in mem}
            if not mem and not modes and not bans or k in skip:
                continue
            used |= had[k]
            line = "%s B %s %d" % (p.num, ch, ts)
            if modes:
                line += " +" + modes
                for m in modes:
                    line += " %d" % limit if m == "l" else " " + key if m == "k" else ""
            if mem:
                mem = sorted(mem, key=lambda x: ["", "v", "o", "ov"].index(x[1]))
                cur, parts = "", []
                for n, st in mem:
                    parts.append(pu[n] + (":" + st if st != cur else ""))
                    cur = st
                line += " " + ",".join(parts)
            if bans:
                line += " :%" + " ".join(bans)
            m = model[k]
            if not m.ts:
                labels.add("new-channel")
            else:
                labels.add("older" if ts < m.ts else "equal" if ts == m.ts else "newer")
            gone = m.burst(ts, modes, key, limit, [(pu[n], st) for n, st in mem], bans, mine, opers, accts)
            if gone:
                labels.add("netride-kick")
            p.send(line)
            w.run()
            p.pump()
            pump(self, w, cl, views)
            if not m.members:
                # empty after the burst: nothing is promised about an empty channel
                skip.add(k)
        if case.get("eob"):
            p.send(p.num + " EB", p.num + " EA")
            w.run()
        for i in range(2):
            s = burst.snapshot(w, i)
            for ch in CH:
                k = lower(ch)
                m = model[k]
                c = s.chans.get(k)
                if k in skip:
                    continue
                got = observed(c) if c is not None else Model().facts()
                d = burst.diff(m.facts(), got)
                if d:
                    raise Violation("%s on %s after the burst (expected / observed):\n  %s\n  burst: %s" % (
                        ch, ircsim.SERVERS[i], "\n  ".join(d), "\n         ".join(l for l in map(str, bursts))))
        # and the members were told
        for c, v in zip(cl, views):
            viewrun.ViewCheck.ask(self, c, v)
        w.run()
        pump(self, w, cl, views)
        return {"nontrivial": used, "labels": sorted(labels), "checks": 2 * len(CH)}
