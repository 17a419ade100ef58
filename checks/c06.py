import random
import burst, ircsim, p10, viewrun
from ircutil import lower
from pbt import Violation
from viewrun import ViewCheck, View

PROP = {
    "id": "C06",
    "title": "Once messages have drained, all servers hold the same picture of the network",
    "statement": "After any history of user, operator and services commands, splits and rejoins that the links have fully delivered, every server gives a newly "
                 "linked server the same net.burst: the same servers, users (nick, user, host, account, modes, away), channels (timestamp, modes, key, limit, "
                 "members, operators, voices, bans, topic), G-lines, jupes and spam filters. When commands crossed on the links in flight, the servers still "
                 "agree on users and on channel membership.",
    "quantifier": {"over": ["histories", "schedules", "fault_sequences"],
                   "text": "all histories over three servers in a star or chain: commands one at a time with splits and rejoins (full agreement), or with "
                           "arbitrary delivery delays per link (agreement on users and membership)"},
    "why_tests_cant": "Agreement depends on every command being applied identically by its origin, by intermediate servers and by receivers, for every "
                      "combination of earlier state; tests look at one server and one command.",
    "anchors": {
        "files": ["ircd/channel.c", "ircd/m_burst.c", "ircd/m_create.c", "ircd/m_join.c", "ircd/m_mode.c", "ircd/m_nick.c", "ircd/s_user.c",
                  "ircd/m_topic.c", "ircd/m_kick.c", "ircd/m_account.c", "ircd/m_away.c", "ircd/gline.c", "ircd/jupe.c", "ircd/sline.c", "ircd/s_serv.c"],
        "mechanism": [{"name": "net.burst", "where": "ircd/s_serv.c server_estab(); ircd/channel.c send_channel_modes()"},
                      {"name": "state merge", "where": "ircd/m_burst.c ms_burst(); ircd/m_create.c; ircd/m_join.c ms_join()"},
                      {"name": "mode propagation", "where": "ircd/channel.c modebuf_flush_int()"}],
        "observe_at": ["the net.burst each server sends to a fresh server link"],
    },
}

MORE = [(6, "AWAY :{t}"), (3, "AWAY"), (8, "TOPIC {c} :{t}"), (4, "MODE {me} {s}{um}"), (5, "NICK {n}"), (4, "MODE {c} +k {k}"), (2, "MODE {c} -k {k}"),
        (4, "MODE {c} {s}k{s}l {k} {i}"), (5, "MODE {c} {s}{m}{s}o {u}")]
OPERS = [(3, "GLINE !{s}*@{h} * {d} :reason"), (2, "GLINE {s}*@{h}"), (2, "GLINE !{s}{h} * {d} :r"), (2, "JUPE !{s}{jn} * {d} :j"), (1, "JUPE {s}{jn}"),
         (1, "GLINE !{s}$R{h} * {d} :x"), (1, "GLINE !{s}#bad{i} * {d} :c")]
SVC = [(3, "{S} GL * {s}*@{h} {d} {ts} {ets} :svc"), (2, "{S} JU * {s}{jn} {d} {ts} :j"), (2, "{S} SO {nu} :x")]


class Quiet(View):
    def bad(self, m, why):
        pass

    def feed(self, m):
        try:
            View.feed(self, m)
        except (KeyError, IndexError):
            pass


class CHECK(ViewCheck):
    RULE = ("a history on three servers with at least eight different kinds of command applied, whose final agreement was checked over at least three users "
            "and one channel with members")
    QUICK, THOROUGH = 5000, 100000
    NETS = [(3, None), (3, [(0, 1), (1, 2)]), (3, [(0, 1), (0, 2)])]
    NETWEIGHTS = [6, 6, 1]      # the last has a crowd of 170 further users
    LENGTH = (20, 70)

    def boot(self, net):
        n, topology = self.NETS[net]
        w = ircsim.boot_network(n, self.VARIANT, topology=topology, pingfreq=100000, features={"TOPIC_BURST": "TRUE", "AWAY_BURST": "TRUE"})
        w.svc = p10.Peer(w).handshake()
        w.fake = w.svc.user("Svc")
        w.crowd = [w.svc.user("x%d" % i, "x", "crowd.test") for i in range(170)] if net == 2 else []
        w.run()
        return w

    def gen(self, rng, i, tier):
        self.MANUAL = i % 3 == 2
        c = ViewCheck.gen(self, rng, i, tier)
        out = []
        chans = [x for x in ("#Bee", "#c{d", "#a") if any(x in str(o) for o in c["ops"])] or ["#Bee"]
        for op in c["ops"]:
            r = rng.random()
            if op[0] == "u" and r < .25:
                op = ["u", op[1], self.fill(rng, rng.choices(MORE, [x for x, _ in MORE])[0][1], chans)]
            elif op[0] == "u" and r < .3 and c["opers"]:
                op = ["u", rng.choice(c["opers"]), self.fill(rng, rng.choices(OPERS, [x for x, _ in OPERS])[0][1], chans)]
            elif op[0] == "u" and r < .32:
                op = ["svc", self.fill(rng, rng.choices(SVC, [x for x, _ in SVC])[0][1], chans)]
            elif op[0] == "u" and r < .35 and not self.MANUAL:
                out.append(["snap"])
            out.append(op)
        if c["net"] == 2:
            for _ in range(rng.randint(1, 3)):
                out.insert(rng.randrange(min(len(out), 12) + 1), ["crowd", rng.choice(chans), rng.randint(20, 170), rng.random() < .7, rng.randrange(1 << 30)])
        c["ops"] = out
        return c

    def fill(self, rng, t, chans):
        t = ViewCheck.fill(self, rng, t, chans)
        for k, vals in (("{k}", ["key", "KEY", "Key", "abc", "zzz"]), ("{h}", ["foo.bar", "10.99.*", "*.evil.net", "10.98.0.0/16"]), ("{jn}", ["bad.net", "evil.test.net"]),
                        ("{d}", ["60", "3600", "7200"])):
            while k in t:
                t = t.replace(k, rng.choice(vals), 1)
        return t

    def subst(self, w, views, conns, u, text):
        if "{ets}" in text:
            text = text.replace("{ets}", str(w.svc.now() + 3600))
        return ViewCheck.subst(self, w, views, conns, u, text)

    def login(self, w, i):
        c, v = ViewCheck.login(self, w, i)
        q = Quiet(v.nick)
        q.server = v.server
        q.kicked = self.kicked
        return c, q

    def ask(self, c, v):
        pass

    def pump(self, w, conns, views):
        for c, v in zip(conns, views):
            for m in c.msgs():
                v.feed(m)

    def step(self, w, conns, views, op, labels):
        if op[0] == "snap":
            if not self.manual and not self.cut:
                self.agree(w, views)
            return
        if op[0] == "crowd":
            self.crowd(w, op, labels)
            return
        if op[0] == "manual":
            self.crossed = True
        self.healed |= op[0] == "split"
        if self.cut and op[0] == "conn":
            return
        if self.cut and op[0] in ("u", "svc"):
            if op[0] == "u" and op[2].startswith("TOPIC ") and op[2].endswith(" :"):
                return               # an empty topic is not part of the burst
            if op[0] == "u" and op[2].startswith("NICK "):
                op = ["u", op[1], "NICK n%d%s" % (op[1], op[2][5:])]     # collisions are C08's business
            w.adv(1001)              # no two changes on different sides of a split in the same second
        ViewCheck.step(self, w, conns, views, op, labels)

    def crowd(self, w, op, labels):
        """Many members, operators, voices and bans in one channel: its burst takes several lines."""
        if w.svc.c.eof:
            return
        _, chan, n, uniform, seed = op
        r = random.Random(seed)
        us = r.sample(w.crowd, min(n, len(w.crowd)))
        ts = w.svc.now()
        w.svc.send(*["%s J %s %d" % (u, chan, ts) for u in us])
        kinds = r.choice(["v", "o", "vo"]) if uniform else "vo"
        ch = []
        for u in us:
            for k in kinds:
                if uniform or r.random() < .4:
                    ch.append((k, u))
        for _ in range(r.choice([0, 0, 30])):
            ch.append(("b", "*!%s@*.%s" % ("".join(r.choice("abcdef") for _ in range(8)), "".join(r.choice("abcdef") for _ in range(40)))))
        for i in range(0, len(ch), 6):
            b = ch[i:i + 6]
            w.svc.send("%s OM %s +%s %s" % (w.svc.num, chan, "".join(k for k, _ in b), " ".join(a for _, a in b)))
        w.run()
        labels.add("crowd")

    def start_hook(self, w, conns, views):
        self.crossed = self.healed = False
        self.nagree = 0

    def agree(self, w, views):
        w.run()
        w.svc.pump()
        w.run()
        snaps = [burst.snapshot(w, i) for i in range(w.n)]
        for s in snaps:
            if s.odd:
                raise Violation("a net.burst contains %r" % s.odd[0])
        f = [self.facts(s) for s in snaps]
        for i in range(1, w.n):
            d = burst.diff(f[0], f[i])
            if d:
                raise Violation("%s and %s disagree%s:\n  %s" % (ircsim.SERVERS[0], ircsim.SERVERS[i],
                                                                " after crossing messages" if self.crossed else "", "\n  ".join(d[:8])))
        self.nagree += 1
        self.size = (len(f[0]["users"]), sum(1 for c in snaps[0].chans.values() if c.members))
        return snaps

    def facts(self, s):
        f = s.facts()
        for u in f["users"].values():
            u["away"] = u["away"] is not None    # the text is not updated while away, by design
        f["servers"] = {k: (v[0], v[2]) for k, v in f["servers"].items()}
        # an expired G-line is kept for its record lifetime; its expiry is then meaningless
        f["glines"] = {k: (v[0], v[1] if int(v[1]) < 1 << 31 else "expired", v[2], None if self.healed else v[3], v[4]) for k, v in f["glines"].items()}
        if self.healed:
            f["glines"] = {k: v for k, v in f["glines"].items() if v[1] != "expired"}
        if self.crossed:
            f["glines"] = f["jupes"] = None      # expiries are relative to the moment of receipt
            f["channels"] = {k: set(c.members) for k, c in s.chans.items() if c.members}
        return f

    def final(self, w, conns, views, labels):
        self.agree(w, views)

    def nontrivial(self, labels, views):
        return self.size[0] >= 3 and self.size[1] >= 1 and len(labels) >= 8
