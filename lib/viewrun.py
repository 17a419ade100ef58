"""A client-side view of channels, rebuilt from received events only, and the
histories that exercise it: concurrent users, delayed links, splits, opers, services."""
import ircsim, pbt, p10
from ircutil import lower
from pbt import Violation
from chanrun import CHANS, NAMEVARS, MASKS, TEXTS, path

PREFIX = {"@": "o", "+": "v"}


class ChanView:
    def __init__(self, name):
        self.name = name
        self.members = None      # lower nick -> [nick, op, voice]; op/voice None = unknown
        self.modes = None        # set of letters, once known
        self.key = None
        self.limit = None
        self.bans = None
        self.topic = False       # False = not known yet


class View:
    """What one client knows from the lines it was sent."""

    def __init__(self, nick):
        self.nick = nick
        self.chans = {}
        self.names = {}
        self.bans = {}
        self.n = 0               # facts checked
        self.events = 0
        self.log = []
        self.kicked = set()      # nicks kicked anywhere so far: a status change may cross the kick

    def bad(self, m, why):
        raise Violation("%s received %r but %s\n  last lines:\n    %s" % (self.nick, m.raw, why, "\n    ".join(self.log[-25:])))

    def me(self, nick):
        return nick is not None and lower(nick) == lower(self.nick)

    def feed(self, m):
        self.log.append(m.raw)
        del self.log[:-40]
        f = getattr(self, "on_" + m.cmd.lower(), None)
        if f:
            f(m)

    def chan(self, m, name):
        c = self.chans.get(lower(name))
        return c

    def need(self, m, name):
        c = self.chan(m, name)
        if c is None:
            self.bad(m, "is not in that channel")
        return c

    def need_member(self, m, c, nick):
        if c.members is None:
            return None
        e = c.members.get(lower(nick))
        if e is None:
            self.bad(m, "%s is not in %s as far as it was ever told (members: %s)" % (nick, c.name, sorted(x[0] for x in c.members.values())))
        return e

    def on_join(self, m):
        self.events += 1
        k = lower(m.params[0])
        if self.me(m.nick):
            if k in self.chans:
                self.bad(m, "was already in it")
            c = self.chans[k] = ChanView(m.params[0])
            return
        c = self.need(m, m.params[0])
        if c.members is None:
            return
        if lower(m.nick) in c.members:
            self.bad(m, "%s was already in %s" % (m.nick, c.name))
        c.members[lower(m.nick)] = [m.nick, False, False]

    def leave(self, m, name, nick):
        c = self.need(m, name)
        if self.me(nick):
            del self.chans[lower(name)]
            return
        if c.members is None:
            return
        self.need_member(m, c, nick)
        del c.members[lower(nick)]

    def on_part(self, m):
        self.events += 1
        self.leave(m, m.params[0], m.nick)

    def on_kick(self, m):
        self.events += 1
        self.leave(m, m.params[0], m.params[1])

    def on_quit(self, m):
        self.events += 1
        if self.me(m.nick):
            return
        seen = False
        for c in self.chans.values():
            if c.members is None:
                seen = True
            elif c.members.pop(lower(m.nick), None):
                seen = True
        if not seen:
            self.bad(m, "shares no channel with %s" % m.nick)

    def on_nick(self, m):
        self.events += 1
        new = m.params[0]
        if lower(m.nick) in self.kicked:
            self.kicked.add(lower(new))
        seen = self.me(m.nick)
        if seen:
            self.nick = new
        for c in self.chans.values():
            if c.members is None:
                seen = True
                continue
            e = c.members.pop(lower(m.nick), None)
            if e:
                seen = True
                if lower(new) in c.members:
                    self.bad(m, "%s is the nickname of another member of %s" % (new, c.name))
                e[0] = new
                c.members[lower(new)] = e
        if not seen:
            self.bad(m, "shares no channel with %s" % m.nick)

    def on_topic(self, m):
        self.events += 1
        self.need(m, m.params[0]).topic = m.params[1]

    def on_mode(self, m):
        try:
            self.parse_mode(m)
        except IndexError:
            self.bad(m, "it carries fewer arguments than its letters take")

    def parse_mode(self, m):
        if m.params[0][:1] not in ("#", "&"):
            return
        self.events += 1
        c = self.need(m, m.params[0])
        args = m.params[2:]
        sign = "+"
        for l in m.params[1]:
            if l in "+-":
                sign = l
            elif l in "ov":
                who = args.pop(0)
                if c.members is not None and lower(who) not in c.members and lower(who) in self.kicked:
                    continue
                e = self.need_member(m, c, who)
                if e:
                    e[1 if l == "o" else 2] = sign == "+"
            elif l == "b":
                b = args.pop(0)
                if c.bans is not None:
                    if sign == "+":
                        if b in c.bans:
                            self.bad(m, "that ban was already set")
                        c.bans.add(b)
                    else:
                        if b not in c.bans:
                            self.bad(m, "that ban was not set (%s)" % sorted(c.bans))
                        c.bans.discard(b)
            elif l == "k":
                a = args.pop(0) if args else None
                c.key = a if sign == "+" else None
                self.flip(c, sign, l)
            elif l == "l":
                c.limit = args.pop(0) if sign == "+" else None
                self.flip(c, sign, l)
            elif l in "AU":
                args.pop(0)
            else:
                self.flip(c, sign, l)
        if args:
            self.bad(m, "it carries more arguments than its letters take")

    def flip(self, c, sign, l):
        if c.modes is not None:
            (c.modes.add if sign == "+" else c.modes.discard)(l)

    def on_privmsg(self, m):
        t = m.params[0].lstrip("@+")
        if t[:1] in ("#", "&") and m.src and "!" in m.src:
            self.events += 1
            self.need(m, t)

    on_notice = on_privmsg

    # -- answers: learnt the first time, compared ever after
    def on_353(self, m):
        self.names.setdefault(lower(m.params[2]), []).extend(x for x in m.params[3].split(" ") if x)

    def on_366(self, m):
        k = lower(m.params[1])
        got = self.names.pop(k, [])
        c = self.chans.get(k)
        if c is None:
            return
        now = {}
        for x in got:
            p = ""
            while x[:1] in "@+!":
                p += x[0]
                x = x[1:]
            if lower(x) in now:
                self.bad(m, "%s was listed twice" % x)
            now[lower(x)] = (x, p)
        if lower(self.nick) not in now:
            self.bad(m, "it is itself missing from the list %s" % got)
        if c.members is None:
            c.members = {k: [x, "@" in p, True if "+" in p else None if "@" in p else False] for k, (x, p) in now.items()}
            return
        self.n += 1
        if set(now) != set(c.members):
            self.bad(m, "was told of members %s while NAMES says %s" % (sorted(x[0] for x in c.members.values()), sorted(x for x, _ in now.values())))
        for k, (x, p) in now.items():
            e = c.members[k]
            if e[0] != x:
                self.bad(m, "knows %s as %s" % (x, e[0]))
            exp = "@" if e[1] else "" if e[2] is None else "+" if e[2] else ""
            if e[2] is None and not e[1]:
                e[2] = p == "+"
            elif exp != p:
                self.bad(m, "%s should have prefix %r, NAMES says %r" % (x, exp, p))

    def on_324(self, m):
        c = self.chan(m, m.params[1])
        if c is None:
            return
        letters = set(m.params[2].lstrip("+"))
        args = m.params[3:]
        key = lim = None
        for l in m.params[2]:
            if l == "l":
                lim = args.pop(0)
            elif l == "k":
                key = args.pop(0)
        if c.modes is None:
            c.modes, c.limit, c.key = letters, lim, key
            return
        self.n += 1
        if letters != c.modes or lim != c.limit:
            self.bad(m, "was told of modes +%s limit %s" % ("".join(sorted(c.modes)), c.limit))
        if key is not None and key != "*":
            if c.key not in (None, "*") and c.key != key:
                self.bad(m, "was told of key %s" % c.key)
            c.key = key

    def on_367(self, m):
        self.bans.setdefault(lower(m.params[1]), []).append(m.params[2])

    def on_368(self, m):
        k = lower(m.params[1])
        got = self.bans.pop(k, [])
        c = self.chans.get(k)
        if c is None:
            return
        if len(set(got)) != len(got):
            self.bad(m, "the list has duplicates: %s" % got)
        if c.bans is None:
            c.bans = set(got)
            return
        self.n += 1
        if set(got) != c.bans:
            self.bad(m, "was told of bans %s, the list says %s" % (sorted(c.bans), sorted(got)))

    def got_topic(self, m, text):
        c = self.chan(m, m.params[1])
        if c is None:
            return
        if c.topic is False:
            c.topic = text
            return
        self.n += 1
        if c.topic != text:
            self.bad(m, "was told of topic %r" % c.topic)

    def on_331(self, m):
        self.got_topic(m, "")

    def on_332(self, m):
        self.got_topic(m, m.params[2])


LINES = [
    (14, "JOIN {c}"), (3, "JOIN {c},{c}"), (5, "PART {c}"), (2, "PART {c} :bye"), (1, "JOIN 0"), (6, "KICK {c} {u} :out"), (1, "KICK {c} {u}"),
    (4, "TOPIC {c} :{t}"), (3, "INVITE {u} {c}"), (7, "NICK {n}"), (2, "QUIT :gone"), (6, "PRIVMSG {c} :hello"), (2, "NOTICE {c},{u} :hi"),
    (1, "AWAY :x"), (1, "AWAY"), (2, "MODE {me} {s}{um}"), (8, "MODE {c} {s}o {u}"), (6, "MODE {c} {s}v {u}"), (5, "MODE {c} {s}o{s}v {u} {u}"),
    (7, "MODE {c} {s}b {b}"), (3, "MODE {c} {s}b{s}b {b} {b}"), (8, "MODE {c} {s}{m}"), (4, "MODE {c} {s}{m}{s}{m}"), (3, "MODE {c} +l {i}"), (1, "MODE {c} -l"),
    (2, "MODE {c} {s}k key"), (2, "MODE {c} +ov {u} {u}"), (3, "WALLCHOPS {c} :w"), (1, "WALLVOICES {c} :w"),
    (6, "?"),
]
OPERLINES = [(4, "OPMODE {c} {s}o {u}"), (3, "OPMODE {c} {s}{m}"), (2, "OPMODE {c} {s}b {b}"), (3, "CLEARMODE {c}"), (2, "CLEARMODE {c} {m}{m}"),
             (2, "KILL {u} :dead"), (2, "OPMODE {c} {s}v {u}"), (1, "CLEARMODE {c} ob")]
SVCLINES = [(4, "{S} M {C} {s}o {nu}"), (3, "{S} M {C} {s}{m}"), (2, "{S} M {C} {s}b {b}"), (3, "{S} K {C} {nu} :svc"), (4, "{S} AC {nu} acct{i}"),
            (1, "{S} D {nu} :killed"), (2, "{S} CM {C} ob"), (2, "{S} OM {C} {s}v {nu}"), (3, "{S} T {C} :svctopic"), (3, "{F} J {C} {ts}"), (1, "{F} J {C} {old}"), (1, "{F} L {C} :x"),
            (2, "{F} P {C} :hello"), (2, "{F} M {C} {s}v {nu}"), (2, "{F} M {C} {s}{m}")]
NICKPOOL = ["Ann", "bob", "CaR{l", "dee", "Eve", "f_x", "zed", "ANN", "Bob", "w|l", "W\\L", "q"]


class ViewCheck(pbt.Check):
    NETS = [(1, None), (3, None), (3, [(0, 1), (1, 2)])]
    NETWEIGHTS = [3, 3, 3]
    NUSERS = 6
    LENGTH = (25, 80)
    VARIANT = "plain"
    SPLITS = True
    MANUAL = True
    OPERS = True
    SERVICES = True

    def gen(self, rng, i, tier):
        net = rng.choices(range(len(self.NETS)), self.NETWEIGHTS)[0]
        ns = self.NETS[net][0]
        n = rng.randint(*self.LENGTH)
        chans = rng.sample(CHANS[:4], 2)
        ops = []
        manual = self.MANUAL and ns > 1 and rng.random() < .6
        opers = [u for u in range(self.NUSERS) if self.OPERS and rng.random() < .25]
        boss = rng.randrange(self.NUSERS)
        ops.append(["u", boss, "JOIN " + chans[0]])
        for u in range(self.NUSERS):
            if u != boss and rng.random() < .8:
                ops.append(["u", u, "JOIN " + chans[0]])
        ops.append(["settle"])
        if manual:
            ops.append(["manual"])
        w = [x for x, _ in LINES]
        links = self.NETS[net][1] or [(0, j) for j in range(1, ns)]
        for _ in range(n):
            r = rng.random()
            if manual and r < .30:
                a, b = rng.choice(links)
                if rng.random() < .5:
                    a, b = b, a
                ops.append(["dlv", a, b, rng.choice([1, 1, 2, 3, 10])])
            elif r < .36:
                ops.append(["settle"])
            elif self.SPLITS and ns > 1 and r < .40:
                ops.append(["split", rng.randrange(len(links))])
            elif self.SPLITS and ns > 1 and r < .46:
                ops.append(["heal"])
            elif self.SERVICES and r < .52:
                ops.append(["svc", self.fill(rng, rng.choices(SVCLINES, [x for x, _ in SVCLINES])[0][1], chans)])
            elif opers and r < .58:
                ops.append(["u", rng.choice(opers), self.fill(rng, rng.choices(OPERLINES, [x for x, _ in OPERLINES])[0][1], chans)])
            elif r < .62:
                ops.append(["conn", rng.randrange(self.NUSERS)])
            elif r < .63:
                ops.append(["rst", rng.randrange(self.NUSERS)])
            elif r < .65:
                ops.append(["adv", rng.choice([100, 2000, 40000])])
            else:
                t = rng.choices(LINES, w)[0][1]
                u = rng.randrange(self.NUSERS)
                if t.startswith(("MODE", "KICK", "INV")) and rng.random() < .5:
                    u = boss
                ops.append(["u", u, self.fill(rng, t, chans)])
        return {"net": net, "opers": opers, "ops": ops}

    def fill(self, rng, t, chans):
        out = ""
        while t:
            i = t.find("{")
            if i < 0:
                return out + t
            j = t.index("}", i)
            k = t[i + 1:j]
            out += t[:i]
            t = t[j + 1:]
            if k in ("c", "C"):
                ch = rng.choice(chans) if rng.random() < .4 else chans[0]
                if k == "C" and ch[0] == "&":
                    ch = "#a"
                out += rng.choice(NAMEVARS[ch]) if rng.random() < .2 else ch
            elif k in ("u", "nu"):
                out += "{%s%d}" % (k, rng.randrange(self.NUSERS))
            elif k == "t":
                out += rng.choice(["one", "two", "ONE", "", "three words here"])
            elif k == "n":
                out += rng.choice(NICKPOOL)
            elif k == "s":
                out += rng.choice("++-")
            elif k == "um":
                out += rng.choice("idRcx")
            elif k == "m":
                out += rng.choice("psmtinrDDcCuM")
            elif k == "b":
                out += rng.choice(MASKS)
            elif k == "i":
                out += str(rng.randint(1, 9))
            else:
                out += "{%s}" % k
        return out

    def boot(self, net):
        n, topology = self.NETS[net]
        w = ircsim.boot_network(n, self.VARIANT, topology=topology, pingfreq=100000)
        w.svc = p10.Peer(w).handshake()
        w.fake = w.svc.user("Svc")
        w.run()
        return w

    def run(self, case):
        net = case.get("net", 0)
        w = self.world("net%d" % net, lambda: self.boot(net))
        with pbt.case_of(self, w):
            return self.run_case(w, case)

    # -- execution
    def login(self, w, i):
        nick = NICKPOOL[i]
        for k in range(8):
            cands = [nick, "%s%d" % (nick[:3], k), "alt%d%d" % (i, k)]
            c = w.connect(i % w.n, "10.0.%d.%d" % (i % 2, 10 + i))
            c.send("NICK " + cands[min(k, 2)], "USER u%d 0 * :real" % i)
            w.run()
            ms = c.msgs()
            for m in ms:
                if m.cmd == "PING":
                    c.send("PONG :" + m.params[-1])
            w.run()
            ms += c.msgs()
            if any(m.cmd == "001" for m in ms):
                v = View([m for m in ms if m.cmd == "001"][0].params[0])
                v.server = i % w.n
                v.kicked = self.kicked
                return c, v
            c.close()
        raise ircsim.SimError("cannot log in user %d: %r" % (i, ms[-3:]))

    def run_case(self, w, case):
        self.manual = False
        self.kicked = set()
        self.cut = set()
        self.ns = w.n
        labels = set()
        conns, views = [], []
        for i in range(self.NUSERS):
            c, v = self.login(w, i)
            conns.append(c)
            views.append(v)
        for i in case.get("opers", ()):
            conns[i].send("OPER oper operpass")
        w.run()
        self.start_hook(w, conns, views)
        for op in case["ops"]:
            self.step(w, conns, views, op, labels)
            self.pump(w, conns, views)
        self.heal(w)
        self.settle(w)
        self.pump(w, conns, views)
        self.final(w, conns, views, labels)
        checks = sum(v.n for v in views)
        return {"nontrivial": self.nontrivial(labels, views), "labels": sorted(labels), "checks": checks}

    def start_hook(self, w, conns, views):
        pass

    def nontrivial(self, labels, views):
        return sum(v.n for v in views) >= 4 and sum(v.events for v in views) >= 20

    def settle(self, w):
        if self.manual:
            w.sim.cmd("dlvall")
        w.run()
        w.svc.pump()
        w.run()

    def heal(self, w):
        if self.manual:
            w.sim.cmd("dlvall")
            w.sim.cmd("linkmode 0")
            w.run()
            self.manual = False
        for k in sorted(self.cut):
            a, b = w.topology[k]
            w.adv(2000)
            try:
                ircsim.link_servers(w, a, b)
            except ircsim.SimError:
                w.adv(70000)
                ircsim.link_servers(w, a, b)
        self.cut = set()
        w.adv(1000)

    def subst(self, w, views, conns, u, text):
        for i, v in enumerate(views):
            text = text.replace("{u%d}" % i, v.nick)
            if "{nu%d}" % i in text:
                w.svc.pump()
                nn = {lower(k): n for k, n in w.svc.nicks.items()}.get(lower(v.nick))
                if nn is None:
                    return None
                text = text.replace("{nu%d}" % i, nn)
        if u is not None:
            text = text.replace("{me}", views[u].nick)
        if "{S}" in text or "{F}" in text:
            text = text.replace("{S}", w.svc.num).replace("{F}", w.fake)
        if "{old}" in text:
            text = text.replace("{old}", str(w.svc.now() - 5000))
        if "{ts}" in text:
            text = text.replace("{ts}", str(w.svc.now()))
        return text

    def step(self, w, conns, views, op, labels):
        k = op[0]
        if k == "u":
            u = op[1]
            if conns[u].eof:
                return
            if op[2] == "?":
                self.ask(conns[u], views[u])
            else:
                t = self.subst(w, views, conns, u, op[2])
                conns[u].send(t)
                if t.startswith("KICK "):
                    self.kicked.add(lower(t.split(" ")[2]))
                labels.add(t.split(" ")[0].lower())
            w.run()
        elif k == "svc":
            if w.svc.c.eof:
                return
            t = self.subst(w, views, conns, None, op[1])
            if t is None:
                return
            w.svc.send(t)
            if " K " in t:
                self.kicked |= {lower(v.nick) for v in views if "{nu%d}" % views.index(v) in op[1]}
            labels.add("svc-" + t.split(" ")[1])
            w.run()
        elif k == "settle":
            self.settle(w)
        elif k == "manual":
            if not self.cut:
                w.sim.cmd("linkmode 1")
                w.run()
                self.manual = True
                labels.add("delayed-links")
        elif k == "dlv":
            if self.manual:
                w.sim.cmd("dlv %d %d %d" % (op[1], op[2], op[3]))
                w.sync()
                w.take_events("D")
                w.run()
        elif k == "split":
            if op[1] in self.cut:
                return
            self.settle(w)
            a, b = w.topology[op[1]]
            w.sim.cmd("cut %d %d" % (a, b))
            self.cut.add(op[1])
            labels.add("split")
            w.run()
            if self.manual:
                w.sim.cmd("dlvall")
                w.run()
        elif k == "heal":
            if self.cut:
                labels.add("heal")
                self.heal(w)
        elif k == "conn":
            if conns[op[1]].eof or conns[op[1]].closed:
                self.settle(w)
                conns[op[1]], views[op[1]] = self.login(w, op[1])
                self.settle(w)
        elif k == "rst":
            if not conns[op[1]].eof:
                conns[op[1]].rst()
                w.run()
                conns[op[1]].eof = True
        elif k == "adv":
            w.adv(op[1])

    def ask(self, c, v):
        for ch in list(v.chans.values()):
            c.send("NAMES " + ch.name, "MODE " + ch.name, "MODE %s b" % ch.name, "TOPIC " + ch.name)

    def pump(self, w, conns, views):
        for i, (c, v) in enumerate(zip(conns, views)):
            ms = c.msgs()
            fresh = []
            for m in ms:
                if m.cmd == "JOIN" and v.me(m.nick):
                    fresh.append(m.params[0])
                v.feed(m)
                if m.cmd == "TOPIC" and v.chan(m, m.params[0]) is not None and v.chan(m, m.params[0]).topic is False:
                    pass
            for name in fresh:
                # learn the starting state; everything later must come as events
                if lower(name) in v.chans and not c.eof:
                    c.send("MODE " + name, "MODE %s b" % name, "TOPIC " + name)
            if fresh:
                w.run()
                for m in c.msgs():
                    v.feed(m)

    def final(self, w, conns, views, labels):
        for c, v in zip(conns, views):
            if not c.eof:
                self.ask(c, v)
        w.run()
        self.pump(w, conns, views)
