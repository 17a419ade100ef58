"""Queries: what the server answers about users, channels and the network is the truth, all of it."""
import ircsim, pbt, p10, ipaddress
from ircutil import glob, lower
from pbt import Violation

PROP = {
    "id": "C23",
    "title": "Queries are answered with the truth: exactly what matches and may be seen, with the right details",
    "statement": "WHO (with any mask, list, match flags, fields and query type), WHOIS (nick, list, wildcard, remote), USERHOST, USERIP, ISON, LIST (with any filters and names), NAMES and LUSERS report exactly the users and channels "
                 "that match the question and are visible to the asker, each once, with their current nick, user name, host, server, real name, account, away and operator state, channel status, modes shown, idle and sign-on times, "
                 "topics and sizes; counters equal the numbers of users, invisible users, operators, servers, channels and unfinished connections that exist. A WHO is cut short only beyond 2048/(n+4) lines for n fields, and then says so.",
    "quantifier": {"over": ["histories", "inputs"],
                   "text": "all queries with generated masks, flags and filters, asked by users and operators of two servers at any point of histories of joins, modes, topics, nick, away and mode changes, logins, messages, departures, arrivals and splits"},
    "why_tests_cant": "The answers depend on the whole state, on the combination of flags and filters, and on who asks; the suite has no test of WHO, LIST, LUSERS, ISON or USERHOST results beyond single lines.",
    "anchors": {
        "files": ["ircd/m_who.c", "ircd/whocmds.c", "ircd/m_whois.c", "ircd/m_list.c", "ircd/hash.c", "ircd/m_userhost.c", "ircd/m_userip.c", "ircd/m_ison.c", "ircd/m_lusers.c", "ircd/m_names.c", "doc/readme.who"],
        "mechanism": [{"name": "WHO selection", "where": "ircd/m_who.c m_who(), ircd/whocmds.c do_who()"},
                      {"name": "LIST filters", "where": "ircd/m_list.c param_parse(), ircd/hash.c list_next_channels()"},
                      {"name": "counters", "where": "include/querycmds.h UserStats, ircd/m_lusers.c"}],
        "observe_at": ["numerics 251-255, 302, 303, 311-319, 322, 330, 338, 340, 352-354"],
    },
}
TECHNIQUE = "model-based random testing: histories in a simulated network, every query compared with a reference model's complete answer"

# nick, ident, host, ip, real name, server
US = [("Alice", "ali", "pc1.example.com", "10.2.3.4", "Alice A", 0), ("bob", "bob", "10.2.3.5", "10.2.3.5", "bobby tables", 0),
      ("Carol", "carol", "dial.example.org", "10.2.4.1", "Carol of #a", 1), ("dave", "ali", "pc2.example.com", "10.3.0.1", "Alice A", 1),
      ("Eve[x]", "eve", "v6.example.com", "2001:db8::5", "eve\x01", 0), ("frank", "f", "pc3.Example.org", "10.2.4.9", "x", 1)]
NU = len(US)
NICKS = ["Alice", "alice^", "bob", "Bobby", "Carol", "dave", "Eve[x]", "eve{x}", "frank", "Zed", "pc1"]
CH = ["#a", "#abc", "#b", "#Long-Channel-Name", "&loc"]
SERVERS = ["hub.test.net", "leaf1.test.net"]
MATCH = "nuhisra"
FIELDS = "tcuihsnfdlar"
UMODES = "iwdxI"


def same(a, b):
    return lower(a) == lower(b)


class U:
    pass


class C:
    def __init__(self, now):
        self.made, self.modes, self.topic, self.ttime, self.m = now, set(), "", 0, {}


class CHECK(pbt.Check):
    RULE = "at least six queries were answered with at least one user or channel and at least one user or channel was left out of an answer"
    QUICK, THOROUGH = 12000, 400000
    VARIANT = "plain"

    # ---- generation
    def mask(self, rng):
        r = rng.random()
        if r < .12:
            return rng.choice(["*", "0", "**", "?*"])
        if r < .3:
            return rng.choice(NICKS)
        if r < .4:
            return rng.choice(CH)
        if r < .55:
            return rng.choice(["10.2.3.0/24", "10.2.*", "10.2.3.4", "10.2.0.0/16", "2001:db8::/32", "10.2.3.4/32", "10.0.0.0/8", "2001:db8::5", "10.2.3.5", "10.*"])
        w = rng.choice(NICKS + ["ali", "eve", "pc1.example.com", "dial.example.org", "Alice A", "hub.test.net", "leaf1.test.net", "acct", "Other", "x.users.undernet.org"])
        i, j = rng.randrange(len(w)), rng.randrange(len(w) + 1)
        k = rng.random()
        if k < .3:
            w = w[:i] + "*"
        elif k < .5:
            w = "*" + w[i:]
        elif k < .65:
            w = "*" + w[min(i, j):max(i, j)] + "*"
        elif k < .8:
            w = w[:i] + "?" + w[i + 1:]
        elif k < .9:
            w = w.swapcase()
        return w.replace(",", "")

    def query(self, rng, big):
        r = rng.random()
        if r < .42:
            m = self.mask(rng)
            if rng.random() < .2:
                m = ",".join(rng.choice(NICKS + CH) for _ in range(rng.randint(1, 4))) + rng.choice(["", ","])
            if big and rng.random() < .6:
                m = rng.choice(["*", "cr*", "#crowd", "*.crowd", "*", "#crowd,Alice"])
            fl = ""
            for c in MATCH:
                if rng.random() < .12:
                    fl += rng.choice([c, c.upper()])
            if rng.random() < .15:
                fl += rng.choice("oO")
            if rng.random() < .15:
                fl += "x"
            f = None
            if rng.random() < .6:
                f = "n" + "".join(c for c in FIELDS if c != "n" and rng.random() < rng.choice([.2, .5]))
                f = "".join(rng.sample(f, len(f)))
                f = rng.choice([f, f.upper()])
            q = rng.choice(["", "", "7", "166", "1234", "0"]) if f else ""
            return ["who", m, fl, f, q, rng.random() < .15]
        if r < .56:
            n = [rng.choice(NICKS + ["nobody"]) if rng.random() < .7 else self.mask(rng).replace(" ", "") for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            n = [x for x in n if x[0] not in "#&0" and "/" not in x] or ["bob"]
            return ["whois", n, len(n) == 1 and rng.random() < .3]
        if r < .66:
            return ["userhost", rng.choice(["USERHOST", "USERIP"]), [rng.choice(NICKS + ["nobody"]) for _ in range(rng.choice([1, 2, 3, 5, 6, 7]))]]
        if r < .72:
            return ["ison", [rng.choice(NICKS + ["nobody"]) for _ in range(rng.randint(1, 8))], rng.random() < .5]
        if r < .92:
            p = []
            for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 4])):
                k = rng.random()
                if k < .35:
                    p.append(rng.choice(["<", ">"]) + str(rng.choice([0, 1, 2, 3, 5, 100])))
                elif k < .8:
                    p.append(rng.choice(["C<", "C>", "T<", "T>", "c>", "t<"]) + str(rng.choice([0, 1, 2, 5, 9, 30])))
                elif not any("#" in x or "*" in x for x in p):
                    p.append(rng.choice(["#a*", "*", "#?", "!#a*", "*long*", "!*b*", "#*-*", "&*"]))
            if rng.random() < .2:
                p = rng.sample(CH + ["#none"], rng.randint(1, 3))
                return ["list", [",".join(p)], p]
            if len(p) and rng.random() < .7:
                return ["list", [",".join(p)], p]
            return ["list", p, p]
        if r < .96:
            return ["lusers"]
        return ["names", rng.choice(CH)]

    def gen(self, rng, i, tier):
        ops = []
        if rng.random() < .06:
            return self.gen_slow(rng)
        net = rng.choices(range(3), [4, 2, 1])[0]
        for k in range(rng.randint(12, 60)):
            r = rng.random()
            u = rng.randrange(NU)
            if k > 8 and r < .45:
                ops.append(["q", rng.randrange(NU + 1), self.query(rng, net == 2)])
            elif r < .62:
                ops.append(["join", u, rng.choice(CH)])
            elif r < .66:
                ops.append(["part", u, rng.choice(CH)])
            elif r < .70:
                ops.append(["topic", u, rng.choice(CH), rng.choice(["", "hello", "x y z", ":-)"])])
            elif r < .75:
                ops.append(["cmode", u, rng.choice(CH), rng.choice(["+s", "-s", "+p", "-p", "+n", "+t", "-t", "+m"])])
            elif r < .78:
                ops.append(["give", u, rng.choice(CH), rng.randrange(NU), rng.choice(["+o", "-o", "+v", "-v", "+v"])])
            elif r < .81:
                ops.append(["nick", u, rng.choice(NICKS)])
            elif r < .84:
                ops.append(["away", u, rng.choice(["", "gone", "lunch: now"])])
            elif r < .89:
                ops.append(["umode", u, rng.choice("+++-") + rng.choice("iiiwdxI")])
            elif r < .905:
                ops.append(["oper", u, rng.random() < .7])
            elif r < .92:
                ops.append(["account", u, rng.choice(["acct", "Other", "x"])])
            elif r < .94:
                ops.append(["msg", u, rng.randrange(NU)])
            elif r < .97:
                ops.append(["adv", rng.choice([1, 5, 61, 130, 310])])
            elif r < .98:
                ops.append([rng.choice(["quit", "back", "back"]), u])
            elif r < .99:
                ops.append(["half", rng.randrange(2)])
            else:
                ops.append([rng.choice(["split", "heal"])])
        return {"net": net, "ops": ops}

    # ---- a long LIST to a slow reader, while channels come and go
    NCHAN = 160

    def gen_slow(self, rng):
        ops = [["list", rng.choice(["", "", "", " >1", " #c*", " !*7*", " C>0"])]]
        for _ in range(rng.randint(3, 30)):
            r = rng.random()
            ops.append(["take", rng.choice([100, 400, 1000, 3000, 6000])] if r < .6 else
                       ["new", rng.randrange(20)] if r < .72 else
                       ["gone", rng.randrange(self.NCHAN)] if r < .84 else
                       ["topic", rng.randrange(self.NCHAN), rng.choice(["x", "t" * 100, "u" * 150])] if r < .94 else
                       ["list", rng.choice([" C>0", " >1", " #c*"])] if r < .97 else ["stop"])
        return {"net": 3, "cap": rng.choice([0, 100, 1000, 3000]), "ops": ops}

    def boot_slow(self):
        cl = 'Class { name = "Slow"; pingfreq = 60000 seconds; sendq = 12000; maxflood = 262144; maxlinks = 100; };\nClient { class = "Slow"; ip = "10.66.0.*"; };\n'
        w = ircsim.boot_network(1, self.VARIANT, features={"CONNECTTIMEOUT": "60000", "NICKDELAY": None}, pingfreq=60000, extra=cl)
        w.svc = p10.Peer(w).handshake()
        w.lister = w.client("Lister", 0, ip="10.66.0.1")
        us = [w.svc.user("Mem%02d" % k) for k in range(self.NCHAN)]
        w.t0 = w.svc.now()
        for k in range(self.NCHAN):
            w.svc.send("%s B #chan%03d %d %s" % (w.svc.num, k, w.t0, ",".join(us[(k + j) % self.NCHAN] for j in range(1 + k % 4))))
            w.svc.send("%s T #chan%03d %d %d :%s" % (w.svc.num, k, w.t0, w.t0, "t" * (k * 7 % 160)))
        w.adv(200000)
        w.svc.pump()
        w.lister.lines()
        return w

    def run_slow(self, case):
        w = self.world("net3", self.boot_slow)
        with pbt.case_of(self, w):
            a = w.lister
            n = {k: 1 + k % 4 for k in range(self.NCHAN)}
            topics = {k: {"t" * (k * 7 % 160)} for k in range(self.NCHAN)}
            new, gone = set(), set()
            nums = w.svc.nicks
            lists = []          # [argument, channels gone before, ended early]
            w.sim.cmd("hold %d %d" % (a.ext, case["cap"]))
            for o in case["ops"]:
                if o[0] == "list":
                    if lists:
                        lists[-1][2] = True
                    lists.append([o[1], set(gone), False])
                    a.send("LIST" + o[1])
                elif o[0] == "stop":
                    if lists and not lists[-1][2] and o is not case["ops"][0]:
                        # only while one is under way; after its end this would be a question of its own
                        lists[-1][2] = True
                        a.send("LIST >100000")
                        lists.append([" >100000", set(gone), False])
                elif o[0] == "take":
                    w.sim.cmd("take %d %d" % (a.ext, o[1]))
                elif o[0] == "new":
                    if o[1] not in new:
                        new.add(o[1])
                        w.svc.send("%s B #cnew%03d %d %s" % (w.svc.num, o[1], w.t0, nums["Mem00"]))
                elif o[0] == "gone":
                    k = o[1]
                    if k not in gone:
                        gone.add(k)
                        for j in range(1 + k % 4):
                            w.svc.send("%s L #chan%03d" % (nums["Mem%02d" % ((k + j) % self.NCHAN)], k))
                elif o[0] == "topic":
                    if o[1] not in gone:
                        topics[o[1]].add(o[2])
                        w.svc.send("%s T #chan%03d %d %d :%s" % (w.svc.num, o[1], w.t0, w.t0 + 100, o[2]))
                w.run()
            w.sim.cmd("hold %d -1" % a.ext)
            w.run()
            w.run()
            if a.eof:
                raise Violation("the reader of a LIST was disconnected")
            parts = []
            for m in a.msgs():
                if m.cmd == "321":
                    parts.append([])
                elif m.cmd in ("322", "323"):
                    if not parts or parts[-1][-1:] == ["end"]:
                        raise Violation("a LIST reply outside of a LIST: %r" % m.raw)
                    parts[-1].append("end" if m.cmd == "323" else (m.params[1], int(m.params[2]), m.params[3]))
            if len(parts) != len(lists) or any(p[-1:] != ["end"] for p in parts):
                raise Violation("%d LISTs were asked for, %d were answered, with %d ends" % (len(lists), len(parts), sum(p[-1:] == ["end"] for p in parts)))
            for (arg, before, early), p in zip(lists, parts):
                names = [x[0] for x in p[:-1]]
                if len(set(names)) != len(names):
                    d = sorted({x for x in names if names.count(x) > 1})
                    raise Violation("LIST%s names %d channels more than once: %s" % (arg, len(d), " ".join(d[:8])))
                for k in range(self.NCHAN):
                    name = "#chan%03d" % k
                    fits = {"": True, " >1": n[k] > 1, " #c*": True, " !*7*": "7" not in name, " C>0": True, " >100000": False}[arg]
                    if name in names and (not fits or k in before):
                        raise Violation("LIST%s names %s, which %s" % (arg, name, "does not fit" if not fits else "was gone"))
                    if name not in names and fits and k not in gone and not early:
                        raise Violation("LIST%s lacks %s, which existed throughout" % (arg, name))
                for name, cnt, top in p[:-1]:
                    if name[:5] == "#chan":
                        k = int(name[5:])
                        if cnt != n[k] and k not in gone or top not in topics[k]:
                            raise Violation("LIST%s: %s has %d users and the topic %r" % (arg, name, cnt, top))
            return {"nontrivial": sum(map(len, parts)) > 100, "labels": ["slow list"], "checks": len(lists)}

    # ---- the network
    def boot(self, net):
        f = {"CONNECTTIMEOUT": "60000", "OPLEVELS": "FALSE", "NICKDELAY": None, "IDLE_FROM_MSG": "TRUE"}
        self.his = net == 1
        if net != 1:
            for k in ("HIS_WHO_SERVERNAME", "HIS_WHO_HOPCOUNT", "HIS_WHOIS_SERVERNAME", "HIS_WHOIS_IDLETIME", "HIS_WHOIS_LOCALCHAN", "HIS_REMOTE"):
                f[k] = "FALSE"
        x = 'WebIRC { ip = "10.77.0.*"; password = "wpass"; description = "cgi"; };\nPort { webirc = yes; port = 6900; };\n'
        w = ircsim.boot_network(2, self.VARIANT, features=f, pingfreq=60000, extra=x)
        w.svc = p10.Peer(w).handshake()
        w.us = [self.enter(w, i) for i in range(NU)]
        w.op = w.client("Op", 0, ip="10.250.0.1", user="root", real="Operator")
        w.op.do("OPER oper operpass")
        w.crowd = {}
        if net == 2:
            now = w.svc.now()
            for n in range(230):
                w.svc.user("cr%03d" % n, ident="cr", host="c%03d.crowd" % n, modes="+", ip="10.44.0.%d" % (n % 250), real="crowd")
            w.svc.send("%s B #crowd %d %s" % (w.svc.num, now, ",".join(list(w.svc.nicks.values())[:60])))
            w.svc.send("%s B #crowd %d %s" % (w.svc.num, now, ",".join(list(w.svc.nicks.values())[60:120])))
            w.svc.send("%s B #crowd %d %s" % (w.svc.num, now, ",".join(list(w.svc.nicks.values())[120:180])))
            w.svc.send("%s B #crowd %d %s" % (w.svc.num, now, ",".join(list(w.svc.nicks.values())[180:])))
            w.adv(2000)
            w.svc.pump()
            w.crowdts = now
        w.adv(20000)
        w.svc.pump()
        for c in w.conns.values():
            c.lines()
        return w

    def now(self, w):
        w.sim.cmd("now")
        recs = w.sim.go()
        t = [r for r in recs if r[0] == "T"]
        w.absorb([r for r in recs if r[0] != "T"])
        return int(t[0][1]) // 1000

    def enter(self, w, i):
        nick, ident, host, ip, real, s = US[i]
        c = w.connect(s, "10.77.0.9", 6900)
        c.send("WEBIRC wpass cgi %s %s" % (host, ip), "NICK " + nick, "USER %s 0 * :%s" % (ident, real))
        w.run()
        ms = c.msgs()
        for m in ms:
            if m.cmd == "PING":
                c.send("PONG :" + m.params[-1])
                w.run()
                ms += c.msgs()
        if not any(m.cmd == "001" for m in ms):
            return None
        u = U()
        u.i, u.c, u.nick, u.host, u.real, u.ip, u.info, u.server = i, c, nick, host, host, ip, real, s
        u.user = ident
        u.modes, u.acc, u.away, u.texts, u.oper = set(), None, "", [], False
        u.sign = u.last = self.now(w)
        return u

    def fresh(self, u):
        v = U()
        v.__dict__.update(u.__dict__)
        v.modes = set(u.modes)
        return v

    def run(self, case):
        net = case["net"]
        if net == 3:
            return self.run_slow(case)
        w = self.world("net%d" % net, lambda: self.boot(net))
        with pbt.case_of(self, w):
            self.w, self.net, self.his = w, net, net == 1
            self.us = [self.fresh(u) for u in w.us]
            op = U()
            op.i, op.c, op.nick, op.user, op.host, op.real, op.ip, op.info, op.server = NU, w.op, "Op", "root", "10.250.0.1", "10.250.0.1", "10.250.0.1", "Operator", 0
            op.modes, op.acc, op.away, op.oper, op.sign, op.last = {"o", "w", "g", "s"}, None, "", True, None, None
            self.us.append(op)
            self.ch = {}
            self.cut = False
            self.halves = [0, 0]
            self.labels = set()
            self.hits = self.misses = self.nq = 0
            for o in case["ops"]:
                self.do(o)
            return {"nontrivial": self.hits >= 6 and self.misses > 0, "labels": sorted(self.labels), "checks": self.nq}

    def online(self):
        return [u for u in self.us if u is not None]

    def members(self, name):
        return self.ch[lower(name)].m if lower(name) in self.ch else {}

    def chan(self, name, now):
        k = lower(name)
        if k not in self.ch:
            self.ch[k] = C(now)
            self.ch[k].name = name
        return self.ch[k]

    def drop(self, k, i):
        c = self.ch[k]
        c.m.pop(i, None)
        if not c.m:
            del self.ch[k]

    def key(self, name, u):
        return lower(name) + ("@%d" % u.server if name[0] == "&" else "")

    def do(self, o):
        w, k = self.w, o[0]
        w.adv(1000)
        now = self.now(w)
        if k == "q":
            self.ask(self.us[o[1]], o[2], now)
            return
        if k == "adv":
            w.adv(o[1] * 1000)
            return
        if k == "split":
            if not self.cut:
                w.sim.cmd("cut 0 1")
                w.run()
                w.adv(1000)
                self.cut = True
                self.labels.add("split")
                self.drain()
            return
        if k == "heal":
            if self.cut:
                ircsim.link_servers(w, 0, 1)
                w.adv(2000)
                self.cut = False
                self.drain()
            return
        if k == "half":
            c = w.connect(o[1], "10.99.0.1", 6667)
            c.send("NICK half%d" % sum(self.halves))
            w.run()
            self.halves[o[1]] += 1
            self.labels.add("unfinished")
            return
        if self.cut:
            return          # the two sides stay as they are until they meet again
        u = self.us[o[1]]
        if k == "back":
            if u is None and not any(x is not None and same(x.nick, US[o[1]][0]) for x in self.us):
                self.us[o[1]] = self.enter(w, o[1])
                self.labels.add("back")
            return
        if u is None:
            return
        c = u.c
        if k == "join":
            kk = self.key(o[2], u)
            if kk in self.ch and u.i in self.ch[kk].m:
                return
            self.rawdo(u, "JOIN " + o[2])
            if kk not in self.ch:
                self.ch[kk] = C(now)
                self.ch[kk].name = o[2]
                self.ch[kk].m[u.i] = {"o"}
            else:
                self.ch[kk].m[u.i] = set()
            if not self.ch[kk].m[u.i] and u.i not in self.ch[kk].m:
                raise AssertionError
        elif k == "part":
            kk = self.key(o[2], u)
            if kk in self.ch and u.i in self.ch[kk].m:
                self.rawdo(u, "PART " + o[2])
                self.drop(kk, u.i)
        elif k == "topic":
            kk = self.key(o[2], u)
            ch = self.ch.get(kk)
            if ch and u.i in ch.m and ("o" in ch.m[u.i] or not ch.modes & {"t", "m"}):
                self.rawdo(u, "TOPIC %s :%s" % (o[2], o[3]))
                if o[3] != ch.topic:
                    pass
                ch.topic, ch.ttime = o[3], now
        elif k == "cmode":
            kk = self.key(o[2], u)
            ch = self.ch.get(kk)
            if ch and "o" in ch.m.get(u.i, ()):
                self.rawdo(u, "MODE %s %s" % (o[2], o[3]))
                m = o[3][1]
                if o[3][0] == "+":
                    ch.modes.add(m)
                    if m in "sp":
                        ch.modes.discard("p" if m == "s" else "s")
                else:
                    ch.modes.discard(m)
        elif k == "give":
            kk = self.key(o[2], u)
            ch, v = self.ch.get(kk), self.us[o[3]]
            if ch and v and "o" in ch.m.get(u.i, ()) and v.i in ch.m:
                self.rawdo(u, "MODE %s %s %s" % (o[2], o[4], v.nick))
                (ch.m[v.i].add if o[4][0] == "+" else ch.m[v.i].discard)(o[4][1])
        elif k == "nick":
            if any(x is not None and x is not u and same(x.nick, o[2]) for x in self.us):
                return
            for kk, ch in self.ch.items():
                if u.i in ch.m and "m" in ch.modes and not ch.m[u.i]:
                    return
            r = self.rawdo(u, "NICK " + o[2])
            if any(m.cmd in ("438", "437", "433") for m in r):
                return
            u.nick = o[2]
        elif k == "away":
            self.rawdo(u, "AWAY" + (" :" + o[2] if o[2] else ""))
            u.texts = (u.texts if u.away else []) + [o[2]]
            u.away = o[2]
        elif k == "umode":
            m = o[2][1]
            if m == "x" and o[2][0] == "-":
                return
            self.rawdo(u, "MODE %s %s" % (u.nick, o[2]))
            if o[2][0] == "+":
                u.modes.add(m)
            else:
                u.modes.discard(m)
            self.hide(u)
        elif k == "oper":
            if o[2] and not u.oper:
                r = self.rawdo(u, "OPER oper operpass")
                if not any(m.cmd == "381" for m in r):
                    raise ircsim.SimError("OPER failed: %r" % r)
                u.oper = True
                u.modes |= {"o", "w", "g", "s"}
                self.labels.add("oper")
            elif not o[2] and u.oper:
                self.rawdo(u, "MODE %s -o" % u.nick)
                u.oper = False
                u.modes -= {"o"}
                # what becomes of the modes that only operators may have is read back
                r = self.rawdo(u, "MODE %s" % u.nick)
                t = [m.params[1] for m in r if m.cmd == "221"]
                u.modes = (u.modes - set("wgs")) | (set(t[0]) & set("wgs") if t else set())
        elif k == "account":
            if u.acc is None:
                w.svc.account(u.nick, o[2])
                w.run()
                u.acc = o[2]
                self.hide(u)
        elif k == "msg":
            v = self.us[o[2]]
            if v is not None and v is not u:
                self.rawdo(u, "PRIVMSG %s :hi" % v.nick)
                u.last = now
        elif k == "quit":
            self.rawdo(u, "QUIT :bye")
            u.c.close()
            w.run()
            for kk in list(self.ch):
                if u.i in self.ch[kk].m:
                    self.drop(kk, u.i)
            self.us[u.i] = None
        w.run()
        self.drain()

    def drain(self):
        self.w.svc.pump()
        for u in self.online():
            self.see(u, u.c.msgs())
            if u.c.eof:
                raise Violation("%s lost the connection" % u.nick)

    def see(self, u, ms):
        pass

    def rawdo(self, u, line):
        self.w.svc.pump()
        u.c.msgs()
        u.c.send(line)
        self.w.run()
        self.w.svc.pump()
        self.w.run()
        return u.c.msgs()

    def hide(self, u):
        if "x" in u.modes and u.acc:
            u.host = "%s.users.undernet.org" % u.acc

    # ---- the model's answers
    def hidden(self, u):
        return "x" in u.modes and u.acc is not None

    def inreach(self, a, u):
        return not self.cut or a.server == u.server

    def world_users(self, a):
        """everybody a's server knows"""
        return [u for u in self.online() if self.inreach(a, u)]

    def shared(self, a, u):
        return [c for c in self.ch.values() if a.i in c.m and u.i in c.m]

    def chans(self, u):
        return [c for c in self.ch.values() if u.i in c.m]

    def size(self, a, c):
        return sum(1 for i in c.m if self.us[i] is not None and self.inreach(a, self.us[i]))

    def known(self, a, c):
        """is channel c known on a's server"""
        return self.size(a, c) > 0 and (c.name[0] != "&" or any(self.us[i].server == a.server for i in c.m))

    def pub(self, c):
        return not c.modes & {"s", "p"}

    def sees(self, a, c):
        return self.pub(c) or a.i in c.m

    def find_chan(self, a, name):
        c = self.ch.get(self.key(name, a))
        return c if c is not None and self.known(a, c) else None

    def find(self, a, nick):
        for u in self.world_users(a):
            if same(u.nick, nick):
                return u
        return None

    def crowd(self, a):
        return ["cr%03d" % n for n in range(230)] if self.net == 2 and (not self.cut or a.server == 0) else []

    # WHO
    def who_line(self, a, u, chan, f, qt, now):
        fields = f.lower() if f else None
        st = chan.m.get(u.i, set()) if chan else set()
        fl = "G" if u.away else "H"
        if u.oper:
            fl += "*"
        if chan:
            if fields:
                fl += ("@" if "o" in st else "") + ("+" if "v" in st else "")
            else:
                fl += "@" if "o" in st else "+" if "v" in st else ""
        if "d" in u.modes:
            fl += "d"
        if a.oper:
            for m in "iwg":
                if m in u.modes:
                    fl += m
        if self.hidden(u):
            fl += "x"
        his = self.his and not a.oper
        server = "*.undernet.org" if his else SERVERS[u.server]
        hops = ("0" if a is u else "3") if his else "0" if a.server == u.server else "1"
        cn = chan.name if chan else "*"
        if not fields:
            return [cn, u.user, u.host, server, u.nick, fl, hops + " " + u.info]
        out = []
        if "t" in fields:
            # up to three digits, else "0"
            q = ""
            for ch in qt[:3]:
                if ch.isdigit():
                    q += ch
                else:
                    break
            out.append(q or "0")
        if "c" in fields:
            out.append(cn)
        if "u" in fields:
            out.append(u.user)
        if "i" in fields:
            out.append("127.0.0.1" if self.hidden(u) and not a.oper else u.ip)
        if "h" in fields:
            out.append(u.host)
        if "s" in fields:
            out.append(server)
        if "n" in fields:
            out.append(u.nick)
        if "f" in fields:
            out.append(fl)
        if "d" in fields:
            out.append(hops)
        if "l" in fields:
            idle = "0"
            if u.server == a.server and (a.oper or not self.his or a is u) and ("I" not in u.modes or a is u or a.oper):
                idle = str(now - u.last) if u.last is not None else None
            out.append(idle)
        if "a" in fields:
            out.append(u.acc or "0")
        if "r" in fields:
            out.append(u.info)
        return out

    def ip_in(self, ip, mask):
        try:
            a = ipaddress.ip_address(ip)
            if "/" in mask or "*" not in mask:
                n = ipaddress.ip_network(mask, strict=False)
                return a.version == n.version and a in n
            p = mask.split(".")
            if p[-1] == "*" and all(x.isdigit() for x in p[:-1]) and a.version == 4:
                return ip.split(".")[:len(p) - 1] == p[:-1]
        except ValueError:
            pass
        return False

    def who(self, a, q, now):
        _, mask, flags, f, qt, three = q
        flags = flags.lower()
        match = set(flags) & set(MATCH) or set("nuhs")
        default = not set(flags) & set(MATCH)
        if self.his and not a.oper:
            match = match - {"s"}
        if not match:
            return          # nothing left to match: not said what a bare mask shows then
        extra = "x" in flags and a.oper
        operonly = "o" in flags
        want = {}         # nick -> list of acceptable channels (None: '*'), optional?
        users = self.world_users(a)
        bare = mask in ("*", "0", "")
        listed = []
        unlimited = a.oper
        counted = {}
        if not bare and ("," in mask or "n" in match):
            for x in mask.split(","):
                if not x:
                    continue
                c = self.find_chan(a, x) if x[0] in "#&" else None
                if c is not None:
                    there = a.i in c.m
                    if there or "s" not in c.modes or extra:
                        for i in c.m:
                            u = self.us[i]
                            if u is None or not self.inreach(a, u) or (operonly and not u.oper):
                                continue
                            if not there and u is not a and "i" in u.modes and not extra:
                                continue
                            if u.nick not in want:
                                want[u.nick] = (u, [c], False)
                                counted[u.nick] = not there
                elif x[0] in "#&" and lower(x) == "#crowd" and self.crowd(a):
                    if not operonly:
                        for n in self.crowd(a):
                            want.setdefault(n, (None, None, False))
                            counted.setdefault(n, True)
                else:
                    u = self.find(a, x)
                    if u is not None and (not operonly or u.oper) and u.nick not in want:
                        want[u.nick] = (u, [c for c in self.chans(u) if self.pub(c) and (c.name[0] != "&" or a.server == u.server)] or [None], False)
                        counted[u.nick] = True
                    if u is None and lower(x) in self.crowd(a) and not operonly:
                        want.setdefault(lower(x), (None, None, False))
                        counted.setdefault(lower(x), True)
        if "," not in mask:
            for u in users:
                if operonly and not u.oper:
                    continue
                sh = self.shared(a, u)
                if not (sh or u is a or "i" not in u.modes or extra):
                    continue
                ok = opt = bare
                if not bare:
                    fs = [("n", u.nick), ("u", u.user), ("h", u.host), ("s", SERVERS[u.server]), ("r", u.info), ("a", u.acc or "")]
                    if a.oper and self.hidden(u):
                        fs.append(("h", u.real))
                    ok = any(k in match and glob(mask, v) for k, v in fs)
                    if "a" in match and not u.acc and not glob(mask, ""):
                        pass
                    if "i" in match and (a.oper or not self.hidden(u)) and self.ip_in(u.ip, mask):
                        ok = True
                    elif "i" in match and (a.oper or not self.hidden(u)) and glob(mask, u.ip):
                        opt = True      # general wildcards in addresses are documented, but only some forms are understood
                    if not ok and default and glob(mask, u.info):
                        opt = True      # the documentation has real names among the default fields, the code has not
                if (ok or opt) and u.nick not in want:
                    want[u.nick] = (u, sh or [c for c in self.chans(u) if self.pub(c) and (c.name[0] != "&" or a.server == u.server)] or [None], not ok)
                    counted[u.nick] = True
            if not operonly:
                for n, nick in enumerate(self.crowd(a)):
                    fs = [("n", nick), ("u", "cr"), ("h", "c%03d.crowd" % n), ("s", "services.test.net"), ("r", "crowd"), ("a", "")]
                    ok = bare or any(k in match and glob(mask, v) for k, v in fs) or ("i" in match and self.ip_in("10.44.0.%d" % (n % 250), mask))
                    opt = default and glob(mask, "crowd") or "i" in match and glob(mask, "10.44.0.%d" % (n % 250))
                    if (ok or opt) and nick not in want:
                        want[nick] = (None, None, not ok)
                        counted[nick] = True
        nf = len(f) if f else 7
        limit = 10 ** 9 if unlimited else 2048 // (nf + 4)
        line = "WHO %s" % mask
        opts = flags + ("%" + f if f else "") + ("," + qt if qt else "")
        if three or " " in mask:
            line = "WHO foo %s :%s" % (opts or "%", mask) if opts else "WHO :%s" % mask
        elif opts:
            line += " " + opts
        r = self.rawdo(a, line)
        end = [m for m in r if m.cmd == "315"]
        rep = [m for m in r if m.cmd in ("352", "354")]
        toolong = any(m.cmd == "416" for m in r)
        if len(end) != 1 or r[-1].cmd not in ("315",):
            raise Violation("%s by %s: no single end of the reply: %r" % (line, a.nick, r[-4:]))
        if any(m.cmd != ("354" if f else "352") for m in rep):
            raise Violation("%s by %s: wrong kind of reply: %r" % (line, a.nick, rep[:3]))
        got = {}
        order = [c for c in "tcuihsnfdlaor" if f and c in f.lower()] if f else list("cuhsnfd")
        pos = order.index("n")
        for m in rep:
            n = m.params[1 + pos]
            if n in got:
                raise Violation("%s by %s: %s is shown twice: %r" % (line, a.nick, n, [x.raw for x in rep][:20]))
            got[n] = m.params[1:]
        ncount = sum(1 for n in got if counted.get(n, True))
        self.hits += bool(got)
        self.misses += len(got) < len(users)
        for n, v in got.items():
            if n not in want:
                raise Violation("%s by %s (%s): %s should not be shown (%s); shown %r" % (line, a.nick, "operator" if a.oper else "user", n, self.about(a, n), v))
            u, cs, _ = want[n]
            if u is None:
                continue
            okl = [self.who_line(a, u, c, f, qt, now) for c in cs]
            if not any(len(x) == len(v) and all(p is None or p == y or (p.isdigit() and order[j:j + 1] == ["l"] and y.isdigit() and abs(int(p) - int(y)) <= 1) for j, (p, y) in enumerate(zip(x, v))) for x in okl):
                raise Violation("%s by %s (%s): %s is shown as %r, expected %r" % (line, a.nick, "operator" if a.oper else "user", n, v, okl))
        missing = [n for n, (u, cs, opt) in want.items() if n not in got and not opt]
        must = sum(1 for n, (u, cs, opt) in want.items() if not opt and counted[n])
        may = sum(1 for n in want if counted[n])
        if ncount > limit:
            raise Violation("%s by %s: %d lines for %d fields, at most %d are promised" % (line, a.nick, ncount, nf, limit))
        if toolong:
            self.labels.add("too long")
            if may <= limit:
                raise Violation("%s by %s: cut short although only %d users match (limit %d)" % (line, a.nick, may, limit))
            if ncount != limit:
                raise Violation("%s by %s: cut short after %d lines, the limit is %d" % (line, a.nick, ncount, limit))
        elif missing:
            raise Violation("%s by %s (%s): %s is missing (%s)" % (line, a.nick, "operator" if a.oper else "user", missing[0], self.about(a, missing[0])))
        if f:
            self.labels.add("who fields")
        if "," in mask:
            self.labels.add("who list")

    def about(self, a, nick):
        for u in self.online():
            if u.nick == nick:
                return "modes %s, account %s, host %s (%s), real name %r, in %r; shares %r with %s" % (
                    "".join(sorted(u.modes)), u.acc, u.host, u.ip, u.info, [(c.name, "".join(sorted(c.modes)), "".join(sorted(c.m[u.i]))) for c in self.chans(u)], [c.name for c in self.shared(a, u)], a.nick)
        return "unknown"

    # WHOIS
    def whois_lines(self, a, u, remote, now):
        out = {"311": ["%s %s %s * %s" % (u.nick, u.user, u.host, u.info)]}
        cs = []
        for c in self.chans(u):
            if not self.sees(a, c):
                if not (a.oper and c.name[0] == "&" and (a.server == u.server or remote)):
                    continue
            if c.name[0] == "&" and a is not u and self.his and not a.oper and not remote:
                continue
            if c.name[0] == "&" and a.server != u.server and not remote:
                continue
            st = c.m[u.i]
            cs.append(("-" if "d" in u.modes else "") + ("" if self.sees(a, c) else "*") + ("@" if "o" in st else "+" if "v" in st else "") + c.name)
        his = self.his and not a.oper and a is not u
        out["319"] = sorted(cs)
        out["312"] = ["%s %s %s" % (u.nick, "*.undernet.org" if his else SERVERS[u.server], "The Undernet Underworld" if his else "Server %d" % u.server)]
        if u.away:
            out["301"] = ["%s %s" % (u.nick, u.away)]
        if u.oper:
            out["313"] = ["%s is an IRC Operator" % u.nick]
        if u.acc:
            out["330"] = ["%s %s is logged in as" % (u.nick, u.acc)]
        if self.hidden(u) and (a.oper or a is u):
            out["338"] = ["%s %s@%s %s Actual user@host, Actual IP" % (u.nick, u.user, u.real, u.ip)]
        if (u.server == a.server or remote) and (not self.his or a is u or a.oper or remote) and ("I" not in u.modes or a is u or a.oper):
            out["317"] = [(now - u.last, u.sign)] if u.last is not None else None
        return out

    def whois(self, a, q, now):
        _, names, remote = q
        users = self.world_users(a)
        want, errs, tot, wilds, toolong = [], [], 0, 0, False
        for x in names:
            y = x
            while "**" in y:
                y = y.replace("**", "*")
            if "*" in y or "?" in y:
                wilds += 1
                if remote and wilds:
                    return
                hit = []
                for u in users:
                    if not glob(y, u.nick):
                        continue
                    inv = u is not a and "i" in u.modes
                    cs = [c for c in self.chans(u) if c.name[0] != "&" or a.server == u.server]
                    if (not inv and not cs) or self.shared(a, u) or (not inv and any("s" not in c.modes for c in cs)):
                        hit.append(u)
                if any(glob(y, n) for n in self.crowd(a)):
                    return
                if wilds > 3:
                    return
            else:
                u = self.find(a, y)
                hit = [u] if u is not None else []
                if lower(y) in self.crowd(a):
                    return
            want += hit
            if not hit:
                errs.append(y)
        line = "WHOIS %s%s" % ((names[0] + " ") if remote else "", ",".join(names))
        rem = False
        if remote:
            t = self.find(a, names[0])
            if t is None:
                return
            rem = True
        r = self.rawdo(a, line)
        got, cur = [], None
        r = [m for m in r if m.cmd in ("311", "319", "312", "301", "313", "330", "338", "317", "320", "671", "401", "318", "402", "416")]
        if not r or r[-1].cmd != "318" or sum(m.cmd == "318" for m in r) != 1:
            raise Violation("%s by %s: no single end of the reply: %r" % (line, a.nick, r))
        for m in r[:-1]:
            if m.cmd == "401":
                if m.params[1] in errs:
                    errs.remove(m.params[1])
                else:
                    raise Violation("%s by %s: says no such nick %s" % (line, a.nick, m.params[1]))
                continue
            if m.cmd == "311":
                cur = {}
                got.append((m.params[1], cur))
            if cur is None or m.params[1] != got[-1][0]:
                raise Violation("%s by %s: reply %r out of place" % (line, a.nick, m.raw))
            cur.setdefault(m.cmd, []).append(" ".join(m.params[1:]))
        if errs:
            raise Violation("%s by %s: nothing said about %r: %r" % (line, a.nick, errs, r))
        if sorted(n for n, _ in got) != sorted(u.nick for u in want):
            raise Violation("%s by %s (%s): shows %r, expected %r; %s" % (line, a.nick, "operator" if a.oper else "user", sorted(n for n, _ in got), sorted(u.nick for u in want),
                                                                            "; ".join(self.about(a, x) for x in {n for n, _ in got} ^ {u.nick for u in want})))
        self.hits += bool(got)
        self.misses += len(got) < len(users)
        for n, d in got:
            u = [u for u in want if u.nick == n][0]
            exp = self.whois_lines(a, u, rem, now)
            d.pop("320", None)
            d["319"] = sorted(x for y in d.get("319", []) for x in y.split(" ")[1:] if x)
            if "317" in d:
                p = d["317"][0].split(" ")
                d["317"] = [(int(p[1]), int(p[2]))]
            for k in sorted(set(d) | set(exp)):
                x, y = d.get(k), exp.get(k, [])
                if y is None:
                    continue
                if k == "317" and x and y:
                    if abs(x[0][0] - y[0][0]) <= 1 and abs(x[0][1] - y[0][1]) <= 2:
                        continue
                if k == "301" and x and y and not rem and a.server != u.server and x[0].split(" ", 1)[1] in u.texts:
                    continue        # a new text given while away is not passed on
                if (x or []) != y:
                    raise Violation("%s by %s (%s): numeric %s for %s is %r, expected %r; %s" % (line, a.nick, "operator" if a.oper else "user", k, n, x, y, self.about(a, n)))
        self.labels.add("whois remote" if rem else "whois")

    # USERHOST, USERIP
    def userhost(self, a, q):
        _, cmd, names = q
        r = self.rawdo(a, "%s %s" % (cmd, " ".join(names)))
        rep = [m for m in r if m.cmd == ("302" if cmd == "USERHOST" else "340")]
        if len(rep) != 1:
            raise Violation("%s by %s: %r" % (cmd, a.nick, r))
        want = []
        for n in names[:5]:
            u = self.find(a, n)
            if u is None:
                continue
            if cmd == "USERHOST":
                h = u.real if u is a else u.host
            else:
                h = "127.0.0.1" if self.hidden(u) and u is not a else u.ip
            want.append("%s%s=%s%s@%s" % (u.nick, "*" if u.oper else "", "-" if u.away else "+", u.user, h))
        self.hits += bool(want)
        if rep[0].params[-1].split() != want:
            raise Violation("%s %s by %s (%s): %r, expected %r" % (cmd, names, a.nick, "operator" if a.oper else "user", rep[0].params[-1], want))
        self.labels.add(cmd)

    def ison(self, a, q):
        _, names, colon = q
        r = self.rawdo(a, "ISON %s%s" % (":" if colon else "", " ".join(names)))
        rep = [m for m in r if m.cmd == "303"]
        if len(rep) != 1:
            raise Violation("ISON by %s: %r" % (a.nick, r))
        want = [self.find(a, n).nick for n in names if self.find(a, n)]
        if rep[0].params[-1].split() != want:
            raise Violation("ISON %s by %s: %r, expected %r" % (names, a.nick, rep[0].params[-1], want))

    # LIST
    def list(self, a, q, now):
        _, args, ps = q
        lim = []
        pat = None
        names = None
        for p in ps:
            if p[0] in "#&" and "*" not in p and "?" not in p:
                names = ps
                break
            k = p.upper()
            if k[0] in "CT<>":
                kind = k[0] if k[0] in "CT" else "U"
                d, v = (k[1], int(k[2:])) if kind != "U" else (k[0], int(k[1:]))
                lim = [x for x in lim if x[:2] != (kind, d)]       # the last one counts
                lim.append((kind, d, v))
            else:
                pat = p
        want = {}
        edge = set()
        cs = [c for c in self.ch.values() if self.known(a, c)]
        for c in cs:
            if not self.sees(a, c):
                if not (names is not None and a.oper):
                    continue
            n = self.size(a, c)
            if names is not None:
                if any(same(x, c.name) for x in names):
                    want[c.name] = (n, c.topic)
                continue
            ok = True
            if pat is not None:
                neg = pat[0] == "!"
                if glob(pat.lstrip("!"), c.name) == neg:
                    continue
            for kind, d, v in lim:
                if kind == "U":
                    if not (n < v if d == "<" else n > v):
                        ok = False
                else:
                    if kind == "T" and not c.topic:
                        ok = False
                        continue
                    age = now - (c.made if kind == "C" else c.ttime)
                    if abs(age - v * 60) <= 3:
                        edge.add(c.name)
                    elif not (age < v * 60 if d == "<" else age > v * 60):
                        ok = False
            if ok:
                want[c.name] = (n, c.topic)
        if any(kind == "T" for kind, d, v in lim):
            pass
        if self.net == 2:
            edge.add("#crowd")
        line = "LIST" + "".join(" " + x for x in args)
        r = self.rawdo(a, line)
        if any(m.cmd == "334" for m in r):
            raise Violation("%s by %s is answered with the usage: %r" % (line, a.nick, r[:2]))
        if not r or r[0].cmd != "321" or r[-1].cmd != "323":
            raise Violation("%s by %s: %r" % (line, a.nick, r))
        got = {}
        for m in r[1:-1]:
            if m.cmd != "322" or m.params[1] in got:
                raise Violation("%s by %s: unexpected or repeated %r" % (line, a.nick, m.raw))
            got[m.params[1]] = (int(m.params[2]), m.params[3])
        # impossible user limits give an empty list at once
        for n in set(got) | set(want):
            if n in edge:
                continue
            if n not in got:
                raise Violation("%s by %s: %s is missing (%d users, made %d s ago, topic %r set %d s ago)" % (line, a.nick, n, want[n][0], now - self.cc(a, n).made, want[n][1], now - self.cc(a, n).ttime))
            if n not in want:
                c = self.cc(a, n)
                raise Violation("%s by %s: %s should not be listed%s" % (line, a.nick, n, " (%d users, made %d s ago, topic %r set %d s ago, modes %s)" % (
                    self.size(a, c), now - c.made, c.topic, now - c.ttime, "".join(sorted(c.modes))) if c else ""))
            if got[n] != want[n]:
                raise Violation("%s by %s: %s is listed with %r, expected %r" % (line, a.nick, n, got[n], want[n]))
        self.hits += bool(got)
        self.misses += len(got) < len(cs)
        if len(lim) > 1:
            self.labels.add("list limits")
        self.labels.add("list")

    def cc(self, a, name):
        return self.ch.get(self.key(name, a))

    def lusers(self, a):
        r = {m.cmd: m for m in self.rawdo(a, "LUSERS") if m.cmd.isdigit()}
        us = self.world_users(a)
        crowd = 230 if self.net == 2 and (not self.cut or a.server == 0) else 0
        unk = self.halves[a.server]
        inv = sum(1 for u in us if "i" in u.modes)
        t = [int(x) for x in r["251"].params[1].split() if x.isdigit()]
        nsrv = (2 if a.server == 0 else 1) if self.cut else 3
        n = len(us) + crowd
        if t[1] != inv or t[0] not in (n - inv, n - inv + unk) or t[2] != nsrv:
            raise Violation("LUSERS for %s: %r, expected %d users and %d invisible on %d servers" % (a.nick, r["251"].params[1], n - inv, inv, nsrv))
        ops = sum(1 for u in us if u.oper)
        self.count(a, r, "252", ops)
        self.count(a, r, "253", unk)
        self.count(a, r, "254", sum(1 for c in self.ch.values() if self.known(a, c)) + (crowd > 0))
        t = [int(x) for x in r["255"].params[1].split() if x.isdigit()]
        loc = [sum(1 for u in us if u.server == a.server), (a.server == 0) + (not self.cut)]
        if t != loc:
            raise Violation("LUSERS for %s: %r, expected %d clients and %d servers" % (a.nick, r["255"].params[1], loc[0], loc[1]))
        self.labels.add("lusers")

    def count(self, a, r, num, n):
        got = int(r[num].params[1]) if num in r else 0
        if got != n:
            raise Violation("LUSERS for %s: numeric %s says %d, expected %d" % (a.nick, num, got, n))

    def names(self, a, name):
        r = self.rawdo(a, "NAMES " + name)
        got = sorted(x for m in r if m.cmd == "353" for x in m.params[-1].split())
        c = self.find_chan(a, name)
        want = []
        if c is not None and self.sees(a, c):
            for i, st in c.m.items():
                u = self.us[i]
                if u is not None and self.inreach(a, u) and (a.i in c.m or "i" not in u.modes):
                    want.append(("@" if "o" in st else "+" if "v" in st else "") + u.nick)
        if got != sorted(want):
            raise Violation("NAMES %s by %s: %r, expected %r" % (name, a.nick, got, sorted(want)))

    def ask(self, a, q, now):
        if a is None:
            return
        self.nq += 1
        self.drain()
        if q[0] == "who":
            self.who(a, q, now)
        elif q[0] == "whois":
            self.whois(a, q, now)
        elif q[0] == "userhost":
            self.userhost(a, q)
        elif q[0] == "ison":
            self.ison(a, q)
        elif q[0] == "list":
            self.list(a, q, now)
        elif q[0] == "lusers":
            self.lusers(a)
        else:
            self.names(a, q[1])

    def simplify(self, op):
        if op[0] != "q":
            return
        q = op[2]
        if q[0] == "list" and len(q[2]) > 1:
            for j in range(len(q[2])):
                p = q[2][:j] + q[2][j + 1:]
                yield ["q", op[1], ["list", [",".join(p)], p]]
        if q[0] == "who":
            _, m, fl, f, qt, t = q
            for j in range(len(fl)):
                yield ["q", op[1], ["who", m, fl[:j] + fl[j + 1:], f, qt, t]]
            if f:
                yield ["q", op[1], ["who", m, fl, None, "", t]]
                for j in range(len(f)):
                    if f[j].lower() != "n":
                        yield ["q", op[1], ["who", m, fl, f[:j] + f[j + 1:], qt, t]]
        if q[0] in ("whois", "userhost", "ison"):
            k = 1 if q[0] != "userhost" else 2
            for j in range(len(q[k])):
                if len(q[k]) > 1:
                    yield ["q", op[1], q[:k] + [q[k][:j] + q[k][j + 1:]] + q[k + 1:]]
