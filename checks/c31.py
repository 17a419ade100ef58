"""Who may link to the network and what everyone knows of its shape."""
import fnmatch
import ircsim, pbt, p10
from pbt import Violation

PROP = {
    "id": "C31",
    "title": "Only servers the configuration allows become part of the network, no two share a name or numeric, and everyone knows the same network",
    "statement": "A connection becomes a server link exactly if a Connect block exists for its name and address, its password is right, no connection rule forbids it and its numeric is nobody else's; a server that is already linked is replaced by a younger link of its own name and not by an older one. "
                 "A linked server may introduce other servers only as far as its Connect block lets it act as a hub, by name and by number of hops; otherwise the introduction is refused with the link it came over or the server that made it. "
                 "At every moment LINKS shows exactly the servers that are linked, each with its uplink and distance, every linked server was told of exactly those behind its link, and when a link ends all servers and users behind it are gone for everyone.",
    "quantifier": {"over": ["histories", "inputs", "configurations"],
                   "text": "histories of links, introductions of servers and users, SQUITs from every direction and lost connections among five names in Connect blocks with and without hub rights, right and wrong names, addresses, passwords, numerics, timestamps and connection rules"},
    "why_tests_cant": "Whether a link is allowed depends on every server linked so far and on the order in which they came and went; tests link one or two servers that are always allowed.",
    "anchors": {
        "files": ["ircd/m_server.c", "ircd/s_serv.c", "ircd/s_misc.c", "ircd/m_squit.c", "ircd/numnicks.c", "ircd/crule.c", "ircd/s_conf.c", "ircd/m_links.c"],
        "mechanism": [{"name": "admission", "where": "ircd/m_server.c mr_server(), ircd/s_conf.c conf_check_server(), ircd/crule.c"},
                      {"name": "hub rights and loops", "where": "ircd/m_server.c check_loop_and_lh(), ms_server()"},
                      {"name": "introduction to the others", "where": "ircd/s_serv.c server_estab(), ircd/m_server.c ms_server()"},
                      {"name": "departure", "where": "ircd/s_misc.c exit_client(), exit_downlinks(), ircd/m_squit.c"}],
        "observe_at": ["LINKS and NAMES at an operator", "S, SQ, N and Q at every linked server"],
    },
}
TECHNIQUE = "model-based random testing: histories of played servers linking, introducing, breaking links; LINKS, NAMES and every played server's own picture of the network compared with a model; under AddressSanitizer without free lists"

ME = "hub.test.net"
#          name              ip          password hub mask    max hops
BLOCKS = [("peer3.test.net", "10.9.0.3", "p3", None, 0),
          ("peer4.test.net", "10.9.0.4", "p4", "*", 2),
          ("peer4.test.net", "10.9.0.5", "p5", None, 0),
          ("peer5.test.net", "10.9.0.6", "p6", "*.sub.net", 65535),
          ("*.wild.net", "10.9.0.7", "p7", "*", 65535),
          ("peer6.test.net", "10.9.0.8", "p8", "*", 65535)]
NAMES = ["peer3.test.net", "peer4.test.net", "peer5.test.net", "x.wild.net", "peer6.test.net", "peer6.test.net", "nobody.test.net", "a1.sub.net"]
IPS = ["10.9.0.%d" % i for i in range(3, 9)]
PWS = ["p%d" % i for i in range(3, 9)]
GOOD = [(0, 0), (1, 1), (1, 2), (2, 3), (3, 4), (4, 5), (4, 5)]
DOWN = ["a1.sub.net", "a2.sub.net", "a3.sub.net", "b1.oth.net", "b2.oth.net", "b3.oth.net"]
RULES = [None, ("peer3.test.net", "connected(a*.sub.net)", "lambda m: m.any('a*.sub.net')"),
         ("peer4.*", "directcon(peer5.test.net) && !connected(b1.oth.net)", "lambda m: m.direct('peer5.test.net') and not m.any('b1.oth.net')"),
         ("*.wild.net", "via(peer6.test.net, *.oth.net) || directcon(peer3*)", "lambda m: m.via('peer6.test.net', '*.oth.net') or m.direct('peer3*')"),
         ("peer6.test.net", "!(directcon(*) || connected(a2.sub.net))", "lambda m: not m.any('*')")]
CHAN = "#c"


class Srv:
    pass


class Net:
    """The servers that are linked."""

    def __init__(self):
        self.s = {}

    def any(self, mask):
        return any(fnmatch.fnmatch(n, mask) for n in self.s)

    def direct(self, mask):
        return any(fnmatch.fnmatch(n, mask) for n, s in self.s.items() if s.up == ME)

    def via(self, a, b):
        return any(fnmatch.fnmatch(n, b) and fnmatch.fnmatch(self.link(n).name, a) for n in self.s)

    def link(self, n):
        s = self.s[n]
        while s.up != ME:
            s = self.s[s.up]
        return s

    def below(self, n):
        out = [n]
        for x in out:
            out += [k for k, s in self.s.items() if s.up == x]
        return out


class CHECK(pbt.Check):
    RULE = "a link and an introduction were refused, a linked server with others behind it left, and three servers were linked at once"
    QUICK, THOROUGH = 5000, 200000
    VARIANT = "asan"

    def gen(self, rng, i, tier):
        ops = []
        for _ in range(rng.randint(8, 45)):
            r = rng.random()
            if r < .36:
                n, k = rng.choice(GOOD) if rng.random() < .8 else (rng.randrange(len(NAMES)), rng.randrange(len(IPS)))
                ops.append(["link", n, k, k if rng.random() < .93 else rng.randrange(len(PWS)), rng.randrange(60, 67) if rng.random() < .5 else 60 + n, rng.choice([0, 0, 0, 0, -500]), rng.choice(["J10", "J10", "J10", "J10", "P10", "J08", "X10"])])
            elif r < .42:
                n = rng.choice([0, 1, 2, 4, 4, 6])
                ops.append(["out", n, None if rng.random() < .9 else rng.randrange(len(NAMES)), None if rng.random() < .9 else rng.randrange(len(PWS)), rng.randrange(60, 67) if rng.random() < .5 else 60 + n, rng.choice(["J10", "J10", "J10", "P10", "J08"])])
            elif r < .70:
                d = rng.randrange(len(DOWN))
                ops.append(["intro", rng.randrange(40), d, 70 + d if rng.random() < .85 else rng.choice([1, 70, 72, 60, 61, 62, 63, 64])])
            elif r < .80:
                ops.append(["squit", rng.randrange(40), rng.choice(["peer", "oper", "other", "self"])])
            elif r < .88:
                ops.append(["close", rng.randrange(40)])
            elif r < .93:
                ops.append(["user", rng.randrange(40)])
            else:
                ops.append(["adv", rng.choice([1, 5, 25])])
        return {"rule": rng.choice([None, None, 1, 2, 3, 4]), "ops": ops}

    def boot(self, rule):
        cn = "".join('Connect { name = "%s"; host = "%s"; port = 4400; password = "%s"; class = "Server"; autoconnect = no; %s };\n' % (
            n, ip, pw, "" if hub is None else ("hub; " if hub == "*" else 'hub = "%s"; ' % hub) + ("maxhops = %d; " % mh if mh != 65535 else "")) for n, ip, pw, hub, mh in BLOCKS)
        if rule:
            cn += 'CRULE { server = "%s"; rule = "%s"; all = yes; };\n' % RULES[rule][:2]
        w = ircsim.boot_network(1, self.VARIANT, features={"NICKDELAY": None, "PINGFREQUENCY": "60000"}, extra=cn, pingfreq=60000)
        w.obs = w.client("Obs", 0, ip="10.250.0.1", user="obs")
        w.obs.do("OPER oper operpass")
        w.obs.do("JOIN " + CHAN)
        w.adv(120000)
        w.obs.lines()
        return w

    def run(self, case):
        w = self.world(case["rule"] or 0, lambda: self.boot(case["rule"]))
        with pbt.case_of(self, w):
            self.w, self.obs = w, w.obs
            self.rule = RULES[case["rule"]] if case["rule"] else None
            self.net = Net()
            self.seen = set()
            self.seq = 0
            for ip in IPS:
                w.sim.cmd("listen %s 4400" % ip)
            for n, op in enumerate(case["ops"]):
                self.op = "op %d %r" % (n, op)
                w.adv(2000)
                getattr(self, "do_" + op[0])(*op[1:])
                w.run()
                self.compare()
            return {"nontrivial": {"refused link", "refused server", "subtree gone", "three"} <= self.seen, "labels": sorted(self.seen)}

    def fail(self, text, *a):
        raise Violation("%s: %s" % (self.op, text % a))

    # -- operations
    def do_adv(self, s):
        self.w.adv(s * 1000)

    def do_link(self, n, k, pw, num, dts, prot):
        name, ip, net = NAMES[n], IPS[k], self.net
        c = self.w.connect(0, ip, 4400)
        self.w.run()
        self.introduce(c, name, ip, pw, num, dts, prot)

    def do_out(self, n, other, pw, num, prot):
        """The operator makes the server connect; the other side answers."""
        name, net = NAMES[n], self.net
        may = any(b[0] == name for b in BLOCKS) and name not in net.s and not self.forbidden(name)
        self.w.take_events("C")
        self.obs.do("CONNECT %s 4400" % name)
        ev = self.w.take_events("C")
        if bool(ev) != may:
            self.fail("CONNECT %s: %r; linked %s", name, ev, sorted(net.s))
        if not ev:
            self.seen.add("no connect")
            return
        c = self.w.conns.get(int(ev[0][4]))
        if c is None:
            c = self.w.conns[int(ev[0][4])] = ircsim.Conn(self.w, int(ev[0][4]), None)
        self.introduce(c, NAMES[other] if other is not None else name, ev[0][2], pw if pw is not None else IPS.index(ev[0][2]), num, 0, prot, True)

    def forbidden(self, name):
        return self.rule and fnmatch.fnmatch(name, self.rule[0]) and eval(self.rule[2])(self.net)

    def introduce(self, c, name, ip, pw, num, dts, prot, out=False):
        net = self.net
        self.w.sim.cmd("now")
        recs = self.w.sim.go()
        now = int([r for r in recs if r[0] == "T"][0][1]) // 1000
        self.w.absorb([r for r in recs if r[0] != "T"])
        num2 = p10.b64(num, 2)
        ts = now + dts
        if out:      # the side that was connected to takes over the link's timestamp
            ts = int([l for l in c.lines() if l.startswith("SERVER ")][0].split(" ")[4])
            c.buf = b"SERVER %s 1 0 0 J10 ABAD] :x\n" % ME.encode()
        c.send("PASS :" + PWS[pw], "SERVER %s 1 %d %d %s %s]]] +s6 :%s" % (name, now - 100, ts, prot, num2, name))
        self.w.run()
        block = [b for b in BLOCKS if fnmatch.fnmatch(name, b[0]) and b[1] == ip]
        why = None
        if not block:
            why = "no Connect block"
        elif block[0][2] != PWS[pw]:
            why = "password"
        elif prot[0] not in "JP" or prot == "J08":
            why = "protocol"
        elif self.forbidden(name):
            why = "rule"
        elif name not in net.s and any(s.num == num2 for s in net.s.values()):
            why = "numeric"
        gone = []
        if why is None and name in net.s:
            old = net.s[name]
            path, x = [], name
            while x != ME:
                path.append(net.s[x])
                x = net.s[x].up
            if ts > max(s.ts for s in path):
                gone = net.below(name)
                if any(s.num == num2 for m, s in net.s.items() if m not in gone):
                    why = "numeric"
            elif len(path) == 1 and ts < old.ts:
                why = "older"
            else:
                gone = None
        up = not c.eof
        if gone is None:
            # which one stays is not said, but one does and all agree
            self.seen.add("loop")
            links = self.links()
            for m in [m for m in net.s if m not in links]:
                self.depart(m)
            if up and name in net.s:
                self.fail("%s is linked twice: %r", name, links)
        else:
            if up != (why is None):
                self.fail("%s from %s with password %s, numeric %s and protocol %s was %s: %s; linked %s", name, ip, PWS[pw], num, prot, "refused" if why is None else "linked", why or c.lines(), sorted(net.s))
            if gone:
                self.seen.add("replaced")
                self.depart(name)
        if not up:
            self.seen.add("refused link")
            self.seen.add("refused: %s" % why)
            return
        self.seen.add("link out" if out else "link")
        s = net.s[name] = Srv()
        s.name, s.up, s.num, s.hop, s.c, s.block, s.users = name, ME, num2, 1, c, block[0], {}
        s.ts = ts if out else now   # the server takes the time for that of a link from one that started later
        s.know, s.knowu, s.mine = {}, {}, set()
        c.send("%s EB" % num2)
        self.w.run()
        c.send("%s EA" % num2)
        self.w.run()

    def pick(self, i, direct=False):
        l = sorted(n for n, s in self.net.s.items() if not direct or s.up == ME)
        return self.net.s[l[i % len(l)]] if l else None

    def do_intro(self, i, d, num):
        up, name, net = self.pick(i), DOWN[d], self.net
        if not up or name in net.s:
            return
        link = net.link(up.name)
        num2 = p10.b64(num, 2)
        hop = up.hop + 1
        now = link.ts + 5
        link.mine.add(name)
        link.c.send("%s S %s %d 0 %d P10 %s]]] +s :%s" % (up.num, name, hop, now, num2, name))
        self.w.run()
        b = link.block
        if num == 1 or any(s.num == num2 for s in net.s.values()):
            self.seen.add("refused server")
            self.seen.add("refused server: numeric")
            if not link.c.eof:
                self.fail("%s introduced %s with the numeric of another and is still linked", link.name, name)
            self.depart(link.name)
            return
        if hop > b[4] or b[3] is None or not fnmatch.fnmatch(name, b[3]):
            self.seen.add("refused server")
            if (up is link) != link.c.eof:
                self.fail("%s introduced %s, which %s may not hub for (distance %d): the link is %s", up.name, name, link.name, hop, "closed" if link.c.eof else "open")
            self.depart(up.name)
            return
        if link.c.eof:
            self.fail("%s introduced %s, which it may: %r", up.name, name, link.c.lines())
        self.seen.add("server")
        s = net.s[name] = Srv()
        s.name, s.up, s.num, s.ts, s.hop, s.users = name, up.name, num2, now, hop, {}

    def do_user(self, i):
        s = self.pick(i)
        if not s:
            return
        self.seq += 1
        nick, nn = "u%d" % self.seq, s.num + p10.b64(self.seq, 3)
        c = self.net.link(s.name).c
        c.send("%s N %s 1 %d u h.test DAqAoB %s :u" % (s.num, nick, 1700000100 + self.seq, nn), "%s J %s" % (nn, CHAN))
        s.users[nick] = nn
        self.w.run()

    def do_squit(self, i, who):
        s = self.pick(i)
        if not s:
            return
        link = self.net.link(s.name)
        if who == "oper":
            self.obs.send("SQUIT %s :bye" % s.name)
        elif who == "peer":
            if s is link:
                link.c.send("%s SQ %s 0 :bye" % (s.num, ME))
            else:
                link.c.send("%s SQ %s %d :bye" % (self.net.s[s.up].num, s.name, s.ts))
        elif who == "other":
            o = self.pick(i // 3, True)
            if o is link:
                return
            o.c.send("%s SQ %s %d :bye" % (o.num, s.name, s.ts))
            self.forget(o, s.name)
        else:
            if s is link:
                return
            link.c.send("%s SQ %s %d :bye" % (s.num, s.name, s.ts))
        self.w.run()
        self.depart(s.name)

    def do_close(self, i):
        s = self.pick(i, True)
        if s:
            s.c.close()
            self.w.run()
            s.c.eof = True
            self.depart(s.name)

    def depart(self, name):
        all_ = self.net.below(name)
        if len(all_) > 1:
            self.seen.add("subtree gone")
        for n in all_:
            s = self.net.s.pop(n)
            if s.up == ME and not s.c.eof:
                self.fail("%s is not part of the network any more, but its connection is open", n)

    # -- what everyone knows
    def links(self):
        out = {}
        for m in self.obs.do("LINKS"):
            if m.cmd == "364":
                n = m.params[1]
                if n in out:
                    self.fail("LINKS shows %s twice", n)
                out[n] = (m.params[2], int(m.params[3].split(" ")[0]))
        out.pop(ME, None)
        return out

    def compare(self):
        net = self.net
        want = {n: (s.up, s.hop) for n, s in net.s.items()}
        got = self.links()
        if want != got:
            self.fail("LINKS shows %r, linked are %r", got, want)
        users = {u for s in net.s.values() for u in s.users}
        names = set()
        for m in self.obs.do("NAMES " + CHAN):
            if m.cmd == "353":
                names |= {x.lstrip("@+") for x in m.params[-1].split()}
        if names != users | {"Obs"}:
            self.fail("%s has %r, should have %r", CHAN, sorted(names), sorted(users))
        for s in net.s.values():
            if s.up == ME:
                self.picture(s, users)
        if len(net.s) >= 3:
            self.seen.add("three")

    def forget(self, s, name):
        k, ku = s.know, s.knowu
        todo = [name]
        for x in todo:
            todo += [n for n, v in k.items() if v[0] == x]
        for x in todo:
            num = k.pop(x)[1]
            for u in [u for u in ku if ku[u].startswith(num)]:
                del ku[u]

    def picture(self, s, users):
        """What the linked server s was told."""
        if s.c.eof:
            self.fail("%s lost its connection: %r", s.name, s.c.lines())
        k, ku = s.know, s.knowu
        for l in s.c.lines():
            if l.startswith("@"):
                l = l.split(" ", 1)[1]
            t = l.split(" ")
            if len(t) < 2:
                continue
            if t[0] == "SERVER":
                k[t[1]] = ("", t[6][:2])
            elif t[1] == "S":
                up = [n for n, v in k.items() if v[1] == t[0]]
                if not up:
                    self.fail("%s was told of %s by %s, which it does not know", s.name, t[2], t[0])
                if t[2] in k:
                    self.fail("%s was told of %s twice", s.name, t[2])
                k[t[2]] = (up[0], t[7][:2])
            elif t[1] == "SQ":
                if t[2] not in k:
                    if t[2] in (s.name, ME) or t[2] in s.mine:
                        continue
                    self.fail("%s was told that %s left, which it does not know", s.name, t[2])
                self.forget(s, t[2])
            elif t[1] == "N" and len(t) > 8:
                ku[t[2]] = l.split(" :", 1)[0].split(" ")[-1]
            elif t[1] == "Q":
                for u in [u for u in ku if ku[u] == t[0]]:
                    del ku[u]
            elif t[1] == "G":
                s.c.send("%s Z %s %s %s" % (s.num, t[0], t[2], t[-1]))
        mine = self.net.below(s.name)
        want = {n: (x.up, x.num) for n, x in self.net.s.items() if n not in mine}
        got = {n: v for n, v in k.items() if n != ME}
        if want != got:
            self.fail("%s was told of %r, should know %r", s.name, got, want)
        wantu = {u: nn for n, x in self.net.s.items() if n not in mine for u, nn in x.users.items()}
        got = {u: v for u, v in ku.items() if u != "Obs"}
        if wantu != got:
            self.fail("%s was told of the users %r, should know %r", s.name, got, wantu)
