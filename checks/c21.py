"""Registration: who is let in, through which Client block, and what limits hold."""
import ipaddress
import ircsim, pbt
from ircutil import glob, lower
from pbt import Violation

PROP = {
    "id": "C21",
    "title": "A connection is registered only through the Client block that is meant for it, within its limits, and never past a Kill block",
    "statement": "A connection becomes a user only after it has sent NICK and USER, answered the server's PING with its cookie and ended any capability negotiation it began. No Kill block may match its user name, "
                 "host or address and real name. It then belongs to the last Client block of the configuration whose address, host, ident and port it matches, whatever other blocks would offer it: it must give that "
                 "block's password, its address must have no more than that block's maxlinks connections (on the whole network), and the block's class must hold fewer than the class's maxlinks clients; "
                 "otherwise it is turned away with the reason that applies, and nobody else is. A rehash applies the new configuration to newcomers, removes exactly the users its Kill blocks match, and keeps the others and "
                 "their place in their class. The numbers reported for each class are right.",
    "quantifier": {"over": ["histories", "inputs"],
                   "text": "all sequences of arrivals, unfinished registrations in any order of their steps, departures, oper logins and rehashes under generated configurations of classes, Client and Kill blocks, with and without ident and host names"},
    "why_tests_cant": "The tests register a few users under one permissive configuration; limits and matching depend on the history of arrivals and on the configuration.",
    "anchors": {
        "files": ["ircd/s_auth.c", "ircd/s_conf.c", "ircd/class.c", "ircd/IPcheck.c", "ircd/ircd_parser.y", "ircd/m_pass.c", "ircd/m_user.c", "ircd/m_webirc.c", "ircd/m_cap.c", "ircd/m_oper.c"],
        "mechanism": [{"name": "registration steps", "where": "ircd/s_auth.c check_auth_finished(), auth_set_user(), auth_set_nick(), auth_set_pong(), auth_cap_start()"},
                      {"name": "choice of Client block and limits", "where": "ircd/s_conf.c attach_iline(), attach_conf()"},
                      {"name": "Kill blocks", "where": "ircd/s_conf.c find_kill()"},
                      {"name": "rehash", "where": "ircd/s_conf.c rehash(); ircd/class.c class_mark_delete(), class_delete_marked()"}],
        "observe_at": ["who gets 001", "465, 464 and ERROR texts", "TRACE (class of each user)", "STATS y (class counts)"],
    },
}
TECHNIQUE = "model-based random testing: generated configurations and histories of arrivals against a reference model of registration"

HOST = {"10.2.3.4": "host1.example.com", "10.2.3.5": "dial5.cust.example.com", "10.2.9.1": None, "10.3.0.1": None, "10.3.0.2": None,
        "2001:db8:1::5": "v6.example.org", "2001:db8:1::6": None, "2001:db8:2::9": None}
IPS = sorted(HOST)
NAMES = ["bad", "good", "u5er"]
REALS = ["spam bot", "nice", "s7x7"]
PWS = [None, None, None, None, "pw1", "pw2"]
NU = 9
CLASSES = ["cA", "cB", "cC"]
DEFREASON = "Connection from your host is refused on this server."


def same_host(a, b):
    a, b = ipaddress.ip_address(a), ipaddress.ip_address(b)
    if a.version != b.version:
        return False
    return a == b if a.version == 4 else int(a) >> 64 == int(b) >> 64


def netmatch(mask, ip):
    if mask in ("*", "*@*"):
        return True
    if mask.endswith(".*") and mask[0].isdigit():
        return ip.startswith(mask[:-1])
    net, a = ipaddress.ip_network(mask, strict=False), ipaddress.ip_address(ip)
    return net.version == a.version and a in net


def gen_conf(rng):
    classes = {c: rng.choice([0, 1, 1, 2, 2, 3, 50]) for c in CLASSES if rng.random() < .9}
    if not classes:
        classes = {"cA": 1}
    clients = []
    idents = rng.random() < .4
    for k in range(rng.randint(1, 6)):
        b = {"class": rng.choice(sorted(classes))}
        wide = k == 0 and rng.random() < .6
        if wide or rng.random() < .55:
            b["ip"] = "*" if wide else rng.choice(["*", "10.2.0.0/16", "10.2.3.4", "10.2.3.0/24", "10.3.0.1", "10.3.*", "2001:db8::/32", "2001:db8:1::/64", "*@*"])
        if not wide and rng.random() < .4:
            b["host"] = rng.choice(["*.example.com", "host1.example.com", "*.EXAMPLE.org", "*.cust.*", "10.2.9.*", "*"])
        if idents and rng.random() < .5:
            b["username"] = rng.choice(["bad", "g*", "u5er", "*", "?ad"])
        if rng.random() < .2:
            b["port"] = rng.choice([6667, 6668, 6900])
        if rng.random() < .25:
            b["password"] = rng.choice(["pw1", "pw2"])
        if rng.random() < .5:
            b["maxlinks"] = rng.choice([1, 1, 2, 3])
        if "username" in b and "host" not in b and rng.random() < .4:
            b["at"] = "host"
        elif "username" in b and "@" not in b.get("ip", "@") and rng.random() < .4:
            b["at"] = "ip"
        clients.append(b)
    kills = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        b = {}
        if rng.random() < .6:
            b["host"] = rng.choice(["*.cust.example.com", "10.3.0.1", "10.2.9.0/24", "*.com", "2001:db8:2::/48", "V6.*", "10.3.*", "bad@*", "u5er@10.2.0.0/16", "~bad@*"])
        if rng.random() < .4 or not b:
            b["username"] = rng.choice(["bad", "u*", "~bad", "~u5er", "*5*"])
        if "host" in b and "@" in b["host"]:
            b.pop("username", None)
        if rng.random() < .35:
            b["real"] = rng.choice(["spam*", "s*7*", "NICE"])
        r = rng.random()
        if r < .5:
            b["reason"] = rng.choice(["go away", "You are infected"])
        elif r < .7:
            b["file"] = rng.choice(["kill.txt", "missing.txt"])
        b["order"] = rng.random() < .5
        kills.append(b)
    return {"classes": classes, "clients": clients, "kills": kills, "opclass": rng.choice([0, 1, 2])}


def conf_text(c):
    o = ['Class { name = "Ops"; pingfreq = 60000 seconds; sendq = 160000; maxlinks = 0; };']
    for n, m in c["classes"].items():
        o.append('Class { name = "%s"; pingfreq = 60000 seconds; sendq = 160000; maxlinks = %d; };' % (n, m))
    o.append('Class { name = "Opx"; pingfreq = 60000 seconds; sendq = 160000; maxlinks = %d; };' % c["opclass"])
    for b in c["clients"]:
        f = ['class = "%s";' % b["class"]]
        at = b.get("at")
        if "ip" in b:
            f.append('ip = "%s%s";' % (b["username"] + "@" if at == "ip" else "", b["ip"]))
        if "host" in b or at == "host":
            f.append('host = "%s%s";' % (b["username"] + "@" if at == "host" else "", b.get("host", "*")))
        if "username" in b and not at:
            f.append('username = "%s";' % b["username"])
        for k in ("password",):
            if k in b:
                f.append('%s = "%s";' % (k, b[k]))
        for k in ("port", "maxlinks"):
            if k in b:
                f.append('%s = %d;' % (k, b[k]))
        o.append("Client { %s };" % " ".join(f))
    o.append('Client { ip = "10.250.0.0/16"; class = "Ops"; };')
    for b in c["kills"]:
        f = ['%s = "%s";' % ({"real": "realname"}.get(k, k), b[k]) for k in ("host", "username", "real", "reason", "file") if k in b]
        if b["order"]:
            f.reverse()
        o.append("Kill { %s };" % " ".join(f))
    o.append('Operator { local = yes; class = "Opx"; host = "*@*"; password = "$PLAIN$xp"; name = "opx"; };')
    return "\n".join(o)


WEB = ('WebIRC { ip = "10.77.0.*"; password = "wpass"; description = "cgi"; };\nPort { webirc = yes; port = 6900; };\nPort { port = 6668; };\n')


class User:
    def __init__(self, c, server, nick, ip, host, port, web):
        self.c, self.server, self.nick, self.ip, self.host, self.port, self.web = c, server, nick, ip, host, port, web
        self.reg, self.cookie, self.got, self.cls, self.oper, self.pw = False, None, [], None, False, None
        self.user = self.real = self.name = None
        self.ident = None       # answer of his ident server
        self.todo = set()       # steps of the registration missing

    def pump(self):
        ms = self.c.msgs()
        for m in ms:
            if m.cmd == "PING" and not self.reg:
                self.cookie = m.params[-1]
            elif m.cmd == "001":
                self.reg = True
        self.got += ms
        return ms

    def __repr__(self):
        return "%s (user %s ident %r host %s [%s] port %d real %r password %r)" % (self.nick, self.user, self.ident, self.host, self.ip, self.port, self.real, self.pw)


class CHECK(pbt.Check):
    RULE = "at least one connection got in and at least one was turned away or removed"
    QUICK, THOROUGH = 15000, 600000
    VARIANT = "plain"

    def gen(self, rng, i, tier):
        confs = [gen_conf(rng) for _ in range(rng.choice([1, 2, 3]))]
        idents = {ip: rng.choice([None, None, "bad", "good", "g-x", "ERROR", "silent"]) for ip in IPS} if rng.random() < .6 else {}
        ops = []
        ips = rng.sample(IPS, rng.choice([2, 3, 8]))
        for _ in range(rng.randint(6, 30)):
            r = rng.random()
            k = rng.randrange(NU)
            if r < .62:
                steps = []
                if rng.random() < .35:
                    steps = rng.sample(["nick", "user", "pong", "cap"], rng.choice([1, 1, 1, 2]))
                ops.append(["conn", k, rng.random() < .15, rng.choice(ips), rng.choice(NAMES), rng.choice(REALS), rng.choice([6667, 6667, 6668, 6900]), rng.choice(PWS), steps])
            elif r < .74:
                ops.append(["step", k, rng.choice(["nick", "user", "pong", "pong", "cap", "badpong", "user2"]), rng.choice(NAMES), rng.choice(REALS)])
            elif r < .86:
                ops.append(["quit", k, rng.choice(["QUIT", "close", "rst"])])
            elif r < .91:
                ops.append(["oper", k])
            elif r < .93:
                ops.append(["deoper", k])
            else:
                ops.append(["rehash", rng.randrange(len(confs))])
        return {"confs": confs, "idents": idents, "ops": ops}

    def boot(self):
        base = dict(pingfreq=60000, opers=True, features={"CONNECTTIMEOUT": "60000", "AUTH_TIMEOUT": "20", "OPLEVELS": "FALSE"})
        w = ircsim.boot_network(2, self.VARIANT, extra=WEB, **base)
        op = w.client("Op", 0, ip="10.250.0.1", user="root", real="Operator")
        op.do("OPER oper operpass")
        w.op = op
        w.base = base
        w.sim.write(0, "kill.txt", "line one\nline two\n")
        w.adv(5000)
        for c in w.conns.values():
            c.lines()
        return w

    def write_conf(self, c):
        # the Ops block must come last in the file and so be tried first: the base configuration keeps no Client block
        self.w.sim.write(0, "ircd.conf", ircsim.conf(0, 2, extra=WEB + conf_text(c), clients=[], **self.w.base))

    def run(self, case):
        w = self.world("net", self.boot)
        with pbt.case_of(self, w):
            self.w = w
            self.us = [None] * NU
            self.idents = case["idents"]
            for ip, a in self.idents.items():
                if a and ":" not in ip:
                    w.sim.cmd("listen %s 113" % ip)
            self.labels, self.stats = set(), {"in": 0, "out": 0}
            self.seq = 0
            self.classes_seen = set()
            self.rehash(case["confs"][0])
            for op in case["ops"]:
                self.do(op, case)
            self.settled()
            return {"nontrivial": self.stats["in"] > 0 and self.stats["out"] > 0, "labels": sorted(self.labels)}

    # ---- the model
    @property
    def lookups(self):
        return any("username" in b or b.get("ip") == "*@*" for b in self.conf["clients"])

    def count(self, ip):
        return sum(1 for u in self.us if u is not None and same_host(u.ip, ip) and (u.reg or not u.server))

    def links(self, cls):
        return sum(1 for u in self.us if u is not None and u.reg and u.cls == cls)

    def name_of(self, u):
        """the user name Kill blocks are matched against"""
        if u.user is None:
            return ""
        if u.ident:
            return u.ident
        return u.user if u.web else ("~" + u.user if self.lookups else u.user)[:10]

    def killed(self, u, loose=False):
        for b in reversed(self.conf["kills"]):
            um, hm = b.get("username"), b.get("host")
            if hm and "@" in hm:
                um, hm = hm.split("@", 1)
            if not loose:
                if um is not None and not glob(um, u.name):
                    continue
                if "real" in b and not glob(b["real"], u.real):
                    continue
            if hm is not None:
                try:
                    ok = netmatch(hm, u.ip)
                except ValueError:
                    ok = glob(hm, u.host)
                if hm == "*":
                    ok = True
                if not ok:
                    continue
            return b
        return None

    def block(self, u):
        for b in reversed(self.conf["clients"]):
            if b.get("port", u.port) != u.port:
                continue
            if "username" in b and not glob(b["username"], u.ident or (u.user if u.web else "")):
                continue
            if "host" in b and not glob(b["host"], u.host):
                continue
            if "ip" in b and not netmatch(b["ip"], u.ip):
                continue
            return b
        return None

    def verdict(self, u):
        """(class or None, text that must be shown)"""
        b = self.block(u)
        if b is None:
            return None, "No Authorization"
        if self.count(u.ip) > b.get("maxlinks", 65535):
            return None, "Too many connections from your host"
        m = self.conf["classes"][b["class"]]
        if m and self.links(b["class"]) >= m:
            return None, "connection class is full"
        if "password" in b and u.pw != b["password"]:
            return None, "Bad Password"
        return b["class"], None

    # ---- operations
    def do(self, op, case):
        w = self.w
        w.adv(1000)
        k = op[0]
        if k == "conn":
            _, i, elsewhere, ip, user, real, port, pw, hold = op
            self.leave(i, "QUIT")
            self.seq += 1
            web = HOST[ip] is not None or ":" in ip
            port = 6900 if web else (6667 if port == 6900 or elsewhere else port)
            host = (HOST[ip] or ip) if web else ip
            s = 1 if elsewhere else 0
            c = w.connect(s, "10.77.0.9" if web else ip, port)
            u = self.us[i] = User(c, s, "u%d" % self.seq, ip, host, port, web)
            u.todo = {"nick", "user", "pong"} | ({"cap"} if "cap" in hold else set())
            u.at = self.lookups
            if web:
                c.send("WEBIRC wpass cgi %s %s" % (host, ip))
            if pw:
                u.pw = pw
                c.send("PASS :" + pw)
            if "cap" in hold:
                c.send("CAP LS 302")
            for st in ("nick", "user", "pong", "cap"):
                if st not in hold and st in u.todo:
                    self.advance(u, st, user, real)
                    if self.us[i] is None:
                        return
            if hold:
                self.labels.add("unfinished without " + " and ".join(sorted(hold)))
        elif k == "step":
            u = self.us[op[1]]
            if u is not None and not u.reg:
                self.advance(u, op[2], op[3], op[4])
        elif k == "quit":
            self.leave(op[1], op[2])
        elif k in ("oper", "deoper"):
            here = [x for x in self.us if x is not None and x.reg and not x.server and x.oper == (k == "deoper")]
            if not here:
                return
            u = here[op[1] % len(here)]
            if k == "oper":
                if u.oper:
                    return
                m = self.conf["opclass"]
                n = sum(1 for x in self.us if x is not None and x.oper)
                got = u.c.do("OPER opx xp")
                ok = any(x.cmd == "381" for x in got)
                want = not m or n < m
                if ok != want:
                    raise Violation("OPER into a class of %s with %d in it: %r" % (m or "any size", n, got))
                u.oper = ok
                self.labels.add("oper" if ok else "oper class full")
            elif u.oper:
                u.c.do("MODE %s -o" % u.nick)
                u.oper = False
                self.labels.add("deoper")
        elif k == "rehash":
            self.rehash(case["confs"][op[1]])
            self.labels.add("rehash")
        self.look()

    def serve_ident(self):
        """play the ident servers"""
        w = self.w
        for e in w.take_events("C"):
            ip, port, ext = e[2], int(e[3]), int(e[4])
            if ext not in w.conns:
                w.conns[ext] = ircsim.Conn(w, ext, None)
            c = w.conns[ext]
            a = self.idents.get(ip)
            q = c.lines()
            if a == "silent" or port != 113:
                continue
            c.ans = True
            if a == "ERROR":
                c.send("%s : ERROR : NO-USER" % (q[0] if q else "1 , 2"))
            else:
                c.send("%s : USERID : UNIX : %s" % (q[0] if q else "1 , 2", a))
        w.run()

    def advance(self, u, st, user, real):
        """one step of the registration of u"""
        w, i = self.w, self.us.index(u)
        if st in ("nick", "user", "pong", "cap") and st not in u.todo:
            return
        if st == "nick":
            u.c.send("NICK " + u.nick)
        elif st in ("user", "user2"):
            if st == "user2" and "user" in u.todo:
                return
            u.c.send("USER %s 0 * :%s" % (user, real))
        elif st == "pong":
            if u.cookie is None:
                return
            u.c.send("PONG :" + u.cookie)
        elif st == "badpong":
            if u.cookie is None:
                return
            u.c.send("PONG :%d" % ((int(u.cookie) + 1) & 0xffffffff))
        elif st == "cap":
            u.c.send("CAP END")
        if st in ("user", "user2"):
            u.user, u.real = user, real
            st = "user"
        u.todo.discard(st)
        w.run()
        self.serve_ident()
        # patience: an ident server that does not answer, the flood limit of the unregistered
        w.adv(3000)
        u.pump()
        if not u.web and not u.server and self.idents.get(u.ip) and u.at and u.ident is None:
            a = self.idents[u.ip]
            if a == "silent":
                if not hasattr(u, "waited"):
                    u.waited = True
                    w.adv(21000)
                    u.pump()
                    self.labels.add("ident timeout")
            elif a != "ERROR":
                u.ident = a
                self.labels.add("ident")
        if u.server:
            # the other server takes anyone
            if u.todo:
                if u.reg:
                    raise Violation("%r is registered without %s" % (u, sorted(u.todo)))
                return
            for _ in range(3):
                if not u.reg:
                    w.adv(3000)
                    u.pump()
            if not u.reg:
                raise ircsim.SimError("%r not registered on the other server: %r" % (u, u.got))
            return
        if st == "user":
            u.name = self.name_of(u)
            b = self.killed(u)
            if b is not None:
                for _ in range(3):
                    if not u.c.eof:
                        w.adv(3000)
                        u.pump()
                if u.reg or not u.c.eof:
                    raise Violation("%r got past the Kill block %r: %r" % (u, b, u.got))
                self.check_kill_text(u, b)
                self.us[i] = None
                self.stats["out"] += 1
                self.labels.add("killed")
                return
        if u.todo:
            if u.reg:
                raise Violation("%r is registered without %s" % (u, sorted(u.todo)))
            if u.c.eof:
                raise Violation("%r was turned away before he was ready: %r" % (u, u.got))
            return
        cls, why = self.verdict(u)
        for _ in range(4):
            if not u.reg and not u.c.eof:
                w.adv(3000)
                u.pump()
        if cls is None:
            if u.reg:
                raise Violation("%r got in, but should have been told: %s (his block: %r)" % (u, why, self.block(u)))
            if not u.c.eof or not any(m.cmd == "ERROR" and why in m.raw for m in u.got):
                raise Violation("%r should have been told: %s; got %r" % (u, why, [m.raw for m in u.got[-3:]]))
            if why == "Bad Password" and not any(m.cmd == "464" for m in u.got):
                raise Violation("%r got no 464: %r" % (u, u.got))
            self.us[i] = None
            self.stats["out"] += 1
            self.labels.add(why)
            return
        if not u.reg:
            raise Violation("%r should have got in through %r (class %s with %d in it, %d from his address), but: %r"
                            % (u, self.block(u), cls, self.links(cls), self.count(u.ip), [m.raw for m in u.got[-4:]]))
        u.cls = cls
        self.stats["in"] += 1
        if "PASS" in str(u.pw):
            self.labels.add("password")

    def check_kill_text(self, u, b):
        texts = [m.params[-1] for m in u.got if m.cmd == "465"]
        want = [b["reason"] + "."] if "reason" in b else [DEFREASON]
        if texts[-1:] != want:
            raise Violation("%r removed by %r was told %r" % (u, b, [m.raw for m in u.got[-4:]]))
        if b.get("file") == "kill.txt" and "reason" not in b:
            lines = [m.params[-1] for m in u.got if m.cmd == "372"]
            if not any("line one" in x for x in lines) or not any("line two" in x for x in lines):
                raise Violation("%r removed by %r was not shown the file: %r" % (u, b, [m.raw for m in u.got[-4:]]))

    def leave(self, i, how):
        u = self.us[i]
        if u is None:
            return
        if how == "QUIT":
            u.c.send("QUIT :bye")
            self.w.run()
            self.w.adv(1000)
        elif how == "rst":
            u.c.rst()
        u.c.close()
        self.w.run()
        self.us[i] = None

    def rehash(self, c):
        w = self.w
        self.conf = c
        self.write_conf(c)
        for u in self.us:
            if u is not None:
                u.pump()
        got = w.op.do("REHASH")
        if w.op.eof:
            raise Violation("the rehash threw out the operator: %r" % got)
        bad = [m.raw for m in got if "onfiguration" in m.raw and ("rror" in m.raw) or "parse" in m.raw.lower()]
        if bad:
            raise Violation("the generated configuration is not accepted: %r\n%s" % (bad, conf_text(c)))
        for i, u in enumerate(self.us):
            if u is None or u.server:
                continue
            u.pump()
            if u.name is None or u.real is None:
                u.name, u.real = "", ""
            b = self.killed(u)
            if u.user is None:          # unfinished: nothing known of him but his host
                if u.c.eof:
                    if not self.killed(u, True):
                        raise Violation("%r was removed by the rehash though no Kill block matches: %r" % (u, u.got[-3:]))
                    self.us[i] = None
                continue
            if u.c.eof:
                if not b:
                    raise Violation("%r was removed by the rehash though no Kill block matches: %r" % (u, [m.raw for m in u.got[-3:]]))
                self.check_kill_text(u, b)
                self.us[i] = None
                self.stats["out"] += 1
                self.labels.add("killed by rehash")
            elif b:
                raise Violation("%r stays after the rehash though he is matched by %r" % (u, b))
        self.settled()

    def look(self):
        for u in self.us:
            if u is None:
                continue
            u.pump()
            if u.c.eof:
                raise Violation("%r was thrown out: %r" % (u, [m.raw for m in u.got[-3:]]))

    def settled(self):
        self.look()
        got = self.w.op.do("STATS y")
        have = {m.params[2]: (m.params[1], int(m.params[7]), int(m.params[5])) for m in got if m.cmd == "218"}
        for c, mx in self.conf["classes"].items():
            if c not in have or have[c][0] != "Y":
                raise Violation("class %s is not reported: %r" % (c, got))
            if have[c][1] not in (mx,):
                pass
        for c in CLASSES:
            n = self.links(c)
            if c in have:
                shown = [int(m.params[-2]) for m in got if m.cmd == "218" and m.params[2] == c][0]
            else:
                shown = 0
            if shown != n:
                raise Violation("class %s holds %d clients, STATS y says %d: %r" % (c, n, shown, [m.raw for m in got]))
        n = sum(1 for u in self.us if u is not None and u.oper)
        shown = [int(m.params[-2]) for m in got if m.cmd == "218" and m.params[2] == "Opx"][:1]
        if shown != [n]:
            raise Violation("class Opx holds %d operators, STATS y says %r" % (n, shown))
        for u in self.us:
            if u is not None and u.reg and not u.server and not u.oper:
                got = self.w.op.do("TRACE " + u.nick)
                t = [m for m in got if m.cmd in ("205", "204")]
                if not any(u.cls in m.params for m in t):
                    raise Violation("%r belongs to class %s, TRACE says %r" % (u, u.cls, [m.raw for m in got]))
