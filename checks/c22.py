"""Connection counting and throttling per host."""
import ipaddress
import ircsim, pbt
from pbt import Violation

PROP = {
    "id": "C22",
    "title": "Connections are counted per host without error, and only hosts that reconnect too fast are throttled",
    "statement": "At every moment the server's count for a host (an IPv4 address, with its 6to4 prefix, or an IPv6 /64) is the number of connections from it that exist on the whole network, exempt addresses not counted, "
                 "through arrivals, unfinished registrations, departures, refused connections, splits, bursts and rehashes. Once the grace period after the start is over, a local connection is refused as too fast exactly "
                 "when it is at least the IPCHECK_CLONE_LIMIT-th of a series of attempts from its host no more than IPCHECK_CLONE_PERIOD apart (likewise for IPv6 /48 prefixes), never because of others, and never when it is "
                 "exempt. A refused connection leaves nothing behind.",
    "quantifier": {"over": ["histories", "inputs"],
                   "text": "all sequences of connections, refusals, departures, splits, rejoins, rehashes with other exemptions and changes of the limits over hours and days, from addresses sharing hosts and prefixes"},
    "why_tests_cant": "Counts and throttling depend on the whole history of a host, also over the wrap of shortened time stamps after 18 hours; the tests make a handful of connections from one address within a minute.",
    "anchors": {
        "files": ["ircd/IPcheck.c", "ircd/s_bsd.c", "ircd/s_auth.c", "ircd/s_user.c", "ircd/s_misc.c", "ircd/m_nick.c"],
        "mechanism": [{"name": "registry of hosts", "where": "ircd/IPcheck.c ip_registry_check_local(), ip_registry_check_remote(), ip_registry_disconnect(), ip_registry_expire()"},
                      {"name": "accepting a connection", "where": "ircd/s_bsd.c add_connection()"}],
        "observe_at": ["the NOTICE ':on N ca A(L)' sent to every new user", "the throttling message", "the server's memory in use"],
    },
}
TECHNIQUE = "model-based random testing of connection histories over virtual days in a simulated network"

IPS = ["10.2.3.4", "10.2.3.5", "10.3.0.1", "10.5.0.1", "10.5.0.2", "2001:db8:1::5", "2001:db8:1::6", "2001:db8:1:1::7", "2001:db8:5::1", "2001:db8:5:9::1", "2002:a02:304::1", "2002:a02:304:5::1", "2001:db8:1:1::8"]
EXEMPT = [[], ["10.5.0.0/16"], ["10.5.0.1"], ["2001:db8:5::/48"], ["2001:db8:1::5"], ["10.2.3.5", "2001:db8:1::6"], ["10.0.0.0/8"]]
NU = 10


def host_of(ip):
    a = ipaddress.ip_address(ip)
    if a.version == 4:
        return (0x2002 << 48) | int(a) << 16
    h = int(a) >> 64
    if h >> 48 == 0x2002:
        h &= ~0xffff
    return h


def net48(ip):
    a = ipaddress.ip_address(ip)
    return None if a.version == 4 else int(a) >> 80


class Host:
    def __init__(self):
        self.n = 0
        self.attempts = 1
        self.last = 0


class CHECK(pbt.Check):
    RULE = "at least one connection was throttled and at least one was accepted after a host had been seen before"
    QUICK, THOROUGH = 2500, 80000
    VARIANT = "plain"
    # limit, period, /48 limit, /48 period, grace after the start
    NETS = [(4, 40, 6, 10, 0), (2, 200, 3, 100, 0), (3, 10, 50, 10, 70000)]

    def gen(self, rng, i, tier):
        ops = []
        ips = rng.sample(IPS, rng.choice([1, 2, 3, 5, 13]))
        k = rng.randrange(3)
        waits = [1, 1, 1, 3, 9, 11, 30, 41, 99, 101, 199, 201, 650]
        for _ in range(rng.randint(8, 40)):
            r = rng.random()
            if r < .55:
                ops.append(["conn", rng.randrange(NU), rng.random() < .2, rng.choice(ips), rng.random() < .25])
            elif r < .68:
                ops.append(["quit", rng.randrange(NU), rng.choice(["QUIT", "close", "rst"])])
            elif r < .83:
                ops.append(["adv", rng.choice(waits)])
            elif r < .842:
                ops.append(["jump", rng.choice([20000, 60000, 65536 - 20, 65536 + 5, 70000, 131072])])
            elif r < .865:
                ops.append(["flood", rng.choice(ips[:3])])
            elif r < .90:
                ops.append(["steal", rng.randrange(NU)])
            elif r < .93:
                ops.append(["rehash", rng.choice(EXEMPT)])
            elif r < .95:
                ops.append(["set", rng.choice(["IPCHECK_CLONE_LIMIT", "IPCHECK_48_CLONE_LIMIT"]), rng.choice([2, 3, 5])])
            else:
                ops.append([rng.choice(["split", "heal"])])
        # start some way before the shortened clock would wrap
        return {"net": k, "exempt": rng.choice(EXEMPT), "start": rng.choice([0, 0, 30, 100, 700]), "ops": ops}

    def conf0(self, k, exempt):
        lim, per, l48, p48, grace = self.NETS[k]
        f = {"CONNECTTIMEOUT": "60000", "OPLEVELS": "FALSE", "IPCHECK_CLONE_LIMIT": str(lim), "IPCHECK_CLONE_PERIOD": str(per), "IPCHECK_48_CLONE_LIMIT": str(l48), "IPCHECK_48_CLONE_PERIOD": str(p48), "IPCHECK_CLONE_DELAY": str(grace)}
        x = 'WebIRC { ip = "10.77.0.*"; password = "wpass"; description = "cgi"; };\nPort { webirc = yes; port = 6900; };\n'
        x += 'IPCheck { except "10.250.0.0/16"; except "10.200.0.0/16"; %s };\n' % " ".join('except "%s";' % e for e in exempt)
        return ircsim.conf(0, 2, pingfreq=60000, features=f, extra=x)

    def boot(self, k, start):
        other = ircsim.conf(1, 2, pingfreq=60000, features={"CONNECTTIMEOUT": "60000", "IPCHECK_CLONE_DELAY": "0", "IPCHECK_CLONE_LIMIT": "10000", "IPCHECK_48_CLONE_LIMIT": "10000"},
                            extra='WebIRC { ip = "10.77.0.*"; password = "wpass"; description = "cgi"; };\nPort { webirc = yes; port = 6900; };\n')
        w = ircsim.boot_network(2, self.VARIANT, confs=[self.conf0(k, []), other])
        w.op = w.client("Op", 0, ip="10.250.0.1", user="root", real="Operator")
        w.op.do("OPER oper operpass")
        w.booted = self.now(w)
        w.adv(5000)
        if start:
            # some way before a 16-bit clock wraps
            n = self.now(w)
            w.adv(((-n - start) % 65536) * 1000)
        w.op.do("PONG :x")
        for c in w.conns.values():
            c.lines()
        return w

    def now(self, w):
        w.sim.cmd("now")
        recs = w.sim.go()
        t = [r for r in recs if r[0] == "T"]
        w.absorb([r for r in recs if r[0] != "T"])
        return int(t[0][1]) // 1000

    # ---- model
    def get(self, ip):
        h = self.hosts.get(host_of(ip))
        return h

    def exempt_now(self, ip):
        a = ipaddress.ip_address(ip)
        for e in self.exempt + ["10.250.0.0/16", "10.200.0.0/16"]:
            n = ipaddress.ip_network(e, strict=False)
            if n.version == a.version and a in n:
                return True
        return False

    def try48(self, ip, now):
        n = net48(ip)
        if n is None:
            return False
        last, att = self.n48.get(n, (now, 0))
        if now - last > self.p48:
            att = 0
        self.n48[n] = (now, att + 1)
        return att + 1 >= self.l48 and now - self.booted > self.grace

    def local(self, ip, now):
        """a local connection attempt: (accepted, counted)"""
        if self.exempt_now(ip):
            return True, False
        h = self.get(ip)
        if self.try48(ip, now):
            if h:
                h.last = now
            self.labels.add("48 throttled")
            return False, False
        if h is None:
            h = self.hosts[host_of(ip)] = Host()
            h.n, h.last = 1, now
            return True, True
        if now - h.last > self.period:
            h.attempts = 0
        h.last = now
        h.attempts = min(h.attempts + 1, 255)
        if h.attempts >= self.limit and now - self.booted > self.grace:
            return False, False
        h.n += 1
        self.again = True
        return True, True

    def remote(self, ip, now, burst):
        if self.exempt_now(ip):
            return False
        n = net48(ip)
        if n is not None:
            last, att = self.n48.get(n, (now, 0))
            if now - last > self.p48:
                att = 0
            self.n48[n] = (now, att + 1)
        h = self.get(ip)
        if h is None:
            h = self.hosts[host_of(ip)] = Host()
            h.n, h.last, h.attempts = 1, now, 0 if burst else 1
            return True
        h.n += 1
        if now - h.last > self.period:
            h.attempts = 0
        if not burst:
            h.attempts = min(h.attempts + 1, 255)
            h.last = now
        return True

    def gone(self, u, now):
        if not u.counted:
            return
        u.counted = False
        h = self.get(u.ip)
        h.n -= 1
        if h.n == 0:
            if now - h.last > self.limit * self.period:
                h.attempts = 0
            h.last = now

    def expire(self, now):
        """what has been quiet for ten minutes is forgotten within another"""
        for k, h in list(self.hosts.items()):
            if h.n == 0 and now - h.last > 600:
                if now - h.last > 661:
                    del self.hosts[k]

    def run(self, case):
        k = case["net"]
        w = self.world("net%d-%d" % (k, case["start"]), lambda: self.boot(k, case["start"]))
        with pbt.case_of(self, w):
            self.w, self.k = w, k
            self.limit, self.period, self.l48, self.p48, self.grace = self.NETS[k]
            self.booted = w.booted
            self.hosts, self.n48, self.exempt = {}, {}, []
            self.us = [None] * NU
            self.cut = False
            self.labels, self.throttled, self.again = set(), 0, False
            self.seq = 0
            if case["exempt"]:
                self.rehash(case["exempt"])
            for op in case["ops"]:
                if not self.do(op):
                    self.labels.add("too close to the end of the grace period")
                    break
            if self.throttled:
                self.labels.add("throttled")
            return {"nontrivial": self.throttled > 0 and self.again, "labels": sorted(self.labels)}

    def pump(self, u):
        ms = u.c.msgs()
        for m in ms:
            if m.cmd == "PING" and not u.reg:
                u.cookie = m.params[-1]
            elif m.cmd == "001":
                u.reg = True
        u.got += ms
        return ms

    def arrive(self, s, ip, nick):
        web = ":" in ip
        c = self.w.connect(s, "10.77.0.9" if web else ip, 6900 if web else 6667)
        u = type("U", (), {})()
        u.c, u.server, u.ip, u.nick, u.reg, u.got, u.cookie, u.counted, u.web = c, s, ip, nick, False, [], None, False, web
        if web:
            c.send("WEBIRC wpass cgi %s %s" % (ip, ip))
        self.w.run()
        self.pump(u)
        return u

    def judge(self, u, accepted, now):
        told = any("throttled" in m.raw for m in u.got)
        if accepted and (u.c.eof or told):
            raise Violation("a connection from %s was refused: %r; its host: %r" % (u.ip, u.got, vars(self.get(u.ip) or Host())))
        if not accepted and not told:
            raise Violation("a connection from %s should have been throttled; its host: %r, limit %d in %d s, got %r" % (u.ip, vars(self.get(u.ip) or Host()), self.limit, self.period, u.got))
        if not accepted:
            self.throttled += 1
            if not u.c.eof:
                self.w.run()
                self.pump(u)
                if not u.c.eof:
                    raise Violation("a throttled connection was left open: %r" % u.got)

    def do(self, op):
        w, k = self.w, op[0]
        w.adv(1000)
        now = self.now(w)
        self.expire(now)
        if self.grace and abs(now - self.booted - self.grace) < 30:
            return False
        if k == "conn":
            _, i, elsewhere, ip, half = op
            self.leave(i, "QUIT", now)
            self.seq += 1
            s = 1 if elsewhere else 0
            live = w.sim
            u = self.arrive(s, ip, "u%d" % self.seq)
            if s == 0:
                ok, u.counted = self.local(ip, now)
                self.judge(u, ok, now)
                if not ok:
                    return True
            self.us[i] = u
            if half and s == 0:
                u.c.send("CAP LS 302", "NICK " + u.nick)
                w.run()
                self.pump(u)
                self.labels.add("unfinished")
                return True
            u.c.send("NICK " + u.nick, "USER u 0 * :r")
            w.run()
            self.pump(u)
            if u.cookie:
                u.c.send("PONG :" + u.cookie)
                w.run()
                self.pump(u)
            if not u.reg:
                raise ircsim.SimError("%s did not register: %r" % (u.nick, u.got))
            if s == 1 and not self.cut:
                u.counted = self.remote(ip, now, False)
            if s == 0:
                self.told(u)
        elif k == "quit":
            self.leave(op[1], op[2], now)
        elif k == "adv":
            w.adv(op[1] * 1000)
        elif k == "jump":
            for i, u in enumerate(self.us):
                if u is not None and not u.reg:
                    self.leave(i, "close", now)
            left = op[1]
            while left:
                d = min(left, 20000)
                left -= d
                w.adv(d * 1000)
                for c in [w.op] + [u.c for u in self.us if u is not None]:
                    if any(m.cmd == "PING" for m in c.msgs()):
                        c.send("PONG :x")
                w.run()
            self.labels.add("days")
        elif k == "flood":
            live = []
            for n in range(self.limit + 14):
                u = self.arrive(0, op[1], "f")
                ok, u.counted = self.local(op[1], now)
                self.judge(u, ok, now)
                u.c.close()
                w.run()
                if ok:
                    self.gone(u, now)
                    if not u.counted and self.exempt_now(op[1]):
                        break
                elif ":" not in op[1]:
                    w.sim.cmd("mem 0")
                    recs = w.sim.go()
                    live += [int(r[2]) for r in recs if r[0] == "M"]
                    w.absorb([r for r in recs if r[0] != "M"])
            if len(live) > 8:
                self.labels.add("memory measured")
                if live[-1] - live[1] > 64 * (len(live) - 2):
                    raise Violation("throttled connections leave memory behind: %r" % live)
        elif k == "steal":
            u = self.us[op[1]]
            if u is None or u.reg or u.server:
                return True
            v = self.arrive(0, "10.250.0.2", u.nick)
            v.c.send("NICK " + u.nick)
            w.run()
            self.pump(u)
            if not u.c.eof:
                raise ircsim.SimError("the unfinished connection kept its nick: %r %r" % (u.got, self.pump(v)))
            if u.counted:
                h = self.get(u.ip)
                if h.attempts > 1:
                    h.attempts -= 1
                n = net48(u.ip)
                if n is not None and self.n48[n][1] > 1:
                    self.n48[n] = (self.n48[n][0], self.n48[n][1] - 1)
            self.gone(u, now)
            self.us[op[1]] = None
            v.c.close()
            w.run()
            self.labels.add("overridden")
        elif k == "rehash":
            self.rehash(op[1])
        elif k == "set":
            got = w.op.do("SET %s %d" % (op[1], op[2]))
            if op[1] == "IPCHECK_CLONE_LIMIT":
                self.limit = op[2]
            else:
                self.l48 = op[2]
            self.labels.add("set")
        elif k == "split":
            if not self.cut:
                w.sim.cmd("cut 0 1")
                w.run()
                self.cut = True
                for u in self.us:
                    if u is not None and u.server == 1:
                        self.gone(u, now)
                self.labels.add("split")
        elif k == "heal":
            if self.cut:
                ircsim.link_servers(w, 0, 1)
                self.cut = False
                now = self.now(w)
                w.run()
                # the burst came some time within the last seconds
                for u in self.us:
                    if u is not None and u.server == 1:
                        u.counted = self.remote(u.ip, now, True)
                w.adv(1000 * (max(self.period * self.limit, self.p48) + 20))
                self.labels.add("heal")
        for i, u in enumerate(self.us):
            if u is not None:
                self.pump(u)
                if u.c.eof and k != "quit":
                    if not u.reg and any("Registration Timeout" in m.raw for m in u.got):
                        self.us[i] = None
                        self.gone(u, now)
                    else:
                        raise Violation("%s from %s was thrown out: %r" % (u.nick, u.ip, u.got[-3:]))
        return True

    def told(self, u):
        """the notice every user gets"""
        t = [m.raw for m in u.got if m.cmd == "NOTICE" and " ca " in m.raw and ":on " in m.raw]
        if not u.counted:
            return
        h = self.get(u.ip)
        if not t:
            raise Violation("%s from %s got no notice about his host: %r" % (u.nick, u.ip, u.got[-2:]))
        want = ":on %d ca %d(%d)" % (h.n, h.attempts, self.limit)
        if want not in t[-1]:
            raise Violation("%s from %s was told %r, expected %r (connected: %r)" % (u.nick, u.ip, t[-1], want, [(x.nick, x.ip, x.server, x.counted) for x in self.us if x is not None]))

    def leave(self, i, how, now):
        u = self.us[i]
        if u is None:
            return
        if how == "QUIT":
            u.c.send("QUIT :bye")
        elif how == "rst":
            u.c.rst()
        else:
            u.c.close()
        self.w.run()
        if how == "QUIT":
            u.c.close()
            self.w.run()
        self.us[i] = None
        self.gone(u, now)

    def rehash(self, exempt):
        w = self.w
        f = self.conf0(self.k, exempt)
        w.sim.write(0, "ircd.conf", f)
        w.op.do("REHASH")
        self.exempt = list(exempt)
        self.limit, self.l48 = self.NETS[self.k][0], self.NETS[self.k][2]
        self.labels.add("rehash")
