"""G-lines: who is banned, where, for how long, and what the operators are told about it."""
import ipaddress
import ircsim, pbt
from ircutil import glob, lower
from pbt import Violation

PROP = {
    "id": "C20",
    "title": "A G-line keeps out exactly those it names, on the servers it covers, for as long as it lasts",
    "statement": "From the moment a G-line is set until it expires or is taken back, no user it names (by user and host, address range or real name) is or gets onto the servers it covers - all for a "
                 "global one, one for a local one - and nobody else is removed or refused because of it; a channel it names can be joined by operators only. It cannot be evaded by the "
                 "order of the registration. A global G-line's newest change wins on all servers also after a split; a server's own exception or activation stays there; "
                 "unforced masks that are too wide or hit too many users are refused; GLINE lists exactly what is in force.",
    "quantifier": {"over": ["histories", "inputs", "fault_sequences"],
                   "text": "all histories of G-line operations on three servers (global, local and remote; activation, removal, changes, local exceptions, forced or not, expiry), users arriving, "
                           "half-registered and joining channels, rehashes, splits and rejoins, over a pool of masks of all kinds"},
    "why_tests_cant": "The tests place one or two G-lines; enforcement depends on the order of arrivals, changes, expiry, splits and half-finished registrations.",
    "anchors": {
        "files": ["ircd/gline.c", "ircd/m_gline.c", "ircd/s_conf.c", "ircd/s_auth.c", "ircd/m_join.c", "ircd/s_serv.c"],
        "mechanism": [{"name": "G-line table and its changes", "where": "ircd/gline.c gline_add(), gline_modify(), gline_find(), gliter"},
                      {"name": "enforcement on those present", "where": "ircd/gline.c do_gline()"},
                      {"name": "enforcement on arrival", "where": "ircd/s_auth.c check_auth_finished(); ircd/s_conf.c find_kill(); ircd/m_join.c"},
                      {"name": "spreading", "where": "ircd/gline.c gline_burst(), gline_resend(); ircd/m_gline.c ms_gline()"}],
        "observe_at": ["who gets 001 and who gets 465 and an ERROR", "who stays connected", "replies to JOIN", "GLINE listings on every server"],
    },
}
TECHNIQUE = "model-based random testing of operation histories in a simulated network with virtual time"

HOST = {"10.2.3.4": "host1.example.com", "10.2.3.5": "dial5.cust.example.com", "10.2.9.1": None, "10.3.0.1": None, "2001:db8:1::5": "v6.example.org", "2001:db8:2::9": None}
IPS = sorted(HOST)
IDENTS = ["bad", "good", "u5er"]
REALS = ["spam bot", "nice", "spam-king"]
# mask, what the width check says of it: a(pproved), o(verridable), r(ejected)
MASKS = [("*@host1.example.com", "a"), ("bad@host1.example.com", "a"), ("*@*.example.com", "o"), ("b?d@*.cust.example.com", "o"), ("host1.example.com", "a"), ("*@*.com", "r"), ("u5*@*.EXAMPLE.org", "o"),
         ("*@10.2.3.4", "a"), ("10.2.3.5", "a"), ("good@10.2.9.1", "a"), ("*@10.2.3.0/24", "o"), ("*@10.2.0.0/16", "o"), ("bad@10.2.*", "o"), ("*@10.0.0.0/12", "r"), ("*@2001:db8:1::/48", "o"), ("*@2001:db8::/32", "o"),
         ("*@2001:db8:2::9", "a"), ("$Rspam*", "a"), ("$R*K?ng", "a"), ("$Rnice", "a"), ("#bad", "c"), ("#Warez", "c"), ("v6.example.org", "a"), ("*@V6.example.ORG", "a"), ("BAD@HOST1.example.com", "a")]
CHANS = ["#bad", "#BAD", "#warez", "#ok"]
MAXUSERS = 3
NU = 6
MONTH = 30 * 24 * 3600


def split_mask(m):
    if m[0] in "#&$":
        return m, None
    if "@" in m:
        u, h = m.split("@", 1)
        return u, h
    return "*", m


def names(mask, ident, host, ip, real):
    """Does the mask name this user?"""
    if mask[0] in "#&":
        return False
    if mask[0] == "$":
        return glob(mask[2:], real)
    u, h = split_mask(mask)
    if not glob(u, ident):
        return False
    try:
        net = ipaddress.ip_network(h, strict=False)
    except ValueError:
        net = None
        if h.endswith(".*") and h[:-2].replace(".", "").isdigit():
            q = h[:-2].split(".")
            net = ipaddress.ip_network(".".join(q + ["0"] * (4 - len(q))) + "/%d" % (8 * len(q)))
    if net is not None:
        return ipaddress.ip_address(ip) in net
    return glob(h, host)


def hits(mask, ident, host, ip, real):
    """the users counted before a mask is accepted: also by the text of their address"""
    if names(mask, ident, host, ip, real):
        return True
    if mask[0] in "#&$":
        return False
    u, h = split_mask(mask)
    return glob(u, ident) and glob(h, ip)


class Rec:
    def __init__(self, mask, active, expire, lastmod, life, reason):
        self.mask, self.active, self.expire, self.lastmod, self.life, self.reason = mask, active, expire, lastmod, life, reason
        self.state = {}             # server -> '<' or '>'

    def copy(self):
        r = Rec(self.mask, self.active, self.expire, self.lastmod, self.life, self.reason)
        r.state = dict(self.state)
        for a in ('merged', 'unsure'):
            if hasattr(self, a):
                setattr(r, a, getattr(self, a))
        return r

    def __repr__(self):
        return "%s%s until %d of %d %r %r" % ("+" if self.active else "-", self.mask, self.expire, self.lastmod, self.reason, self.state)


def key(mask):
    u, h = split_mask(mask)
    return lower(u) + ("@" + lower(h) if h is not None else "")


class User:
    def __init__(self, c, server, nick, ident, ip, real, at):
        self.c, self.server, self.nick, self.ident, self.ip, self.real, self.at = c, server, nick, ident, ip, real, at
        self.host = HOST[ip] or ip
        self.reg = False
        self.got = []

    @property
    def who(self):
        return self.ident, self.host, self.ip, self.real

    def pump(self):
        ms = self.c.msgs()
        for m in ms:
            if m.cmd == "PING":
                self.c.send("PONG :" + m.params[-1])
            elif m.cmd == "001":
                self.reg = True
        self.got += ms
        return ms

    def __repr__(self):
        return "%s (%s@%s %s %r)" % (self.nick, self.ident, self.host, self.ip, self.real)


class CHECK(pbt.Check):
    RULE = "a G-line was in force and at least one user was removed or refused, and at least one user not named stayed or arrived while one was"
    QUICK, THOROUGH = 4000, 150000
    VARIANT = "plain"
    NETS = [(3, None, False), (3, [(0, 1), (1, 2)], False), (1, None, True)]

    def gen(self, rng, i, tier):
        net = rng.choice([0, 0, 0, 0, 1, 1, 1, 1, 2])
        n = self.NETS[net][0]
        masks = rng.sample(MASKS, rng.choice([3, 5, 8, 25]))
        ops = []
        conn = lambda k: [k, rng.randrange(NU), rng.randrange(n), rng.choice(IDENTS), rng.choice(IPS), rng.choice(REALS)]
        for _ in range(rng.randint(8, 32)):
            r = rng.random()
            s = rng.randrange(n)
            m, _c = rng.choice(masks)
            if rng.random() < .15:
                m = m.upper() if rng.random() < .5 else m.lower()
                if m.startswith("$r"):
                    m = "$R" + m[2:]
            exp = rng.choice([60, 60, 300, 3600, 3600, 100000, 604800, 604801, 0, -5])
            if r < .26:
                ops.append(["add", s, rng.random() < .7, m, exp, rng.choice(["go away", "Go Away", "AUTO bot", "other reason"]), rng.choice("++++++++-")])
            elif r < .34:
                ops.append(["flag", s, m, rng.choice("+---")])
            elif r < .40:
                ops.append(["mod", s, m, exp, rng.choice([None, "new reason", "go away"])])
            elif r < .47:
                ops.append(["local", s, m, rng.choice("><<"), rng.choice([None, None, rng.randrange(n)])])
            elif r < .53:
                ops.append(["ladd", s, rng.random() < .7, m, exp, "local reason", rng.choice([None, None, None, rng.randrange(n)])])
            elif r < .56:
                ops.append(["ldel", s, m])
            elif r < .74:
                ops.append(conn("conn"))
            elif r < .80:
                ops.append(conn("half"))
            elif r < .83:
                ops.append(["again", rng.randrange(NU), rng.choice(IDENTS), rng.choice(REALS)])
            elif r < .86:
                ops.append(["finish", rng.randrange(NU)])
            elif r < .90:
                ops.append(["join", rng.randrange(NU), rng.choice(CHANS)])
            elif r < .94:
                ops.append(["adv", rng.choice([30, 61, 61, 301, 3601, 40001, 40001])])
            elif r < .955:
                ops.append(["rehash", s])
            elif r < .98:
                ops.append(["split", rng.randrange(2)])
            else:
                ops.append(["heal"])
        return {"net": net, "ops": ops}

    def boot(self, k):
        n, topology, off = self.NETS[k]
        w = ircsim.boot_network(n, self.VARIANT, topology=topology, pingfreq=60000,
                                features={"GLINEMAXUSERCOUNT": str(MAXUSERS), "DISABLE_GLINES": "TRUE" if off else "FALSE", "OPLEVELS": "FALSE", "CONNECTTIMEOUT": "60000"},
                                extra='WebIRC { ip = "10.77.0.*"; password = "wpass"; description = "cgi"; };\nPort { webirc = yes; port = 6900; };\n'
                                      'Operator { local = no; class = "Local"; host = "*@*"; password = "$PLAIN$gl"; name = "glop"; gline = yes; local_gline = yes; badchan = yes; local_badchan = yes; wide_gline = yes; };\n')
        w.ops = []
        for i in range(n):
            c = w.client("Op%d" % i, i, ip="10.250.0.%d" % (i + 1), user="root", real="Operator")
            c.do("OPER glop gl")
            w.ops.append(c)
        w.adv(5000)
        for c in w.conns.values():
            c.lines()
        return w

    def run(self, case):
        k = case["net"]
        w = self.world("net%d" % k, lambda: self.boot(k))
        with pbt.case_of(self, w):
            self.off = self.NETS[k][2]
            self.w, self.n = w, w.n
            self.us = [None] * NU
            self.G = [dict() for _ in range(w.n)]       # server -> key -> Rec   (a group shares its Recs)
            self.L = [dict() for _ in range(w.n)]       # server -> key -> Rec   local ones
            self.cut = None
            self.labels, self.stats = set(), {"kept": 0, "barred": 0}
            self.hist = []
            self.seq = 0
            for op in case["ops"]:
                self.step(op)
            self.heal()
            self.settled()
            if self.stats["barred"]:
                self.labels.add("barred")
            return {"nontrivial": self.stats["barred"] > 0 and self.stats["kept"] > 0, "labels": sorted(self.labels)}

    # ---- the model
    def now(self):
        w = self.w
        w.sim.cmd("now")
        recs = w.sim.go()
        t = [r for r in recs if r[0] == "T"]
        w.absorb([r for r in recs if r[0] != "T"])
        return int(t[0][1]) // 1000

    def group(self, s):
        if self.cut is None:
            return list(range(self.n))
        a, b = self.w.topology[self.cut]
        side = {b}
        if self.w.topology == [(0, 1), (1, 2)] and self.cut == 0:
            side = {1, 2}
        return sorted(side if s in side else set(range(self.n)) - side)

    def expire(self, now):
        for s in range(self.n):
            for T in (self.G[s], self.L[s]):
                for k, r in list(T.items()):
                    if r.life <= now or (r.expire < now - MONTH and r.lastmod < now - MONTH):
                        del T[k]
                    elif r.expire <= now:
                        r.active = False
                        r.state = {}

    def active(self, r, s, now):
        st = r.state.get(s)
        return r.expire > now and (st == ">" or (r.active and st != "<"))

    def banned(self, s, who, now):
        if self.off:
            return None
        for T in (self.G[s], self.L[s]):
            for r in T.values():
                if self.active(r, s, now) and names(r.mask, *who):
                    return r
        return None

    def width(self, mask):
        for m, c in MASKS:
            if lower(m) == lower(mask):
                return c

    def refused(self, s, mask, force, local):
        """must the mask be refused to a local operator?"""
        c = self.width(mask)
        if c == "c":
            return False
        if c == "r" or (c == "o" and not force):
            return True
        if force:
            return False
        group = self.group(s)
        m = mask if mask[0] == "$" else "@".join(split_mask(mask))
        count = sum(1 for u in self.us if u is not None and u.reg and (u.server == s if local and mask[0] != "$" else u.server in group) and hits(m, *u.who))
        return count >= MAXUSERS

    def put(self, s, rec):
        for t in self.group(s):
            self.G[t][key(rec.mask)] = rec

    def change(self, s, k, now, action, expire, reason):
        """an operator on s changes a known global G-line; its servers all learn of it"""
        r = self.G[s][k]
        if expire is not None and not (now < expire <= now + 604800):
            return False
        if r.lastmod >= now:
            self.labels.add("same-second")
            return False
        new = r.copy()
        ch = False
        if expire is not None and expire != r.expire:
            new.expire, ch = expire, True
        if expire is not None and expire > r.life:
            new.life, ch = expire, True
        if reason is not None and lower(reason) != lower(r.reason):
            new.reason, ch = reason, True
        if new.expire > now or (expire or 0) > now:
            if action == "+" and not r.active:
                new.active, new.state, ch = True, {}, True
            elif action == "-" and r.active:
                new.active, new.state, ch = False, {}, True
        if ch:
            new.lastmod = now
            self.put(s, new)
        return ch

    # ---- operations
    def step(self, op):
        w, k = self.w, op[0]
        now = self.now()
        if k != "adv":
            w.adv((1000 - 0))
            now = self.now()
        self.expire(now)
        self.hist.append(op)
        if k in ("add", "flag", "mod", "local", "ladd", "ldel"):
            self.gline(op, now)
        elif k in ("conn", "half"):
            _, i, s, ident, ip, real = op
            u = self.us[i]
            if u is not None:
                u.c.close()
                w.run()
            s = s % self.n
            self.seq += 1
            via = HOST[ip] is not None or ":" in ip
            c = w.connect(s, "10.77.0.9" if via else ip, 6900 if via else 6667)
            u = self.us[i] = User(c, s, "u%d" % self.seq, ident, ip, real, now)
            if via:
                c.send("WEBIRC wpass cgi %s %s" % (u.host, ip))
            if k == "half":
                c.send("CAP LS 302")
            c.send("NICK " + u.nick, "USER %s 0 * :%s" % (ident, real))
            w.run()
            u.pump()
            w.run()
            u.pump()
            b = self.banned(s, u.who, now)
            if k == "conn":
                self.judge_arrival(u, b)
            elif c.eof:
                if not b:
                    raise Violation("half-registered %r was thrown out though no G-line names him: %r" % (u, u.got))
                self.us[i] = None
                self.stats["barred"] += 1
        elif k == "again":
            u = self.us[op[1]]
            if u is None or u.reg or u.c.eof:
                return
            u.c.send("USER %s 0 * :%s" % (op[2], op[3]))
            w.run()
            u.pump()
            u.ident, u.real = op[2], op[3]
            if u.c.eof:
                if not self.banned(u.server, u.who, now):
                    raise Violation("half-registered %r was thrown out though no G-line names him: %r" % (u, u.got))
                self.us[op[1]] = None
                self.stats["barred"] += 1
            else:
                self.labels.add("second USER")
        elif k == "finish":
            u = self.us[op[1]]
            if u is None or u.reg or u.c.eof:
                return
            u.c.send("CAP END")
            w.run()
            u.pump()
            w.adv(3000)
            u.pump()
            w.run()
            u.pump()
            self.labels.add("half-registered")
            self.judge_arrival(u, self.banned(u.server, u.who, now))
        elif k == "join":
            u = self.us[op[1]]
            if u is None or not u.reg:
                return
            u.pump()
            got = u.c.do("JOIN " + op[2])
            u.c.do("PART " + op[2])
            T = [self.G[u.server].get(lower(op[2])), self.L[u.server].get(lower(op[2]))]
            bad = any(r is not None and self.active(r, u.server, now) for r in T)
            refused = any(m.cmd == "474" for m in got)
            if bad != refused or refused == any(m.cmd == "JOIN" for m in got):
                raise Violation("%s %s by a G-line, but JOIN got %r" % (op[2], "is closed" if bad else "is not closed", got))
            self.labels.add("badchan" if bad else "join")
        elif k == "adv":
            w.adv(op[1] * 1000)
        elif k == "rehash":
            s = op[1] % self.n
            w.ops[s].do("REHASH")
            self.labels.add("rehash")
        elif k == "split":
            if self.cut is None and self.n > 1:
                a, b = w.topology[op[1]]
                w.sim.cmd("cut %d %d" % (a, b))
                w.run()
                self.cut = op[1]
                for i in range(self.n):         # from now on each side has its own
                    self.G[i] = {kk: r.copy() for kk, r in self.G[i].items()}
                for g in {tuple(self.group(i)) for i in range(self.n)}:
                    for kk, r in list(self.G[g[0]].items()):
                        for t in g[1:]:
                            self.G[t][kk] = r
                self.labels.add("split")
        elif k == "heal":
            self.heal()
        self.settled()

    def judge_arrival(self, u, b):
        if not u.reg and not u.c.eof:
            raise Violation("%r neither got in nor was refused: %r" % (u, u.got))
        if b and u.reg:
            raise Violation("%r got in on %s in spite of the G-line %r" % (u, ircsim.SERVERS[u.server], b))
        if not b and not u.reg:
            raise Violation("%r was refused on %s though no G-line names him: %r" % (u, ircsim.SERVERS[u.server], [m.raw for m in u.got[-3:]]))
        if b:
            if not any(m.cmd == "465" for m in u.got):
                raise Violation("%r was refused without 465: %r" % (u, u.got))
            self.stats["barred"] += 1
            self.us[self.us.index(u)] = None
        elif any(r.expire > self.now() for T in (self.G[u.server], self.L[u.server]) for r in T.values()):
            self.stats["kept"] += 1

    def gline(self, op, now):
        k, s = op[0], op[1] % self.n
        o = self.w.ops[s]
        o.lines()
        err = None
        G, L = self.G[s], self.L[s]
        if k == "add":                 # [!]+mask * expire :reason
            _, _, force, m, exp, reason, sign = op
            got = o.do("GLINE %s%s%s * %d :%s" % ("!" if force else "", sign, m, exp, reason))
            kk = key(m)
            if kk in G:
                self.change(s, kk, now, sign, now + exp, reason)
                self.labels.add("re-add")
            elif self.refused(s, m, force, False) or not 0 < exp <= 604800:
                err = True
                self.labels.add("refused")
            else:
                self.put(s, Rec("@".join(split_mask(m)) if m[0] not in "#$" else m, sign == "+", now + exp, now, now + exp, reason))
                self.labels.add("add " + ("forced " if force else "") + self.width(m))
        elif k == "flag":              # +mask *
            _, _, m, sign = op
            got = o.do("GLINE %s%s *" % (sign, m))
            if key(m) not in G:
                err = True
            else:
                self.change(s, key(m), now, sign, None, None)
                self.labels.add("flag" + sign)
        elif k == "mod":
            _, _, m, exp, reason = op
            got = o.do("GLINE %s * %d%s" % (m, exp, " :" + reason if reason else ""))
            if key(m) not in G:
                err = True
            else:
                self.change(s, key(m), now, None, now + exp, reason)
                self.labels.add("modify")
        elif k == "local":             # >mask [server]
            _, _, m, sign, target = op
            t = s if target is None else target % self.n
            if t not in self.group(s):
                return
            got = o.do("GLINE %s%s%s" % (sign, m, "" if target is None else " " + ircsim.SERVERS[t]))
            r = self.G[t].get(key(m))
            if r is None:
                err = True
            elif r.expire > now:
                r.state[t] = sign
                self.labels.add("local " + sign + (" elsewhere" if t != s else ""))
        elif k == "ladd":
            _, _, force, m, exp, reason, target = op
            t = s if target is None else target % self.n
            if t not in self.group(s) or (t != s and m[0] == "#"):
                return
            got = o.do("GLINE %s+%s%s %d :%s" % ("!" if force else "", m, "" if target is None else " " + ircsim.SERVERS[t], exp, reason))
            kk = key(m)
            if kk in self.L[t]:
                pass
            elif self.refused(t, m, force, True):
                err = True
            elif not 0 < exp <= 604800:
                err = True if t == s else None
            else:
                self.L[t][kk] = Rec("@".join(split_mask(m)) if m[0] not in "#$" else m, True, now + exp, 0, now + exp, reason)
                self.labels.add("local G-line" + (" elsewhere" if t != s else ""))
        elif k == "ldel":
            got = o.do("GLINE -%s 60 :bye" % op[2])
            if key(op[2]) not in L:
                err = True
            else:
                del L[key(op[2])]
                self.labels.add("local removed")
        self.w.run()
        got += o.msgs()
        errs = [m for m in got if m.cmd in ("512", "514", "515", "520", "481", "461", "402", "516", "517", "518", "519", "513")]
        if err and not errs:
            raise Violation("%r should have been refused, but the operator was told %r" % (op, got))

    def heal(self):
        if self.cut is None:
            return
        w = self.w
        self.settled()
        a, b = w.topology[self.cut]
        try:
            ircsim.link_servers(w, a, b)
        except ircsim.SimError:
            w.adv(70000)
            ircsim.link_servers(w, a, b)
        w.adv(3000)
        now = self.now()
        ga, gb = self.group(a), self.group(b)
        self.cut = None
        self.expire(now)
        A, B = self.G[a], self.G[b]
        out = {}
        for kk in set(A) | set(B):
            x, y = A.get(kk), B.get(kk)
            n = (x if y is None or (x is not None and x.lastmod > y.lastmod) else y).copy()
            o = y if n.lastmod != (y.lastmod if y else None) else x
            # a server that keeps its exception: one whose activity state is not changed
            n.state = {}
            for g, r in ((ga, x), (gb, y)):
                if r is None:
                    continue
                for t in g:
                    if t in r.state and r.active == n.active and r.expire > now:
                        n.state[t] = r.state[t]
            if x is not None and y is not None and x.life != y.life:
                n.life = max(x.life, y.life)
                n.unsure = min(x.life, y.life)
            if x is not None and y is not None and x.lastmod != y.lastmod:
                self.labels.add("merge")
                n.merged = True
            out[kk] = n
        for t in range(self.n):
            self.G[t] = out
        self.labels.add("heal")

    def settled(self):
        w = self.w
        w.run()
        now = self.now()
        self.expire(now)
        for i, u in enumerate(self.us):
            if u is None:
                continue
            u.pump()
            b = self.banned(u.server, u.who, now) if u.reg else None
            if u.c.eof:
                gone = [m for m in u.got if m.cmd in ("465", "ERROR")]
                if not u.reg:
                    if any("Registration Timeout" in m.raw for m in gone):
                        self.us[i] = None
                        continue
                    b = self.banned(u.server, u.who, now)
                if not b:
                    raise Violation("%r was removed from %s though no G-line names him: %r; known: %r" % (u, ircsim.SERVERS[u.server], gone, list(self.G[u.server].values()) + list(self.L[u.server].values())))
                if not any(m.cmd == "465" for m in gone):
                    raise Violation("%r was removed without 465: %r" % (u, gone))
                self.us[i] = None
                self.stats["barred"] += 1
                self.labels.add("removed")
            elif b:
                raise Violation("%r is still on %s in spite of the G-line %r" % (u, ircsim.SERVERS[u.server], b))
        for s in range(self.n):
            o = w.ops[s]
            if o.eof:
                raise Violation("the operator on %s is gone: %r" % (ircsim.SERVERS[s], o.lines()[-3:]))
            o.lines()
            have = {}
            for m in o.do("GLINE"):
                if m.cmd != "280":
                    continue
                mask, expire, lastmod, life, where, state, reason = m.params[1:8]
                have[(key(mask), where != "*")] = (state[-1], state[:-1], int(expire), int(lastmod), lower(reason))
            want = {}
            for loc, T in ((False, self.G[s]), (True, self.L[s])):
                for kk, r in T.items():
                    live = r.expire > now
                    want[(kk, loc)] = ("+" if r.active and live else "-", r.state.get(s, "") if live else "", r.expire, r.lastmod, lower(r.reason))
            for kk in set(have) | set(want):
                h, v = have.get(kk), want.get(kk)
                r = (self.L if kk[1] else self.G)[s].get(kk[0])
                if r is not None and getattr(r, "unsure", now + 1) <= now:
                    continue
                if h and v and h[3] <= v[3] and getattr(r, 'merged', False):
                    h = h[:3] + v[3:4] + h[4:]      # a side that had nothing to change keeps its older time
                if h != v:
                    if h and v and v[2] <= now and h[2] <= now and h[0] == v[0] == "-" and h[3:] == v[3:]:
                        continue        # expired on both: when exactly does not matter
                    raise Violation("%s lists for %s: %r, expected %r (now %d)" % (ircsim.SERVERS[s], kk[0] + (" (local)" if kk[1] else ""), h, v, now))
