"""SASL: logging in through a services server, and the accounts that result."""
import re
import ircsim, pbt, p10
from pbt import Violation

PROP = {
    "id": "C25",
    "title": "A SASL login reaches exactly the connection that asked, ends exactly once, and the account it gives is known identically everywhere",
    "statement": "The sasl capability is offered exactly while a login server and mechanisms are configured and that server is linked, and its coming and going is announced to the clients that follow capabilities. AUTHENTICATE opens one session per connection, "
                 "whose messages go to the login server with a cookie of their own and whose replies reach that connection only; a session ends by success, failure, abort, timeout or disconnection, and a reply for an ended session reaches nobody. "
                 "After success a client is logged in under the given account with the given id and flags, from its registration on, and cannot authenticate again; accounts, ids and flags given by SASL or by ACCOUNT are the same on every server, including those that link later.",
    "quantifier": {"over": ["histories", "inputs", "schedules"],
                   "text": "histories of logins by registered and unregistered clients of two servers, replies in any order to current, ended and unknown sessions, timeouts, aborts, disconnections, configuration changes and departures and returns of the login server"},
    "why_tests_cant": "The end-to-end flow needs a login server, which the test suite does not have (its own comment says so); what counts is the order of replies, timeouts, aborts and disconnections.",
    "anchors": {
        "files": ["ircd/m_sasl.c", "ircd/sasl.c", "ircd/m_xreply.c", "ircd/m_account.c", "ircd/m_cap.c", "ircd/s_auth.c", "ircd/s_user.c", "ircd/ircd_netconf.c"],
        "mechanism": [{"name": "sessions", "where": "ircd/sasl.c sasl_session_add(), sasl_send_xreply(); ircd/m_sasl.c"},
                      {"name": "availability", "where": "ircd/sasl.c sasl_check_capability(), ircd/m_cap.c cap_update_availability()"},
                      {"name": "accounts", "where": "ircd/s_auth.c auth_set_account(), ircd/m_account.c, ircd/s_user.c umode_str()"}],
        "observe_at": ["numerics 330, 900, 903-908, 461", "AUTHENTICATE, CAP NEW/DEL/ACK/NAK", "XQUERY and N messages at the login server"],
    },
}
TECHNIQUE = "model-based random testing: histories in a simulated network with a played login server, every message to clients and servers compared with a model; under AddressSanitizer without free lists"

NC = 6
KINDS = ["LS 302", "LS 302", "notify", "LS", "LS 302", "LS"]      # how client i negotiates
INST = [0, 0, 0, 1, 1, 1]
SRV = ["hub.test.net", "leaf1.test.net"]
UNAVAIL = "The login server is currently disconnected.  Please excuse the inconvenience."
IDS = ["0", "1", "77", "2147483647", "2147483648", "5000000000", "18446744073709551615"]


class K:
    pass


class CHECK(pbt.Check):
    RULE = "a session was opened and ended, and a reply for an ended or unknown session was sent or an account was given"
    QUICK, THOROUGH = 4500, 120000
    VARIANT = "asan"

    def acct(self, rng):
        a = rng.choice(["acc", "Login12", "twelveletter", "a"])
        r = rng.random()
        if r < .3:
            return a
        if r < .6:
            return a + ":" + rng.choice(IDS)
        return a + ":" + rng.choice(IDS) + ":" + rng.choice(IDS) + ("" if r < .9 else " +x")

    def gen(self, rng, i, tier):
        ops = []
        if rng.random() < .8:
            for c in rng.sample(range(NC), rng.randint(1, NC)):
                if rng.random() < .9:
                    ops.append(["req", c, "sasl"])
        for _ in range(rng.randint(12, 60)):
            r = rng.random()
            c = rng.randrange(NC)
            if r < .30:
                p = rng.choice(["PLAIN", "PLAIN", "EXTERNAL", "plain", "SCRAM-X", "+", "dGVzdA==", "*", "A" * rng.choice([399, 400, 401]), "", ":", "x y"])
                ops.append(["auth", c, p])
            elif r < .58:
                t = rng.choice(["OK", "OK", "OK", "NO", "SASL", "SASL"])
                t = (t + " " + self.acct(rng) if rng.random() < .85 else t) if t == "OK" else t + " " + rng.choice(["+", "bad password", "SGVsbG8=", "x"])
                if rng.random() < .1:
                    t = rng.choice(["ok acc", "no way", "sasl +", "OKAY", "NO", "SASL", "", "FOO bar", "OK "])
                ops.append(["reply", rng.choice([-1, -1, -1, -2, 0, 1, 2]), t, rng.random() < .06])
            elif r < .66:
                ops.append(["adv", rng.choice([1, 5, 25, 29, 30, 31, 61])])
            elif r < .72:
                ops.append(["end", c])
            elif r < .79:
                ops.append([rng.choice(["gone", "quit", "new", "new"]), c])
            elif r < .84:
                ops.append(["req", c, rng.choice(["sasl", "sasl", "sasl", "-sasl", "sasl away-notify"])])
            elif r < .86:
                ops.append(["ls", c])
            elif r < .89:
                ops.append(["ac", c, self.acct(rng).split(" ")[0]])
            elif r < .95:
                k = rng.choice(["sasl.server", "sasl.mechanisms", "sasl.timeout"])
                v = {"sasl.server": ["peer1.test.net", "peer*.net", "none.test.net", ""], "sasl.mechanisms": ["PLAIN", "PLAIN,EXTERNAL", "plain,SCRAM-X", ""], "sasl.timeout": ["5", "30", "60", ""]}[k]
                ops.append(["cf", k, rng.choice(v)])
            elif r < .96:
                ops.append(["intro", rng.choice(["acc", "twelveletter", "thirteenchars", "averyveryverylongaccountname"]), rng.choice(IDS[1:]), rng.choice(IDS)])
            elif r < .985:
                ops.append([rng.choice(["leave", "return", "return"])])
            else:
                ops.append([rng.choice(["split", "heal", "heal"])])
        return {"ops": ops}

    def boot(self):
        f = {"CONNECTTIMEOUT": "60000", "CAP_SASL": "TRUE", "NICKDELAY": None, "NETWORK_FEATURES": None, "HIDDEN_HOST": "users.test.net", "HOST_HIDING": "TRUE"}
        w = ircsim.boot_network(2, self.VARIANT, features=f, pingfreq=60000)
        w.svc = p10.Peer(w).handshake()
        w.login = p10.Peer(w, "peer1.test.net", 90, 0, "10.9.0.1", flags="+s6").handshake()
        now = w.svc.now()
        w.svc.send("%s CF %d sasl.server :peer1.test.net" % (w.svc.num, now), "%s CF %d sasl.mechanisms :PLAIN,EXTERNAL" % (w.svc.num, now))
        w.adv(2000)
        w.op = [w.client("Oper%d" % s, s, ip="10.250.0.%d" % s, user="o") for s in (0, 1)]
        for o in w.op:
            o.do("OPER oper operpass")
        w.cl = [self.enter(w, i) for i in range(NC)]
        w.adv(12000)
        for c in w.cl:
            c.c.lines()
        w.svc.pump()
        w.login.pump()
        return w

    def enter(self, w, i):
        k = K()
        k.i, k.nick, k.kind, k.inst = i, "cl%d" % i, KINDS[i], INST[i]
        k.ip = "10.5.%d.%d" % (k.inst, i)
        k.c = w.connect(k.inst, k.ip, 6667)
        k.c.send("CAP " + ("LS 302" if k.kind == "LS 302" else "LS"), "NICK " + k.nick, "USER u%d 0 * :real" % i)
        w.run()
        for m in k.c.msgs():
            if m.cmd == "PING":
                k.c.send("PONG :" + m.params[-1])
        if k.kind == "notify":
            k.c.send("CAP REQ :cap-notify")
        w.run()
        k.user = k.sasl = k.done = False
        k.cookie, k.deadline, k.acct, k.x = None, 0, None, False
        return k

    def run(self, case):
        w = self.world("net", self.boot)
        with pbt.case_of(self, w):
            self.w = w
            self.login = w.login
            self.cl = []
            for k in w.cl:
                n = K()
                n.__dict__.update(k.__dict__)
                self.cl.append(n)
            self.cf = {"sasl.server": "peer1.test.net", "sasl.mechanisms": "PLAIN,EXTERNAL"}
            self.linked, self.cut = True, False
            self.leafcf = None              # what the leaf knows while it is split off
            self.avail = [True, True]
            self.want = {k.i: [] for k in self.cl}
            self.wantx = []                 # expected XQUERYs
            self.cookies = []               # [cookie, server, client or None]
            self.stat = [[0, 0], [0, 0]]
            self.labels, self.ended, self.odd = set(), 0, 0
            self.fresh = None
            self.drain()
            for o in case["ops"]:
                w.adv(3000)
                self.expire()
                self.do(o)
                self.check(o)
            w.adv(3000)
            self.expire()
            self.check(["the end"])
            self.final()
            return {"nontrivial": self.ended > 0 and self.odd > 0, "labels": sorted(self.labels), "checks": len(case["ops"])}

    def drain(self):
        for k in self.cl:
            if k:
                k.c.lines()
        self.w.svc.pump()
        self.login.pump()

    # ---- the model
    def now(self):
        return self.w.svc.now()

    def conf(self, s):
        return self.leafcf if s == 1 and self.leafcf is not None else self.cf

    def reach(self, s):
        return self.linked and (s == 0 or not self.cut)

    def offered(self, s):
        c = self.conf(s)
        return bool(c.get("sasl.server") in ("peer1.test.net", "peer*.net") and c.get("sasl.mechanisms") and self.reach(s))

    def update(self):
        """availability may have changed"""
        for s in (0, 1):
            a = self.offered(s)
            if a == self.avail[s]:
                continue
            self.avail[s] = a
            self.labels.add("offered again" if a else "withdrawn")
            for k in self.cl:
                if k and k.inst == s and k.user and k.kind != "LS":
                    if a:
                        self.want[k.i].append("CAP NEW sasl" + ("=" + self.capval[s] if k.kind == "LS 302" else ""))
                    else:
                        self.want[k.i].append("CAP DEL sasl")
                        k.sasl = False

    @property
    def capval(self):
        # the last mechanisms that were set
        return [self.conf(s).get("sasl.mechanisms") or "" for s in (0, 1)]

    def drop(self, k):
        for x in self.cookies:
            if x[2] is k:
                x[2] = None
        if k.cookie is not None:
            self.ended += 1
        k.cookie = None

    def expire(self):
        now = self.now()
        for k in self.cl:
            if k and k.cookie is not None and now >= k.deadline:
                self.want[k.i].append("904 Authentication timed out")
                self.drop(k)
                self.labels.add("timeout")

    def xnum(self, s):
        return self.w.svc.servers.get(SRV[s]) or self.w.svc.hubnum

    def do(self, o):
        w, k = self.w, o[0]
        if k == "adv":
            w.adv(o[1] * 1000)
            self.expire()
            return
        if k == "reply":
            self.reply(o)
            return
        if k == "cf":
            key, v = o[1], o[2]
            w.svc.send("%s CF %d %s%s" % (w.svc.num, self.now(), key, " :" + v if v else ""))
            w.run()
            if self.cut and self.leafcf is None:
                self.leafcf = dict(self.cf)
            if v:
                self.cf[key] = v
            else:
                self.cf.pop(key, None)
            self.update()
            return
        if k == "leave":
            if self.linked:
                self.login.c.close()
                w.run()
                self.linked = False
                self.update()
            return
        if k == "return":
            if not self.linked:
                self.login = p10.Peer(w, "peer1.test.net", 90, 0, "10.9.0.1", flags="+s6").handshake()
                self.linked = True
                self.fresh = list(self.login.log)
                self.update()
                self.accounts()
            return
        if k == "split":
            if not self.cut:
                w.sim.cmd("cut 0 1")
                w.run()
                self.cut = True
                self.leafcf = dict(self.cf)
                self.update()
            return
        if k == "heal":
            if self.cut:
                gone = [x for x in self.leafcf if x not in self.cf]
                if gone:
                    return
                ircsim.link_servers(w, 0, 1)
                w.adv(1000)
                self.cut = False
                self.leafcf = None
                self.update()
            return
        if k == "intro":
            n = "Intro%d" % w.svc.nextuser
            w.svc.user(n, modes="+r %s:%s%s" % (o[1], o[2], ":" + o[3] if o[3] != "0" else ""))
            w.run()
            if self.linked:
                got = [l.split(" ")[8] for l in self.strip(self.login.pump()) if re.match(r"\S+ N " + n, l)]
                want = "%s:%s%s" % (o[1][:12], o[2], ":" + o[3] if o[3] != "0" else "")
                if got != [want]:
                    raise Violation("a user introduced with the account %s:%s:%s was passed on with %r, expected %r" % (o[1], o[2], o[3], got, want))
            return
        c = self.cl[o[1]]
        if k == "new":
            if c is None:
                self.cl[o[1]] = self.enter(w, o[1])
                w.adv(6000)
                self.expire()
                self.cl[o[1]].c.lines()
            return
        if c is None:
            return
        if k in ("gone", "quit"):
            if k == "quit":
                c.c.send("QUIT")
                w.run()
            c.c.close()
            w.run()
            self.drop(c)
            self.cl[o[1]] = None
            self.want[o[1]] = []
            return
        if k == "end":
            if not c.user:
                c.c.send("CAP END")
                w.run()
                c.user = True
                if c.done:
                    self.want[c.i].append("900 %s!u%d@%s %s" % (c.nick, c.i, c.ip, c.acct[0] if c.acct else ""))
                self.want[c.i].append("001")
            return
        if k == "ls":
            c.c.send("CAP LS 302" if c.kind == "LS 302" else "CAP LS")
            w.run()
            a = self.avail[c.inst]
            self.want[c.i].append("CAP LS" + (" sasl" + ("=" + self.capval[c.inst] if c.kind == "LS 302" else "") if a else ""))
            return
        if k == "req":
            c.c.send("CAP REQ :" + o[2])
            w.run()
            if self.avail[c.inst] or o[2][0] == "-":
                self.want[c.i].append("CAP ACK " + " ".join(sorted(o[2].split())))
                c.sasl = o[2][0] != "-"
            else:
                self.want[c.i].append("CAP NAK " + " ".join(sorted(o[2].split())))
            return
        if k == "ac":
            if not c.user or self.cut:
                return
            p = (o[2].split(":") + [None, None])[:3]
            if c.acct:
                p[0] = c.acct[0]
                if c.acct[1]:
                    p[1] = str(c.acct[1])
            num = self.numof(c)
            w.svc.send(" ".join(x for x in (w.svc.num, "AC", num, p[0], p[1], p[2] if p[1] else None) if x is not None))
            w.run()
            if not c.acct:
                c.acct = [p[0], int(p[1] or 0), 0]
            if p[1] is not None and p[2] is not None:
                c.acct[2] = int(p[2])
            self.labels.add("ACCOUNT")
            self.odd += 1
            if self.linked:
                self.wantac = "AC %s %s" % (num, c.acct[0]) + ((" %d" % c.acct[1] + (" %d" % c.acct[2] if p[2] is not None else "")) if c.acct[1] else "")
                got = [l.split(" ", 1)[1] for l in self.strip(self.login.pump()) if " AC " in l]
                if got != [self.wantac]:
                    raise Violation("an ACCOUNT message was passed on as %r, expected %r" % (got, self.wantac))
            return
        # AUTHENTICATE
        p = o[2]
        c.c.send("AUTHENTICATE " + p)
        w.run()
        p = "" if p == ":" else p.split(" ")[0]
        wt = self.want[c.i]
        if not p:
            wt.append("461")
        elif not c.sasl:
            pass
        elif c.done or c.acct:
            wt.append("907")
        elif not self.offered(c.inst):
            wt.append("904 " + UNAVAIL)
        elif len(p) > 400:
            wt.append("905")
        elif p == "*":
            wt.append("906")
            if c.cookie is not None:
                self.labels.add("abort")
            self.drop(c)
        elif c.cookie is None:
            ms = [x.strip(" ").lower() for x in self.conf(c.inst)["sasl.mechanisms"].split(",")]
            if p.lower() not in ms:
                wt.append("908 " + self.conf(c.inst)["sasl.mechanisms"])
                return
            c.deadline = self.now() + int(self.conf(c.inst).get("sasl.timeout") or 30)
            self.wantx.append((c, "SASL %s %s" % (self.numof(c) if c.user else c.ip + " _", p)))
        else:
            self.wantx.append((c, "SASL " + p))

    def numof(self, c):
        self.w.svc.pump()
        return self.w.svc.nicks[c.nick] if not (self.cut and c.inst) else "?"

    def reply(self, o):
        _, which, text, wrong = o
        if not self.linked or not self.cookies:
            return
        w = self.w
        cookie, s, k = self.cookies[which % len(self.cookies)]
        if self.cut and s == 1:
            return
        if wrong:
            cookie, k = cookie + 1000, None
        self.login.send("%s XR %s sasl:%d :%s" % (self.login.num, self.xnum(s), cookie, text))
        w.run()
        if k is None:
            self.odd += 1
            self.labels.add("reply to nobody")
            return
        wt = self.want[k.i]
        if text == "OK" or text[:3] == "OK ":
            info = text[3:]
            if not k.user:
                if info.strip():
                    body, _, extra = info.partition(" ")
                    p = (body.split(":") + ["0", "0"])[:3]
                    k.acct = [p[0], int(p[1]), int(p[2])]
                    k.x = extra == "+x"
            else:
                wt.append("900 %s!u%d@%s %s" % (k.nick, k.i, k.ip, k.acct[0] if k.acct else ""))
            wt.append("903")
            self.drop(k)
            k.done = True
            self.odd += 1
            self.labels.add("success, " + ("registered" if k.user else "unregistered"))
            self.stat[s][0] += 1
        elif text[:3].upper() == "NO ":
            wt.append("904 " + text[3:])
            self.drop(k)
            self.labels.add("failure")
            self.stat[s][1] += 1
        elif text[:5].upper() == "SASL ":
            wt.append("AUTHENTICATE " + text[5:])

    # ---- comparing
    def strip(self, ls):
        return [l.split(" ", 1)[1] if l[0] == "@" else l for l in ls]

    def check(self, o):
        self.w.svc.pump()
        self.expire()
        slow = o[0] in ("heal", "return", "new", "the end")      # time passes meanwhile
        for k in self.cl:
            if k is None:
                continue
            got = []
            for m in k.c.msgs():
                if m.cmd in ("001", "461", "903", "905", "906", "907"):
                    got.append(m.cmd)
                elif m.cmd == "904":
                    got.append("904 " + m.params[-1])
                elif m.cmd == "908":
                    got.append("908 " + m.params[1])
                elif m.cmd == "900":
                    # a services server that says OK before it sent the account leaves the name empty
                    got.append("900 %s %s" % (m.params[1], m.params[2] if len(m.params) > 3 else ""))
                    if len(m.params) > 3 and not m.params[-1].endswith(m.params[2]):
                        got.append("900 text " + m.params[-1])
                elif m.cmd == "AUTHENTICATE":
                    got.append("AUTHENTICATE " + " ".join(m.params))
                elif m.cmd == "CAP":
                    l = m.params[-1].split()
                    if m.params[1] == "LS":
                        l = [x for x in l if x.split("=")[0] == "sasl"]
                        if m.params[2] == "*":
                            raise Violation("the list of capabilities takes two lines")
                    got.append(" ".join(["CAP", m.params[1]] + sorted(l)))
            want = self.want[k.i]
            # a hidden host is the host from the moment it is set
            if k.acct:
                got = [x.replace(k.acct[0] + ".users.test.net", k.ip) for x in got]
            if (sorted(got) != sorted(want)) if slow else got != want:
                raise Violation("after %r: %s (%s, %s, sasl %s, session %s, done %s, account %s) got %r, expected %r" % (
                    o, k.nick, SRV[k.inst], "registered" if k.user else "unregistered", k.sasl, k.cookie, k.done, k.acct, got, want))
            self.want[k.i] = []
        xq = [l for l in self.strip(self.login.pump()) + (self.fresh or []) if re.match(r"\S+ XQ ", l)] if self.linked else []
        self.fresh = None
        if len(xq) != len(self.wantx):
            raise Violation("after %r: the login server got %r, expected %r" % (o, xq, [x for _, x in self.wantx]))
        for l, (k, text) in zip(xq, self.wantx):
            m = re.match(r"(\S+) XQ (\S+) sasl:(\d+) :(.*)$", l)
            if not m or m.group(1) != self.xnum(k.inst) or m.group(2) != self.login.num or m.group(4) != text:
                raise Violation("after %r: the login server got %r, expected %r from %s" % (o, l, text, SRV[k.inst]))
            n = int(m.group(3))
            if k.cookie is None:
                if any(x[0] == n and x[1] == k.inst for x in self.cookies):
                    raise Violation("the cookie %d was used before" % n)
                k.cookie = n
                self.cookies.append([n, k.inst, k])
            elif k.cookie != n:
                raise Violation("%s's session changed its cookie from %d to %d" % (k.nick, k.cookie, n))
        self.wantx = []

    def accounts(self):
        """the burst to the login server shows every account"""
        if self.cut:
            return
        for k in self.cl:
            if k is None or not k.user:
                continue
            l = [x for x in self.login.log if re.match(r"\S+ N %s " % k.nick, x)]
            if len(l) != 1:
                raise Violation("%s was introduced to the new server with %r" % (k.nick, l))
            p = l[0].split(" ")
            m = p[7] if p[7][0] == "+" else ""
            a = p[8] if "r" in m else None
            want = None
            if k.acct:
                want = k.acct[0] + (":%d" % k.acct[1] + (":%d" % k.acct[2] if k.acct[2] else "") if k.acct[1] else "")
            if a != want:
                raise Violation("%s was introduced with the account %r, expected %r: %s" % (k.nick, a, want, l[0]))

    def final(self):
        w = self.w
        if self.linked:
            self.do(["leave"])
        w.adv(3000)
        self.do(["return"])
        for s in (0, 1):
            for k in self.cl:
                if k is None or not k.user or (self.cut and k.inst != s):
                    continue
                r = [m for m in w.op[s].do("WHOIS " + k.nick) if m.cmd == "330"]
                got = r[0].params[2] if r else None
                want = k.acct[0] if k.acct else None
                if got != want:
                    raise Violation("%s knows %s under the account %r, expected %r" % (SRV[s], k.nick, got, want))
            r = [m.params[-1] for m in w.op[s].do("STATS S") if m.cmd.isdigit()]
            n = [int(x.split(": ")[1]) for x in r if "auths:" in x]
            if n and n != self.stat[s]:
                raise Violation("STATS S of %s counts %r logins and failures, expected %r" % (SRV[s], n, self.stat[s]))
            self.w.adv(1000)
