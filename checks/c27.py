"""Spam filters: messages held for a verdict."""
import ircsim, pbt, p10
from pbt import Violation

PROP = {
    "id": "C27",
    "title": "A message that matches a spam filter is held until its verdict: delivered or refused exactly once, or forgotten with its sender or target",
    "statement": "While a spam filter server is configured and linked, a message of a local user who is not an operator that matches an active filter of its kind reaches nobody; the filter server is asked about it with a number of its own, its sender, its target and what the filter captured. "
                 "A positive verdict delivers the message as it would be delivered if it were sent at that moment, a negative one refuses it, and without a verdict one of these happens, as configured, when the time limit passes; each held message ends exactly once. "
                 "Verdicts for unknown or ended messages have no effect, and messages whose sender or target has gone are forgotten. Messages that match nothing, operators' messages and everything while there is nobody to ask are delivered as if there were no filters.",
    "quantifier": {"over": ["histories", "inputs", "schedules"],
                   "text": "histories of messages among users of two servers and their channel with verdicts in any order, timeouts, configuration changes, departures, mode changes, silences and the filter server coming and going in between"},
    "why_tests_cant": "Every interleaving of held messages, verdicts, timeouts and departures of the users and channels they refer to matters; tests cover one held message that is accepted and one that is refused.",
    "anchors": {
        "files": ["ircd/sline.c", "ircd/ircd_relay.c", "ircd/m_xreply.c", "ircd/m_wallchops.c", "ircd/m_wallvoices.c", "ircd/m_part.c", "ircd/m_quit.c", "ircd/s_misc.c", "ircd/channel.c"],
        "mechanism": [{"name": "hold queue", "where": "ircd/sline.c sline_hold_add(), sline_hold_unlink_free(), sline_cleanup_client(), sline_cleanup_channel()"},
                      {"name": "verdicts", "where": "ircd/sline.c sline_xreply_handler(), sline_release_hold(), sline_block_message()"},
                      {"name": "timeouts", "where": "ircd/sline.c sline_hold_timeout_callback()"}],
        "observe_at": ["PRIVMSG, NOTICE, 401, 404, 301 at every client", "XQUERY at the filter server", "STATS s"],
    },
}
TECHNIQUE = "model-based random testing: histories in a simulated network with a played filter server, every message to users and to the filter server compared with a model; under AddressSanitizer without free lists"

NU = 6
CHAN = "#c"
FILTERS = [("sp[a-m]m", "A"), ("buy ([a-z]+) ([0-9]+)", "PC"), ("^(x)(y*)$", "P"), ("((a)b)c", "C"), ("leav(ing)", "LQ")]   # the last one is asked first
ECHO = (1, 4)
TYPES = {"A": 15, "P": 1, "C": 2, "L": 4, "Q": 8, "PC": 3, "LQ": 12}
TEXTS = ["spam", "real spam 1", "buy cheap 5", "do buy some 77 spam", "x", "xyy", "abc", "leaving now", "hello", "SPAM", "spam " + "l" * 300, ":spam", "span"]
VERBS = ["PRIVMSG", "PRIVMSG", "PRIVMSG", "NOTICE", "WALLCHOPS", "WALLVOICES"]


class U:
    pass


class E:
    pass


class CHECK(pbt.Check):
    RULE = "a held message was delivered, one was refused, and one was forgotten or timed out"
    QUICK, THOROUGH = 6000, 250000
    VARIANT = "asan"

    def gen(self, rng, i, tier):
        ops = []
        for _ in range(rng.randint(12, 60)):
            r = rng.random()
            u = rng.randrange(NU)
            if r < .36:
                v = rng.choice(VERBS)
                t = CHAN if v[0] == "W" or rng.random() < .45 else rng.randrange(NU)
                ops.append(["msg", u, v, t, rng.choice(TEXTS[:8]) if rng.random() < .8 else rng.choice(TEXTS)])
            elif r < .60:
                ops.append(["reply", rng.choice([-1, -1, -2, -3, 0, 1]), rng.choice(["YES", "YES", "YES", "NO", "NO", "yes", "No"]) if rng.random() < .93 else rng.choice(["", "MAYBE", "YESS", "Y"]), rng.choice([0] * 12 + [1, 2])])
            elif r < .65:
                ops.append(["adv", rng.choice([5, 30, 60, 75])])
            elif r < .70:
                ops.append(["quit", u, rng.choice([None, "leaving", "spam bye", "bye"])])
            elif r < .74:
                ops.append(["new", u])
            elif r < .79:
                ops.append(["part", u, rng.choice([None, "leaving", "spam bye", "bye"])])
            elif r < .84:
                ops.append(["join", u])
            elif r < .86:
                ops.append(["kick", u, rng.randrange(NU)])
            elif r < .895:
                ops.append(["mode", u, rng.choice(["+m", "+m", "-m", "+n", "-n", "+v", "-v", "+o", "-o"]), rng.randrange(NU)])
            elif r < .92:
                ops.append(["umode", u, rng.choice(["+c", "-c", "+R", "-R"])])
            elif r < .935:
                ops.append(["away", u, rng.choice(["gone", ""])])
            elif r < .945:
                ops.append(["silence", u, rng.choice("++-"), rng.randrange(3)])
            elif r < .95:
                ops.append(["oper", u])
            elif r < .975:
                k = rng.choice(["sline.server", "sline.hold_timeout", "sline.hold_timeout_block"])
                v = {"sline.server": ["services.test.net", "services.test.net", "none.test.net", ""], "sline.hold_timeout": ["60", "20", "300", "", "0"], "sline.hold_timeout_block": ["0", "no", "1", "true", ""]}[k]
                ops.append(["cf", k, rng.choice(v)])
            elif r < .98:
                ops.append(["nick", u])
            elif r < .988:
                ops.append(["sl", rng.randrange(len(FILTERS)), rng.choice("+-"), rng.choice(list(TYPES))])
            else:
                ops.append([rng.choice(["leave", "return", "return"])])
        return {"ops": ops}

    def boot(self):
        f = {"CONNECTTIMEOUT": "60000", "NICKDELAY": None, "NETWORK_FEATURES": None, "HIS_USERIP": None}
        w = ircsim.boot_network(2, self.VARIANT, features=f, pingfreq=60000)
        w.svc = p10.Peer(w, "services.test.net").handshake()
        w.aux = p10.Peer(w, "peer1.test.net", 90, 0, "10.9.0.1", flags="+s6").handshake()
        now = w.svc.now()
        w.base = now
        w.aux.send("%s CF %d sline.server :services.test.net" % (w.aux.num, now))
        for i, (p, t) in enumerate(FILTERS):
            w.aux.send("%s SL + %d 0 %s :%s" % (w.aux.num, now - 100, t, p))
        w.adv(2000)
        w.op = [w.client("Oper%d" % s, s, ip="10.250.0.%d" % s, user="o") for s in (0, 1)]
        for o in w.op:
            o.do("OPER oper operpass")
        w.us = [self.enter(w, i) for i in range(NU)]
        w.adv(20000)
        for u in w.us:
            u.c.do("JOIN " + CHAN)
        w.us[0].c.do("MODE %s +ovvnt %s %s %s" % (CHAN, w.us[3].nick, w.us[1].nick, w.us[4].nick))
        w.adv(30000)
        for c in [u.c for u in w.us] + w.op:
            c.lines()
        for p in (w.svc, w.aux):
            p.pump()
            p.log = []
        return w

    def enter(self, w, i):
        u = U()
        u.i, u.s = i, i // 3
        u.nick, u.ip, u.user = "us%d" % i, "10.4.0.%d" % i, "u%d" % i
        u.c = w.client(u.nick, u.s, ip=u.ip, user=u.user, caps=("echo-message",) if i in ECHO else ())
        u.away, u.modes, u.sil, u.oper = None, set(), set(), False
        return u

    def run(self, case):
        w = self.world("net", self.boot)
        with pbt.case_of(self, w):
            self.w = w
            self.us = []
            for u in w.us:
                n = U()
                n.__dict__.update(u.__dict__)
                n.modes, n.sil = set(), set()
                self.us.append(n)
            self.on = {u: set() for u in self.us}
            self.on[self.us[0]].add("o")
            self.on[self.us[3]].add("o")
            self.on[self.us[1]].add("v")
            self.on[self.us[4]].add("v")
            self.cm = {"n"}
            self.cf = {"sline.server": "services.test.net", "sline.hold_timeout": "60", "sline.hold_timeout_block": "1"}
            self.fl = [[TYPES[t], True] for p, t in FILTERS]
            self.linked = True
            self.svc = w.svc
            self.q = []                       # held messages
            self.all = []                     # every one that was ever held
            self.lastc = self.w.base
            self.want = {u: [] for u in self.us}
            self.wantx = []
            self.stat = [dict.fromkeys(("hits", "held", "rel", "blk", "acc", "rej", "to"), 0) for _ in (0, 1)]
            self.n = dict.fromkeys(("delivered", "refused", "forgotten"), 0)
            self.labels = set()
            self.drain()
            for o in case["ops"]:
                self.pace(2000)
                self.do(o)
                self.check(o)
            self.pace(2000)
            self.check(["the end"])
            self.final()
            return {"nontrivial": all(self.n.values()), "labels": sorted(self.labels), "checks": len(case["ops"])}

    def drain(self):
        for u in self.us:
            if u:
                u.c.lines()
        self.svc.pump()
        self.w.aux.pump()

    # ---- time
    def timeout(self):
        v = self.cf["sline.hold_timeout"]
        return int(v) if v else 60

    def block(self):
        v = self.cf["sline.hold_timeout_block"]
        return v == "" or v in ("1", "true", "yes")

    def pace(self, ms):
        """Lets time pass, and past the time at which a held message may or may not have timed out."""
        self.w.adv(ms)
        now = self.w.aux.now()
        for _ in range(20):
            if not any(e.t + self.timeout() <= now + 3 and max(e.t + self.timeout(), self.lastc) + 12 > now for e in self.q):
                break
            self.w.adv(5000)
            now += 5
        for e in list(self.q):
            if e.t + self.timeout() <= now:
                self.labels.add("timed out")
                self.stat[e.s]["to"] += 1
                if self.block():
                    self.refuse(e)
                else:
                    self.stat[e.s]["rel"] += 1
                    self.release(e)

    # ---- the model
    def name(self, t):
        return CHAN if t == CHAN else t.nick

    def cansend(self, u):
        if u in self.on:
            return not ("m" in self.cm and not self.on[u])
        return not self.cm & {"m", "n"}

    def put(self, u, line):
        self.want[u].append(line)

    def full(self, u):
        return "%s!%s@%s" % (u.nick, u.user, u.ip)

    def deliver(self, u, verb, t, text):
        """What a message does when nothing holds it."""
        if t == CHAN:
            if not self.on:
                return 0
            if not self.cansend(u):
                return 0
            if verb[0] == "W":
                what = "NOTICE @%s :%s %s" % (CHAN, "@" if verb == "WALLCHOPS" else "+", text)
                to = [x for x in self.on if x is not u and (("o" in self.on[x]) or (verb == "WALLVOICES" and self.on[x]))]
            else:
                what = "%s %s :%s" % (verb, CHAN, text)
                to = [x for x in self.on if x is not u]
        else:
            if self.silenced(u, t) or self.closed(u, t):
                return 0
            if verb == "PRIVMSG" and t.away:
                self.put(u, "301 %s :%s" % (t.nick, t.away))
            what = "%s %s :%s" % (verb, t.nick, text)
            to = [t]
        for x in to:
            self.put(x, self.full(u) + " " + what)
        if u.i in ECHO:
            self.put(u, self.full(u) + " " + what)
        return 1

    def silenced(self, u, t):
        return u is not t and u.s == t.s and (u.i % 3) in t.sil

    def unauth(self, u, t):
        return u is not t and not u.oper and "R" in t.modes

    def closed(self, u, t):
        if u is t or u.oper:
            return False
        return "R" in t.modes or ("c" in t.modes and not (u in self.on and t in self.on))

    def end(self, e):
        self.q.remove(e)
        e.live = False

    def release(self, e):
        self.end(e)
        if self.deliver(e.u, e.verb, e.t2, e.text):
            self.n["delivered"] += 1
        else:
            self.labels.add("no longer deliverable")

    def refuse(self, e):
        self.end(e)
        self.stat[e.s]["blk"] += 1
        self.n["refused"] += 1
        self.put(e.u, "404 " + CHAN if e.t2 == CHAN else "401 " + e.t2.nick)

    def forget(self, u=None):
        for e in list(self.q):
            if (u is None and e.t2 == CHAN) or (u is not None and u in (e.u, e.t2)):
                self.end(e)
                self.n["forgotten"] += 1

    def match(self, u, text, typ):
        """-> None or what was captured"""
        if u.oper or not self.cf["sline.server"]:
            return None
        import re
        for (p, _), (t, on) in reversed(list(zip(FILTERS, self.fl))):
            if on and t & typ:
                m = re.search(p.replace("$", r"\Z"), text)
                if m:
                    self.stat[u.s]["hits"] += 1
                    return " ".join(m.groups()) if m.groups() else m.group(0)
        return None

    def do(self, o):
        w, k = self.w, o[0]
        if k == "adv":
            self.pace(o[1] * 1000)
            return
        if k == "reply":
            self.reply(o)
            return
        if k == "cf":
            key, v = o[1], o[2]
            w.aux.send("%s CF %d %s%s" % (w.aux.num, w.aux.now(), key, " :" + v if v else ""))
            w.run()
            self.cf[key] = v
            self.lastc = w.aux.now()
            return
        if k == "sl":
            now = w.aux.now()
            w.aux.send("%s SL %s %d 0 %s :%s" % (w.aux.num, o[2], now, o[3], FILTERS[o[1]][0]))
            w.run()
            self.fl[o[1]] = [TYPES[o[3]], o[2] == "+"]
            return
        if k == "leave":
            if self.linked:
                self.svc.pump()
                self.svc.c.close()
                w.run()
                self.linked = False
            return
        if k == "return":
            if not self.linked:
                self.svc = p10.Peer(w, "services.test.net").handshake()
                self.svc.log = []
                self.linked = True
            return
        u = self.us[o[1]]
        if k == "new":
            if u is None:
                u = self.us[o[1]] = self.enter(w, o[1])
                self.want[u] = []
                self.pace(6000)
            return
        if u is None:
            return
        c = u.c
        if k == "msg":
            self.msg(u, o[2], o[3], o[4])
        elif k == "quit":
            c.send("QUIT" + (" :" + o[2] if o[2] is not None else ""))
            w.run()
            c.close()
            w.run()
            hit = o[2] is not None and self.match(u, o[2], 8) is not None
            if u in self.on:
                text = None if o[2] is None else "Signed off" if hit or not self.cansend(u) else "Quit: " + o[2]
                for x in self.on:
                    if x is not u and text:
                        self.put(x, self.full(u) + " QUIT :" + text)
                del self.on[u]
            if o[2] is None:
                for x in self.on:
                    self.want[x].append("QUIT?")
            self.forget(u)
            self.empty()
            self.us[o[1]] = None
            del self.want[u]
        elif k == "part":
            if u not in self.on:
                return
            c.send("PART " + CHAN + (" :" + o[2] if o[2] is not None else ""))
            w.run()
            hit = o[2] is not None and self.match(u, o[2], 4) is not None
            if hit:
                self.labels.add("part message withheld")
            say = "" if o[2] is None or hit or not self.cansend(u) else " :" + o[2]
            for x in self.on:
                self.put(x, self.full(u) + " PART " + CHAN + say)
            del self.on[u]
            self.empty()
        elif k == "join":
            if u in self.on:
                return
            self.cmd(c, "JOIN " + CHAN)
            if not self.on:
                self.cm = set()
            self.on[u] = set() if self.on else {"o"}
        elif k == "kick":
            t = self.us[o[2]]
            if t is None or u not in self.on or "o" not in self.on[u] or t not in self.on or t is u:
                return
            self.cmd(c, "KICK %s %s :out" % (CHAN, t.nick))
            del self.on[t]
        elif k == "mode":
            if u not in self.on or "o" not in self.on[u]:
                return
            t = self.us[o[3]]
            if o[2][1] in "ov":
                if t is None or t not in self.on:
                    return
                self.cmd(c, "MODE %s %s %s" % (CHAN, o[2], t.nick))
                (self.on[t].add if o[2][0] == "+" else self.on[t].discard)(o[2][1])
            else:
                self.cmd(c, "MODE %s %s" % (CHAN, o[2]))
                (self.cm.add if o[2][0] == "+" else self.cm.discard)(o[2][1])
        elif k == "umode":
            self.cmd(c, "MODE %s %s" % (u.nick, o[2]))
            (u.modes.add if o[2][0] == "+" else u.modes.discard)(o[2][1])
        elif k == "away":
            self.cmd(c, "AWAY" + (" :" + o[2] if o[2] else ""))
            u.away = o[2] or None
        elif k == "nick":
            self.pace(31000)
            if u in self.on and not self.cansend(u):
                self.cmd(c, "NICK other")         # refused
                return
            u.nick = u.nick[:3] + ("x" if u.nick[3:] == "" else "")
            self.cmd(c, "NICK " + u.nick)
        elif k == "silence":
            if o[3] == u.i % 3:
                return
            self.cmd(c, "SILENCE %s*!%s@*" % (o[2], "u%d" % (u.s * 3 + o[3])))
            (u.sil.add if o[2] == "+" else u.sil.discard)(o[3])
        elif k == "oper":
            if u.oper:
                self.cmd(c, "MODE %s -o" % u.nick)
            else:
                self.cmd(c, "OPER oper operpass")
            u.oper = not u.oper

    def cmd(self, c, line):
        c.send(line)
        self.w.run()

    def empty(self):
        if not self.on:
            self.forget()

    def msg(self, u, verb, t, text):
        w = self.w
        if t != CHAN:
            t = self.us[t]
            if t is None:
                return
        u.c.send("%s %s :%s" % (verb, self.name(t), text))
        w.run()
        # refusals that come before the filters
        if t == CHAN:
            if not self.on:
                if verb != "NOTICE":
                    self.put(u, "403 " + CHAN)
                return
            if not self.cansend(u):
                if verb != "NOTICE":
                    self.put(u, "404 " + CHAN)
                return
        else:
            if self.unauth(u, t) or self.silenced(u, t):
                return
        cap = self.match(u, text, 1 if t != CHAN else 2)
        if cap is not None and self.linked and self.cf["sline.server"] == "services.test.net":
            e = E()
            e.u, e.t2, e.verb, e.text, e.s, e.live, e.tok = u, t, verb, text, u.s, True, None
            e.t = w.aux.now()
            self.q.append(e)
            self.all.append(e)
            self.stat[e.s]["held"] += 1
            w.aux.pump()
            self.wantx.append((e, "%s %s :%s" % (w.aux.nicks[u.nick], CHAN if t == CHAN else w.aux.nicks[t.nick], cap)))
            return
        if cap is not None:
            self.labels.add("nobody to ask")
        self.deliver(u, verb, t, text)

    def srv(self, s):
        return self.w.aux.hubnum if s == 0 else self.w.aux.servers["leaf1.test.net"]

    def reply(self, o):
        _, which, text, odd = o
        if not self.linked:
            return
        pool = self.all if which >= 0 or not self.q else self.q
        if not pool:
            return
        e = pool[which % len(pool)]
        s, tok = e.s, e.tok
        if odd == 1:
            tok += 1000
        elif odd == 2:
            s = 1 - s
        self.svc.send("%s XR %s spam:%d :%s" % (self.svc.num, self.srv(s), tok, text))
        self.w.run()
        if text.lower() not in ("yes", "no"):
            return
        self.stat[s]["acc" if text.lower() == "yes" else "rej"] += 1
        e = [x for x in self.q if x.s == s and x.tok == tok]
        if not e:
            self.labels.add("verdict for nothing")
            return
        e = e[0]
        if text.lower() == "yes":
            self.stat[s]["rel"] += 1
            self.release(e)
        else:
            self.refuse(e)

    # ---- what is seen
    def check(self, o):
        self.w.run()
        for u in self.us:
            if u is None:
                continue
            got, want = [], self.want[u]
            lax = "QUIT?" in want
            for m in u.c.msgs():
                if m.cmd in ("PRIVMSG", "NOTICE") and m.src and "!" in m.src:
                    got.append("%s %s %s :%s" % (m.src, m.cmd, m.params[0], m.params[1]))
                elif m.cmd == "PART":
                    got.append("%s PART %s%s" % (m.src, m.params[0], "".join(" :" + x for x in m.params[1:])))
                elif m.cmd == "QUIT" and not lax:
                    got.append("%s QUIT :%s" % (m.src, m.params[-1]))
                elif m.cmd in ("401", "404", "403"):
                    got.append("%s %s" % (m.cmd, m.params[1]))
                elif m.cmd == "301":
                    got.append("301 %s :%s" % (m.params[1], m.params[2]))
                elif m.cmd == "PING":
                    u.c.send("PONG :" + m.params[-1])
            want = [x for x in want if x != "QUIT?"]
            self.want[u] = []
            if sorted(got) != sorted(want):
                raise Violation("after %r %s received\n  %r\n  expected\n  %r\n  held: %r, channel %r +%s" % (
                    o, u.nick, got, want, [(e.u.nick, e.verb, self.name(e.t2), e.text[:20], e.tok) for e in self.q],
                    {x.nick: y for x, y in self.on.items()}, "".join(sorted(self.cm))))
        got = []
        self.w.aux.pump()
        if self.linked:
            for l in self.svc.pump():
                if l.startswith("@"):
                    l = l.split(" ", 1)[1]
                a = l.split(" ", 4)
                if a[1] == "XQ":
                    got.append(a)
        bad = len(got) != len(self.wantx)
        for a, (e, want) in zip(got, self.wantx):
            if a[0] != self.srv(e.s) or a[2] != self.svc.num or not a[3].startswith("spam:") or a[4] != ":" + want:
                bad = True
                break
            e.tok = int(a[3][5:])
            if any(x is not e and x.s == e.s and x.tok == e.tok for x in self.all):
                raise Violation("the number of a held message was used before: %r" % a)
        if bad:
            raise Violation("after %r the filter server was asked %r, expected %r" % (o, got, [(self.srv(e.s), x) for e, x in self.wantx]))
        self.wantx = []

    def final(self):
        for s in (0, 1):
            o = self.w.op[s]
            o.lines()
            got = {}
            for m in o.do("STATS s"):
                if m.cmd == "240" and ": " in m.params[-1]:
                    k, _, v = m.params[-1].partition(": ")
                    got[k] = v
            st = self.stat[s]
            want = {"S-line Hits": st["hits"], "Messages Held": st["held"], "Messages Released": st["rel"], "Messages Blocked": st["blk"],
                    "XREPLY Accepted": st["acc"], "XREPLY Rejected": st["rej"], "Timeout Expired": st["to"]}
            for k, v in want.items():
                if got.get(k) != str(v):
                    raise Violation("STATS s at server %d: %s is %s, expected %d" % (s, k, got.get(k), v))
