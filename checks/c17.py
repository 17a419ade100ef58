"""Capabilities and message tags: every client gets exactly the dialect it negotiated."""
import re
import ircsim, pbt, p10
from pbt import Violation
from viewrun import View
from ircutil import lower

PROP = {
    "id": "C17",
    "title": "A client gets exactly the capabilities and message tags it negotiated",
    "statement": "CAP LS, LIST, REQ and END answer from one consistent state: REQ takes effect as a whole or not at all, and LIST names exactly what is enabled. "
                 "Whatever others do, the stream a client receives is the same as any other member's except as its own capabilities say: time, account and "
                 "client-only tags, TAGMSG, AWAY, ACCOUNT, CHGHOST (or the QUIT, JOIN, MODE sequence instead), INVITE, extended JOIN, userhosts in NAMES and "
                 "echoes of its own messages are there if and only if it asked for them. Tags are genuine: time and account cannot be set by clients, the account tag is "
                 "the sender's account, and of the client-only tags exactly those CLIENTTAGDENY allows arrive, with the values sent.",
    "quantifier": {"over": ["histories", "inputs", "configurations"],
                   "text": "all histories of channel activity, logins, host changes and tagged lines by users of one or two servers, all sets of capabilities, "
                           "requested and dropped at any point, and all CLIENTTAGDENY, NETWORK_TIME and CAP_* settings tried"},
    "why_tests_cant": "There are 12 capabilities and dozens of message kinds; the suite looks at a few capabilities one at a time with one event each and never "
                      "at combinations, at changes midway or at what a client without the capability must not get.",
    "anchors": {
        "files": ["ircd/m_cap.c", "ircd/send.c", "ircd/msg_tag.c", "ircd/parse.c", "ircd/m_tagmsg.c", "ircd/ircd_relay.c", "ircd/s_user.c", "ircd/m_names.c",
                  "ircd/m_invite.c", "ircd/m_away.c", "ircd/m_account.c"],
        "mechanism": [{"name": "negotiation", "where": "ircd/m_cap.c cap_req(), send_caplist()"},
                      {"name": "delivery by capability", "where": "ircd/send.c sendcmdto_capflag_*(), sendjointo_*(), tagmsg_unwanted()"},
                      {"name": "tag filtering and formatting", "where": "ircd/msg_tag.c; ircd/send.c send_buffer()"},
                      {"name": "host changes", "where": "ircd/s_user.c hide_hostmask()"}],
        "observe_at": ["every line received by every client"],
    },
}
TECHNIQUE = ("metamorphic and model-based property-based testing: passive channel members with generated capability sets must receive what is computed from the stream of "
             "a fully capable member, whose own tags are checked against a model; CAP replies are compared with a reference model")

CAPS = {"account-notify": "CAP_ACCOUNTNOTIFY", "away-notify": "CAP_AWAYNOTIFY", "chghost": "CAP_CHGHOST", "echo-message": "CAP_ECHOMESSAGE",
        "extended-join": "CAP_EXTJOIN", "invite-notify": "CAP_INVITENOTIFY", "userhost-in-names": "CAP_UHNAMES", "message-tags": "CAP_MESSAGE_TAGS",
        "server-time": "CAP_SERVER_TIME", "account-tag": "CAP_ACCOUNT_TAG", "cap-notify": None, "sasl": "CAP_SASL"}
NAMES = sorted(CAPS)
ORD = [c for c in NAMES if c not in ("cap-notify", "sasl")]
FULL = [c for c in ORD if c != "echo-message"]
CONFIGS = [   # servers, features
    (1, {"CLIENTTAGDENY": "denied,ex.com/x"}),
    (1, {"ANNOUNCE_INVITES": "TRUE"}),
    (1, {"CLIENTTAGDENY": "*,-typing,-ex.com/a", "HOST_HIDING": "FALSE"}),
    (2, {"CLIENTTAGDENY": "denied,ex.com/x", "ANNOUNCE_INVITES": "TRUE", "NETWORK_TIME": "FALSE"}),
    (2, {"CLIENTTAGDENY": "denied"}),
]
CH = ["#a", "#b"]
ACT = ["Ann", "bob", "Cyd"]
REAL = {"ann": "Ann the first", "bob": "b", "cyd": "real: Cyd"}
KEYS = ["+typing", "+ex.com/a", "+denied", "+ex.com/x", "+q", "+", "+a-b.c"]
VALUES = [None, "", "1", "active", "a\\sb\\:c\\\\", "x=y", "a\\", "\\q\\r\\n", "\xc3\xa9", "v" * 40]
TAGCMDS = ("PRIVMSG", "NOTICE", "TAGMSG")


def unesc(v):
    """The value a tag's text stands for."""
    if v is None:
        return None
    out, i = "", 0
    while i < len(v):
        if v[i] == "\\":
            i += 1
            if i < len(v):
                out += {"s": " ", ":": ";", "r": "\r", "n": "\n"}.get(v[i], v[i])
        else:
            out += v[i]
        i += 1
    return out


def wire_tags(raw):
    """[(key, text or None)] as on the wire"""
    if not raw.startswith("@"):
        return []
    t = raw[1:].split(" ", 1)[0]
    r = []
    for kv in t.split(";"):
        k, e, v = kv.partition("=")
        r.append((k, v if e else None))
    return r


def untag(raw):
    return raw.split(" ", 1)[1] if raw.startswith("@") else raw


class Who:
    """One client and the model of its capability state."""

    def __init__(self, c, srv, caps=()):
        self.c, self.srv = c, srv
        self.caps = set(caps)     # what LIST names
        self.active = set(caps)   # what it has in force
        self.v302 = False
        self.op = set()           # channels it is an operator of


class CHECK(pbt.Check):
    RULE = "at least three kinds of message reached both the fully capable member and members with differing capabilities, and some capability was missing"
    QUICK, THOROUGH = 10000, 200000
    VARIANT = "plain"

    def gen(self, rng, i, tier):
        cfg = rng.randrange(len(CONFIGS))
        ns = CONFIGS[cfg][0]

        def capset():
            r = rng.random()
            if r < .15:
                return []
            p = rng.choice([.2, .5, .8])
            return [c for c in ORD if rng.random() < p]
        obs = [[0, capset(), rng.random() < .5] for _ in range(3 if ns == 1 else 2)]
        if ns == 2:
            obs += [[1, capset(), rng.random() < .5] for _ in range(2)]
        case = {"cfg": cfg, "obs": obs, "act": [sorted(set(capset()) | ({"echo-message"} if rng.random() < .5 else set()) | ({"message-tags"} if rng.random() < .5 else set()))
                                                for _ in ACT]}
        ops = []
        for a in range(len(ACT)):
            c = rng.choice(CH)
            r = rng.random()
            if r < .5:
                ops.append(["a", a, "JOIN " + c, a, None, 0])
                if r < .35:
                    ops.append(["r", "MODE %s +%s %%n" % (c, rng.choice("ooov")), a])
        for _ in range(rng.randint(12, 40)):
            ops.append(self.gen_op(rng, case, ns))
        case["ops"] = ops
        return case

    def gen_op(self, rng, case, ns):
        r = rng.random()
        a = rng.randrange(len(ACT))
        c = rng.choice(CH)
        v = rng.randrange(len(ACT))
        if r < .13:
            who = rng.choice(["a", "o", "o", "o"])
            return ["cap", who, a if who == "a" else rng.randrange(len(case["obs"])), self.capline(rng)]
        if r < .18:
            return ["acct", a]
        if r < .22:
            return ["names", c]
        if r < .25:
            return ["adv", rng.choice([700, 1000, 5300])]
        if r < .28:
            return ["feat", rng.choice([CAPS[x] for x in ORD] + ["CAP_SASL"]), rng.random() < .5]
        if r < .30:
            return ["deny", rng.choice(["*", "denied,ex.com/x", "q", "*,-typing", "*,-q,-ex.com/x", "-q", "denied"])]
        if r < .42:
            return ["r", rng.choice(["MODE %c +v %n", "MODE %c +o %n", "MODE %c -o %n", "MODE %c -v %n", "TOPIC %c :t%x", "KICK %c %n :out", "MODE %c +D", "MODE %c -D", "MODE %c +m",
                                     "MODE %c -m"]).replace("%c", c).replace("%x", str(rng.randrange(9))), v]
        if r < .46:
            t = rng.choice(["", "", "@time=2020-02-03T04:05:06.007Z ", "@time=2021-01-01T00:00:00.000Z;batch=b1 ", "@time "])
            return ["svc", t, rng.choice(["P %c :from afar", "O %c :notice", "P %c :x y"]).replace("%c", c)]
        lines = [(12, "JOIN " + c), (4, "PART " + c), (2, "PART %s :bye" % c), (8, "PRIVMSG %s :hello %d" % (c, rng.randrange(99))), (4, "NOTICE %s :note" % c),
                 (9, "TAGMSG " + c), (4, "PRIVMSG %v :psst"), (4, "TAGMSG %v"), (2, "NOTICE %v :n"), (2, "PRIVMSG %s,%%v :both" % c), (2, "TAGMSG %s,%%v" % c), (4, "AWAY :gone %d" % rng.randrange(9)),
                 (3, "AWAY"), (3, "NICK %f"), (5, "MODE %n +x"), (6, "INVITE %%v %s" % c), (2, "TOPIC %s :by member" % c), (2, "WALLCHOPS %s :w" % c), (1, "WALLVOICES %s :w" % c),
                 (1, "WHOIS %v"), (1, "JOIN #a,#b"), (2, "CPRIVMSG %%v %s :c" % c), (1, "PRIVMSG %n :to self"), (1, "TAGMSG %n")]
        l = rng.choices([x for _, x in lines], [w for w, _ in lines])[0]
        tags = None
        if rng.random() < (.75 if "MSG" in l or "NOTICE" in l else .25):
            tags = []
            for _ in range(rng.choice([1, 1, 2, 3, 5])):
                k = rng.choice(KEYS + KEYS + ["time", "account", "batch", "msgid", "label", "ex.com/a"])
                val = rng.choice(VALUES)
                if k == "time":
                    val = "1999-01-01T00:00:00.000Z"
                if k == "account":
                    val = "root"
                tags.append([k, val])
        return ["a", a, l, v, tags, rng.randrange(3)]

    def capline(self, rng):
        r = rng.random()
        if r < .1:
            return rng.choice(["LS", "LS 302", "LS 301"])
        if r < .3:
            return "LIST"
        if r < .36:
            return rng.choice(["END", "ACK :away-notify", "REQ", "REQ :", "FOO", "NAK :x"])
        n = rng.choice([1, 1, 2, 3, 5])
        w = []
        for _ in range(n):
            x = rng.choice(NAMES) if rng.random() < .94 else rng.choice(["nope", "away-notif", "away-notifyx", "-", "away-notify=1", "AWAY-NOTIFY", "tls", "message_tags"])
            w.append(("-" if rng.random() < .4 else "") + x)
        return "REQ :" + " ".join(w)

    def simplify(self, op):
        if op[0] == "a" and op[4]:
            yield op[:4] + [None] + op[5:]
            for i in range(len(op[4])):
                if len(op[4]) > 1:
                    yield op[:4] + [op[4][:i] + op[4][i + 1:]] + op[5:]

    def boot(self, cfg):
        n, f = CONFIGS[cfg]
        f = dict({"HOST_HIDING": "TRUE", "HIDDEN_HOST": "users.test"}, **f)
        w = ircsim.boot_network(n, self.VARIANT, features=f, pingfreq=100000)
        w.svc = p10.Peer(w).handshake()
        w.fake = w.svc.user("Svc")
        w.boss = [w.client("Boss%d" % s, s, "10.3.0.1", "boss") for s in range(n)]
        for b in w.boss:
            b.do("OPER oper operpass")
        w.refs = [Who(w.client("Ref%d" % s, s, "10.3.1.%d" % s, "ref"), s, FULL) for s in range(n)]
        w.refs[0].c.send("JOIN #a", "JOIN #b")
        w.run()
        for x in w.refs:
            x.c.send("CAP REQ :" + " ".join(FULL))
            x.c.send("JOIN #a", "JOIN #b")
        w.run()
        for x in w.refs[1:]:
            w.refs[0].c.send("MODE #a +o Ref1", "MODE #b +o Ref1")
        w.run()
        w.adv(3000)
        for c in w.conns.values():
            c.lines()
        w.svc.pump()
        w.run()
        return w

    def run(self, case):
        w = self.world(case["cfg"], lambda: self.boot(case["cfg"]))
        with pbt.case_of(self, w):
            return self.run_case(w, case)

    # ---- model of a CAP line
    def cap_model(self, p, line):
        """Updates p; returns the expected reply as (subcommand, set of words) or None for no reply, or 'err'"""
        sub, _, rest = line.partition(" ")
        on = lambda c: CAPS[c] is None or self.feats[p.srv].get(CAPS[c], True)
        if sub == "LS":
            if rest and int(rest) >= 302:
                p.v302 = True
                p.active.add("cap-notify")
            return "LS", {c for c in NAMES if on(c) and c != "sasl" and not (c == "cap-notify" and p.v302)}
        if sub == "LIST":
            return "LIST", {c for c in p.caps if on(c)}
        if sub in ("END", "ACK", "NAK"):
            return None
        if sub != "REQ":
            return "err", set()
        if not rest:
            return "ACK", set()
        caps, active, ch = set(p.caps), set(p.active), {}
        words = rest[1:].split(" ")
        for x in words:
            neg = x.startswith("-")
            name = (x[1:] if neg else x).lower()
            if name not in CAPS or not on(name) or (not neg and name == "sasl") or (neg and name == "cap-notify" and p.v302):
                return "NAK", set(words)
            (caps.discard if neg else caps.add)(name)
            (active.discard if neg else active.add)(name)
            ch[name] = ("-" if neg else "") + name
        p.caps, p.active = caps, active
        return "ACK", set(ch.values())

    def allowed(self, srv, key):
        """May this client-only tag be passed on, by CLIENTTAGDENY?"""
        if key[:1] != "+" or len(key) == 1:
            return False
        d = self.deny[srv].split(",")
        n = key[1:]
        if d[0] == "*":
            return "-" + n in d
        return n not in d

    def stamp(self, w):
        w.sim.cmd("now")
        recs = w.sim.go()
        t = int([r for r in recs if r[0] == "T"][0][1]) // 1000
        w.absorb([r for r in recs if r[0] != "T"])
        import time
        return time.strftime("%Y-%m-%dT%H:%M:%S.000Z", time.gmtime(t))

    # ---- one case
    def run_case(self, w, case):
        ns, feats = CONFIGS[case["cfg"]]
        self.nettime = feats.get("NETWORK_TIME", "TRUE") == "TRUE"
        self.announce = feats.get("ANNOUNCE_INVITES", "FALSE") == "TRUE"
        self.feats = [{} for _ in range(ns)]
        self.deny = [feats.get("CLIENTTAGDENY", "*") for _ in range(ns)]
        self.nth = 0
        self.labels, self.kinds, self.checks, self.missing = set(), set(), 0, False
        refs = [Who(r.c, r.srv, FULL) for r in w.refs]
        obs = []
        for i, (s, caps, op) in enumerate(case["obs"]):
            p = Who(w.client("ob%d" % i, s, "10.3.2.%d" % i, "ob"), s)
            obs.append(p)
        acts = [Who(w.client(n, 1 if ns == 2 and i == 2 else 0, "10.3.3.%d" % i, "u%d" % i, real=REAL[n.lower()]), 1 if ns == 2 and i == 2 else 0)
                for i, n in enumerate(ACT)]
        for p, (s, caps, op) in zip(obs, case["obs"]):
            p.c.send("JOIN #a", "JOIN #b")
            if caps:
                p.c.send("CAP REQ :" + " ".join(caps))
        for p, caps in zip(acts, case["act"]):
            if caps:
                p.c.send("CAP REQ :" + " ".join(caps))
        w.run()
        for p, caps in list(zip(obs, [x[1] for x in case["obs"]])) + list(zip(acts, case["act"])):
            p.caps = set(caps)
            p.active = set(caps)
            if len(caps) < len(ORD):
                self.missing = True
        for i, (p, (s, caps, op)) in enumerate(zip(obs, case["obs"])):
            if op:
                refs[0].c.send("MODE #a +o ob%d" % i, "MODE #b +o ob%d" % i)
                p.op |= {"#a", "#b"}
        w.run()
        for p in obs + acts:
            p.c.msgs()
        # views, kept by the references
        views = []
        for r in refs:
            v = View(r.c.nick)
            v.kicked = set()
            v.feed(ircsim.Msg(":%s!ref@x JOIN #a" % r.c.nick))
            v.feed(ircsim.Msg(":%s!ref@x JOIN #b" % r.c.nick))
            r.c.lines()
            views.append(v)
            for m in r.c.do("NAMES #a", "NAMES #b"):
                if m.cmd in ("353", "366"):
                    x = ircsim.Msg(untag(m.raw))
                    if m.cmd == "353":
                        x.params[3] = " ".join(re.sub("!.*", "", y) for y in x.params[3].split(" "))
                    v.feed(x)
        self.acct = {}                  # lower nick -> account
        self.nick = list(ACT)
        self.isaway = [False] * len(ACT)
        self.host = {}                  # nick -> user@host last seen by the references
        self.away = [dict() for _ in refs]
        self.refs, self.obs, self.acts, self.views, self.ns = refs, obs, acts, views, ns
        for op in case["ops"]:
            self.step(w, case, op)
        self.labels |= {"seen-" + k.lower() for k in self.kinds if not k.isdigit()}
        return {"nontrivial": len(self.kinds) >= 3 and self.missing, "labels": sorted(self.labels), "checks": self.checks}

    def fill(self, t, a, v, f):
        fresh = [ACT[a], ACT[a] + "x", ACT[a].upper() + "_"][f]
        return t.replace("%v", self.nick[v]).replace("%n", self.nick[a]).replace("%f", fresh)

    def step(self, w, case, op):
        k = op[0]
        if k == "adv":
            w.adv(op[1])
            self.check_step(w, op, None, None, None, None)
            return
        if k == "feat":
            for s, b in enumerate(w.boss[:1]):
                b.do("SET %s %s" % (op[1], "TRUE" if op[2] else "FALSE"))
                self.feats[s][op[1]] = op[2]
            return
        if k == "deny":
            w.boss[0].do("SET CLIENTTAGDENY " + op[1])
            self.deny[0] = op[1]
            self.labels.add("deny-set")
            return
        if k == "cap":
            p = self.acts[op[2]] if op[1] == "a" else self.obs[op[2] % len(self.obs)]
            if p.c.eof:
                return
            before = set(p.active)
            exp = self.cap_model(p, op[3])
            ms = p.c.do("CAP " + op[3])
            self.checks += 1
            self.labels.add("cap-" + op[3].split(" ")[0].lower())
            got = [m for m in ms if m.cmd == "CAP" or m.cmd == "410"]
            if exp is None:
                ok = not ms
            elif exp[0] == "err":
                ok = len(ms) == 1 and ms[0].cmd == "410"
            else:
                words = sum([m.params[-1].split(" ") for m in got], [])
                words = [x for x in words if x]
                ok = got and len(got) == len(ms) and all(m.params[1] == exp[0] for m in got) and set(words) == {x for x in exp[1] if x} \
                    and (exp[0] == "NAK" or len(words) == len(set(words)))
            if not ok:
                raise Violation("CAP %s, by a client with %s in force, was answered %r; expected %r" % (op[3], sorted(before), [m.raw for m in ms], exp))
            self.check_step(w, op, None, None, None, None)
            return
        if k == "acct":
            w.svc.pump()
            n = self.nick[op[1]]
            if lower(n) in self.acct or self.acts[op[1]].c.eof:
                return
            nn = {lower(x): y for x, y in w.svc.nicks.items()}.get(lower(n))
            if nn is None:
                return
            w.svc.send("%s AC %s Acc%d" % (w.svc.num, nn, op[1]))
            w.run()
            self.acct[lower(n)] = "Acc%d" % op[1]
            self.labels.add("login")
            self.check_step(w, op, None, None, None, None)
            return
        if k == "names":
            self.check_names(w, op[1])
            return
        if k == "r":
            if op[1].startswith("KICK") and lower(self.nick[op[2]]) not in self.views_members(self.views[0], op[1].split(" ")[1]):
                return                  # only the kicker would see a hidden member go
            self.nth += 1
            self.refs[0].c.send(self.fill(op[1], op[2], op[2], 0).replace(":t", ":t%d" % self.nth))     # an unchanged topic is shown to its setter only
            w.run()
            self.check_step(w, op, None, None, None, None)
            return
        if k == "svc":
            w.svc.send("%s%s %s" % (op[1], w.fake, op[2]))
            w.run()
            self.check_step(w, op, None, None, None, op[1])
            return
        a = op[1]
        p = self.acts[a]
        if p.c.eof:
            return
        line = self.fill(op[2], a, op[3], op[5])
        tags = op[4]
        t = ""
        if tags:
            t = "@" + ";".join(x if v is None else x + "=" + v for x, v in tags) + " "
        p.c.send(t.encode("latin-1") + line.encode())
        self.tagstext = t
        w.run()
        self.flip = False
        if line.startswith("AWAY"):
            self.localaway(a, line)
            self.flip = self.isaway[a] != bool(line[6:])
            self.isaway[a] = bool(line[6:])
        self.check_step(w, op, a, line, tags or [], None)

    def localaway(self, a, line):
        for v, r in zip(self.away, self.refs):
            if r.srv == self.acts[a].srv:
                v[lower(self.nick[a])] = line[6:]

    # ---- universal and reference checks, then the others against the reference
    def tag_rules(self, p, m, now, srvtime, clienttags, who):
        """The tags of one received line, by the receiver's capabilities and the model."""
        tags = wire_tags(m.raw)
        keys = [k for k, _ in tags]
        if len(set(keys)) != len(keys):
            raise Violation("%s got a line with a repeated tag: %r" % (who, m.raw))
        d = dict(tags)
        want = bool({"server-time", "message-tags"} & p.active)
        if want != ("time" in d):
            raise Violation("%s with capabilities %s got %r: a time tag %s" % (who, sorted(p.active), m.raw, "is missing" if want else "was not asked for"))
        if want and d["time"] != (srvtime or now):
            raise Violation("%s got %r at %s (time from upstream: %s)" % (who, m.raw, now, srvtime))
        acct = None
        if m.src and "!" in m.src:
            acct = self.acct_of(m)
        want = bool({"account-tag", "message-tags"} & p.active) and acct is not None
        if m.cmd != "ACCOUNT" and (want != ("account" in d) or (want and d["account"] != acct)):
            raise Violation("%s with capabilities %s got %r while the sender's account is %s" % (who, sorted(p.active), m.raw, acct))
        extra = [(k, v) for k, v in tags if k not in ("time", "account")]
        if extra and "message-tags" not in p.active:
            raise Violation("%s without message-tags got %r" % (who, m.raw))
        self.checks += 1
        return extra

    def acct_of(self, m):
        n = lower(m.nick)
        if m.cmd == "NICK" and n not in self.acct and lower(m.params[0]) in self.acct and self.renamed == n:
            return self.acct[lower(m.params[0])]
        return self.acct.get(n)

    def check_step(self, w, op, a, line, tags, svctag):
        now = self.stamp(w)
        line = line or ""
        cmd = line.split(" ")[0]
        self.renamed = None
        rl = [r.c.msgs() for r in self.refs]
        ol = [p.c.msgs() for p in self.obs]
        al = [p.c.msgs() for p in self.acts]
        # a nickname change moves the actor's account
        for m in (al[a] if a is not None else []):
            if m.cmd == "NICK" and lower(m.nick) == lower(self.nick[a]):
                old = self.nick[a]
                self.renamed = lower(old)
                self.nick[a] = m.params[0]
                if lower(old) != lower(m.params[0]):
                    for d in [self.acct] + self.away:
                        if lower(old) in d:
                            d[lower(m.params[0])] = d.pop(lower(old))
        sent = {}
        if a is not None:
            for k, v in tags:
                if k[:1] == "+":
                    sent[k] = v
        svctime = None
        if svctag and self.nettime:
            x = re.match("@time=([^; ]*)", svctag)
            svctime = x.group(1) if x else None
        refused = a is not None and any(m.cmd in ("439", "404", "401", "403", "421", "411", "412", "481", "482", "442", "441") for m in al[a])
        # 1. the references
        streams = []
        for r, v, ms, aw in zip(self.refs, self.views, rl, self.away):
            n = 0
            for m in ms:
                if m.cmd.isdigit() or m.cmd == "CAP":
                    continue
                extra = self.tag_rules(r, m, now, svctime, None, "the reference on server %d" % r.srv)
                self.kinds.add(m.cmd)
                ed = {k: unesc(x) for k, x in extra}
                mine = a is not None and m.src and "!" in m.src and lower(m.nick) in (lower(self.nick[a]), self.renamed)
                if a is not None and r.srv == self.acts[a].srv:
                    ok = {k: unesc(x) for k, x in sent.items() if self.allowed(r.srv, k)}
                    if m.cmd in TAGCMDS and mine:
                        n += 1
                        if ed != ok:
                            raise Violation("%r%s was passed on as %r; the client-only tags allowed are %r (CLIENTTAGDENY %s)" % (self.tagstext, line, m.raw, ok, self.deny[r.srv]))
                        if ok:
                            self.labels.add("client-tags")
                    elif any(k not in ok or ok[k] != x for k, x in ed.items()):
                        raise Violation("%r%s led to %r" % (self.tagstext, line, m.raw))
                elif ed:
                    raise Violation("%r has client-only tags though it came %s" % (m.raw, "from another server" if mine else "without any"))
                if m.cmd == "JOIN" and len(m.params) != 3 or m.cmd == "JOIN" and lower(m.nick) in map(lower, self.nick) and (
                        m.params[1] != self.acct.get(lower(m.nick), "*") or m.params[2] != self.real(m.nick)):
                    raise Violation("extended JOIN %r: account %s, real name %r" % (m.raw, self.acct.get(lower(m.nick)), self.real(m.nick)))
                if m.cmd == "ACCOUNT" and m.params != [self.acct.get(lower(m.nick))]:
                    raise Violation("%r but the account is %s" % (m.raw, self.acct.get(lower(m.nick))))
                if m.cmd == "AWAY":
                    if r.srv != self.actor_srv(m.nick):
                        aw[lower(m.nick)] = m.params[0] if m.params else ""
                if m.src and "!" in m.src:
                    nick, _, uh = m.src.partition("!")
                    old = self.host.get((r.srv, lower(nick)))
                    if old is not None and old != uh:
                        raise Violation("%r, but %s was known as %s" % (m.raw, nick, old))
                    self.host[r.srv, lower(nick)] = uh
                    if m.cmd == "CHGHOST":
                        self.host[r.srv, lower(nick)] = m.params[0] + "@" + m.params[1]
                    elif m.cmd == "NICK":
                        del self.host[r.srv, lower(nick)]
                        self.host[r.srv, lower(m.params[0])] = uh
            # a message to a channel that was not refused arrives exactly once
            if cmd in TAGCMDS and line.split(" ")[1][:1] == "#" and self.acts[a].srv == r.srv:
                want = 0 if refused else 1
                if cmd == "TAGMSG" and "message-tags" not in self.acts[a].active:
                    want = 0
                if "," in line.split(" ")[1] and refused:
                    want = n
                if cmd == "NOTICE" and n == 0:     # refused notices are not answered
                    want, refused = 0, True
                if n != want:
                    raise Violation("%r%s reached the reference %d times, %d expected (sender was told %r)" % (self.tagstext, line, n, want, [m.raw for m in al[a]]))
            if cmd == "AWAY":
                na = len([m for m in ms if m.cmd == "AWAY"])
                vis = any(lower(self.nick[a]) in self.views_members(v, c) for c in CH)
                if (self.flip and na != int(vis)) or na > int(vis):
                    raise Violation("%s sent %r; the reference on server %d, which %s a channel with it, was told %d times" % (
                        self.nick[a], line, r.srv, "shares" if vis else "does not share", na))
            # expected streams of the other members on this server
            before = {c: dict((k, list(e)) for k, e in self.views_members(v, c).items()) for c in CH}
            for m in ms:
                if not m.cmd.isdigit() and m.cmd != "CAP":
                    streams.append((r.srv, m, before))
                v.feed(ircsim.Msg(untag(m.raw)))
                shared = set().union(*[self.views_members(v, c) for c in CH])
                self.host = {k: h for k, h in self.host.items() if k[0] != r.srv or k[1] in shared}
                before = {c: dict((k, list(e)) for k, e in self.views_members(v, c).items()) for c in CH}
        for i, (p, ms) in enumerate(zip(self.obs, ol)):
            exp = []
            block = False
            for srv, m, before in streams:
                if srv != p.srv:
                    continue
                e = self.derive(p, i, m, before, now, svctime)
                block = block or (m.cmd == "CHGHOST" and "chghost" not in p.active)
                exp += e
            got = [m.raw for m in ms]
            if block:
                exp, got = sorted(exp), sorted(got)
            self.checks += len(got) + 1
            if exp != got:
                raise Violation("after %r a member with capabilities %s%s got\n    %s\n  while the fully capable member's stream\n    %s\n  calls for\n    %s" % (
                    op, sorted(p.active), " (channel operator)" if p.op else "", "\n    ".join(got), "\n    ".join(m.raw for s, m, _ in streams if s == p.srv), "\n    ".join(exp)))
        # 3. the actors: tag rules on every line, echoes, private messages
        for j, (p, ms) in enumerate(zip(self.acts, al)):
            for m in ms:
                extra = self.tag_rules(p, m, now, svctime if svctag else None, None, "user %s" % self.nick[j])
                if extra and a is None:
                    raise Violation("user %s got client-only tags from nowhere: %r" % (self.nick[j], m.raw))
                ok = {k: unesc(x) for k, x in sent.items() if self.allowed(p.srv, k)} if a is not None and self.acts[a].srv == p.srv else {}
                ed = {k: unesc(x) for k, x in extra}
                if a is not None and m.cmd in TAGCMDS and m.src and lower(m.nick) == lower(self.nick[a]) and "message-tags" in p.active:
                    if ed != ok:
                        raise Violation("user %s got %r for %r%s: the client-only tags allowed are %r" % (self.nick[j], m.raw, self.tagstext, line, ok))
                elif any(k not in ok or ok[k] != x for k, x in ed.items()):
                    raise Violation("user %s got %r for %r%s" % (self.nick[j], m.raw, self.tagstext, line))
        if a is not None and cmd in TAGCMDS and not refused and (cmd != "TAGMSG" or "message-tags" in self.acts[a].active):
            self.check_targets(a, cmd, line, al)

    def actor_srv(self, nick):
        for n, p in zip(self.nick, self.acts):
            if lower(n) == lower(nick):
                return p.srv
        return None

    def real(self, nick):
        for i, n in enumerate(self.nick):
            if lower(n) == lower(nick):
                return REAL[ACT[i].lower()]

    def views_members(self, v, c):
        ch = v.chans.get(c)
        return ch.members if ch is not None and ch.members is not None else {}

    def check_targets(self, a, cmd, line, al):
        """Echoes of the sender and deliveries to users named as targets."""
        p = self.acts[a]
        seen = set()
        want = {j: 0 for j in range(len(self.acts))}
        for t in line.split(" ")[1].split(","):
            if lower(t) in seen:
                continue
            seen.add(lower(t))
            if "echo-message" in p.active:
                want[a] += 1
            if t[:1] == "#":
                for j, q in enumerate(self.acts):
                    if j != a:
                        v = [v for v, r in zip(self.views, self.refs) if r.srv == q.srv][0]
                        if lower(self.nick[j]) in self.views_members(v, t):
                            want[j] += cmd != "TAGMSG" or "message-tags" in q.active
            else:
                for j, q in enumerate(self.acts):
                    if lower(self.nick[j]) == lower(t):
                        want[j] += cmd != "TAGMSG" or "message-tags" in q.active
        for j, ms in enumerate(al):
            got = [m.raw for m in ms if m.cmd == cmd and m.src and lower(m.nick) == lower(self.nick[a])]
            # a hidden member may hear without being seen
            if j != a and len(got) > want[j] and any("#" in m for m in got) and self.delayed(j, line):
                continue
            if len(got) != want[j]:
                raise Violation("%r%s was received by %s (capabilities %s) %d times, expected %d: %s" % (
                    self.tagstext, line, "its sender" if j == a else self.nick[j], sorted(self.acts[j].active), len(got), want[j], got))
            self.checks += 1
            if j == a and got:
                self.labels.add("echo")

    def delayed(self, j, line):
        return True

    def derive(self, p, i, m, before, now, svctime):
        """What member p must get where the fully capable member got m."""
        A = p.active
        c = m.cmd
        body = untag(m.raw)
        if c == "TAGMSG" and "message-tags" not in A:
            return []
        if c == "AWAY" and "away-notify" not in A:
            return []
        if c == "ACCOUNT" and "account-notify" not in A:
            return []
        if c == "INVITE":
            ch = m.params[1]
            if lower(ch) not in p.op:
                return []
            if "invite-notify" not in A:
                if not self.announce:
                    return []
                body = ":%s 345 %s %s %s :%s has been invited by %s" % ("*.undernet.org", ch, m.params[0], m.nick, m.params[0], m.nick)
                return [self.retag(p, m, body, "*.undernet.org")]
        if c == "NOTICE" and m.params[0][:2] == "@#" and lower(m.params[0][1:]) not in p.op:
            return []
        if c == "JOIN" and "extended-join" not in A:
            body = ":%s JOIN %s" % (m.src, m.params[0])
        if c == "CHGHOST" and "chghost" not in A:
            r = [self.retag(p, m, ":%s QUIT :Registered" % m.src)]
            src = "%s!%s@%s" % (m.nick, m.params[0], m.params[1])
            n = lower(m.nick)
            for ch in CH:
                e = before[ch].get(n)
                if not e:
                    continue
                j = ":%s JOIN %s" % (src, ch)
                if "extended-join" in A:
                    j += " %s :%s" % (self.acct[n], self.real(m.nick))
                r.append(self.retag(p, m, j))
                aw = [x for x, y in zip(self.away, self.refs) if y.srv == p.srv][0].get(n)
                if aw and "away-notify" in A:
                    r.append(self.retag(p, m, ":%s AWAY :%s" % (src, aw)))
                st = ("o" if e[1] else "") + ("v" if e[2] else "")
                if st:
                    r.append(self.retag(p, m, ":*.undernet.org MODE %s +%s %s" % (ch, st, " ".join([m.nick] * len(st))), "his"))
            self.labels.add("chghost-fallback")
            return r
        return [self.retag(p, m, body)]

    def retag(self, p, m, body, server=None):
        t = []
        for k, v in wire_tags(m.raw):
            if k == "time":
                if not {"server-time", "message-tags"} & p.active:
                    continue
            elif k == "account":
                if server or not {"account-tag", "message-tags"} & p.active:
                    continue
            elif "message-tags" not in p.active:
                continue
            t.append(k if v is None else k + "=" + v)
        return ("@" + ";".join(t) + " " if t else "") + body

    def check_names(self, w, c):
        for p in self.refs + self.obs:
            p.c.send("NAMES " + c)
        w.run()
        lists = {}
        for p in self.refs + self.obs:
            got = []
            for m in p.c.msgs():
                if m.cmd == "353":
                    got += [x for x in m.params[3].split(" ") if x]
            uh = {}
            plain = []
            for x in got:
                n, e, h = x.partition("!")
                if bool(e) != ("userhost-in-names" in p.active):
                    raise Violation("NAMES for a client with capabilities %s lists %r" % (sorted(p.active), x))
                if e:
                    uh[n.lstrip("@+")] = h
                    known = self.host.get((p.srv, lower(n.lstrip("@+"))))
                    if known and known != h:
                        raise Violation("NAMES lists %s, who sends as %s" % (x, known))
                plain.append(n)
            self.checks += 1
            if p in self.refs:
                lists[p.srv] = (plain, uh)
            elif lists[p.srv][0] != plain or (uh and lists[p.srv][1] != uh):
                raise Violation("NAMES %s: the reference got %s, a member with capabilities %s got %s" % (c, lists[p.srv], sorted(p.active), got))
        self.labels.add("names")
