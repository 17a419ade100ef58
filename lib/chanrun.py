"""Runs generated user/channel histories on a real network against Model."""
import ircsim, pbt, p10
from chanmodel import Model, User
from ircutil import lower
from pbt import Violation

NICKS = ["Ann", "bob", "CaR{l", "dee", "Eve", "f_x"]
SPARE = ["zed", "Ann", "bob", "CAR[L", "car{L", "Dee", "w|lly", "W\\lly", "q", "Nick12345678", "Nick123456789", "9bad", "b@d", "ev~x", "-no", "x`^"]
CHANS = ["#a", "#Bee", "#c{d", "&loc", "#x~", "&L{2"]
NAMEVARS = {"#a": ["#a", "#A"], "#Bee": ["#Bee", "#bee", "#BEE"], "#c{d": ["#c{d", "#C[D"], "&loc": ["&loc", "&LOC"],
            "#x~": ["#x~", "#X^"], "&L{2": ["&L{2", "&l[2"]}
TEXTS = ["hi", "hello there", "\x02bold", "col\x03our", "esc\x1b[0m", "\x01ACTION waves\x01", "\x01VERSION\x01", ":colon lead", "a  b", "x" * 300, "\xe9\xff"]
MASKS = ["*!*@*", "ann", "bob!*@*", "*!*@10.0.1.*", "*!*@10.0.0.0/24", "10.0.0.11", "*!dee@*", "e*!*@*", "*!*@acc1.users.undernet.org",
         "?ob!b?b@*", "*!bob@10.*", "car{l!*@*", "CAR[*", "*!*@*.users.undernet.org", "z*!*@*", "*!*@10.0.1.14", "q@*.1.13"]
KEYS = ["key", "KEY", "k2", "a,b", "x" * 23, "x" * 24, ":k", "k k"]

NUMERICS = {"401", "403", "404", "405", "441", "442", "443", "461", "467", "471", "473", "474", "475", "477", "482", "484", "498", "433", "432",
            "437", "472", "478", "489", "525", "331", "332", "333", "341", "301", "305", "306"}
KEEP_TEXT = {"332", "301", "341"}
IGNORE = {"329", "PING", "PONG", "396", "336", "337"}


def canon(msgs, me):
    """Client-visible messages as comparable facts."""
    out = []
    names = {}
    bans = {}
    for m in msgs:
        c, p = m.cmd, m.params
        if c in IGNORE:
            continue
        if c == "JOIN":
            out.append(("JOIN", m.src, p[0]))
        elif c == "PART":
            out.append(("PART", m.src, p[0], p[1] if len(p) > 1 else None))
        elif c == "KICK":
            out.append(("KICK", m.src, p[0], p[1], p[2] if len(p) > 2 else None))
        elif c in ("TOPIC", "INVITE"):
            out.append((c, m.src, *p))
        elif c == "NICK":
            out.append(("NICK", m.src, p[0]))
        elif c == "QUIT":
            out.append(("QUIT", m.src, p[0] if p else ""))
        elif c in ("PRIVMSG", "NOTICE"):
            if c == "NOTICE" and m.src and "!" not in m.src:
                out.append(("SNOTICE", p[-1]))
            else:
                out.append((c, m.src, *p))
        elif c == "MODE":
            if p[0][0] in "#&":
                ch = parse_modes(p[1], p[2:])
                for i, o in enumerate(out):
                    if o[0] == "MODE" and o[1] == m.src and o[2] == p[0]:
                        out[i] = ("MODE", m.src, p[0], o[3] | ch)
                        break
                else:
                    out.append(("MODE", m.src, p[0], ch))
            else:
                sg, fl = "+", set()
                for x in p[1]:
                    if x in "+-":
                        sg = x
                    else:
                        fl.add((sg, x))
                out.append(("UMODE", frozenset(fl)))
        elif c == "353":
            names.setdefault(p[2], [p[1], set()])[1].update(x for x in p[3].split(" ") if x)
        elif c == "366":
            if p[1] in names:
                s = names.pop(p[1])
                out.append(("NAMES", p[1], s[0], frozenset(s[1])))
            else:
                out.append(("NAMES-NONE", p[1]))
        elif c == "367":
            bans.setdefault(p[1], set()).add((p[2], p[3]))
        elif c == "368":
            out.append(("BANS", p[1], frozenset(bans.pop(p[1], ()))))
        elif c == "324":
            ml = p[2].lstrip("+")
            out.append(("MODEIS", p[1], frozenset(ml), tuple(x for x in p[3:] if x)))
        elif c == "SILENCE":
            out.append(("SILENCE", frozenset(p[0].split(","))))
        elif c == "271":
            bans.setdefault("sile", set()).add(p[1] if len(p) > 1 and p[1] != me.nick else p[-1])
        elif c == "272":
            out.append(("SILELIST", frozenset(bans.pop("sile", ()))))
        elif c == "437":
            out.append(("num437",))
        elif c == "333":
            out.append(("num", "333", p[1], p[2]))
        elif c in NUMERICS:
            a = p[1:] if c in KEEP_TEXT else p[1:-1]
            out.append(("num", c, *a))
        else:
            out.append(("OTHER", m.raw))
    for k, s in names.items():
        out.append(("NAMES-unterminated", k))
    return out


ARGMODES_SET = set("ovbklAU")


def parse_modes(s, args):
    """(sign, letter, arg) facts of a MODE line"""
    args = list(args)
    out = set()
    sign = "+"
    for c in s:
        if c in "+-":
            sign = c
        elif c in "ovbkAU" or (c == "l" and sign == "+"):
            out.add((sign, c, args.pop(0) if args else None))
        else:
            out.add((sign, c, None))
    return frozenset(out)


def path(edges, a, b):
    """the servers on the way from a to b in a tree"""
    todo = [(a, [a])]
    while todo:
        x, p = todo.pop()
        if x == b:
            return p
        for e in edges:
            if x in e:
                y = e[0] if e[1] == x else e[1]
                if y not in p:
                    todo.append((y, p + [y]))
    raise KeyError((a, b))


def show(t):
    return repr(tuple(sorted(x, key=repr) if isinstance(x, frozenset) else x for x in t))


class OutOfScope(Exception):
    """The model and the server part ways over something another property decides."""


class ChanCheck(pbt.Check):
    NETS = [(1, None), (3, None), (3, [(0, 1), (1, 2)])]     # (servers, links); None is a star around server 0
    NETWEIGHTS = [4, 3, 2]
    NUSERS = 5
    FEATURES = {}
    WEIGHTS = {}
    LENGTH = (12, 40)
    FINAL_SWEEP = True
    ACCOUNTS = True
    NCHANS = 3
    POPULATE = .8
    BOSSY = .55
    SERVICE = .2               # share of cases with a +k network service among the users

    # what this property is about; anything else that differs ends the case without a verdict
    JUDGED_OPS = None          # op kinds, None = all
    SWEEP_KINDS = None         # kinds of facts judged in the final sweep, None = all

    def judged(self, op, fact):
        """Is this fact, seen or missed as an effect of op, the property's business?"""
        return True

    # -- generation
    BASE_WEIGHTS = dict(join=14, joinkey=2, joinmulti=2, part=4, partmsg=3, join0=1, kick=4, topic=4, topicq=2, invite=4, nick=4, quit=2,
                        conn=3, away=2, umode=3, msg=8, pm=5, multimsg=2, wall=2, mode=14, modearg=8, modeq=3, banq=2, namesq=3, acct=2,
                        silence=0)

    def gen(self, rng, i, tier):
        n = rng.randint(*self.LENGTH) * (2 if tier == "thorough" and rng.random() < .3 else 1)
        w = dict(self.BASE_WEIGHTS)
        w.update(self.WEIGHTS)
        kinds = [k for k in w if w[k] > 0]
        ws = [w[k] for k in kinds]
        chans = rng.sample(CHANS, self.NCHANS)
        if rng.random() < .8 and "#a" not in chans:
            chans[0] = "#a"
        ops = []
        # most cases start populated
        boss = rng.randrange(self.NUSERS)
        if rng.random() < .85:
            ops.append(["join", boss, chans[0], None])
            for u in range(self.NUSERS):
                if u != boss and rng.random() < self.POPULATE:
                    ops.append(["join", u, chans[0], None])
        inside = {(o[1], chans[0]) for o in ops}      # a guess
        for _ in range(n):
            k = rng.choices(kinds, ws)[0]
            op = self.gen_op(rng, k, chans)
            if k in ("join", "joinkey"):
                out = [(u, c) for u in range(self.NUSERS) for c in chans if (u, c) not in inside]
                if out and rng.random() < .8:
                    op[1], op[2] = rng.choice(out)
                    if rng.random() < .4:
                        inside.add((op[1], op[2]))
            elif k in ("part", "partmsg"):
                if inside and rng.random() < .8:
                    op[1], op[2] = rng.choice(sorted(inside))
                inside.discard((op[1], op[2]))
            elif k == "quit":
                inside = {x for x in inside if x[0] != op[1]}
            # give operators something to do: the first user of the busiest channel acts more often there
            if k in ("mode", "modearg", "kick", "invite", "gate", "topic") and rng.random() < self.BOSSY:
                op[1] = boss
                if rng.random() < .8:
                    op[3 if k == "invite" else 2] = chans[0]
            elif k in ("join", "joinkey", "quit", "part", "join0") and op[1] == boss and rng.random() < .7:
                continue
            ops.append(op)
        case = {"net": rng.choices(range(len(self.NETS)), self.NETWEIGHTS)[0], "ops": ops}
        if rng.random() < self.SERVICE:
            case["svc"] = 1
            at = [min(len(ops), x) for x in (rng.randint(1, 8), rng.randrange(len(ops) + 1), rng.randrange(len(ops) + 1))]
            for x in sorted(at, reverse=True):
                ops.insert(x, [rng.choice(["svcjoin", "svcjoin", "svcjoin", "svcpart", "svcmode"]), 0, chans[0],
                               rng.choice(["+o", "-o", "+v", "-v"])])
            ops.insert(at[0], ["svcjoin", 0, chans[0], ""])
            for op in ops:      # the service is often the target
                if op[0] == "kick" and rng.random() < .35:
                    op[3] = self.NUSERS
                elif op[0] in ("mode", "modearg") and rng.random() < .4:
                    op[4] = [self.NUSERS if isinstance(x, int) and rng.random() < .6 else x for x in op[4]]
                elif op[0] == "invite" and rng.random() < .2:
                    op[2] = self.NUSERS
        return case

    def gen_op(self, rng, k, chans):
        u = rng.randrange(self.NUSERS)
        v = rng.randrange(self.NUSERS)
        ch = rng.choice(chans)
        nm = rng.choice(NAMEVARS[ch]) if rng.random() < .3 else ch
        if k == "join":
            return ["join", u, nm, None]
        if k == "joinkey":
            return ["join", u, nm, rng.choice(KEYS[:4])]
        if k == "joinmulti":
            cs = [rng.choice(chans + ["nochan", "#new%d" % rng.randrange(3)]) for _ in range(rng.randint(2, 4))]
            return ["join", u, ",".join(cs), ",".join(rng.choice(["", "key", "k2"]) for _ in cs) if rng.random() < .6 else None]
        if k == "part":
            return ["part", u, nm, None]
        if k == "partmsg":
            return ["part", u, nm, rng.choice(TEXTS)]
        if k == "join0":
            return ["join0", u]
        if k == "kick":
            return ["kick", u, nm, v, rng.choice([None, "bye", "out\x03now", "k" * 200])]
        if k == "topic":
            return ["topic", u, nm, rng.choice(["t1", "T1", "a topic", "", "y" * 170, "\x03red"])]
        if k == "topicq":
            return ["topic", u, nm, None]
        if k == "invite":
            return ["invite", u, v, nm]
        if k == "nick":
            return ["nick", u, rng.choice(SPARE)]
        if k == "quit":
            return ["quit", u, rng.choice([None, "so long", "c\x03"])]
        if k == "conn":
            return ["conn", u]
        if k == "away":
            return ["away", u, rng.choice([None, "gone", "lunch", "z" * 200])]
        if k == "umode":
            return ["umode", u, rng.choice("+-") + rng.choice(["i", "d", "R", "c", "id", "iR"])]
        if k == "msg":
            return ["msg", u, rng.choice(["PRIVMSG", "NOTICE"]), nm, rng.choice(TEXTS)]
        if k == "pm":
            return ["pm", u, rng.choice(["PRIVMSG", "NOTICE"]), v, rng.choice(TEXTS)]
        if k == "multimsg":
            return ["multimsg", u, rng.choice(["PRIVMSG", "NOTICE"]), [rng.choice(chans) if rng.random() < .5 else rng.randrange(self.NUSERS)
                    for _ in range(rng.randint(2, 4))], rng.choice(TEXTS[:4])]
        if k == "wall":
            return ["wall", u, rng.choice(["WALLCHOPS", "WALLVOICES"]), nm, rng.choice(TEXTS[:3])]
        if k == "mode":
            s = "".join(rng.choice("+-") + "".join(rng.choice("psmtinrDcCuMlx") for _ in range(rng.randint(1, 3))) for _ in range(rng.randint(1, 2)))
            args = [rng.choice(["1", "2", "3", "5", "0", "-1", "abc"]) for c in s if c == "l"]
            return ["mode", u, nm, s, args]
        if k == "modearg":
            s, args, sign = "", [], None
            for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 7])):
                sg = rng.choice("++-")
                if sg != sign:
                    s += sg
                    sign = sg
                c = rng.choice("oovvbbbkl")
                s += c
                if c in "ov":
                    args.append(rng.randrange(self.NUSERS) if rng.random() < .95 else "nobody")
                elif c == "b":
                    args.append(rng.choice(MASKS))
                elif c == "k":
                    args.append(rng.choice(KEYS[:7]))
                elif sg == "+":
                    args.append(rng.choice(["1", "2", "4", "10"]))
            if rng.random() < .08 and args:
                args.pop()
            if rng.random() < .05:
                args += ["+m", "-t"][:rng.randint(1, 2)]
            return ["mode", u, nm, s, args]
        if k == "modeq":
            return ["modeq", u, nm]
        if k == "banq":
            return ["banq", u, nm]
        if k == "namesq":
            return ["namesq", u, nm]
        if k == "acct":
            return ["acct", u]
        if k == "silence":
            if rng.random() < .12:
                return ["silence", u, None]
            return ["silence", u, ",".join(rng.choice(["+", "+", "-", ""]) + rng.choice(["", "", "~"]) + rng.choice(MASKS[:10] + ["bob", "*!*@10.0.1.0/24", "Eve!*@*"])
                    for _ in range(rng.choice([1, 1, 1, 2, 3])))]
        if k == "gate":
            return rng.choice([
                ["mode", u, nm, rng.choice(["+i", "+i", "-i", "+r", "+r", "-r", "+m", "-m", "+n", "-n", "+M", "-M", "+D", "+D", "-D"]), []],
                ["mode", u, nm, rng.choice(["+i", "+r", "+D", "-i", "-r", "-D"]), []],
                ["mode", u, nm, rng.choice(["+l", "+l", "+l", "-l"]), [rng.choice(["1", "2", "3", "4"])]],
                ["mode", u, nm, rng.choice(["+k", "+k", "-k"]), ["key"]],
                ["mode", u, nm, rng.choice(["+b", "+b", "+b", "-b"]), [rng.choice(MASKS)]],
                ["mode", u, nm, rng.choice(["+v", "-v", "+o", "-o"]), [v]]])
        raise KeyError(k)

    # -- execution
    def boot(self, net=0):
        n, topology = self.NETS[net]
        w = ircsim.boot_network(n, self.VARIANT, topology=topology, features=self.FEATURES, pingfreq=100000)
        w.svc = p10.Peer(w).handshake()
        return w

    def nick_of(self, m, v):
        return m.users[v % len(m.users)].nick if isinstance(v, int) else v

    def start(self, w, case):
        m = Model()
        conns = []
        for i in range(self.NUSERS):
            u = User(i, NICKS[i], NICKS[i].lower()[:3].replace("{", "c"), "10.0.%d.%d" % (i % 2, 10 + i), i % w.n)
            m.users.append(u)
            conns.append(self.connect(w, u))
        if case.get("svc"):
            nn = w.svc.user("Xsvc", modes="+ik")
            u = User(self.NUSERS, "Xsvc", "srv", "10.9.0.9", 0)
            u.host, u.nn, u.modes = "svc.test", nn, {"k", "i"}
            m.users.append(u)
            conns.append(None)
            w.run()
        return m, conns

    def connect(self, w, u):
        return w.client(u.nick, u.server, u.ip, user=u.user)

    def run(self, case):
        net = case.get("net", 0)
        w = self.world("net%d" % net, lambda: self.boot(net))
        with pbt.case_of(self, w):
            return self.run_case(w, case)

    def run_case(self, w, case):
        m, conns = self.start(w, case)
        checks = 0
        try:
            for n, op in enumerate(case["ops"]):
                m.exp = {}
                w.adv(130000)
                for c in conns:
                    if c:
                        c.msgs()
                if not self.apply(w, m, conns, op):
                    continue
                checks += self.compare(w, m, conns, "op %d %r" % (n, op), op)
            if self.FINAL_SWEEP:
                checks += self.sweep(w, m, conns)
        except OutOfScope:
            m.labels.add("left-scope")
        return {"nontrivial": self.nontrivial(m), "labels": sorted(m.labels), "checks": checks}

    def nontrivial(self, m):
        return len(m.labels) >= 3

    def apply(self, w, m, conns, op):
        k = op[0]
        u = m.users[op[1] % self.NUSERS]
        c = conns[u.idx]
        if k[:3] == "svc":
            return self.apply_svc(w, m, k, op[2], op[3])
        if k == "conn":
            if u.alive:
                return False
            o = m.user(u.nick)
            if o is not None:
                return False
            u.alive = True
            conns[u.idx] = self.connect(w, u)
            return False
        if not u.alive or self.uneven_reveal(w, m, u, op):
            return False
        if k == "join":
            c.send("JOIN %s%s" % (op[2], " " + op[3] if op[3] else ""))
            m.join(u, op[2], op[3])
        elif k == "join0":
            c.send("JOIN 0")
            m.part_all(u)
        elif k == "part":
            c.send("PART %s%s" % (op[2], " :" + op[3] if op[3] else ""))
            m.part(u, op[2], op[3])
        elif k == "kick":
            v = self.nick_of(m, op[3])
            c.send("KICK %s %s%s" % (op[2], v, " :" + op[4] if op[4] else ""))
            # without a comment the last parameter, the nick as typed, is the comment
            m.kick(u, op[2], v, op[4] if op[4] else v)
        elif k == "topic":
            c.send("TOPIC %s%s" % (op[2], " :" + op[3] if op[3] is not None else ""))
            m.topic(u, op[2], op[3])
        elif k == "invite":
            v = self.nick_of(m, op[2])
            c.send("INVITE %s %s" % (v, op[3]))
            m.invite(u, v, op[3])
        elif k == "nick":
            c.send("NICK %s" % op[2])
            m.nick(u, op[2])
        elif k == "quit":
            c.send("QUIT%s" % (" :" + op[2] if op[2] else ""))
            m.quit(u, op[2])
        elif k == "away":
            c.send("AWAY%s" % (" :" + op[2] if op[2] else ""))
            m.away(u, op[2])
        elif k == "umode":
            c.send("MODE %s %s" % (u.nick, op[2]))
            m.umode(u, op[2])
        elif k == "msg":
            c.send("%s %s :%s" % (op[2], op[3], op[4]))
            m.msg(u, op[2], op[3], op[4])
        elif k == "pm":
            v = self.nick_of(m, op[3])
            c.send("%s %s :%s" % (op[2], v, op[4]))
            m.msg(u, op[2], v, op[4])
        elif k == "multimsg":
            t = ",".join(self.nick_of(m, x) for x in op[3])
            c.send("%s %s :%s" % (op[2], t, op[4]))
            m.msg(u, op[2], t, op[4])
        elif k == "wall":
            c.send("%s %s :%s" % (op[2], op[3], op[4]))
            m.wall(u, op[2], op[3], op[4])
        elif k == "mode":
            args = [self.nick_of(m, x) if isinstance(x, int) else x for x in op[4]]
            if args and (" " in args[-1]):
                args[-1] = args[-1].replace(" ", "_")
            args = [a if not a.startswith(":") or i == len(args) - 1 else a[1:] for i, a in enumerate(args)]
            wire = list(args)
            if wire and wire[-1].startswith(":"):
                wire[-1] = ":" + wire[-1]
            c.send("MODE %s %s %s" % (op[2], op[3], " ".join(wire)))
            m.mode(u, op[2], op[3], args)
        elif k == "modeq":
            c.send("MODE %s" % op[2])
            m.mode_query(u, op[2])
        elif k == "banq":
            c.send("MODE %s b" % op[2])
            m.ban_list(u, op[2])
        elif k == "namesq":
            c.send("NAMES %s" % op[2])
            ch = m.find(u, op[2])
            if ch is None:
                m.emit(u, "NAMES-NONE", op[2])
            else:
                m.names_reply(u, ch, op[2])
        elif k == "acct":
            if u.account or not self.ACCOUNTS:
                return False
            w.svc.account(u.nick, "acc%d" % u.idx)
            u.account = "acc%d" % u.idx
        elif k == "silence":
            if op[2]:
                c.send("SILENCE " + op[2])
                m.silence(u, op[2])
            else:
                c.send("SILENCE")
                m.silence_list(u)
        else:
            raise KeyError(k)
        return True

    def apply_svc(self, w, m, k, name, what):
        """the network service acts through its own server"""
        x = [u for u in m.users if u.idx == self.NUSERS]
        if not x or name[0] == "&":
            return False
        x = x[0]
        ch = m.find(x, name)
        if ch is None:
            return False
        mb = ch.members.get(x)
        w.svc.pump()
        if k == "svcjoin" and mb is None:
            w.svc.send("%s J %s %d" % (x.nn, ch.name, w.svc.now()))
            m.remote_join(x, ch)
        elif k == "svcpart" and mb:
            w.svc.send("%s L %s" % (x.nn, ch.name))
            m.part(x, ch.name)
        elif k == "svcmode" and mb:
            w.svc.send("%s M %s %s %s" % (w.svc.num, ch.name, what, x.nn))
            m.server_mode(x, ch, what)
        else:
            return False
        m.labels.add("service")
        return True

    def uneven_reveal(self, w, m, u, op):
        """Would op make a hidden member of a +D channel visible on some servers only?

        Speech travels only to servers with somebody to hear it, so only those learn
        that the speaker is there: the protocol has no message for it.
        """
        if w.n == 1 or op[0] not in ("msg", "multimsg", "wall"):
            return False
        tg = op[3] if op[0] == "multimsg" else [op[3]]
        for t in tg:
            t = self.nick_of(m, t)
            ch = m.find(u, t) if t[0] in "#&" else None
            mb = ch.members.get(u) if ch else None
            if mb is None or not mb.delayed or ch.local():
                continue
            reached = {u.server}
            for x, st in ch.members.items():
                if x is u or "d" in x.modes:
                    continue
                if op[0] == "wall" and not (st.op or (op[2] == "WALLVOICES" and st.voice)):
                    continue
                reached.update(path(w.topology, u.server, x.server))
            if len(reached) < w.n:
                return True
        return False

    def compare(self, w, m, conns, what, op=("sweep",)):
        w.run()
        n = 0
        for u in m.users:
            c = conns[u.idx]
            if c is None:
                continue
            got = canon(c.msgs(), u)
            exp = m.exp.get(u.idx, [])
            if not u.alive and c.eof:
                got = [g for g in got if not (g[0] == "OTHER" and "ERROR :Closing Link" in g[1]) and g[0] != "QUIT"]
            elif c.eof:
                if self.JUDGED_OPS is not None and op[0] not in self.JUDGED_OPS:
                    raise OutOfScope
                raise Violation("%s: the connection of %s was closed (last: %r)" % (what, u.nick, got[-2:]))
            for o in [e for e in exp if e[0] == "opt"]:
                if o[1] in got:
                    got.remove(o[1])
            exp = [e for e in exp if e[0] != "opt"]
            n += 1
            if sorted(got, key=show) != sorted(exp, key=show):
                if op[0] == "sweep":
                    if self.SWEEP_KINDS is not None:
                        got, exp = ([t for t in x if (t[1] if t[0] == "num" else t[0]) in self.SWEEP_KINDS] for x in (got, exp))
                elif self.JUDGED_OPS is not None and op[0] not in self.JUDGED_OPS:
                    raise OutOfScope
                else:
                    got, exp = ([t for t in x if self.judged(op, t)] for x in (got, exp))
                if sorted(got, key=show) == sorted(exp, key=show):
                    raise OutOfScope
                miss = [show(e) for e in exp if e not in got]
                extra = [show(g) for g in got if g not in exp]
                raise Violation("%s: user %d (%s, on server %d)\n  missing: %s\n  unexpected: %s" % (
                    what, u.idx, u.nick, u.server, "; ".join(miss) or "(multiplicity)", "; ".join(extra) or "(multiplicity)"))
        return n

    def sweep(self, w, m, conns):
        """Every user asks about every channel: all servers must agree with the model."""
        n = 0
        names = sorted({c.name for c in m.chans.values()} | {"#a"})
        for u in m.users:
            if not u.alive or conns[u.idx] is None:
                continue
            m.exp = {}
            c = conns[u.idx]
            for nm in names:
                ch = m.find(u, nm)
                c.send("NAMES " + nm, "MODE " + nm, "MODE %s b" % nm, "TOPIC " + nm)
                if ch is None:
                    m.emit(u, "NAMES-NONE", nm)
                else:
                    m.names_reply(u, ch, nm)
                m.mode_query(u, nm)
                m.ban_list(u, nm)
                m.topic(u, nm)
            n += self.compare(w, m, conns, "final state asked by %s" % u.nick)
        return n
