"""Whatever clients send, no server crashes, corrupts memory, hangs, breaks its links or lies to others."""
import burst, ircsim, p10, pbt
from cmdgram import Gram
from pbt import Violation

PROP = {
    "id": "C18",
    "title": "No input from clients or operators crashes, corrupts or hangs a server or breaks the protocol towards others",
    "statement": "Whatever bytes unregistered connections, users and operators send (short of operators' DIE, RESTART and absurd SET values for timers and pools), split however, with whatever disconnects in between: every server keeps "
                 "running without memory errors; server links stay up unless an operator takes them down and peers raise no protocol violations because of it; every line "
                 "sent to anyone is a well-formed IRC line (within the length limit, no NUL or bare CR/LF inside, from a source that is a user or a server); all servers "
                 "still agree on users and channels; and the service goes on: a new client can register, join, talk across the network and quit.",
    "quantifier": {"over": ["inputs", "histories", "configurations"],
                   "text": "all sequences of lines derived from a grammar of all 80 client commands with sensible, wrong, extreme and garbage parameters, by "
                           "unregistered, registered and operator clients of one or two servers, in any packets, with half-lines, resets and clock jumps, under several configurations"},
    "why_tests_cant": "The interesting inputs are combinations: a mask with an odd CIDR in SILENCE after it filled up, a nick change right after a kill; no list of "
                      "examples covers them, and memory errors need instrumented runs to be seen at all.",
    "anchors": {
        "files": ["ircd/packet.c", "ircd/parse.c", "ircd/s_user.c", "ircd/channel.c", "ircd/m_*.c", "ircd/ircd_string.c", "ircd/match.c", "ircd/gline.c", "ircd/jupe.c", "ircd/hash.c",
                  "ircd/whowas.c", "ircd/list.c", "ircd/msgq.c", "ircd/ircd_snprintf.c"],
        "mechanism": [{"name": "parsing", "where": "ircd/parse.c parse_client(); ircd/packet.c"},
                      {"name": "numerics and relays", "where": "ircd/ircd_reply.c; ircd/ircd_snprintf.c; ircd/send.c"},
                      {"name": "teardown", "where": "ircd/s_misc.c exit_client(); ircd/list.c"}],
        "observe_at": ["AddressSanitizer and bounds checks in the running servers", "every line to every client", "net.burst of each server", "server notices", "the link state"],
    },
}
TECHNIQUE = ("grammar-based fuzzing of whole networks under AddressSanitizer with oracles for liveness, well-formedness of everything sent, agreement of servers and "
             "continued service")

CONFIGS = [   # servers, features
    (1, {"OPLEVELS": "FALSE"}),
    (1, {"OPLEVELS": "TRUE", "ZANNELS": "FALSE", "LOCAL_CHANNELS": "TRUE", "ANNOUNCE_INVITES": "TRUE", "MAXSILES": "3", "MAXBANS": "4", "NICKNAMEHISTORYLENGTH": "3", "CLIENTTAGDENY": "denied,ex.com/x"}),
    (2, {"ANNOUNCE_INVITES": "TRUE"}),
    (2, {"OPLEVELS": "TRUE", "ZANNELS": "FALSE", "MAXSILES": "3", "MAXBANS": "4", "NICKNAMEHISTORYLENGTH": "4", "NETWORK": "A-very-long-name-of-a-network-with-the-greatest-length", "HOST_HIDING": "FALSE"}),
]
SKIP = ("DIE", "RESTART")
MAXLINE = 512
OPERCMDS = ["GLINE", "JUPE", "OPMODE", "CLEARMODE", "KILL", "SQUIT", "CONNECT", "SET", "RESET", "GET", "STATS", "TRACE", "MODE", "WHO", "WHOIS", "LIST", "REHASH", "SETTIME", "RPING", "UPING",
            "WALLOPS", "WALLUSERS", "CLOSE", "HASH", "PRIVS", "INVITE", "JOIN", "PRIVMSG", "XQUERY", "CHECK", "OPER", "ASLL", "WHOWAS", "MAP", "LINKS"]


class CHECK(pbt.Check):
    RULE = "at least 20 lines were answered or relayed and at least two clients were still connected at the end"
    QUICK, THOROUGH = 5000, 300000
    VARIANT = "asan"

    def boot(self, k):
        n, feats = CONFIGS[k]
        f = dict(feats)
        f.update({"CLIENT_FLOOD": "60000", "IPCHECK_CLONE_LIMIT": "100", "HIS_WHOIS_LOCALCHAN": "FALSE"})
        extra = ('WebIRC { ip = "10.77.0.*"; password = "wpass"; description = "cgi"; };\n'
                 'Motd { host = "*.net"; file = "alt.motd"; }; Motd { host = "10.0.0.3"; file = "none.motd"; };\n'
                 'Pseudo "HELPME" { name = "Help"; nick = "Svc@services.test.net"; prepend = "ask "; };\n'
                 'Kill { host = "10.66.*"; reason = "go %s%n away"; }; Kill { realname = "*bad*"; reason = "realname"; };\n'
                 'Quarantine { "#quar" = "quarantined"; }; Jupe { nick = "jupednick,*bot?"; };\n'
                 'CRULE { server = "*.test.net"; rule = "connected(*.test.net) || via(a,b)"; };\n')
        w = ircsim.boot_network(n, self.VARIANT, pingfreq=100000, features=f, extra=extra,
                                files={"alt.motd": "line one\n%s %d\n" + "l" * 300 + "\n", "ircd.motd": "motd\n\n" + "x" * 600 + "\n"})
        w.svc = p10.Peer(w).handshake()
        for k in range(2):
            w.svc.user("Rem%d" % k, ts=1700000050)
        w.svc.user("Svc", modes="+k", ts=1700000051)
        w.svc.send("%s B #a 1700000000 +tn %sAAA:o" % (w.svc.num, w.svc.num), "%s B #rem 1700000000 +k key %sAAB,%sAAA:o :%%*!*@a.b *!*@10.1.0.0/16" % (w.svc.num, w.svc.num, w.svc.num))
        w.run()
        w.base = []
        for nick, inst, ip, caps in (("Ann", 0, "10.0.0.1", ()), ("bob", n - 1, "10.0.0.2", ("message-tags", "server-time", "account-tag", "echo-message", "away-notify", "extended-join")),
                                     ("Cyd", 0, "10.0.0.3", ("cap-notify", "userhost-in-names", "invite-notify", "chghost", "account-notify")), ("Oper", 0, "10.0.0.4", ()), ("Locop", n - 1, "10.0.0.5", ())):
            w.base.append(w.client(nick, inst, ip=ip, caps=caps))
        w.base[3].do("OPER oper operpass")
        w.base[4].do("OPER locop lpass")
        w.watch = []
        for i in range(n):
            c = w.client("Watch%d" % i, i, ip="10.3.0.%d" % (i + 1))
            c.do("OPER oper operpass")
            c.do("MODE Watch%d +s +65535" % i)
            w.watch.append(c)
        for c, ch in ((0, "#a"), (1, "#a"), (2, "#b"), (1, "#b"), (3, "#c")):
            w.base[c].do("JOIN " + ch)
        w.svc.account("bob", "bobacc")
        w.adv(60000)
        w.svc.pump()
        for c in w.conns.values():
            if c is not w.svc.c:
                c.lines()
        w.servernames = {"*.undernet.org"} | {ircsim.SERVERS[i] for i in range(n)} | {"services.test.net"}
        return w

    def prepare(self):
        super().prepare()

    def gen(self, rng, i, tier):
        net = rng.randrange(len(CONFIGS))
        n = CONFIGS[net][0]
        g = Gram(rng)
        ops = []
        focus = rng.sample(g.names, rng.choice([3, 6, 12])) if rng.random() < .6 else None
        admin = rng.random() < .45
        nact = 5
        for _ in range(rng.randint(15, 80)):
            r = rng.random()
            if r < .05:
                ops.append(["new", rng.randrange(n), rng.choice(["10.0.0.9", "10.66.0.1", "10.77.0.2", "10.0.0.1", "2001:db8::5"])])
                nact += 1
                if rng.random() < .7:
                    for l in rng.sample(["NICK " + g.newnick(), "USER %s %s * :%s" % (g.word(), g.num(), g.text()), "CAP LS 302", "CAP REQ :" + g.capreq(), "CAP END", "PASS " + g.text()], rng.randint(2, 5)):
                        ops.append(["l", nact - 1, l.replace("\n", "")])
            elif r < .08:
                ops.append(["adv", rng.choice([1, 2, 5, 31, 60, 95, 400, 3700])])
            elif r < .10:
                ops.append([rng.choice(["close", "rst"]), rng.randrange(nact)])
            elif r < .13:
                ops.append(["raw", rng.randrange(nact), g.line()[:rng.choice([1, 5, 1000])]])
            elif r < .14:
                ops.append(["hold", rng.randrange(nact), rng.choice([0, 0, 10, 300, -1])])
            elif r < .17:
                sv = rng.choice(["{S} AC {n} newacc", "{S} D {n} :services (gone)", "{S} SI {n} x", "{S} OM {c} +o {n}", "{S} CM {c} ovbklimnpst", "{SU} K {c} {n} :bye", "{SU} M {c} -o+v {n} {n}", "{SU} J {c} 1700000100",
                                 "{SU} L {c} :x", "{SU} I Ann {c}", "{SU} P {n} :hey", "{SU} O {c} :hey", "{S} GL * +*@10.0.9.* 100 1700000100 :svc", "{S} JU * +evil.test.net 100 1700000100 :j", "{SU} A :away", "{S} DS :x",
                                 "{SU} U {n}", "{SU} W AB :Ann", "{SU} R l AB", "{SU} N Rem9 1700009999", "{S} XR AB x :y", "{SU} T {c} 1700000100 1700000200 :topic"])
                ops.append(["svc", sv.replace("{c}", g.chan()).replace("{n}", "$" + rng.choice(["Ann", "bob", "Cyd", "Oper"]))])
            else:
                a = rng.randrange(nact) if rng.random() < .8 else rng.choice([3, 4])
                c = rng.choice(focus) if focus and rng.random() < .75 else None
                if c is None and a in (3, 4) and rng.random() < .6:
                    c = rng.choice([x for x in OPERCMDS if x in g.COMMANDS])
                l = g.line([c] if c else None)
                if not admin and l.upper().split(" ")[0] in ("SQUIT", "JUPE", "CONNECT", "SET", "RESET"):
                    continue
                ops.append(["l", a, l])
        return {"net": net, "admin": admin, "ops": ops}

    def good(self, w, who, l, names, reg):
        """Is this a line a client may be sent?"""
        if "\0" in l or "\r" in l:
            raise Violation("%s was sent a line with a NUL or CR inside: %r" % (who, l))
        t = l
        if t.startswith("@"):
            tg, _, t = t.partition(" ")
            if len(tg) > 8191:
                raise Violation("%s was sent %d bytes of tags" % (who, len(tg)))
        if len(t) > MAXLINE - 2:
            raise Violation("%s was sent a line of %d bytes: %r" % (who, len(t) + 2, t))
        m = ircsim.Msg(l)
        if not m.cmd:
            raise Violation("%s was sent a line without a command: %r" % (who, l))
        if not (m.cmd.isalpha() or (len(m.cmd) == 3 and m.cmd.isdigit())):
            raise Violation("%s was sent a line with the command %r: %r" % (who, m.cmd, l))
        if m.src is None:
            if m.cmd not in ("PING", "ERROR", "NOTICE", "AUTHENTICATE"):
                raise Violation("%s was sent a line without a source: %r" % (who, l))
        elif "!" not in m.src and m.src not in w.servernames and "." in m.src:
            raise Violation("%s was sent a line from %r: %r" % (who, m.src, l))
        return m

    def run(self, case):
        n = CONFIGS[case["net"]][0]
        w = self.world("net%d" % case["net"], lambda: self.boot(case["net"]))
        with pbt.case_of(self, w):
            acts = list(w.base)
            seen = 0
            labels = set()
            power = False
            vio = []

            def collect():
                nonlocal seen
                for k, c in enumerate(acts):
                    for l in c.lines():
                        if l:
                            m = self.good(w, "client %d" % k, l, None, True)
                            labels.add(m.cmd)
                            seen += 1
                for c in w.watch:
                    for l in c.lines():
                        m = self.good(w, c.nick, l, None, True)
                        if m.cmd == "NOTICE" and "Protocol Violation" in l:
                            vio.append(l)
                w.svc.pump()
            for op in case["ops"]:
                k = op[0]
                if k == "adv":
                    w.adv(op[1] * 1000)
                elif k == "new":
                    acts.append(w.connect(op[1], op[2]))
                elif k == "svc":
                    if w.svc.c.eof:
                        continue
                    s = op[1].replace("{S}", w.svc.num).replace("{SU}", w.svc.num + "AAA")
                    words = s.split(" ")
                    for i, x in enumerate(words):
                        if x.startswith("$"):
                            words[i] = w.svc.nicks.get(x[1:], "ABAAA")
                    before = len(vio)
                    w.svc.send(" ".join(words))
                    w.run()
                    collect()
                    del vio[before:]      # the harness's own lines may be out of place by now
                    continue
                else:
                    if op[1] >= len(acts):
                        continue
                    c = acts[op[1]]
                    if c.closed:
                        continue
                    if k in ("raw", "l") and any(x in op[2].upper() for x in ("SQUIT", "JUPE", "CONNECT", "SET", "REHASH")):
                        power = True      # what an operator may do to the network itself
                    if k == "close":
                        c.close()
                    elif k == "rst":
                        c.rst()
                    elif k == "hold":
                        w.sim.cmd("hold %d %d" % (c.ext, op[2]))
                    elif k == "raw":
                        c.raw(ircsim.enc(op[2].replace("\n", "")))
                    else:
                        c.raw(ircsim.enc(op[2]) + b"\r\n")
                w.run()
                collect()
                if vio:
                    raise Violation("a server complained of a protocol violation after %r: %s" % (op, vio[0]))
            for c in acts:
                w.sim.cmd("hold %d -1" % c.ext)
            w.run()
            w.adv(1000)
            collect()
            if vio:
                raise Violation("a server complained of a protocol violation: %s" % vio[0])
            if w.exited:
                raise Violation("a server ended: %r" % w.exited)
            if not power and w.svc.c.eof:
                raise Violation("the services link was closed: %r" % w.svc.log[-3:])
            # life goes on: registration, chat across the network
            w.adv(120000)
            fresh = []
            for i in range(n):
                c = w.connect(i, "10.44.0.%d" % (i + 1))
                c.nick = "Fresh%d" % i
                c.send("NICK Fresh%d" % i, "USER f 0 * :f")
                w.run()
                ms = c.msgs()
                for m in ms:
                    if m.cmd == "PING":
                        c.send("PONG :" + m.params[-1])
                        w.run()
                        ms += c.msgs()
                if not any(m.cmd == "001" for m in ms):
                    if power:
                        fresh = None
                        break
                    if any(m.cmd in ("465", "433") for m in ms):
                        fresh = None      # an operator's G-line of everybody, or the nick is used
                        break
                    raise Violation("a new client cannot register any more on server %d: %r" % (i, ms))
                fresh.append(c)
            if fresh and n == 2 and not power:
                fresh[0].do("JOIN #fresh")
                fresh[1].do("JOIN #fresh")
                for c in fresh:
                    c.lines()
                fresh[0].send("PRIVMSG #fresh :hello out there")
                fresh[1].send("PRIVMSG Fresh0 :and back")
                w.run()
                if not any(m.cmd == "PRIVMSG" and m.params[-1] == "hello out there" for m in fresh[1].msgs()) or \
                   not any(m.cmd == "PRIVMSG" and m.params[-1] == "and back" for m in fresh[0].msgs()):
                    raise Violation("new clients on the two servers cannot talk to each other any more")
            if n == 2 and not power:
                snaps = [burst.snapshot(w, i) for i in range(n)]
                f = []
                for s in snaps:
                    if s.odd:
                        raise Violation("a net.burst contains %r" % s.odd[0])
                    u = {k: (v["nick"], v["user"], v["host"], v["modes"], v["args"]) for k, v in s.users.items()}
                    f.append({"users": u, "servers": set(s.servers), "channels": {k: (set(c.members), c.modes, c.key, c.limit, sorted(c.bans)) for k, c in s.chans.items() if c.members}})
                d = burst.diff(f[0], f[1])
                if d:
                    raise Violation("the servers disagree:\n  " + "\n  ".join(d[:8]))
            collect()
            alive = sum(1 for c in acts if not c.closed and not c.eof)
            return {"nontrivial": seen >= 20 and alive >= 2, "labels": sorted(labels) + ["fresh" if fresh else "nofresh"] + (["power"] if power else ["agree"])}

    def simplify(self, op):
        if op[0] == "l" and len(op[2]) > 3:
            ws = op[2].split(" ")
            for i in range(len(ws)):
                if len(ws) > 1:
                    yield [op[0], op[1], " ".join(ws[:i] + ws[i + 1:])]
            for i, x in enumerate(ws):
                if len(x) > 8:
                    yield [op[0], op[1], " ".join(ws[:i] + [x[:len(x) // 2]] + ws[i + 1:])]
