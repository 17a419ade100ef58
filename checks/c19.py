"""Whatever a linked server sends, no server crashes, corrupts memory or hangs, other links and clients go on."""
import re
import burst, ircsim, p10, pbt
from p10gram import Gram
from pbt import Violation

PROP = {
    "id": "C19",
    "title": "No line from a linked server crashes, corrupts or hangs a server, or takes down other links and clients",
    "statement": "Whatever lines a linked server sends - P10 traffic in any order and with any parameters, unknown numerics, wrong directions, too few or too many parameters, garbage, whatever is in flight - "
                 "the server receiving it and the servers behind that one keep running without memory errors and without hanging; the links between other servers stay up "
                 "unless the peer takes them down by a valid SQUIT, jupe or nick or numeric collision with a server; every line sent to a client is well-formed; "
                 "and new clients can still register and talk across the network.",
    "quantifier": {"over": ["inputs", "histories", "configurations"],
                   "text": "all sequences of lines of a grammar of all P10 tokens, from sensible to garbage, from the peer, its users, servers behind it and spoofed origins, in one or two "
                           "server networks with users, channels and operators, mixed with users' commands and resets, before, during and after the peer's burst"},
    "why_tests_cant": "The tests exchange a few well-formed lines between correct servers; a later version of another server, services or a race produce lines no example has.",
    "anchors": {
        "files": ["ircd/parse.c", "ircd/m_*.c", "ircd/channel.c", "ircd/s_user.c", "ircd/s_serv.c", "ircd/numnicks.c", "ircd/gline.c", "ircd/sline.c", "ircd/jupe.c", "ircd/netconf.c", "ircd/s_misc.c", "ircd/hash.c"],
        "mechanism": [{"name": "parsing of server lines", "where": "ircd/parse.c parse_server()"},
                      {"name": "numerics", "where": "ircd/numnicks.c"},
                      {"name": "bursts", "where": "ircd/m_burst.c; ircd/m_server.c"}],
        "observe_at": ["AddressSanitizer and bounds checks in the running servers", "every line to every client", "the link state", "new clients' registration and chat"],
    },
}
TECHNIQUE = "grammar-based fuzzing of the server protocol under AddressSanitizer with oracles for liveness, isolation of other links, well-formedness and continued service"

CONFIGS = [  # servers, features, peer's name
    (2, {}, "services.test.net"),
    (2, {"OPLEVELS": "FALSE", "NICKNAMEHISTORYLENGTH": "4", "MAXBANS": "4", "MAXSILES": "3"}, "peer1.test.net"),
    (1, {"OPLEVELS": "TRUE", "ZANNELS": "FALSE", "HIS_REMOTE": "FALSE", "NICKNAMEHISTORYLENGTH": "4"}, "services.test.net"),
]
MAXLINE = 512
VAR = re.compile(r"\$(me|hub|leaf|sub2|sub|now|later2|later|gone|Ann|bob|Cyd|Oper|u[0-3]|s0)")
BASE = ["$me N U0 1 1700000050 id h.example +i B]AAAB $u0 :user zero", "$me N U1 1 1700000051 id h1.example DAqAAA $u1 :user one",
        "$me N U2 1 1700000052 id h2.example +kio B]AAAD $u2 :user two", "$me N U3 1 1700000053 ~id h3.example +r acc BKAAAB $u3 :user three"]


class CHECK(pbt.Check):
    RULE = "the peer's link survived at least 10 lines and at least 3 client-visible lines resulted"
    QUICK, THOROUGH = 5000, 300000
    VARIANT = "asan"

    def boot(self, k):
        n, feats, peer = CONFIGS[k]
        f = dict(feats)
        f.update({"CLIENT_FLOOD": "60000", "IPCHECK_CLONE_LIMIT": "1000"})
        w = ircsim.boot_network(n, self.VARIANT, pingfreq=100000, features=f,
                                extra='Quarantine { "#quar" = "quarantined"; }; Jupe { nick = "jupednick"; };\n')
        w.base = []
        for nick, inst, ip in (("Ann", 0, "10.0.0.1"), ("bob", n - 1, "10.0.0.2"), ("Cyd", 0, "10.0.0.3"), ("Oper", n - 1, "10.0.0.4")):
            w.base.append(w.client(nick, inst, ip=ip, caps=("message-tags", "away-notify", "extended-join", "account-notify", "chghost") if nick in ("bob", "Cyd") else ()))
        w.base[3].do("OPER oper operpass")
        w.base[3].do("MODE Oper +s +65535")
        for c, ch in ((0, "#a"), (1, "#a"), (2, "#b"), (1, "#b"), (3, "#rem")):
            w.base[c].do("JOIN " + ch)
        w.base[0].do("MODE #a +b *!*@ban.example")
        w.base[0].do("SILENCE *!*@sil.example")
        w.peer = p10.Peer(w, peer)
        w.peer.start = 1700000000 - 1000
        w.adv(60000)
        for c in w.conns.values():
            c.lines()
        w.servernames = {"*.undernet.org"} | {ircsim.SERVERS[i] for i in range(n)}
        return w

    def gen(self, rng, i, tier):
        net = rng.randrange(len(CONFIGS))
        n = CONFIGS[net][0]
        g = Gram(rng)
        focus = rng.sample(g.tokens, rng.choice([2, 4, 10])) if rng.random() < .6 else None
        ops = []
        pre = rng.random()
        wild = rng.random() < .75
        if pre < .1:
            for _ in range(rng.randint(1, 6)):
                ops.append(["p", rng.choice([g.line, lambda: rng.choice(["PASS :lp", "PASS :wrong", "PASS", "SERVER services.test.net 1 1699999000 1700000060 J10 Bk]]] +s6 :x", "SERVER peer1.test.net 1 0 $now J10 Bk]]] +6 :x",
                                                                        "SERVER hub.test.net 1 1 $now J10 AB]]] +6 :x", "SERVER evil.test.net 1 1 $now J10 Bk]]] +6 :x", "SERVER peer1.test.net 1 1 $now J10 AB]]] +6 :x",
                                                                        "SERVER peer1.test.net 1 1 $now P11 Bk]]] 0 :x", "SERVER peer1.test.net 3 5 1 J09 BkAAA +hs6 :x", "NICK foo", "USER a b c d", "CAP LS", "ERROR :x", "Bk EB"])])()])
        shake = rng.random()
        if shake < .75:
            ops.append(["shake"])
        elif shake < .95:
            ops.append(["hello"])         # no end of burst yet
        for _ in range(rng.randint(10, 60)):
            r = rng.random()
            t = rng.choice(focus) if focus and rng.random() < .7 else None
            if r < .08:
                from cmdgram import Gram as CG
                cg = CG(rng, nicks=["Ann", "bob", "Cyd", "Oper", "U0", "U1", "U3"])
                ops.append(["c", rng.randrange(4), cg.line([rng.choice(["PRIVMSG", "JOIN", "PART", "MODE", "KICK", "NICK", "AWAY", "WHOIS", "WHO", "INVITE", "TOPIC", "SILENCE", "WHOWAS", "MAP", "LINKS", "NAMES", "TRACE"])])])
            elif r < .10:
                ops.append(["adv", rng.choice([1, 5, 61, 400])])
            elif r < .11:
                ops.append(["raw", g.line(t)[:rng.choice([3, 20, 600])]])
            elif r < .12:
                ops.append(["hold", rng.choice([0, 100, -1])])
            else:
                ops.append(["p", g.line(t, wild)])
        if rng.random() < .2:
            ops.append([rng.choice(["close", "rst"])])
        return {"net": net, "ops": ops}

    def good(self, who, l):
        if "\0" in l or "\r" in l:
            raise Violation("%s was sent a line with a NUL or CR inside: %r" % (who, l))
        t = l
        if t.startswith("@"):
            tg, _, t = t.partition(" ")
            if len(tg) > 8191:
                raise Violation("%s was sent %d bytes of tags" % (who, len(tg)))
        if len(t) > MAXLINE - 2:
            raise Violation("%s was sent a line of %d bytes: %r" % (who, len(t) + 2, t))

    def run(self, case):
        n = CONFIGS[case["net"]][0]
        w = self.world("net%d" % case["net"], lambda: self.boot(case["net"]))
        with pbt.case_of(self, w):
            peer = w.peer
            seen = lines = 0
            labels = set()
            known = {"me": peer.num, "hub": "AB", "leaf": "AC" if n == 2 else "AB", "sub": p10.b64(200, 2), "sub2": p10.b64(201, 2), "gone": peer.num + "AAx", "now": str(1700000061), "later": str(1700000100), "later2": str(1700003000),
                     "s0": p10.b64(200, 2) + "AAA"}
            for k in range(4):
                known["u%d" % k] = peer.num + "AA" + "ABCD"[k]

            def sub(s):
                for k in ("Ann", "bob", "Cyd", "Oper"):
                    known[k] = peer.nicks.get(k, known.get(k, "ABAAA"))
                return VAR.sub(lambda m: known[m.group(1)], s)

            def collect():
                nonlocal seen
                for c in w.base:
                    for l in c.lines():
                        if l:
                            self.good(c.nick, l)
                            seen += 1
                            m = l.split(" ")
                            labels.add(m[1] if len(m) > 1 else l[:8])
                peer.pump()
            power = False
            for op in case["ops"]:
                k = op[0]
                if k == "shake":
                    w.sim.cmd("hold %d -1" % peer.c.ext)
                    peer.handshake(burst=[sub(l) for l in BASE] + [sub("$me B #a 1700000000 +tn $u0:o,$u3"), sub("$me B #rem 1699999999 +k key $u1,$u2:o :%*!*@a.b *!*@10.1.0.0/16"),
                                                                 sub("$me B #apass 1699999999 +AU apass upass $u0:0,$u1:5")])
                    labels.add("up" if not peer.c.eof else "down")
                elif k == "hello":
                    peer.handshake(eob=False)
                    for l in BASE:
                        peer.send(sub(l))
                elif k == "adv":
                    w.adv(op[1] * 1000)
                elif k == "c":
                    if not w.base[op[1]].closed:
                        w.base[op[1]].raw(ircsim.enc(op[2]) + b"\r\n")
                elif k == "hold":
                    w.sim.cmd("hold %d %d" % (peer.c.ext, op[1]))
                elif k in ("p", "raw", "close", "rst"):
                    if peer.c.closed:
                        continue
                    if k == "p":
                        s = sub(op[1])
                        peer.c.raw(ircsim.enc(s) + b"\r\n")
                        if not peer.c.eof:
                            lines += 1
                    elif k == "raw":
                        peer.c.raw(ircsim.enc(sub(op[1])))
                    elif k == "close":
                        peer.c.close()
                    else:
                        peer.c.rst()
                w.run()
                collect()
            w.sim.cmd("hold %d -1" % peer.c.ext)
            w.run()
            w.adv(2000)
            collect()
            if w.exited:
                raise Violation("a server ended: %r" % w.exited)
            text = " ".join(sub(o[1]) for o in case["ops"] if o[0] in ("p", "raw")).upper()
            power = any(x in text for x in (" SQ ", " SQUIT ", " JU ", " JUPE ", " CO ", " CONNECT ", " S ", " SERVER ", "SERVER "))
            glined = any(x in text for x in (" GL ", "GLINE", " SL ", "SLINE", " CF ", " CONFIG "))
            # life goes on: what is known now is passed on to a new link
            if not power:
                p2 = p10.Peer(w, "peer2.test.net", 91, 0, "10.9.0.1", flags="+6")
                p2.handshake()
                if any(l.split(" ")[1:2] == ["EB"] for l in p2.log):
                    labels.add("burst")
                w.peers.remove(p2)
                p2.c.close()
                w.run()
            w.adv(30000)
            fresh = []
            for i in range(n):
                c = w.connect(i, "10.44.0.%d" % (i + 1))
                c.nick = "Fresh%d" % i
                c.send("NICK Fresh%d" % i, "USER f 0 * :f")
                w.run()
                ms = c.msgs()
                for m in ms:
                    if m.cmd == "PING":
                        c.send("PONG :" + m.params[-1])
                        w.run()
                        ms += c.msgs()
                if not any(m.cmd == "001" for m in ms):
                    if any(m.cmd in ("465", "433") for m in ms) or glined:
                        fresh = None
                        break
                    raise Violation("a new client cannot register any more on server %d: %r" % (i, ms))
                fresh.append(c)
            if fresh and n == 2 and not power and not glined:
                fresh[0].do("JOIN #fresh")
                fresh[1].do("JOIN #fresh")
                for c in fresh:
                    c.lines()
                fresh[0].send("PRIVMSG #fresh :hello out there")
                fresh[1].send("PRIVMSG Fresh0 :and back")
                w.run()
                if not any(m.cmd == "PRIVMSG" and m.params[-1] == "hello out there" for m in fresh[1].msgs()) or \
                   not any(m.cmd == "PRIVMSG" and m.params[-1] == "and back" for m in fresh[0].msgs()):
                    raise Violation("new clients on the two servers cannot talk to each other any more: %r" % w.base[3].last[-5:] if hasattr(w.base[3], "last") else "x")
                labels.add("talk")
            collect()
            return {"nontrivial": lines >= 10 and seen >= 3, "labels": sorted(labels)}

    def simplify(self, op):
        if op[0] in ("p", "c") and len(op[-1]) > 3:
            ws = op[-1].split(" ")
            for i in range(len(ws)):
                if len(ws) > 1:
                    yield op[:-1] + [" ".join(ws[:i] + ws[i + 1:])]
            for i, x in enumerate(ws):
                if len(x) > 8:
                    yield op[:-1] + [" ".join(ws[:i] + [x[:len(x) // 2]] + ws[i + 1:])]
