"""What users, operators and servers did is forgotten when they are gone: the same day again takes no more memory or descriptors."""
import re
import confgram, ircsim, p10, pbt, ws
from cmdgram import Gram
from c19 import BASE, VAR
from p10gram import Gram as PGram
from pbt import Violation

PROP = {
    "id": "C28",
    "title": "A server's memory and descriptors do not grow with the traffic it has seen",
    "statement": "When the same history — clients of every kind connecting, doing anything, being refused, killed, kicked off or splitting away; servers linking, bursting and leaving; configuration reloads — happens "
                 "again and again with everybody gone in between, a server's memory and open descriptors after each repetition stop growing: nothing that belonged to a user, connection, channel, server, ban, query or "
                 "message is kept for ever (history, G-lines, jupes, network settings and the like are kept, but once), and nothing allocated is lost.",
    "quantifier": {"over": ["histories", "inputs"],
                   "text": "all histories of lines from the grammars of all client commands and all P10 messages (well-formed and not) by unregistered, registered and operator clients of one or two servers and by a "
                           "linked peer, with half-lines, resets, unread output, clock jumps, splits and reloads, each repeated until memory use is steady"},
    "why_tests_cant": "A leak shows nowhere in a reply; it takes a particular path (an error return, a disconnect between two steps) and repetition, measured, to see that a server that is up for years grows.",
    "anchors": {
        "files": ["ircd/list.c", "ircd/s_misc.c", "ircd/channel.c", "ircd/dbuf.c", "ircd/msgq.c", "ircd/s_auth.c", "ircd/s_conf.c", "ircd/gline.c", "ircd/jupe.c", "ircd/whowas.c", "ircd/IPcheck.c", "ircd/ircd_events.c",
                  "ircd/s_bsd.c", "ircd/ircd_alloc.c", "ircd/m_burst.c", "ircd/ircd_res.c"],
        "mechanism": [{"name": "teardown of users and servers", "where": "ircd/s_misc.c exit_client() exit_one_client(); ircd/list.c free_client()"},
                      {"name": "channels, invites, bans", "where": "ircd/channel.c sub1_from_channel() destruct_channel() free_ban()"},
                      {"name": "connections", "where": "ircd/s_bsd.c close_connection(); ircd/s_auth.c destroy_auth_request(); ircd/ircd_events.c"}],
        "observe_at": ["bytes and blocks allocated per server (allocator accounting in the simulator)", "open descriptors per server", "LeakSanitizer's scan at the end"],
    },
}
TECHNIQUE = "metamorphic fuzzing: grammar-generated histories repeated to a fixed point of allocator and descriptor accounting, plus LeakSanitizer's reachability scan"

CONFIGS = [   # servers, features, peer
    (1, {"OPLEVELS": "FALSE"}, "services.test.net"),
    (1, {"OPLEVELS": "TRUE", "ZANNELS": "FALSE", "LOCAL_CHANNELS": "TRUE", "ANNOUNCE_INVITES": "TRUE", "MAXSILES": "3", "MAXBANS": "4", "CLIENTTAGDENY": "denied,ex.com/x"}, "peer1.test.net"),
    (2, {"ANNOUNCE_INVITES": "TRUE", "OPLEVELS": "TRUE", "HOST_HIDING": "TRUE"}, "services.test.net"),
    (1, {"NODNS": "FALSE", "IRCD_RES_TIMEOUT": "2", "IRCD_RES_RETRIES": "1"}, "peer1.test.net"),
]
OPERCMDS = ["GLINE", "JUPE", "OPMODE", "CLEARMODE", "KILL", "GET", "STATS", "TRACE", "MODE", "WHO", "WHOIS", "LIST", "REHASH", "SETTIME", "RPING", "UPING",
            "WALLOPS", "WALLUSERS", "CLOSE", "HASH", "PRIVS", "INVITE", "JOIN", "PRIVMSG", "XQUERY", "CHECK", "OPER", "ASLL", "WHOWAS", "MAP", "LINKS", "SET", "RESET"]
SAFESET = ["SET NETWORK Net%s", "SET HIDDEN_HOST h%s.example", "SET URL_CLIENTS http://x%s", "SET LOG OPER FILE log%s", "SET LOG OPER LEVEL INFO", "RESET LOG OPER FILE", "RESET NETWORK", "RESET HIDDEN_HOST", "SET DEFAULT_LIST_PARAM T<%s",
           "RESET DEFAULT_LIST_PARAM", "SET CLIENTTAGDENY a%s,b", "RESET CLIENTTAGDENY", "SET MPATH m%s", "RESET MPATH", "SET NICKNAMEHISTORYLENGTH %s", "SET LOG SOCKET SYSLOG LOCAL1", "SET HIS_SERVERNAME x%s.y", "SET AUTOJOIN #a%s"]
CAPS = ("message-tags", "server-time", "account-tag", "echo-message", "away-notify", "extended-join", "invite-notify", "chghost", "account-notify")
SETUP = [("Ann", 0, "10.0.0.1", ()), ("bob", 1, "10.0.0.2", CAPS), ("Cyd", 0, "10.0.0.3", ("cap-notify", "userhost-in-names", "invite-notify")), ("Oper", 0, "10.0.0.4", ()), ("Locop", 1, "10.0.0.5", ())]


class CHECK(pbt.Check):
    RULE = "the history had at least 15 answered or relayed lines in every repetition"
    QUICK, THOROUGH = 2000, 100000
    VARIANT = "asan"
    CPU = 240

    def boot(self, k):
        n, feats, peer = CONFIGS[k]
        w = ircsim.boot_network(n, self.VARIANT, confs=[self.conf(k, i) for i in range(n)],
                                files={"alt.motd": "line one\n%s %d\n" + "l" * 300 + "\n", "ircd.motd": "motd\n\n" + "x" * 600 + "\n", "resolv.conf": "nameserver 10.3.0.53\n",
                                       "kill.txt": "you are\nnot welcome\n", "inc.conf": confgram.INC[0]})
        for i in range(n):
            c = w.connect(i, "10.3.0.8")
            c.send("NICK Warm%d" % i, "USER j 0 * :j")
            self.settle(w, k, [c])
            ms = c.do("OPER oper operpass", "REHASH", "QUIT")
            if not any(m.cmd == "382" for m in ms):
                raise ircsim.SimError("no rehash: %r" % ms)
        w.adv(600000)
        return w

    def settle(self, w, k, cs):
        """Registration: name lookups run into their timeouts, cookies are answered."""
        w.run()
        if CONFIGS[k][1].get("NODNS") == "FALSE":
            w.adv(20000)
        for c in cs:
            for m in c.msgs():
                if m.cmd == "PING":
                    c.send("PONG :" + m.params[-1])
        w.run()

    def conf(self, k, i, more=""):
        n, feats, peer = CONFIGS[k]
        f = dict(feats)
        f.update({"CLIENT_FLOOD": "60000", "IPCHECK_CLONE_LIMIT": "1000", "NICKNAMEHISTORYLENGTH": "2", "HIS_REMOTE": "FALSE"})
        extra = ('WebIRC { ip = "10.77.0.*"; password = "wpass"; description = "cgi"; };\n'
                 'Motd { host = "*.net"; file = "alt.motd"; }; Motd { host = "10.0.0.3"; file = "none.motd"; };\n'
                 'Pseudo "HELPME" { name = "Help"; nick = "Svc@services.test.net"; prepend = "ask "; };\n'
                 'Kill { host = "10.66.*"; reason = "go %s%n away"; }; Kill { realname = "*bad*"; reason = "realname"; };\n'
                 'Quarantine { "#quar" = "quarantined"; }; Jupe { nick = "jupednick,*bot?"; };\n'
                 'CRULE { server = "*.test.net"; rule = "connected(*.test.net) || via(a,b)"; };\n')
        extra += 'Port { webirc = yes; port = 6900; };\n'
        cl = ['Client { ip = "*"; class = "Local"; };'] if k < 3 else ['Client { ip = "*"; class = "Local"; };', 'Client { username = "*"; ip = "10.200.*"; class = "Local"; };']
        return ircsim.conf(i, n, features=f, extra=extra + more, pingfreq=60000, clients=cl)

    def gen(self, rng, i, tier):
        net = rng.randrange(len(CONFIGS))
        n = CONFIGS[net][0]
        g, pg = Gram(rng), PGram(rng)
        ops = []
        focus = rng.sample(g.names, rng.choice([3, 6, 12])) if rng.random() < .6 else None
        pfocus = rng.sample(pg.tokens, rng.choice([2, 4, 10])) if rng.random() < .6 else None
        pshare = rng.choice([0, 0, .3, .6])
        nact = 5
        for _ in range(rng.randint(10, 50)):
            r = rng.random()
            if r < .07:
                ops.append(["new", rng.randrange(n), rng.choice(["10.0.0.9", "10.66.0.1", "10.77.0.2", "10.0.0.1", "2001:db8::5"]), rng.choice([6667, 6667, 6667, 6667, 7000, 7000, 6900, 4400, 6668, 6668, 6669, 7001])])
                nact += 1
                if ops[-1][3] in (7000, 7001):
                    ops.append(["ws", nact - 1, rng.random() < .8])
                elif ops[-1][3] == 4400:
                    for l in rng.sample(["PASS :lp", "PASS :bad", "SERVER peer2.test.net 1 $now $now J10 BlAAB +6 :x", "SERVER peer2.test.net 1 1 $now J10 Bl]]] +s6 :x", "SERVER nope.net 1 $now $now J10 Bl]]] +6 :x", "Bl EB", "NICK x",
                                         "Bl N Uq 1 1700000050 id h.example B]AAAB BlAAA :x", "Bl S sub.q.net 2 0 1700000000 J10 BmAAB + :sub"], rng.randint(1, 6)):
                        ops.append(["l", nact - 1, l])
                if rng.random() < .8:
                    for l in rng.sample(["NICK " + g.newnick(), "USER %s %s * :%s" % (g.word(), g.num(), g.text()), "CAP LS 302", "CAP REQ :" + g.capreq(), "CAP END", "PASS " + g.text(),
                                         "WEBIRC wpass cgi h.example 1.2.3.4", "AUTHENTICATE PLAIN"], rng.randint(1, 5)):
                        ops.append(["l", nact - 1, l.replace("\n", "")])
            elif r < .09:
                ops.append(["adv", rng.choice([1, 2, 5, 31, 60, 95, 400])])
            elif r < .12:
                ops.append([rng.choice(["close", "rst"]), rng.randrange(nact)])
            elif r < .14:
                ops.append(["raw", rng.randrange(nact), g.line()[:rng.choice([1, 5, 1000])]])
            elif r < .15:
                ops.append(["hold", rng.randrange(nact), rng.choice([0, 0, 10, 300, -1])])
            elif r < .16 and n == 2:
                ops.append(["cut"])
            elif r < .17:
                ops.append(["l", 3, rng.choice(["REHASH", "REHASH", "REHASH m", "REHASH l", "REHASH s", "REHASH q"])])
            elif r < .18:
                cg = confgram.ConfGram(rng)
                t = "\n".join(x for x in cg.build() if "NICKNAMEHISTORYLENGTH" not in x and "include" not in x)
                if rng.random() < .5:
                    t += "\nPort { port = 6668; };"
                ops.append(["conf", t])
            elif r < .185:
                ops.append(["l", 3, "CONNECT " + rng.choice(["peer1.test.net", "peer2.test.net", "services.test.net", "peer2.test.net 4401"])])
            elif r < .19:
                ops.append(["l", rng.choice([3, 4]), rng.choice(SAFESET).replace("%s", rng.choice(["1", "2", "30"]))])
            elif rng.random() < pshare:
                t = rng.choice(pfocus) if pfocus and rng.random() < .7 else None
                l = pg.line(t, rng.random() < .6)
                ws = l.split(" ")
                if len(ws) > 1 and ws[1] in ("CF", "SL", "GL", "JU"):     # what is kept by name must have the same name in every repetition
                    l = " ".join(ws[:2] + [re.sub(r"\$(Ann|bob|Cyd|Oper)", "ABAAA", x) for x in ws[2:]])
                    if ws[1] == "CF":
                        l = re.sub(r"(?<=.CF )(\S+)(.*)", lambda m: m.group(1) + re.sub(r"\$(now|later2?)", "170000", m.group(2)), l)
                ops.append(["p", l])
            else:
                a = rng.randrange(nact) if rng.random() < .8 else rng.choice([3, 4])
                c = rng.choice(focus) if focus and rng.random() < .75 else None
                if c is None and a in (3, 4) and rng.random() < .6:
                    c = rng.choice([x for x in OPERCMDS if x in g.COMMANDS])
                l = g.line([c] if c else None)
                if l.upper().split(" ")[0] in ("SQUIT", "CONNECT", "SET", "RESET", "DIE", "RESTART"):
                    continue
                if "JUPE" in l.upper() and ("leaf" in l or "hub" in l or "*" in l):
                    continue
                ops.append(["l", a, l])
        return {"net": net, "peer": pshare > 0 and rng.random() < .95, "end": rng.choice(["close", "rst", "quit"]), "early": rng.random() < .5, "ops": ops}

    def measure(self, w, n):
        r = []
        for i in range(n):
            w.sim.cmd("mem %d" % i)
            w.sim.cmd("fds %d" % i)
        recs = w.sim.go()
        mem = {int(x[1]): (int(x[2]), int(x[3])) for x in recs if x[0] == "M"}
        fds = {int(x[1]): int(x[2]) for x in recs if x[0] == "N"}
        self.kinds = {int(x[1]): x[3] for x in recs if x[0] == "N"}
        w.absorb([x for x in recs if x[0] not in ("M", "N")])
        return [(mem[i][0], mem[i][1], fds[i]) for i in range(n)]

    def round(self, w, case, labels, deep=False):
        n, _, peername = CONFIGS[case["net"]]
        seen = 0
        peer = None
        acts = []
        known = {}
        if case["peer"]:
            peer = p10.Peer(w, peername)
            peer.handshake()
            now = peer.now()
            known = {"me": peer.num, "hub": "AB", "leaf": "AC" if n == 2 else "AB", "sub": p10.b64(200, 2), "sub2": p10.b64(201, 2), "gone": peer.num + "AAx", "now": str(now), "later": str(now + 40),
                     "later2": str(now + 3000), "s0": p10.b64(200, 2) + "AAA"}
            for k in range(4):
                known["u%d" % k] = peer.num + "AA" + "ABCD"[k]
        for nick, inst, ip, caps in SETUP:
            c = w.connect(min(inst, n - 1), ip)
            c.nick = nick
            c.send(*((["CAP REQ :" + " ".join(caps)] if caps else []) + ["NICK " + nick, "USER u 0 * :real"] + (["CAP END"] if caps else [])))
            acts.append(c)
        self.settle(w, case["net"], acts)
        acts[3].send("OPER oper operpass", "MODE Oper +s +65535")
        acts[4].send("OPER locop lpass")
        for c, ch in ((0, "#a"), (1, "#a"), (2, "#b"), (1, "#b"), (3, "#rem")):
            acts[c].send("JOIN " + ch)
        w.run()

        def sub(s):
            for k in ("Ann", "bob", "Cyd", "Oper"):
                known[k] = peer.nicks.get(k, known.get(k, "ABAAA"))
            return VAR.sub(lambda m: known[m.group(1)], s)

        def collect():
            nonlocal seen
            for c in acts:
                for l in c.lines():
                    if l:
                        seen += 1
                        m = l.split(" ")
                        labels.add(m[1] if len(m) > 1 else l[:8])
            if peer:
                peer.pump()
        if peer:
            peer.send(*[sub(l).replace("1700000", str(now - 1000)[:7]) for l in BASE])
            w.run()
        for op in case["ops"]:
            k = op[0]
            if k == "adv":
                w.adv(op[1] * 1000)
            elif k == "new":
                acts.append(w.connect(op[1], op[2], op[3]))
            elif k == "conf":
                w.sim.write(0, "ircd.conf", self.conf(case["net"], 0, op[1]).encode("latin-1"))
                acts[3].send("REHASH")
                w.run()
                collect()
                w.sim.write(0, "ircd.conf", self.conf(case["net"], 0))
            elif k == "cut":
                w.sim.cmd("cut 0 1")
            elif k == "p":
                if not peer or peer.c.eof:
                    continue
                peer.send(sub(op[1]))
            else:
                if op[1] >= len(acts):
                    continue
                c = acts[op[1]]
                if c.closed:
                    continue
                if k == "close":
                    c.close()
                elif k == "rst":
                    c.rst()
                elif k == "hold":
                    w.sim.cmd("hold %d %d" % (c.ext, op[2]))
                elif k == "ws":
                    c.raw(b"GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: %d\r\n\r\n" % (13 if op[2] else 8))
                    c.ws = True
                elif k == "raw":
                    c.raw(ircsim.enc(op[2].replace("\n", "")))
                else:
                    b = ircsim.enc(op[2].replace("$now", known.get("now", "1700000000")))
                    c.raw(ws.frame(b, 1) if getattr(c, "ws", False) else b + b"\r\n")
            w.run()
            collect()
        conf = any(op[0] == "conf" for op in case["ops"])
        if conf and case.get("early"):
            w.sim.cmd("sig 0 1")
            w.run()
        for c in acts:
            w.sim.cmd("hold %d -1" % c.ext)
        w.run()
        collect()
        for c in acts:
            if c.closed:
                continue
            if case["end"] == "rst":
                c.rst()
            else:
                if case["end"] == "quit":
                    c.send("QUIT :done")
                    w.run()
                c.close()
        w.run()
        if peer:
            peer.c.close()
            w.peers.remove(peer)
        w.run()
        if conf and not case.get("early"):
            w.sim.cmd("sig 0 1")       # SIGHUP: the usual configuration again
            w.run()
        # whoever lingers (unregistered, half-closed) times out; addresses are forgotten
        for _ in range(4):
            w.adv(200000)
        for _ in range(10 if deep else 0):            # empty channels are kept for up to 48 hours
            w.adv(18000000)
        if n == 2:
            w.sim.cmd("cut 0 1")       # whatever became of the link
            w.run()
            try:
                ircsim.link_servers(w, 0, 1)
            except ircsim.SimError:
                return 0               # juped, G-lined or the like: no statement
        # G-lines and the like run out when they are looked at
        c = w.connect(0, "10.3.0.9")
        c.send("NICK Janitor", "USER j 0 * :j")
        self.settle(w, case["net"], [c])
        c.send("OPER oper operpass", "REHASH", "GLINE", "JUPE", "SILENCE")
        w.run()
        c.send("QUIT :x")
        w.run()
        c.close()
        for _ in range(3):
            w.adv(200000)
        if w.exited:
            raise Violation("a server ended: %r" % w.exited)
        return seen

    def run(self, case):
        n = CONFIGS[case["net"]][0]
        w = self.world("net%d" % case["net"], lambda: self.boot(case["net"]))
        with pbt.case_of(self, w, leak=True):
            labels = set()
            M = []
            fds = [m[2] for m in self.measure(w, n)]
            kinds = dict(self.kinds)
            seen = []
            for r in range(2):
                seen.append(self.round(w, case, labels))
                M.append(self.measure(w, n))

            def grows(a, b):
                return any(y[0] > x[0] or y[1] > x[1] or y[2] > x[2] for x, y in zip(a, b))
            while grows(M[-2], M[-1]) and len(M) < 8:
                seen.append(self.round(w, case, labels, deep=True))
                M.append(self.measure(w, n))
            if len(M) == 8 and grows(M[-2], M[-1]):
                for i in range(n):
                    s = [m[i] for m in M]
                    for k, what in ((0, "bytes"), (1, "blocks"), (2, "descriptors")):
                        v = [x[k] for x in s]
                        if all(v[j + 1] > v[j] for j in range(3, 7)):
                            lost = ""
                            try:
                                w.sim.end(True)
                            except ircsim.Crash as e:
                                lost = "\n" + str(e)[-6000:]
                            raise Violation("repeating the history, with everybody gone in between, server %d holds more and more %s: %s (bytes/blocks/descriptors per repetition: %s)%s" % (
                                i, what, v, s, lost))
            for i in range(n):
                if M[-1][i][2] != fds[i]:
                    raise Violation("with everybody gone and the same configuration server %d has %d descriptors, %d before (%s, %s)" % (i, M[-1][i][2], fds[i], self.kinds[i], kinds[i]))
            labels.add("rounds%d" % len(M))
            return {"nontrivial": min(seen) >= 15, "labels": sorted(labels)}

    def simplify(self, op):
        if op[0] == "l" and len(op[2]) > 3:
            ws = op[2].split(" ")
            for i in range(len(ws)):
                if len(ws) > 1:
                    yield [op[0], op[1], " ".join(ws[:i] + ws[i + 1:])]
        if op[0] == "p":
            ws = op[1].split(" ")
            for i in range(len(ws)):
                if len(ws) > 1:
                    yield [op[0], " ".join(ws[:i] + ws[i + 1:])]
