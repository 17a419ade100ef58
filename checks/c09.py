"""Secret channels and invisible users: observers outside learn nothing."""
import random
from nonint import TwinCheck
from pbt import Violation

PROP = {
    "id": "C09",
    "title": "Secret channels and invisible users stay hidden from outsiders",
    "statement": "A user who is not in a secret or private channel learns nothing about who is in it, what is said or done there, its topic (when secret) "
                 "or its size from any query (NAMES, LIST, WHO, WHOIS, WHOWAS, USERHOST, ISON, TOPIC ...) or from any message it receives. "
                 "An invisible user who shares no channel with the asker is found only by its exact nickname: no mask query, NAMES or WHOIS pattern shows it.",
    "quantifier": {"over": ["histories", "inputs"],
                   "text": "all histories of activity inside a hidden channel (or of an invisible user) interleaved with any queries by outsiders on the same "
                           "or other servers"},
    "why_tests_cant": "It is a statement about two runs: the outsider's view must be the same whatever happened out of its sight. The suite never compares views "
                      "and has no test of NAMES, LIST or WHO on hidden channels.",
    "anchors": {
        "files": ["ircd/m_names.c", "ircd/m_list.c", "ircd/m_who.c", "ircd/whocmds.c", "ircd/m_whois.c", "ircd/m_topic.c", "ircd/hash.c", "include/channel.h"],
        "mechanism": [{"name": "visibility predicates", "where": "include/channel.h ShowChannel, PubChannel; include/whocmds.h SEE_USER, SEE_CHANNEL"},
                      {"name": "channel listing", "where": "ircd/hash.c list_next_channels(); ircd/m_list.c"},
                      {"name": "who/whois/names", "where": "ircd/m_who.c, ircd/m_whois.c do_wilds(), ircd/m_names.c do_names()"}],
        "observe_at": ["every byte received by the outside users"],
    },
}
TECHNIQUE = "metamorphic property-based testing: each generated history runs twice, with and without the hidden activity; outsiders must see identical bytes"

SEC, PUB, PUB2 = "#hidden", "#pub", "#other"
# outsiders 0-2, insiders 3-5 (3 is the keeper of the hidden channel), 6 the invisible user, 7 the keeper of the public channels
NICKS = ["Out0", "out1", "OUT2", "Kay", "ins4", "Ins5", "Inv6", "Pub7"]
OUT, INS, INV, KEEP = (0, 1, 2), (3, 4, 5), 6, 7

WHOFLAGS = ["", "", "o", "x", "d", "n", "u", "h", "s", "i", "r", "a", "nuhsira", "%cuhsnfdlar", "%tcuihsnfdlaor,42", "d%cnf", "%cn", "n%nf", "u%nc", "h%hn", "r%nr"]


class CHECK(TwinCheck):
    RULE = "the hidden party did something and an outsider asked something that touches it (by name, by mask or by a full listing)"
    QUICK, THOROUGH = 3000, 80000
    NETS = [(1, None), (2, None), (3, [(0, 1), (1, 2)])]

    def gen(self, rng, i, tier):
        kind = rng.choice(["sec", "sec", "inv"])
        case = {"net": rng.choices(range(3), [2, 2, 2])[0], "kind": kind, "flag": rng.choice(["s", "s", "p"]),
                "pubs": [[u for u in range(6) if rng.random() < (.5 if u in OUT else .6)], [u for u in range(6) if rng.random() < .3]],
                "caps": rng.random() < .4}
        n = rng.randint(10, 40)
        ops = []
        for _ in range(n):
            r = rng.random()
            if r < .35:
                ops.append(self.hidden_op(rng, kind))
            elif r < .5:
                ops.append(self.common_op(rng))
            else:
                ops.append(self.query(rng, kind, case["flag"]))
        case["ops"] = ops
        return case

    def hidden_op(self, rng, kind):
        u = rng.choice(INS)
        if kind == "inv":
            c = rng.choice([PUB, PUB2, SEC])
            return ["h", INV, rng.choice(["JOIN " + c, "JOIN " + c, "JOIN " + c, "JOIN " + c, "PART " + c, "AWAY :gone", "AWAY", "NICK Inv6%s" % rng.choice("abc"), "NICK Inv6",
                                          "NAMES " + c, "WHO *", "MODE %n +i", "MODE %n -w", "MODE %n +d", "INVITE %n #none", "LIST", "PRIVMSG Kay :hello"])]
        v = rng.choice([x for x in INS])
        return ["h", u, rng.choice(["JOIN %s" % SEC] * 6 + ["PART %s" % SEC, "PRIVMSG %s :psst" % SEC, "TOPIC %s :secret %d" % (SEC, rng.randrange(9)), "MODE %s +k key" % SEC,
                                    "MODE %s +l %d" % (SEC, rng.randint(2, 9)), "MODE %s +o %%%d" % (SEC, v), "MODE %s +v %%%d" % (SEC, v), "MODE %s -o %%%d" % (SEC, v),
                                    "MODE %s +D" % SEC, "MODE %s -D" % SEC, "KICK %s %%%d :out" % (SEC, v), "NOTICE %s :n" % SEC, "INVITE %%%d %s" % (v, SEC),
                                    "WALLCHOPS %s :x" % SEC, "PART %s :bye" % SEC, "MODE %s -k key" % SEC, "MODE %s -l" % SEC, "NAMES " + SEC, "MODE %s +n" % SEC])]

    def common_op(self, rng):
        u = rng.choice(OUT + INS)
        c = rng.choice([PUB, PUB, PUB2])
        return ["c", u, rng.choice(["JOIN " + c, "JOIN " + c, "PART " + c, "AWAY :lunch", "AWAY", "PRIVMSG %s :hi" % c, "TOPIC %s :t%d" % (c, rng.randrange(5)),
                                    "NICK %s" % (NICKS[u] + rng.choice(["", "x", "y"])), "MODE %n +w", "MODE %n +i", "MODE %n -i", "QUIT :gone"] if rng.random() < .9 else ["PING x"])]

    def query(self, rng, kind, flag):
        o = rng.choice(OUT)
        v = rng.choice(INS)
        if kind == "sec":
            q = ["NAMES %s" % SEC, "NAMES 0", "NAMES %s,%s" % (PUB, SEC), "NAMES -D " + SEC, "NAMES -D 0", "NAMES",
                 "LIST", "LIST " + SEC, "LIST >0", "LIST <9", "LIST *hid*", "LIST T>0", "LIST C>0,>1", "LIST S", "LIST M", "LIST %s,%s" % (SEC, PUB), "LIST !*pub*", "LIST T<5",
                 "WHO " + SEC, "WHO %%%d" % v, "WHO *", "WHO 0", "WHO K*", "WHO 10.*", "WHO *ns*", "WHO %s,%%%d,%s" % (SEC, v, PUB), "WHO", "WHO #hid*",
                 "WHOIS %%%d" % v, "WHOIS %%%d %%%d" % (v, v), "WHOIS *", "WHOIS *n*", "WHOIS Kay,%%%d" % v, "WHOIS K?y", "WHOIS hub.test.net %%%d" % v,
                 "WHOWAS %%%d" % v, "WHOWAS Kay", "USERHOST Kay %%%d" % v, "USERIP %%%d" % v, "ISON Kay %%%d" % v, "TRACE %%%d" % v, "PRIVMSG %%%d :hi" % v]
            if flag == "p":       # a private channel's members are shown to those who know its name (doc/readme.who)
                q = [x for x in q if not x.startswith("WHO " + SEC)]
            if flag == "s":
                q += ["TOPIC " + SEC, "TOPIC %s" % SEC, "TOPIC %s :mine" % SEC]
            q += ["WHO %s %s" % (m, f) for f in rng.sample(WHOFLAGS, 3) for m in rng.choice([[SEC if flag == "s" else "#hid*"], ["%%%d" % v], ["*"], ["x*"], ["*.*"]])]
        else:
            q = ["NAMES 0", "NAMES " + PUB, "NAMES " + PUB2, "NAMES %s,%s" % (PUB, PUB2), "NAMES -D 0", "NAMES -D " + PUB, "NAMES " + SEC,
                 "WHO *", "WHO 0", "WHO", "WHO I*", "WHO Inv*", "WHO Inv?", "WHO inv6u", "WHO 10.3.*", "WHO real6*", "WHO *6*", "WHO *.net", "WHO " + PUB, "WHO %s,%s" % (PUB, PUB2),
                 "WHO 10.3.9.9", "WHO real6", "WHO 10.3.0.0/16", "WHO *users*", "WHO acc6*",
                 "WHOIS *", "WHOIS Inv*", "WHOIS Inv6?", "WHOIS ?nv6", "WHOIS *6*", "WHOIS i*", "LIST *zz*", "TRACE %%%d" % v]
            q += ["WHO %s %s" % (m, f) for f in rng.sample(WHOFLAGS, 4) for m in rng.choice([["*"], ["I*"], ["*6*"], [PUB], ["10.3.0.0/16"], ["inv6u"], ["real6"], ["acc*"]])]
        if rng.random() < .35:
            # lists of names in any order
            cs = [PUB, PUB2, "#none", PUB.upper()]
            if kind == "sec":
                cs += [SEC, SEC, SEC.upper()]
            cmd = rng.choice(["NAMES", "NAMES -D", "LIST", "WHO", "TOPIC", "WHOIS", "USERHOST", "ISON", "WHOWAS"])
            if cmd in ("LIST", "TOPIC") and kind == "inv":
                cmd = "NAMES"
            if cmd == "TOPIC" and flag == "p":
                cmd = "LIST"
            if cmd == "WHO" and flag == "p":
                cs = [c for c in cs if c.lower() != SEC]
            ns = ["%%%d" % x for x in (0, 1, 3, 4, 5, 7)] + ["nosuch"]
            names = {"WHO": cs + ns, "WHOIS": ns + (["*", "K*", "?n*"] if kind == "sec" else ["Inv*", "*"]), "USERHOST": ns, "ISON": ns, "WHOWAS": ns}.get(cmd, cs)
            sep = " " if cmd in ("USERHOST", "ISON") else ","
            t = "%s %s" % (cmd, sep.join(rng.choice(names) for _ in range(rng.randint(2, 4))))
            if cmd == "WHO" and rng.random() < .5:
                t += " " + rng.choice(WHOFLAGS)
            return ["q", o, t.strip()]
        return ["q", o, rng.choice(q)]

    def simplify(self, op):
        return []

    def side(self, w, case, side):
        conns, nicks = {}, {}
        kind = case["kind"]
        for u in range(8):
            if u == INV and (kind != "inv" or side):
                continue
            nicks[u] = NICKS[u]
            caps = ["away-notify", "account-notify", "extended-join", "userhost-in-names"] if case["caps"] and u in OUT else ()
            ip = "10.%d.9.%d" % (3 if u == INV else 4, 9 if u == INV else u)
            # observers and hidden party spread over the servers
            conns[u] = w.client(NICKS[u], (u * 2 + u // 3) % w.n, ip, user="inv6u" if u == INV else "us%d" % u, real="real6 one" if u == INV else "r", caps=caps)
            if u == INV:
                conns[u].send("MODE %s +i" % NICKS[u])
                w.run()
        w.adv(1000)
        if INV in conns:
            w.svc.account(NICKS[INV], "acc6")
        K = conns[KEEP]
        K.send("JOIN %s,%s" % (PUB, PUB2))
        w.run()
        conns[3].send("JOIN " + SEC, "MODE %s +%s" % (SEC, case["flag"]))
        w.run()
        inside = {PUB: set(), PUB2: set()}
        for c, us in zip((PUB, PUB2), case["pubs"]):
            for u in us:
                if u in OUT and kind == "inv":
                    continue
                conns[u].send("JOIN " + c)
                inside[c].add(u)
        w.run()
        w.adv(200000)
        for c in conns.values():
            c.msgs()
        alive = set(conns)
        tr = []
        did = touched = False
        labels = set()
        for n, (k, u, text) in enumerate(case["ops"]):
            w.adv(200000)
            if u in OUT and k == "c" and kind == "inv" and text.startswith("JOIN"):
                continue      # the observers stay out of the invisible user's channels
            if u == 3 and k == "h" and (text.startswith("PART") or "KICK" in text and "%3" in text):
                continue      # somebody stays in the hidden channel
            if "KICK" in text and "%3" in text:
                continue
            if k == "c" and text.startswith("QUIT") and (u in OUT or u == 3):
                continue
            if "WHOIS" in text and ("*" in text or "?" in text) and kind == "sec" and not all(any(x in inside[c] for c in inside) for x in INS if x in alive):
                continue      # WHOIS masks show a user in no visible channel only while it is in none at all: documented in m_whois.c
            if u not in alive:
                continue
            if k == "h" and side and kind == "inv":
                continue
            txt = text.replace("%n", nicks[u])
            for x in range(8):
                txt = txt.replace("%%%d" % x, nicks.get(x, NICKS[x]))
            if k == "h" and side:
                w.run()
                continue
            conns[u].send(txt)
            w.run()
            if k == "h":
                did = True
                labels.add("hidden " + txt.split(" ")[0])
            if k == "q":
                touched = True
                labels.add("query " + txt.split(" ")[0])
            cmd = txt.split(" ")
            if k == "c":
                if cmd[0] == "JOIN":
                    inside[cmd[1]].add(u)
                elif cmd[0] == "PART":
                    inside[cmd[1]].discard(u)
                elif cmd[0] == "QUIT":
                    alive.discard(u)
                    for c in inside:
                        inside[c].discard(u)
            for x in sorted(alive):
                ms = conns[x].msgs()
                for m in ms:
                    if m.cmd == "NICK" and m.src and m.src.split("!")[0] == nicks[x]:
                        nicks[x] = m.params[0]
                if x in OUT and not (k == "h" and side):
                    got = [m.raw for m in ms]
                    if k == "h" and got:
                        raise Violation("%s by %s reached the outsider %s: %r" % (txt, NICKS[u], NICKS[x], got))
                    if k != "h":
                        tr.append(("op %d: %s by %s, seen by %s" % (n, txt, NICKS[u], NICKS[x]), got))
        return tr, {"nontrivial": did and touched, "labels": sorted(labels)}
