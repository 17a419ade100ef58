"""Hidden identity: a +x user's real host, and which server a user is on, do not show."""
from nonint import TwinCheck
from pbt import Violation

PROP = {
    "id": "C10",
    "title": "A hidden user's real address and a user's server stay hidden",
    "statement": "Once a user with an account is +x, nothing an ordinary user receives - messages, joins, NAMES, WHO in every form, WHOIS, WHOWAS, USERHOST, USERIP, "
                 "also after netsplits - depends on that user's real host or address. With the Head-In-Sand features on, nothing an ordinary user receives "
                 "depends on which server another user is connected to, also when that user acts as an operator.",
    "quantifier": {"over": ["histories", "inputs"], "text": "all histories of a hidden user's activity and other users' queries, over any real addresses and server assignments"},
    "why_tests_cant": "It compares two runs that differ only in the secret; a test can only look for the secret in the places its author thought of.",
    "anchors": {
        "files": ["ircd/s_user.c", "ircd/whocmds.c", "ircd/m_who.c", "ircd/m_whois.c", "ircd/m_whowas.c", "ircd/m_userip.c", "ircd/m_userhost.c", "ircd/s_numeric.c",
                  "ircd/m_account.c", "ircd/m_nick.c", "ircd/whowas.c"],
        "mechanism": [{"name": "host hiding", "where": "ircd/s_user.c hide_hostmask(), user_apply_umode_str paths; HasHiddenHost tests in query commands"},
                      {"name": "Head-In-Sand", "where": "FEAT_HIS_* tests; ircd/s_numeric.c do_numeric(); ircd/s_user.c hunt_server_cmd()"}],
        "observe_at": ["every byte received by every ordinary user other than the hidden one"],
    },
}
TECHNIQUE = "metamorphic property-based testing: each generated history runs twice, with different real addresses (or servers); other users must receive identical bytes"

NICKS = ["Obs0", "obs1", "OBS2", "Hid3", "opr4"]
CH = ["#one", "#two"]
WHOX = ["", "", "x", "n", "u", "h", "i", "r", "a", "s", "nuhirsa", "%cuhsnfdlar", "%tcuihsnfdlaor,7", "%i", "%hni", "i%ni", "h%hn", "x%nih", "s%ns", "%s", "%d", "%l"]
# (ip, host if the user sits on a network service's server)
ADDR = [("10.77.1.1", "secret-one.example.org"), ("192.168.222.233", "a.very.long.secret-two.example.com")]


class CHECK(TwinCheck):
    RULE = "the hidden user did something visible and somebody asked about it"
    QUICK, THOROUGH = 2600, 70000
    NETS = [(1, None), (2, None), (4, None)]
    FEATURES = {"HOST_HIDING": "TRUE"}

    def gen(self, rng, i, tier):
        kind = rng.choice(["host", "host", "his"])
        case = {"net": 2 if kind == "his" else rng.randrange(3), "kind": kind, "remote": kind == "host" and rng.random() < .35,
                "swap": rng.random() < .5, "xfirst": rng.random() < .5, "oper": rng.random() < .4, "caps": rng.random() < .4}
        ops = [["h", 3, "JOIN #one"]] if rng.random() < .7 else []
        for u in (0, 1, 2):
            if rng.random() < .7:
                ops.append(["c", u, "JOIN #one"])
        for _ in range(rng.randint(8, 34)):
            r = rng.random()
            c = rng.choice(CH)
            v = rng.randrange(3)
            if r < .3:
                x = ["JOIN " + c] * 3 + ["PART " + c, "PART %s :bye" % c, "PRIVMSG %s :hey" % c, "NOTICE %%%d :hey" % v, "PRIVMSG %%%d :\x01ACTION x\x01" % v, "TOPIC %s :t" % c,
                     "MODE %s +o %%%d" % (c, v), "MODE %s +nt" % c, "MODE %s +b *!*@9.9.9.9" % c, "KICK %s %%%d :k" % (c, v), "INVITE %%%d %s" % (v, c), "AWAY :zz", "AWAY",
                     "NICK Hid3%s" % rng.choice("xy"), "NICK Hid3", "MODE %n +i", "MODE %n -i", "MODE %n -x", "MODE %n +w", "MODE %n +dc", "MODE %n +I", "MODE %s b" % c,
                     "WALLCHOPS %s :w" % c, "WHO *", "MODE %s +D" % c, "MODE %s -D" % c, "SILENCE +*!*@8.8.8.8"]
                if case["oper"] and kind == "his" and not case["remote"]:
                    x += ["OPER oper operpass"] * 6 + ["WALLOPS :attention", "OPMODE %s +o %%n" % c, "OPMODE %s -o %%%d" % (c, v), "CLEARMODE %s" % c, "WALLUSERS :hello all", "KILL %%%d :go away" % v,
                                                       "PRIVMSG $* :all", "NOTICE $*.net :all", "GLINE +*!*@7.7.7.7 60 :x"]
                if rng.random() < .04:
                    x = ["QUIT :done"]
                ops.append(["h", 3, rng.choice(x)])
            elif r < .45:
                u = rng.randrange(3)
                ops.append(["c", u, rng.choice(["JOIN " + c, "JOIN " + c, "PART " + c, "KICK %s %%h :out" % c, "MODE %s +o %%h" % c, "MODE %s +v %%h" % c, "PRIVMSG %%h :yo", "INVITE %%h %s" % c,
                                                "TOPIC %s :mine" % c, "MODE %s -o %%h" % c, "PRIVMSG %s :x" % c, "AWAY :q"])])
            elif r < .5 and kind == "host" and case["net"] and rng.random() < .5:
                ops.append(["split"])
            elif r < .53 and kind == "host" and case["oper"]:
                ops.append(["o", 4, rng.choice(["KILL %h :enough", "OPMODE #one +o %h", "OPMODE #one -o %h", "CLEARMODE #one", "GLINE +%h@nowhere.test 60 :r", "WHOIS %h", "WHO %h x%hni"])])
            else:
                u = rng.randrange(3)
                q = ["WHOIS %h", "WHOIS %h", "WHOIS %h %h", "WHOIS *", "WHOIS Hid*", "WHOIS leaf1.test.net %h", "WHOWAS %h", "WHOWAS Hid3", "WHOWAS Hid3 5", "USERHOST %h", "USERIP %h", "ISON %h",
                     "NAMES " + c, "NAMES 0", "MODE " + c, "MODE %s b" % c, "TRACE %h", "TRACE", "LIST", "TOPIC " + c, "MAP", "LINKS", "STATS l %h", "STATS u", "SILENCE %h",
                     "VERSION %h", "TIME %h", "ADMIN %h", "INFO %h", "MOTD %h", "LUSERS * %h", "PING x %h", "WHO " + c, "WHO *", "WHO 0", "WHO %h",
                     "WHO 10.77.*", "WHO 192.168.*", "WHO 10.77.1.1", "WHO 10.77.0.0/16", "WHO *.example.*", "WHO secret*", "WHO *users.undernet.org", "WHO leaf1*", "WHO *.test.net"]
                if rng.random() < .4:
                    m = rng.choice(["*", "%h", c, "10.77.1.1", "10.77.0.0/16", "192.168.222.*", "192.168.0.0/16", "*secret*", "leaf*", "*.test.net", "acc*"])
                    q = [("WHO %s %s" % (m, rng.choice(WHOX))).strip()]
                ops.append(["c", u, rng.choice(q)])
        case["ops"] = ops
        return case

    def side(self, w, case, side):
        kind = case["kind"]
        host = kind == "host"
        n = w.n
        which = side ^ case["swap"]
        ip, hname = ADDR[which if host else 0]
        place = [0, 0, (3 if n == 4 else n - 1), (1 + which if not host else n - 1), 0]
        conns, nicks = {}, {}
        labels = {kind}
        svcnn = None
        for u in range(5):
            nicks[u] = NICKS[u]
            if u == 3:
                if case["remote"]:
                    svcnn = w.svc.user("Hid3", ident="hid", host=hname, ip=ip, modes="+ix" if False else "+")
                    w.run()
                else:
                    conns[3] = w.client("Hid3", place[3], ip, user="hid")
                    conns[3].send("MODE Hid3 +x") if case["xfirst"] and host else None
                w.run()
                if host:
                    w.adv(1000)
                    if case["remote"]:
                        w.svc.send("%s M Hid3 +x" % svcnn)
                        w.run()
                    w.svc.account("Hid3", "acc3")
                    w.run()
                    if not case["remote"] and not case["xfirst"]:
                        conns[3].send("MODE Hid3 +x")
                    w.run()
                continue
            caps = ["away-notify", "account-notify", "extended-join", "userhost-in-names", "chghost", "echo-message", "invite-notify"] if case["caps"] and u == 1 else ()
            conns[u] = w.client(NICKS[u], place[u], "10.5.0.%d" % u, user="us%d" % u, caps=caps)
        if host:
            vis = conns[0].do("USERHOST Hid3")
            if not any("acc3.users.undernet.org" in m.raw for m in vis):
                raise Violation("the user is not hidden after account and +x: %r" % vis)
        conns[4].do("OPER oper operpass")
        w.adv(200000)
        for c in conns.values():
            c.msgs()
        alive = {0, 1, 2, 3, 4}
        tr = []
        acted = asked = False
        for k, op in enumerate(case["ops"]):
            w.adv(200000)
            if op[0] == "split":
                if n == 1:
                    continue
                b = "leaf%d.test.net" % (n - 1)
                conns[4].send("SQUIT %s :split" % b)
                w.run()
                w.adv(30000)
                conns[4].send("CONNECT %s 4400" % b)
                for _ in range(6):
                    w.adv(500)
                labels.add("split")
                txt = "SPLIT"
                u = None
            else:
                u, text = op[1], op[2]
                if u not in alive or (3 not in alive and "%h" in text and "WHOWAS" not in text and u == 4):
                    continue
                txt = text.replace("%n", nicks[u]).replace("%h", nicks[3])
                for x in range(5):
                    txt = txt.replace("%%%d" % x, nicks[x])
                cmd = txt.split(" ")[0]
                if op[0] == "h":
                    acted = True
                    labels.add("hidden " + cmd)
                elif "%h" in text or cmd in ("WHO", "NAMES"):
                    asked = True
                    labels.add("other " + cmd)
                if u == 3 and case["remote"]:
                    if not self.remote(w, svcnn, txt, nicks):
                        continue
                    if cmd == "QUIT":
                        alive.discard(3)
                    if cmd == "NICK":
                        nicks[3] = txt.split(" ")[1]
                else:
                    conns[u].send(txt)
                w.run()
            for x in sorted(alive):
                if x == 3 and case["remote"]:
                    continue
                ms = conns[x].msgs()
                for m in ms:
                    if m.cmd == "NICK" and m.src and m.src.split("!")[0] == nicks[x]:
                        nicks[x] = m.params[0]
                if x in (0, 1, 2):
                    tr.append(("op %d: %s by %s, seen by %s" % (k, txt, NICKS[u] if u is not None else "-", NICKS[x]), [m.raw for m in ms]))
                if conns[x].eof:
                    alive.discard(x)
        return tr, {"nontrivial": acted and asked, "labels": sorted(labels)}

    def remote(self, w, nn, txt, nicks):
        """the hidden user acts through the network service's server"""
        p = txt.split(" ", 2)
        c = p[0]
        now = w.svc.now()
        if c == "JOIN":
            s = "%s J %s %d" % (nn, p[1], now)
        elif c == "PART":
            s = "%s L %s%s" % (nn, p[1], " " + p[2] if len(p) > 2 else "")
        elif c == "PRIVMSG" and p[1][0] == "#":
            s = "%s P %s %s" % (nn, p[1], p[2])
        elif c == "TOPIC":
            s = "%s T %s %d %d %s" % (nn, p[1], now, now, p[2])
        elif c == "AWAY":
            s = "%s A%s" % (nn, " " + txt.split(" ", 1)[1] if len(p) > 1 else "")
        elif c == "NICK":
            if p[1] == nicks[3]:
                return False
            s = "%s N %s %d" % (nn, p[1], now)
        elif c == "QUIT":
            s = "%s Q :done" % nn
        else:
            return False
        w.svc.send(s)
        return True
