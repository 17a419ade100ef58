"""Privileged actions need the privilege: refused attempts leave no trace."""
import random
import burst, ircsim, pbt
from nonint import TwinCheck
from pbt import Violation

PROP = {
    "id": "C11",
    "title": "Privileged actions happen only with the privilege for them",
    "statement": "Operator status is gained only by OPER with the right name, password and host; an operator has exactly the privileges its Operator block, "
                 "its class and the documented defaults give, and loses them with the status. KILL, GLINE, JUPE, OPMODE, CLEARMODE, SET, RESET, REHASH, DIE, RESTART, "
                 "SQUIT, CONNECT, WALLOPS, SETTIME, LIST S/M, local-channel overrides and $mask messages do nothing at all when tried without the privilege they need; "
                 "connections that have not finished registering, and users sending server-only commands or forged prefixes, change nothing.",
    "quantifier": {"over": ["configurations", "histories"],
                   "text": "all Operator/Class privilege configurations and all histories of attempts by unregistered connections, users, local and global operators"},
    "why_tests_cant": "It ranges over every privilege combination times every command form; the suite never configures a partial privilege set.",
    "anchors": {
        "files": ["ircd/client.c", "ircd/m_oper.c", "ircd/m_kill.c", "ircd/m_gline.c", "ircd/m_jupe.c", "ircd/m_opmode.c", "ircd/m_clearmode.c", "ircd/ircd_features.c",
                  "ircd/m_mode.c", "ircd/m_join.c", "ircd/m_list.c", "ircd/parse.c", "ircd/s_user.c", "ircd/m_squit.c", "ircd/m_connect.c"],
        "mechanism": [{"name": "privilege sets", "where": "ircd/client.c client_set_privs()"},
                      {"name": "command tables", "where": "ircd/parse.c msgtab: m_unregistered, m_not_oper, m_ignore"},
                      {"name": "tests at each command", "where": "HasPriv() calls in ircd/m_*.c"}],
        "observe_at": ["replies to the one who tries", "everything other users receive", "network state given to a new server", "G-line, jupe and feature listings"],
    },
}
TECHNIQUE = "metamorphic property-based testing against a privilege model: each history runs with and without the attempts the model forbids; users, state and listings must not differ"

ALL = ["CHAN_LIMIT", "MODE_LCHAN", "WALK_LCHAN", "DEOP_LCHAN", "SHOW_INVIS", "SHOW_ALL_INVIS", "UNLIMIT_QUERY", "KILL", "LOCAL_KILL", "REHASH", "RESTART", "DIE", "GLINE",
       "LOCAL_GLINE", "JUPE", "LOCAL_JUPE", "OPMODE", "LOCAL_OPMODE", "SET", "WHOX", "BADCHAN", "LOCAL_BADCHAN", "SEE_CHAN", "PROPAGATE", "DISPLAY", "SEE_OPERS", "WIDE_GLINE",
       "LIST_CHAN", "FORCE_OPMODE", "FORCE_LOCAL_OPMODE", "APASS_OPMODE"]
GLOBAL_DEF = set(ALL) - {"WALK_LCHAN", "SET", "BADCHAN", "LOCAL_BADCHAN", "APASS_OPMODE"}
LOCAL_DEF = {"CHAN_LIMIT", "MODE_LCHAN", "SHOW_INVIS", "SHOW_ALL_INVIS", "LOCAL_KILL", "REHASH", "LOCAL_GLINE", "LOCAL_JUPE", "LOCAL_OPMODE", "WHOX", "DISPLAY",
             "FORCE_LOCAL_OPMODE"}
NBLOCK = 12
HOSTS = ["*@*", "*@10.6.0.*", "*@10.6.*", "?*@*", "*@192.168.*", "nobody@*", "*@10.6.0.0/16"]


def blocks(cfg):
    """[(name, password, host, explicit privileges, class privileges)], configuration text"""
    rng = random.Random("c11/%d" % cfg)
    out, o = [], []
    classes = []
    names = [p for p in ALL if p != "PROPAGATE"]
    for k in range(4):
        cp = {p: rng.random() < .5 for p in names if rng.random() < [0, .1, .3, .9][k]}
        if k % 2:
            cp["PROPAGATE"] = rng.random() < .6
        classes.append(cp)
        o.append("Class { name = \"Op%d\"; pingfreq = 100000 seconds; sendq = 1600000; maxflood = 262144; maxlinks = 1000; %s };" % (k, text(cp, rng)))
    for b in range(NBLOCK):
        k = rng.randrange(4)
        dens = rng.choice([0, .15, .5, .9])
        ex = {p: rng.random() < .5 for p in names if rng.random() < dens}
        if "PROPAGATE" not in classes[k] or rng.random() < .7:
            ex["PROPAGATE"] = rng.random() < .6
        host = rng.choice(HOSTS[:4] + HOSTS)
        pw = "Pw%d" % rng.randrange(3)
        out.append(("op%d" % b, pw, host, ex, classes[k]))
        o.append('Operator { %s class = "Op%d"; host = "%s"; password = "$PLAIN$%s"; name = "op%d"; };' % (text(ex, rng), k, host, pw, b))
    full = {p: True for p in names}
    o.append('Operator { local = no; class = "Local"; host = "*@*"; password = "$PLAIN$rootpass"; name = "root"; %s };' % text(full, rng))
    o.append('Quarantine { "#quar" = "kept apart"; };')
    return out, "\n".join(o)


def text(d, rng):
    ks = list(d)
    rng.shuffle(ks)
    # the classic spelling of "propagate" is "local", with the opposite sense
    return " ".join("local = %s;" % ("no" if d[p] else "yes") if p == "PROPAGATE" and rng.random() < .5 else "%s = %s;" % (p.lower(), "yes" if d[p] else "no") for p in ks)


def effective(b):
    _, _, _, ex, cl = b
    prop = ex.get("PROPAGATE", cl.get("PROPAGATE"))
    d = GLOBAL_DEF if prop else LOCAL_DEF
    s = {p for p in ALL if ex.get(p, cl.get(p, p in d))}
    if prop:
        s |= {"PROPAGATE", "DISPLAY"}
    else:
        s -= {"PROPAGATE", "KILL", "GLINE", "JUPE", "OPMODE", "BADCHAN"}
    return s


def host_ok(mask, user, ip):
    u, h = mask.split("@")
    import fnmatch           # the user part is compared with the name identd gave: none here
    if h.endswith("/16"):
        h = h.split(".0.0/")[0] + ".*"
    return fnmatch.fnmatch("", u) and fnmatch.fnmatch(ip, h)


# actors: 0 plain user, 1-2 operators on server 0, 3 operator on server 1, 4 half-registered connection, 5 user who keeps failing OPER
ACT = ["act0", "act1", "act2", "act3", "act4", "act5"]
AINST = [0, 0, 0, 1, 0, 0]
VICS = ["Vic0", "Vic1", "Vic2", "Vic3"]          # 0,1 on server 0; 2,3 on server 1
USERONLY = ["JOIN #free", "PRIVMSG #pub :hi", "PRIVMSG Pl :hi", "NOTICE Pl :hi", "MODE #pub +m", "WHO #pub", "TOPIC #open :x", "INVITE Pl #x", "KICK #open Pl", "AWAY :x",
            "NAMES #pub", "LIST", "WHOIS Pl", "USERHOST Pl", "ISON Pl", "PART #pub", "SILENCE +*!*@*", "WALLCHOPS #pub :x", "CPRIVMSG Pl #pub :x", "OPER root rootpass", "MAP",
            "LINKS", "STATS u", "TRACE", "LUSERS", "WHOWAS Pl", "TAGMSG Pl", "MOTD", "USERIP Pl", "HASH"]
SERVERONLY = ["BURST #pub 1 AAAAA:o", "B #pub 1 +i", "CREATE #pub 1", "C #made 1", "DESTRUCT #pub 1", "DE #pub 1", "ACCOUNT Pl hacked", "AC Pl hacked", "DESYNCH :x", "DS :x",
              "END_OF_BURST", "EB", "EA", "XREPLY hub.test.net x :OK", "XR hub.test.net x :OK", "SLINE + 1 1 1 :x", "SL + 1 1 1 :x", "CONFIG 1 NICKLEN 5", "CF 1 NICKLEN 5",
              "SVSNICK Pl x", "SERVER evil.net 1 0 1 J10 ZZ]]] :x", "S evil.net 1 0 1 J10 ZZ]]] :x", "RPONG x y z", "N evil 1 1 a b AAAAAA AB000 :x", "Z x", "WA :x", "D Pl :x"]


class CHECK(TwinCheck):
    RULE = "at least one forbidden and one allowed attempt was made"
    QUICK, THOROUGH = 3600, 120000
    CFGS = 10
    MSG = "an attempt without the privilege for it had an effect."

    def boot(self, cfg):
        _, extra = blocks(cfg)
        w = ircsim.boot_network(2, self.VARIANT, features={"LOCAL_CHANNELS": "TRUE", "CONFIG_OPERCMDS": "TRUE", "HIS_STATS_U": "FALSE", "GLINEMAXUSERCOUNT": "20"}, pingfreq=100000,
                                extra=extra, confs=None)
        return w

    def gen(self, rng, i, tier):
        cfg = rng.randrange(self.CFGS)
        ops = []
        for _ in range(rng.randint(8, 26)):
            a = rng.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5])
            ops.append([a] + self.attempt(rng, a))
        return {"net": cfg, "blocks": [rng.randrange(NBLOCK) for _ in range(3)], "ops": ops}

    def attempt(self, rng, a):
        """[text, needed]; needed: list of privileges, with 'oper', 'global', 'never', 'self'"""
        r = rng.random()
        if a == 4 and r < .45:
            return [rng.choice(USERONLY), ["user"]]
        if a == 5 and r < .5:
            b = rng.randrange(NBLOCK)
            return rng.choice([["OPER %%n%d wrong" % b, ["never"]], ["OPER %%n%d %%p%d" % (b, rng.randrange(NBLOCK)), ["oper%d" % b]], ["OPER %%n%dx %%p%d" % (b, b), ["never"]],
                               ["OPER %%n%d %%p%dx" % (b, b), ["never"]], ["OPER %%n%d :" % b, ["never"]], ["OPER root ROOTPASS", ["never"]], ["OPER root $PLAIN$rootpass", ["never"]],
                               ["OPER root rootpas", ["never"]], ["OPER %%n%d" % b, ["never"]], ["OPER root lp", ["never"]], ["OPER * rootpass", ["never"]]])
        if r < .06:
            return [rng.choice(SERVERONLY), ["never"]]
        if r < .12:
            return [rng.choice(["MODE %me +o", "MODE %me +O", "MODE %me +k", "MODE %me +ok", "MODE %me +oOk", "MODE Pl +i", "MODE Pl -i", "MODE %me +or 0", "MODE Vic0 +o", "MODE %me +r acct",
                                "MODE %me :+o"]), ["never"]]
        if r < .15 and a in (1, 2, 3):
            return ["MODE %me -o" if rng.random() < .5 else "MODE %me -O", ["deop"]]
        if r < .2:
            t, n = rng.choice(self.table(rng))
            return [":%s %s" % (rng.choice(["Root0", "hub.test.net", "services.test.net", "AA", "AAAAA"]), t), n]
        t, n = rng.choice(self.table(rng))
        return [t, n]

    def table(self, rng):
        v = rng.choice(VICS)
        loc = v in VICS[:2]
        n = rng.randrange(4)
        me, other = "%hub", "%oth"
        pm = rng.choice("+-")
        act = rng.choice("+->")
        t = [("KILL %s :die" % v, ["kill", v])] * 3
        t += [("GLINE %s*@10.66.%d.* %s 3600 :bad" % (pm, n, me), ["LOCAL_GLINE"]), ("GLINE %s*@10.66.%d.1 3600 :bad" % (pm, n), ["LOCAL_GLINE"]),
              ("GLINE %s*@10.66.%d.* * 3600 :bad" % (pm, n), ["GLINE"]), ("GLINE %s*@10.66.%d.* %s 3600 :bad" % (pm, n, other), ["GLINE"]),
              ("GLINE %s$Rspam%d* * 3600 :bad" % (pm, n), ["GLINE"]), ("GLINE %s$Rspam%d* %s 3600 :bad" % (pm, n, me), ["LOCAL_GLINE"]),
              ("GLINE +*@%%ip%s * 3600 :bad" % v[-1], ["GLINE"]), ("GLINE +*@%%ip%s 3600 :bad" % v[-1], ["LOCAL_GLINE"]),
              ("GLINE !+*@172.* * 3600 :wide", ["GLINE", "WIDE_GLINE"]), ("GLINE !+*@172.* 3600 :wide", ["LOCAL_GLINE", "WIDE_GLINE"]),
              ("GLINE >*@10.66.%d.*" % n, ["LOCAL_GLINE"]), ("GLINE <*@10.66.%d.*" % n, ["LOCAL_GLINE"]), ("GLINE <*@10.66.%d.* %s" % (n, other), ["GLINE"]),
              ("GLINE *@10.66.%d.* * 7200 :longer" % n, ["GLINE"]),
              ("GLINE +#bad%d * 3600 :chan" % n, ["GLINE", "BADCHAN"]), ("GLINE +#bad%d 3600 :chan" % n, ["LOCAL_GLINE", "LOCAL_BADCHAN"]),
              ("GLINE +#bad%d %s 3600 :chan" % (n, other), ["GLINE", "BADCHAN"]), ("GLINE +#bad%d %s 3600 :chan" % (n, me), ["LOCAL_GLINE", "LOCAL_BADCHAN"])]
        t += [("JUPE %sbad%d.net * 3600 :j" % (pm, n), ["JUPE"]), ("JUPE %sbad%d.net %s 3600 :j" % (pm, n, me), ["LOCAL_JUPE"]), ("JUPE %sbad%d.net 3600 :j" % (pm, n), ["LOCAL_JUPE"]),
              ("JUPE %sbad%d.net %s 3600 :j" % (pm, n, other), ["JUPE"])]
        m = rng.choice(["+b x!*@%d.*" % n, "+m", "-o Pl", "+v Pl", "+k kk", "+l 5", "-n", "+s", "+o %me", "+i"])
        t += [("OPMODE #pub " + m, ["OPMODE"]), ("OPMODE %%loc %s" % m, ["LOCAL_OPMODE"]), ("OPMODE !#pub " + m, ["FORCE_OPMODE", "OPMODE"]),
              ("OPMODE !%%loc %s" % m, ["FORCE_LOCAL_OPMODE", "LOCAL_OPMODE"]), ("OPMODE #quar " + m, ["OPMODE", "quar"]), ("OPMODE !#quar " + m, ["OPMODE", "FORCE_OPMODE"])] * 2
        t += [("CLEARMODE #pub ovblk", ["OPMODE"]), ("CLEARMODE #pub", ["OPMODE"]), ("CLEARMODE %loc ovbi", ["LOCAL_OPMODE"]), ("CLEARMODE #quar o", ["OPMODE", "quar"]),
              ("CLEARMODE !#quar ob", ["OPMODE", "FORCE_OPMODE"])]
        t += [("REHASH", ["REHASH"]), ("REHASH m", ["REHASH"]), ("RESTART", ["RESTART", "skip"]), ("DIE", ["DIE", "skip"]), ("DIE :now", ["DIE", "skip"]), ("RESTART :x", ["RESTART", "skip"])]
        t += [("SET MAXBANS %d" % (40 + n), ["SET"]), ("SET TOPICLEN %d" % (150 + n), ["SET"]), ("RESET MAXBANS", ["SET"]), ("SET NETWORK Evil%d" % n, ["SET"]), ("SET HIS_WEBIRC FALSE", ["SET"]),
              ("SET LOG GLINE FILE x%d.log" % n, ["SET", "setlog"]), ("RESET TOPICLEN", ["SET"])]
        t += [("MODE %%loc %s" % m, ["MODE_LCHAN"]), ("MODE %loc -o+b Loc%i *!*@1.2.3.4", ["MODE_LCHAN"]), ("JOIN %shut OVERRIDE", ["WALK_LCHAN"]), ("KICK %loc Loc%i :x", ["never"]),
              ("TOPIC %loc :taken", ["never"]), ("MODE #pub +m", ["never"]), ("KICK #pub Pl :x", ["never"]), ("JOIN #shut OVERRIDE", ["never"])]
        t += [("LIST S", ["LIST_CHAN"]), ("LIST M", ["LIST_CHAN"]), ("LIST S,>0", ["LIST_CHAN"]),
              ("WHO Far* x", ["WHOX", "SHOW_ALL_INVIS"]), ("WHO #hid x", ["WHOX", "SEE_CHAN"]), ("WHO Far*", ["never"]), ("WHO #hid", ["never"])]
        t += [("WALLOPS :w%d" % n, ["oper"]), ("WALLUSERS :u%d" % n, ["oper"]), ("PRIVMSG $*.test.net :m%d" % n, ["oper"]), ("NOTICE $*.test.net :m%d" % n, ["oper"]),
              ("PRIVMSG $@*.0.0.1 :m", ["oper"]), ("SETTIME %%ts%d" % rng.choice([0, 5, 500]), ["global"]), ("SETTIME %%ts5 %s" % other, ["global"]),
              ("SQUIT leaf9.test.net :x", ["oper"]), ("CONNECT leaf3.test.net 4400", ["oper"]), ("CONNECT leaf3.test.net 4400 %s" % other, ["global"]), ("CLOSE", ["oper"]),
              ("PRIVS Root%i", ["oper"]), ("GET NICKLEN", ["oper"]), ("RPING leaf9.test.net", ["oper"]), ("SQUIT far.test.net :x", ["global"]), ("SQUIT fak.test.net :x", ["global"])]
        return t

    def simplify(self, op):
        return []

    def may(self, need, st):
        """True, False, or None: do not try"""
        if "never" in need:
            return False
        if "user" in need:
            return st["reg"]
        if not st["reg"]:
            return False
        if need[0] == "deop":
            return True
        if need[0] == "kill":
            if not st["oper"]:
                return False
            return ("LOCAL_KILL" if st["inst"] == (VICS.index(need[1]) // 2) else "KILL") in st["privs"]
        if need == ["oper"]:
            return st["oper"]
        if need == ["global"]:
            return st["oper"] and "PROPAGATE" in st["privs"]
        if not st["oper"]:
            return False
        ok = all(p in st["privs"] for p in need if p in ALL)
        if "quar" in need:
            return False
        if ok and "skip" in need:
            return None
        return ok

    def side(self, w, case, side):
        bl, _ = blocks(case["net"])
        conns = {}
        labels = set()
        pl, rv = w.client("Pl", 0, "10.4.0.1"), w.client("Rv", 1, "10.4.0.2")
        locs = [w.client("Loc%d" % i, i, "10.4.1.%d" % i) for i in (0, 1)]
        roots = [w.client("Root%d" % i, i, "10.4.2.%d" % i) for i in (0, 1)]
        vics = [w.client(VICS[i], i // 2, "10.5.0.%d" % i) for i in range(4)]
        import p10
        far = p10.Peer(w, "peer2.test.net", 60, 0).handshake()
        far.send("%s S far.test.net 2 0 %d J10 BBAAA +6 :far" % (far.num, far.now()), "BB EB", "BB EA")
        fak = far.user("Farr", modes="+i")
        w.run()
        far.pump()
        acts = []
        st = []
        for a in range(6):
            s = {"reg": a != 4, "oper": False, "privs": set(), "inst": AINST[a]}
            if a == 4:
                c = w.connect(0, "10.6.0.%d" % a)
                c.send("NICK act4")
                w.run()
            else:
                c = w.client(ACT[a], AINST[a], "10.6.0.%d" % a)
            c.nick = ACT[a]
            acts.append(c)
            st.append(s)
        for i, r in enumerate(roots):
            ms = r.do("OPER root rootpass")
            if not any(m.cmd == "381" for m in ms):
                raise Violation("OPER with the right name and password refused: %r" % ms)
        for a in (1, 2, 3):
            b = bl[case["blocks"][a - 1]]
            ms = acts[a].do("OPER %s %s" % (b[0], b[1]))
            got = any(m.cmd == "381" for m in ms)
            want = host_ok(b[2], "~" + ACT[a], "10.6.0.%d" % a)
            if got != want:
                raise Violation("OPER %s by %s@10.6.0.%d, block host %s: %s" % (b[0], ACT[a], a, b[2], [m.raw for m in ms]))
            if got:
                st[a]["oper"] = True
                st[a]["privs"] = effective(b)
                ms = acts[a].do("PRIVS " + ACT[a])
                have = set(" ".join(m.params[-1] for m in ms if m.cmd == "270").split())
                if have != st[a]["privs"]:
                    raise Violation("operator %s (block %s, class %s) has the wrong privileges: extra %s, missing %s" % (
                        b[0], b[3], b[4], sorted(have - st[a]["privs"]), sorted(st[a]["privs"] - have)))
        pl.send("JOIN #pub,#open", "MODE #pub +nt", "MODE #open -t", "JOIN #quar", "JOIN #hid", "MODE #hid +s", "JOIN #shut", "MODE #shut +i")
        w.run()
        for i, l in enumerate(locs):
            l.send("JOIN &loc,&shut", "MODE &shut +i", "MODE &loc +nt")
        rv.send("JOIN #pub,#open")
        for v in vics:
            v.send("JOIN #pub,#open")
        w.run()
        w.adv(100000)
        everyone = [pl, rv] + locs + vics
        for c in everyone + acts + roots:
            c.msgs()
        far.pump()
        tr = []
        refused = allowed = 0
        dead = set()
        for k, (a, t0, need) in enumerate(case["ops"]):
            w.adv(40000)
            for c in everyone + acts + roots:
                c.msgs()
            if acts[a].eof:
                continue
            s = st[a]
            hub, oth = ircsim.SERVERS[s["inst"]], ircsim.SERVERS[1 - s["inst"]]
            t = t0.replace("%me", ACT[a]).replace("%hub", hub).replace("%oth", oth).replace("%loc", "&loc").replace("%shut", "&shut").replace("%i", "%d" % s["inst"] if "%ip" not in t0 else "%i")
            for i in range(4):
                t = t.replace("%%ip%d" % i, "10.5.0.%d" % i)
            for i in range(NBLOCK - 1, -1, -1):
                t = t.replace("%%n%d" % i, bl[i][0]).replace("%%p%d" % i, bl[i][1])
            if "%ts" in t:
                now = far.now()
                for d in (500, 0, 5):
                    t = t.replace("%%ts%d" % d, "%d" % (now + d) if d else "0")
            n = list(need)
            if n[0].startswith("oper") and n[0] != "oper":
                b = bl[int(n[0][4:])]
                f = t.split(" ")
                if s["oper"] or f[2] == b[1] and host_ok(b[2], "~" + ACT[a], "10.6.0.%d" % a):
                    continue       # would succeed
                n = ["never"]
            if s["oper"] and n == ["never"] and t.split(" ")[0] == "OPER":
                continue
            if n[0] == "kill" and vics[VICS.index(n[1])].eof:
                continue
            if n == ["never"] and t.startswith(("MODE &loc", "TOPIC &loc", "KICK &loc", "KICK #pub", "MODE #pub")) and k and any("+o " + ACT[a] in o[1].replace("%me", ACT[o[0]]) for o in case["ops"][:k]):
                continue
            if "OPER" in s and False:
                continue
            ok = self.may(n, s)
            if ok is None:
                continue
            if n == ["oper"] and ok and t.startswith("CLOSE"):
                st[4]["closed"] = True
            if t.startswith("MODE &loc") and not ok:
                pass
            if not ok and side:
                w.run()
            else:
                acts[a].send(t)
                w.run()
            far.pump()
            got = acts[a].msgs()
            cmd = t.split(" ")[1 if t[0] == ":" else 0]
            if not ok:
                refused += 1
                labels.add("refused " + cmd)
                if not side:
                    bad = [m.raw for m in got if m.cmd == "381" or m.cmd == "MODE" and m.params[0] == ACT[a]]
                    if bad:
                        raise Violation("%s (%s) gave %s: %r" % (t, self.who(a, s), ACT[a], bad))
                    if s["reg"] and all(p in ALL for p in n) and n[0] not in ("MODE_LCHAN", "WALK_LCHAN", "LIST_CHAN", "WHOX") and t[0] != ":" \
                            and not any(m.cmd in ("481", "520", "472", "518", "482", "512") or m.cmd.isdigit() and 400 <= int(m.cmd) < 600 for m in got) and cmd not in ("GLINE",):
                        raise Violation("%s, not permitted to %s, was not refused: %r" % (t, self.who(a, s), [m.raw for m in got]))
                    if cmd == "WHO" and any(m.cmd in ("352", "354") for m in got):
                        raise Violation("%s by %s showed what only operators may see: %r" % (t, self.who(a, s), [m.raw for m in got]))
                    if cmd == "LIST" and any("#hid" in m.raw for m in got):
                        raise Violation("%s by %s listed a secret channel: %r" % (t, self.who(a, s), [m.raw for m in got]))
            else:
                allowed += 1
                labels.add("allowed " + cmd)
                if n[0] == "deop":
                    if s["oper"]:
                        s["oper"] = False
                        s["privs"] = set()
                elif n != ["user"] and "setlog" not in n and any(m.cmd == "481" for m in got):
                    raise Violation("%s was refused to %s, who has the privilege: %r" % (t, self.who(a, s), [m.raw for m in got]))
                if cmd in ("LIST", "WHO") and n[0] in ("LIST_CHAN", "WHOX") and t != "LIST M" and not t.endswith(" LIST M") and not any("#hid" in m.raw or "Farr" in m.raw for m in got if m.cmd in ("352", "322")):
                    raise Violation("%s by %s did not show what the privilege allows: %r" % (t, self.who(a, s), [m.raw for m in got]))
                if n[0] == "kill" and not vics[VICS.index(n[1])].eof:
                    raise Violation("%s by %s did nothing: %r" % (t, self.who(a, s), [m.raw for m in got]))
            what = "op %d: %s by %s%s" % (k, t, self.who(a, s), "" if ok else " (not permitted)")
            for c in everyone:
                tr.append((what + ", seen by " + c.nick, [m.raw for m in c.msgs()] + (["EOF"] if c.eof else [])))
            if w.exited:
                raise Violation("%s: a server stopped: %r" % (what, w.exited))
            for x in range(6):
                if x != a and x != 4 and acts[x].eof:
                    tr.append((what, ["%s died" % ACT[x]]))
        for i, r in enumerate(roots):
            for q in ("GLINE", "JUPE", "GET MAXBANS", "GET TOPICLEN", "GET NETWORK", "GET HIS_WEBIRC", "GET LOG GLINE FILE", "MODE &loc", "MODE &loc +b", "NAMES &loc", "NAMES &shut", "LINKS", "WHO act*"):
                w.adv(2000)
                tr.append(("final %s on server %d" % (q, i), [m.raw for m in r.do(q) if m.cmd != "NOTICE"]))
            s = burst.snapshot(w, i)
            f = s.facts()
            for kind in sorted(f):
                tr.append(("final state of server %d: %s" % (i, kind), ["%s: %r" % kv for kv in sorted(f[kind].items())]))
        return tr, {"nontrivial": refused > 0 and allowed > 0, "labels": sorted(labels)}

    def who(self, a, s):
        return "%s (%s%s)" % (ACT[a], "unregistered" if not s["reg"] else "no operator" if not s["oper"] else "global operator" if "PROPAGATE" in s["privs"] else "local operator",
                              " with " + " ".join(sorted(s["privs"])) if s["oper"] else "")
