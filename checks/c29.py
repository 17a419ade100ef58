"""Configuration: a reload leaves the server as if it had been started with the new file; whatever a file says, the server survives it."""
import re
import confgram, ircsim, pbt
from pbt import Violation

PROP = {
    "id": "C29",
    "title": "After a reload the server behaves exactly as if it had been started with the new configuration",
    "statement": "Whatever configurations a server had before — with mistakes in them or not, with users connected or not — once it has reloaded a well-formed configuration it behaves as a server freshly started with it: "
                 "the same ports are open, the same clients are let in or refused for the same reasons and into the same classes, the same operators get the same privileges from the same places, and every setting, message "
                 "of the day, juped nick, quarantined channel, pseudo command and list shown by STATS is the same. No content of a configuration file, at start or at a reload, makes the server crash, hang or corrupt its memory.",
    "quantifier": {"over": ["inputs", "histories"],
                   "text": "all sequences of generated configurations of all block types (the last one well-formed, earlier ones arbitrarily damaged) with users coming and going between reloads, and all probes by later clients"},
    "why_tests_cant": "A leftover of an old configuration shows only for particular pairs of configurations; the tests reload a few hand-written ones and look at one setting each.",
    "anchors": {
        "files": ["ircd/ircd_parser.y", "ircd/ircd_lexer.c", "ircd/s_conf.c", "ircd/ircd_features.c", "ircd/class.c", "ircd/listener.c", "ircd/motd.c", "ircd/IPcheck.c", "ircd/ircd_log.c", "ircd/crule.c"],
        "mechanism": [{"name": "reload", "where": "ircd/s_conf.c rehash(); read_configuration_file()"},
                      {"name": "parser", "where": "ircd/ircd_parser.y; ircd/ircd_lexer.c yylex()"},
                      {"name": "marking and sweeping of old settings", "where": "ircd/ircd_features.c feature_unmark() feature_mark(); ircd/class.c class_mark_delete(); ircd/listener.c mark_listeners_closing(); "
                                                                              "ircd/s_conf.c webirc_mark_stale()"}],
        "observe_at": ["replies to fresh clients, operators and STATS on both servers", "ports that accept connections", "process exit and sanitizer reports"],
    },
}
TECHNIQUE = "differential fuzzing: grammar-generated configuration sequences reloaded into one server, against a server started with the last of them; damaged configurations under AddressSanitizer"

STATS = "cdDfgiJkopqRsSTUuvVWy"
HIDE = [(re.compile(r"(PING :?)\d+"), r"\1N"), (re.compile(r"Highest connection count: .*"), "Highest"), (re.compile(r" 26[56] .*"), " 26x"),
        (re.compile(r" ft \d+\(\d+\)"), " ft"), (re.compile(r"(was last changed:?).*"), r"\1"), (re.compile(r"(Current (local|global) users).*"), r"\1"), (re.compile(r"\*\*\* .*connection.*"), "x")]
PORTS = [6667, 6668, 6669, 6670, 6671, 6672, 6673, 6674, 6675, 6676, 7000, 7001, 6901, 4400, 4405]
IPS = ["10.0.0.1", "10.0.0.2", "10.0.0.3", "10.0.0.4", "10.1.0.1", "10.1.2.3", "10.55.0.1", "10.66.0.1", "10.77.0.1", "10.78.0.9", "2001:db8::1"]
CMDS = ["MOTD", "ADMIN", "JOIN #quar", "JOIN #q2", "JOIN &qloc", "JOIN #a,#b,#c,#d", "NICK jup1", "NICK botx", "NICK aab", "NICK [x]", "NICK incnick", "NICK n2", "HELPME hello there", "ASKME x", "HELPMEB :y", "LUSERS", "MAP", "LINKS", "VERSION",
        "MODE %n +x", "MODE %n", "WHOIS %n", "USERHOST %n", "STATS u", "STATS i", "TOPIC #a :" + "t" * 100, "AWAY :" + "w" * 100, "MODE #a +bbb a!*@* b!*@* " + "c" * 30 + "!*@*", "MODE #a +s", "MODE #a", "SILENCE +a!*@*,b!*@*",
        "OPER boss p1", "OPER boss p2", "OPER helper p1", "OPER helper p2", "OPER third p1", "OPER third p2", "OPER oper operpass", "PRIVS %n", "WALLOPS :x", "NICK averyveryverylongnickname", "LIST", "INVITE %n #a", "INFO", "HELP", "TIME",
        "CAP LS 302", "CAP REQ :away-notify message-tags", "PRIVMSG %n :hi", "WHO %n", "JOIN #" + "l" * 60, "CHECK %n", "STATS k", "TRACE", "SETHOST a b", "LIST T<5", "KILL %n :x", "GLINE +x@y.z 60 :r", "OPMODE #a +o %n", "GET NICKLEN", "PING :x", "WHO prb0", "WHOIS %n %n", "NOTICE %n :n", "MOTD hub.test.net", "STATS iauth", "STATS iauthconf", "USERIP %n", "LIST M", "RPING hub.test.net", "CONNECT peer3.test.net", "TIME hub.test.net"]


class CHECK(pbt.Check):
    RULE = "the reloads changed the server's answers (the same probes answered differently before the last one) and at least one probe client was let in"
    QUICK, THOROUGH = 2000, 200000
    VARIANT = "asan"
    CPU = 60

    def boot(self):
        sim = ircsim.Sim(self.VARIANT)
        w = ircsim.World(sim)
        for i in range(3):
            # the files of the instances exist before the fork
            import os, shutil
            d = os.path.join(sim.root, "s%d" % i)
            os.makedirs(d, exist_ok=True)
            shutil.copyfile(sim.so, os.path.join(sim.root, "ircd%d.so" % i))
        return w

    def gen(self, rng, i, tier):
        n = rng.choice([2, 2, 2, 3, 4])

        def one(k):
            cg = confgram.ConfGram(rng)
            b = cg.build(faults=0 < k < n - 1)
            return {"blocks": b, "general": self.general(rng), "feat": rng.choice([{}, {}, {"HOST_HIDING": "TRUE"}, {"OPLEVELS": "TRUE"}])}
        confs = [one(k) for k in range(n)]
        if rng.random() < .5 and len(confs) > 1:      # a small change of the one before
            p = confs[-2]
            q = dict(confs[-1], blocks=[b for b in p["blocks"] if (rng.random() < .8 or b.startswith("Class")) and not confgram.broken(b)])
            if rng.random() < .3:
                rng.shuffle(q["blocks"])
            q["blocks"] += [b for b in confs[-1]["blocks"] if "class =" not in b][:rng.choice([0, 1, 3])]
            q["blocks"].sort(key=lambda b: not b.startswith("Class"))
            confs[-1] = q
        ops = []
        for k, c in enumerate(confs):
            t = None
            if k < len(confs) - 1 and (k and rng.random() < .5 or rng.random() < .15):
                t = confgram.ConfGram(rng).mangle(self.text(c["general"], c["feat"], c["blocks"]))
            if t:
                ops.append(["mangled", k, t])
            else:
                ops += [["block", k, b] for b in c["blocks"]]
            if k < len(confs) - 1:
                ops += [["pre", k, self.probe(rng)] for _ in range(rng.choice([0, 0, 1, 2]))]
        ops += [["probe", 0, self.probe(rng)] for _ in range(rng.randint(1, 6))]
        return {"confs": [[c["general"], c["feat"]] for c in confs], "ops": ops, "inc": rng.randrange(len(confgram.INC)), "stay": rng.random() < .4}

    def general(self, rng):
        return {"desc": rng.choice(["Server 0", "Another text"]), "vhost": rng.choice(["0.0.0.0", "*", "10.1.0.1"]), "dns": rng.choice(["", "", 'dns server = "10.3.0.54";', 'dns vhost = "10.1.0.1";']),
                "admin": rng.choice(["L1", "Elsewhere"])}

    def probe(self, rng):
        return {"ip": rng.choice(IPS), "port": rng.choice([6667] * 6 + PORTS), "user": rng.choice(["u", "x", "evil1", "ux"]), "pass": rng.choice([None, None, "pw", "other"]), "real": rng.choice(["real", "some spam", "bad guy"]),
                "webirc": rng.choice([None] * 5 + ["wp", "wq"]), "cmds": [rng.choice(CMDS) for _ in range(rng.randint(1, 12))]}

    def text(self, g, feat, blocks):
        t = ircsim.conf(0, 1, features=feat, extra="\n".join(blocks), services=True)
        t = t.replace('description = "Server 0";', 'description = "%s"; %s' % (g["desc"], g["dns"]), 1).replace('vhost = "0.0.0.0"', 'vhost = "%s"' % g["vhost"], 1).replace('Location = "L1"', 'Location = "%s"' % g["admin"], 1)
        ks = sorted(set(re.findall(r'Class \{ name = "(\w+)"', t)) - {"Server"})
        for k in ks:                     # one operator of each class
            t += '\nOperator { local = no; class = "%s"; host = "*@10.99.0.1"; password = "$PLAIN$zz"; name = "op%s"; };' % (k, k)
        return t + '\nClient { ip = "10.99.0.1"; class = "Local"; };\nOperator { local = no; class = "Local"; host = "*@10.99.0.1"; password = "$PLAIN$zz"; name = "zz"; set = yes; };\n'

    def files(self, case):
        return {"alt.motd": "alternative\n", "ircd.motd": "the motd\nline two\n", "resolv.conf": "nameserver 10.3.0.53\n", "kill.txt": "you are\nnot welcome\n", "inc.conf": confgram.INC[case["inc"]], "inc2.conf": 'Jupe { nick = "deep"; };\n'}

    def norm(self, l):
        for a, b in HIDE:
            l = a.sub(b, l)
        m = re.match(r"(:\S+ CAP \S+ (?:LS|LIST|ACK|NAK) (?:\* )?:)(.*)", l)
        if m:                                   # the order of capabilities is nobody's business
            l = m.group(1) + " ".join(sorted(m.group(2).split()))
        return l

    def talk(self, w, inst, p, nick, key):
        """What a probe client gets to see."""
        out = []
        c = w.connect(inst, p["ip"], p["port"])
        w.run()
        if c.eof and not c.lines():
            return ["no connection"], False
        if p["webirc"]:
            c.send("WEBIRC %s cgi h.example 1.2.3.4" % p["webirc"])
        if p["pass"]:
            c.send("PASS " + p["pass"])
        c.send("NICK " + nick, "USER %s 0 * :%s" % (p["user"], p["real"]))

        def take():
            w.run()
            ls = c.lines()
            for l in ls:
                m = re.match(r"PING :(\d+)", l)
                if m:
                    c.send("PONG :" + m.group(1))
                    w.run()
                    ls += c.lines()
            k = [l for l in ls if " 209 " in l]         # TRACE: in no particular order
            out.extend(self.norm(l) for l in [x for x in ls if " 209 " not in x] + sorted(k))
            return ls
        ls = take()
        ok = any(" 001 " in l for l in ls)
        if ok:
            for cmd in p["cmds"]:
                out.append("> " + cmd)
                c.send(cmd.replace("%n", nick))
                take()
        if c.eof:
            out.append("closed")
        else:
            c.send("QUIT")
            take()
            c.close()
            w.run()
        return out, ok

    def view(self, w, insts, probes, classes=()):
        outs = [{} for _ in insts]
        oks = 0
        for port in PORTS:
            for inst, out in zip(insts, outs):
                e = w.connect(inst, "10.98.0.1", port)
                w.run()
                ls = e.lines()
                out["port %d" % port] = ["refused"] if e.eof and not ls else [self.norm(l) for l in ls]
                if not e.eof:
                    e.close()
                w.run()
        w.take_events()
        for k, p in enumerate(probes):
            for inst, out in zip(insts, outs):
                out["client %d %r" % (k, p)], ok = self.talk(w, inst, p, "prb%d" % k, k)
                oks += ok
            w.adv(2000)
        cs = []
        for inst in insts:
            c = w.connect(inst, "10.99.0.1")
            c.send("NICK Zed", "USER z 0 * :z")
            w.run()
            ms = c.lines()
            for l in list(ms):
                if l.startswith("PING :"):
                    c.send("PONG " + l[5:])
                    w.run()
                    ms += c.lines()
            c.send("OPER zz zz")
            cs.append(c)
        w.run()
        for c, out in zip(cs, outs):
            out["oper"] = [self.norm(x) for x in c.lines()]
        for s in ["STATS " + x for x in STATS] + ["PRIVS Zed", "MAP", "LINKS", "ADMIN", "INFO", "MODE Zed", "WHOIS Zed Zed", "STATS netconf", "STATS iauth", "STATS iauthconf", "GET HUB", "VERSION", "TRACE", "JUPE", "GLINE", "QUIT"]:
            for c in cs:
                c.send(s)
            w.run()
            for c, out in zip(cs, outs):
                ls = [self.norm(x) for x in c.lines() if (" 371 " not in x or "On-line" not in x) and " 218 Zed y " not in x]     # y: a deleted class
                out[s] = sorted(ls) if s[-2:] in (" y", " W", " U", " T", " p") else ls
        for c in cs:
            c.close()
        w.run()
        for k in classes:
            for inst, out in zip(insts, outs):
                p = {"ip": "10.99.0.1", "port": 6667, "user": "z", "pass": None, "real": "z", "webirc": None, "cmds": ["OPER op%s zz" % k, "PRIVS %n", "MODE %n"]}
                out["operator of class " + k] = self.talk(w, inst, p, "Yop", k)[0]
        return outs, oks

    def run(self, case):
        w = self.world("empty", self.boot)
        with pbt.case_of(self, w):
            files = self.files(case)
            n = len(case["confs"])
            blocks = [[o[2] for o in case["ops"] if o[0] == "block" and o[1] == k] for k in range(n)]
            mangled = {o[1]: o[2] for o in case["ops"] if o[0] == "mangled"}
            pre = [[o[2] for o in case["ops"] if o[0] == "pre" and o[1] == k] for k in range(n)]
            probes = [o[2] for o in case["ops"] if o[0] == "probe"]
            confs = [mangled.get(k) or self.text(g, f, blocks[k]) for k, (g, f) in enumerate(case["confs"])]
            if not confs[0].startswith('General { name = "hub.test.net";') or "numeric = 1; };" not in confs[0].split("\n")[0]:
                return {"nontrivial": False, "labels": ["another server"]}           # a reload cannot change who the server is
            w.absorb(w.sim.boot(0, confs[0], files))
            labels = set()
            if 0 in w.exited:
                return {"nontrivial": False, "labels": ["refused to start"]}
            w.absorb(w.sim.boot(1, confs[-1], files))
            if 1 in w.exited:
                return {"nontrivial": False, "labels": ["refused to start, last"]}
            before = {}
            for k in range(1, n):
                kept = []
                for j, p in enumerate(pre[k - 1]):
                    if case["stay"]:
                        c = w.connect(0, p["ip"], 6667)
                        c.send("NICK st%d%d" % (k, j), "USER %s 0 * :%s" % (p["user"], p["real"]))
                        w.run()
                        for l in c.lines():
                            if l.startswith("PING :"):
                                c.send("PONG " + l[5:])
                        c.send(*[x.replace("%n", "st%d%d" % (k, j)) for x in p["cmds"]])
                        w.run()
                        kept.append(c)
                    else:
                        self.talk(w, 0, p, "pre%d%d" % (k, j), None)
                if k == n - 1:
                    before = self.view(w, [0], probes[:1])[0][0]
                w.sim.write(0, "ircd.conf", confs[k])
                w.sim.cmd("sig 0 1")
                w.run()
                for c in kept:
                    c.lines()
                    if not c.eof:
                        c.send("QUIT")
                        w.run()
                    c.close()
                w.run()
                if 0 in w.exited:
                    raise Violation("a reload ended the server: %r" % (w.exited,))
            for _ in range(8):         # what the addresses did before is forgotten
                w.adv(200000)
            (a, b), oks = self.view(w, [0, 1], probes, sorted(set(re.findall(r'name = "op(\w+)"', confs[-1]))))
            if w.exited:
                raise Violation("a server ended: %r" % (w.exited,))
            if any(" 439 " in l for v in (a, b) for ls in v.values() for l in ls):
                return {"nontrivial": False, "labels": ["target change too fast"]}    # hashes of pointers decide it
            self.compare(a, b)
            for k in before:
                if before[k] != a.get(k):
                    labels.add(k.split(" {")[0])
            if mangled:
                labels.add("damaged")
            return {"nontrivial": bool(labels - {"damaged"}) and oks > 0, "labels": sorted(labels)}

    def compare(self, a, b):
        for k in a:
            if a[k] != b.get(k):
                d = [l for l in a[k] if l not in b[k]][:5], [l for l in b[k] if l not in a[k]][:5]
                if d == ([], []):
                    d = a[k], b[k]
                raise Violation("%s: after the reload %r, freshly started %r" % (k, *d))

    def simplify(self, op):
        if op[0] == "block":
            m = re.match(r"(?s)(.*?\{)(.*)(\};?\s*)$", op[2])
            if m:
                items = [x for x in m.group(2).split(";") if x.strip()]
                for i in range(len(items)):
                    if len(items) > 1:
                        yield [op[0], op[1], m.group(1) + ";".join(items[:i] + items[i + 1:]) + "; " + m.group(3)]
        elif op[0] in ("pre", "probe"):
            for i in range(len(op[2]["cmds"])):
                yield [op[0], op[1], dict(op[2], cmds=op[2]["cmds"][:i] + op[2]["cmds"][i + 1:])]
        elif op[0] == "mangled":
            t = op[2]
            n = len(t)
            for size in (n // 2, n // 4, n // 8, 40, 8, 1):
                if size:
                    for i in range(0, n, max(size, n // 40)):
                        yield [op[0], op[1], t[:i] + t[i + size:]]
