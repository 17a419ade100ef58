"""Input streams: packet boundaries do not matter; flood control."""
import re
import ircsim, p10, pbt, script
from nonint import TwinCheck
from pbt import Violation

PROP = {
    "id": "C14",
    "title": "Input is a stream of lines: packet boundaries never matter, and flood limits are exact",
    "statement": "What the server does with the bytes of a user connection or a server link depends only on the bytes: however they are cut into packets, and whichever of CR, LF or both "
                 "ends each line, the replies, what other users and servers receive, and the resulting state are the same; empty lines are ignored, and a line over the limit affects nothing but itself. "
                 "A throttled client has each command delayed by the documented penalty (2 seconds plus one per 120 characters, ten seconds of credit), in order and without loss, and is disconnected for "
                 "Excess Flood exactly if its unprocessed input exceeds its class's maxflood.",
    "quantifier": {"over": ["inputs", "schedules"], "text": "all byte streams of user and server connections, all ways to cut them into reads, all arrival times under throttling"},
    "why_tests_cant": "Tests write one line per send; the cuts that matter fall inside a line, a tag section, a line ending or on a buffer block boundary.",
    "anchors": {
        "files": ["ircd/s_bsd.c", "ircd/packet.c", "ircd/dbuf.c", "ircd/parse.c"],
        "mechanism": [{"name": "reading", "where": "ircd/s_bsd.c read_packet(), client_timer_callback()"},
                      {"name": "lines", "where": "ircd/dbuf.c dbuf_put(), dbuf_getmsg(); ircd/packet.c server_dopacket(), connect_dopacket()"},
                      {"name": "penalty", "where": "ircd/parse.c parse_client() cli_since"}],
        "observe_at": ["the connection's replies", "what channel members and a linked server receive", "disconnection and its reason"],
    },
}
TECHNIQUE = "metamorphic property-based testing (same byte stream, random segmentation, against one line at a time) and a model of the throttle on a virtual clock"

EOLS = [b"\r\n", b"\n", b"\r", b"\n\r", b"\r\n\r\n", b"\n\n\n"]


def s2s(rng, st):
    """a line of a linked server"""
    me, u = "$P", "$P" + p10.b64(rng.randrange(3), 3)
    c = rng.choice(["#a", "#b", "#r"])
    t = script.lat(script.text(rng))
    r = rng.random()
    if r < .3:
        s = "%s %s %s :%s" % (u, rng.choice("PO"), rng.choice([c, "$ACT", "$OBS"]), t)
    elif r < .4:
        s = "%s J %s %d" % (u, c, 1700000000 + rng.randrange(9))
    elif r < .45:
        s = "%s L %s :%s" % (u, c, t)
    elif r < .55:
        s = "%s T %s :%s" % (u, c, t)
    elif r < .65:
        s = "%s M %s %s" % (me, c, rng.choice(["+m", "-m", "+v $ACT", "+b a!b@" + script.lat(script.word(rng)).replace(",", ""), "+l 9", "-l"]))
    elif r < .7:
        s = "%s A :%s" % (u, t)
    elif r < .75:
        s = "%s N Rem%d %d" % (u, rng.randrange(9), 1700000100 + rng.randrange(100))
    elif r < .8:
        s = "%s P %s :%s" % (u, c, "y" * rng.choice([300, 450, 480, 490, 495, 500, 600]))
    elif r < .85:
        s = "%s AC $ACT acc" % me
    elif r < .9:
        s = "%s W $H :%s" % (u, "Act")
    elif r < .95:
        s = rng.choice(["ZZ P #a :x", "ZZAAA P #a :unknown", "%s XYZ a b" % me, "%s" % me, "%s P" % u])
    else:
        s = ""
    if rng.random() < .2:
        s = script.lat(script.tags(rng)) + s
    return s.replace("\n", "").replace("\r", "").replace("\0", "")


class CHECK(TwinCheck):
    RULE = "the second run cut at least one line in two and others received something"
    QUICK, THOROUGH = 9000, 80000
    MSG = "how the input was cut into packets made a difference."

    def norm(self, side, raw):
        # a new connection's class, and with it its exemption from throttling, takes effect at the next read: only times may differ
        if self.timeless:
            raw = re.sub(r"^@time=\S+ ", "", raw)
            raw = re.sub(r" 317 (\S+ \S+) .*", r" 317 \1", raw)
            raw = re.sub(r"\d{10}", "T", raw)
        return super().norm(side, raw)

    def key(self, lines):
        return [l for l in lines if not (self.timeless and (" NOTICE " in l and "on " in l and "ca " in l))]

    def boot(self, mode):
        mode = "user" if mode != "flood" else mode
        w = ircsim.boot_network(1, self.VARIANT, pingfreq=100000, maxflood=1000 if mode == "flood" else 262144,
                                features={} if mode == "flood" else {"CLIENT_FLOOD": "200000", "CLIENTTAGDENY": "denied,ex.com/x"})
        w.svc = p10.Peer(w).handshake()
        if mode != "flood":
            for k in range(3):
                w.svc.user(["Rem", "Rema", "Remb"][k], ts=1700000050)
            w.svc.send("%s B #a 1700000000 %sAAA:o" % (w.svc.num, w.svc.num), "%s B #r 1700000000 %sAAB" % (w.svc.num, w.svc.num))
            w.run()
            w.obs = []
            for k in (1, 2):
                o = w.client("Obs%d" % k, ip="10.5.0.%d" % k, caps=("message-tags", "server-time") if k == 2 else ())
                w.obs.append(o)
            w.act = w.client("Act", ip="10.6.0.1")
            for o, c in ((w.obs[0], "#a"), (w.obs[0], "#b"), (w.act, "#a"), (w.obs[1], "#a"), (w.act, "#b")):
                o.do("JOIN " + c)
            w.obs[0].do("MODE #b +o Act")
            w.svc.pump()
            w.adv(20000)
            for c in w.conns.values():
                if c is not w.svc.c:
                    c.lines()
            w.svc.pump()
        return w

    def gen(self, rng, i, tier):
        mode = rng.choice(["user", "user", "link", "flood", "reg", "linkreg"])
        if mode == "flood":
            ops = []
            heavy = rng.choice([.25, .4, .7])
            for _ in range(rng.randint(3, 25)):
                r = rng.random()
                if r < heavy:
                    sizes = rng.choice([[1, 5, 30], [1, 5, 30, 100, 113, 114, 115, 150, 239, 300, 450]])
                    ops.append(["send", [rng.choice(sizes) for _ in range(rng.choice([1, 1, 2, 4, 7]))]])
                else:
                    ops.append(["adv", rng.choice([1, 2, 3, 5, 12, 40])])
            return {"net": mode, "ops": ops}
        if mode == "reg":
            lines = ["NICK New", "USER new 0 * :Real"]
            if rng.random() < .5:
                lines = ["CAP LS 302"] + lines + ["CAP REQ :message-tags" + rng.choice(["", " server-time", " nonsense"]), "CAP END"]
            for _ in range(rng.choice([0, 0, 1, 2])):
                lines.insert(rng.randint(0, len(lines)), rng.choice(["NICK 1bad", "NICK Obs1", "JOIN #a", "", "XYZZY", "PASS x", "PING :y", "X" * 600, script.lat(script.tags(rng)) + "NICK Tagged"]))
            lines += ["JOIN #a"] + [script.lat(script.line(rng)) for _ in range(rng.randint(1, 6))]
        elif mode == "linkreg":
            lines = ["PASS :lp", "SERVER peer1.test.net 1 1700000000 1700000000 J10 BA]]] +s6 :fake"]
            lines += ["BA N Lnk%d 1 1700000050 u h.net B]AAAB BAAA%s :x" % (k, "ABCDEFGH"[k]) for k in range(rng.randint(1, 6))]
            lines += ["BA B #lk 1690000000 BAAAA:o"] + (["BA B #a 1700000000 BAAAA"] if rng.random() < .5 else [])
            lines += ["BA EB"] + ["BA EA"] * (rng.random() < .7)
            lines += ["BAAAA %s #a :%s" % (rng.choice(["P", "O", "L"]), "q" * rng.choice([1, 10, 400])) for _ in range(rng.randint(0, 8))]
            if rng.random() < .2:
                lines.insert(rng.randint(2, len(lines)), "")
        else:
            lines = [script.lat(script.line(rng)) if mode == "user" else s2s(rng, None) for _ in range(rng.randint(4, 30))]
        ops = []
        for l in lines:
            n = len(l) + 2
            k = rng.choice([0, 0, 1, 1, 2, 5]) if rng.random() < .9 else n
            cuts = sorted({rng.choice([rng.randrange(n), n - 1, n - 2, 0, 1, min(n, 512), min(n, 511)]) for _ in range(k)})
            ops.append([l, rng.choice(EOLS) if rng.random() < .6 else "\r\n", cuts, rng.random() < .5])
        ops = [[l, e if isinstance(e, str) else e.decode(), c, r] for l, e, c, r in ops]
        return {"net": mode, "ops": ops, "rdmax": rng.choice([0, 0, 0, 1, 7, 100, 511])}

    def run(self, case):
        if case["net"] == "flood":
            w = self.world("netflood", lambda: self.boot("flood"))
            with pbt.case_of(self, w):
                return self.flood(w, case)
        self.timeless = case["net"] == "reg"
        return super().run(case)

    def side(self, w, case, side):
        svc = w.svc
        ch = w.act if case["net"] == "user" else svc.c
        if case["net"] == "reg":
            ch = w.connect(ip="10.6.0.7")
        elif case["net"] == "linkreg":
            ch = w.connect(ip="10.9.0.1", port=4400)
        if ch.ext not in w.conns or ch is not svc.c and ch is not w.act:
            w.run()
        sub = {"$P": svc.num, "$ACT": svc.nicks["Act"], "$OBS": svc.nicks["Obs1"], "$H": svc.hubnum}

        def data(l):
            for k in ("$P", "$ACT", "$OBS", "$H"):
                l = l.replace(k, sub[k])
            return ircsim.enc(l)
        cuts = 0
        if side == 0:
            for l, _, _, _ in case["ops"]:
                b = data(l)
                if b.strip(b"\r\n"):
                    ch.raw(b + b"\r\n")
                    w.run()
        else:
            if case["rdmax"]:
                w.sim.cmd("rdmax %d" % case["rdmax"])
            pend = b""
            for l, e, cs, flush in case["ops"]:
                b = data(l) + e.encode()
                last = 0
                for c in cs:
                    if last < c < len(b):
                        ch.raw(pend + b[last:c])
                        w.run()
                        pend = b""
                        last = c
                        cuts += 1
                pend += b[last:]
                if flush:
                    ch.raw(pend)
                    w.run()
                    pend = b""
            if pend:
                ch.raw(pend)
            w.run()
        w.adv(120000 if case["net"] == "reg" else 3000)
        out = [("new connection", ch.lines())] if ch not in (w.act, svc.c) else []
        for name, c in (("Act", w.act), ("Obs1", w.obs[0]), ("Obs2", w.obs[1])):
            ls = c.lines()
            if c.buf:
                raise Violation("%s was sent a line without an end: %r" % (name, c.buf))
            out.append((name, ls + ["(closed)"] if c.eof else ls))
        ls = svc.pump()
        # queued messages of the higher priority overtake others: they are compared apart
        prio = [l for l in ls if p10.prio(l)]
        out.append(("server", [l for l in ls if l not in prio]))
        out.append(("server, priority", prio))
        # state afterwards
        st = []
        for q in ("NAMES #a", "MODE #a", "MODE #a b", "MODE #b", "NAMES #b", "TOPIC #a", "TOPIC #b", "WHOIS Act Act", "WHOIS Rem"):
            st += [m.raw for m in w.obs[0].do(q)]
        out.append(("state", st))
        self.cuts = cuts
        return out, {"nontrivial": sum(len(x[1]) for x in out[-4:-1]) > 0 and (cuts > 0 or side == 0), "labels": [case["net"], "rdmax" if case["rdmax"] else "rd"]}

    # the throttle
    def flood(self, w, case):
        a = w.client("Fl", ip="10.6.0.9")
        w.adv(60000)
        a.lines()
        t = 0
        since = -100        # credit fully restored
        q = []              # (bytes, cost)
        timer = None
        done = dead = sent = 0
        delayed = 0

        def work():
            nonlocal since, timer, done
            while q and since - t < 10:
                n, cost = q.pop(0)
                since += cost
                done += 1
            if q and timer is None:
                timer = t + 2

        got = 0
        for op in case["ops"]:
            if op[0] == "adv":
                for _ in range(op[1]):
                    w.adv(1000)
                    t += 1
                    if timer == t:
                        timer = None
                        work()
            elif dead:
                continue
            else:
                b = b""
                for n in op[1]:
                    # bytes after the command word, of which the penalty counts one per 120
                    l = b"PING :" + (b"%d." % sent).ljust(n, b"z")
                    q.append((len(l) + 1, 2 + (len(l) - 5) // 120))
                    b += l + b"\n"
                    sent += 1
                a.raw(b)
                w.run()
                if since < t:
                    since = t
                if sum(x[0] for x in q) > 1000:
                    dead = 1
                else:
                    work()
            delayed += bool(q)
            w.run()
            ls = [l for l in a.lines()]
            pong = [l for l in ls if " PONG " in l]
            for l in pong:
                if int(l.split(":")[-1].split(".")[0]) != got:
                    raise Violation("PING %d was answered out of turn: %s" % (got, l))
                got += 1
            if dead:
                if not a.eof or not any("Excess Flood" in l for l in ls + [getattr(self, "_x", "")]):
                    raise Violation("%d bytes of unprocessed input did not disconnect a client with maxflood 1000: %r" % (sum(x[0] for x in q), ls[-3:]))
                break
            if a.eof:
                raise Violation("a client with %d bytes of unprocessed input was disconnected (maxflood 1000): %r" % (sum(x[0] for x in q), ls[-3:]))
            if got != done:
                raise Violation("second %d: %d commands were carried out, the throttle allows exactly %d (of %d sent)" % (t, got, done, sent))
        return {"nontrivial": bool(delayed), "labels": ["flood", "excess"] if dead else ["flood"], "checks": len(case["ops"])}

    def simplify(self, op):
        if op and op[0] == "send":
            for k in range(len(op[1])):
                yield ["send", op[1][:k] + op[1][k + 1:]]
        elif op and len(op) == 4:
            l, e, c, f = op
            if c:
                yield [l, e, [], f]
                for k in range(len(c)):
                    yield [l, e, [c[k]], f]
            if e != "\r\n":
                yield [l, "\r\n", c, f]
            if len(l) > 40:
                yield [l[:len(l) // 2], e, c, f]
