"""WebSocket connections carry exactly what a plain connection would."""
import re
import ircsim, p10, pbt, script, ws
from nonint import TwinCheck
from pbt import Violation

PROP = {
    "id": "C15",
    "title": "A WebSocket client gets exactly the service of a plain one",
    "statement": "A client on a websocket port whose messages arrive as masked frames, whole or fragmented, with any mask, length form, interleaved control frames and packet boundaries, has the same effect on "
                 "everybody and receives the same lines as a plain client sending those lines: one unmasked, well-formed frame per line, octets unchanged in binary mode, invalid UTF-8 replaced by U+FFFD in text mode, "
                 "and this also while its socket accepts data only slowly. Every Ping gets one Pong with its payload. The handshake is answered 101 with the right accept key and the first supported subprotocol "
                 "exactly if the request is a version 13 upgrade from an allowed origin; unmasked frames and Close frames end the connection.",
    "quantifier": {"over": ["inputs", "schedules"], "text": "all frame sequences, fragmentations and packet cuts, all handshake requests, all write-backpressure schedules"},
    "why_tests_cant": "The tests perform one handshake and exchange a few small frames; framing errors show only for particular lengths, cuts, fragment interleavings, invalid UTF-8 or a partially written frame.",
    "anchors": {
        "files": ["ircd/websocket.c", "ircd/s_bsd.c", "ircd/send.c", "ircd/msgq.c"],
        "mechanism": [{"name": "handshake", "where": "ircd/websocket.c websocket_handshake_handler()"},
                      {"name": "input frames", "where": "ircd/websocket.c websocket_parse_frame(); ircd/s_bsd.c read_packet()"},
                      {"name": "output frames", "where": "ircd/websocket.c websocket_frame_msgbuf(), websocket_write_raw(); ircd/send.c send_buffer()"}],
        "observe_at": ["bytes the client receives", "what channel members and a linked server receive"],
    },
}
TECHNIQUE = "metamorphic property-based testing (WebSocket client against plain client, same lines) with generated framing, cuts and backpressure; a model of the handshake"

ORIGINS = ["https://a.example", "https://b.example:8443"]


class CHECK(TwinCheck):
    RULE = "stream cases: the client was sent at least eight lines; handshake cases: all"
    QUICK, THOROUGH = 5000, 150000
    MSG = "the WebSocket client was treated differently from a plain one."

    def boot(self, mode):
        w = ircsim.boot_network(1, self.VARIANT, pingfreq=100000, maxflood=400000,
                                features={"CLIENT_FLOOD": "300000", "CLIENTTAGDENY": "denied,x", "WEBSOCKET_ALLOWED_ORIGINS": ", ".join(ORIGINS) if mode == "origins" else None,
                                          "WEBSOCKET_KEEPALIVE": "20" if mode == "keepalive" else None},
                                extra="Port { port = 7001; websocket = yes; cloudflare = yes; };")
        w.svc = p10.Peer(w).handshake()
        w.svc.user("Rem")
        w.svc.send("%s B #a 1700000000 %sAAA:o" % (w.svc.num, w.svc.num))
        w.run()
        w.obs = []
        for k in (1, 2):
            w.obs.append(w.client("Obs%d" % k, ip="10.5.0.%d" % k, caps=("message-tags",) if k == 2 else ()))
        for o in w.obs:
            o.do("JOIN #a")
            o.do("JOIN #b")
        w.adv(20000)
        for o in w.obs:
            o.lines()
        w.svc.pump()
        return w

    # ------------------------------------------------------------ generation
    def gen(self, rng, i, tier):
        r = rng.random()
        if r < .2:
            return self.gen_handshake(rng)
        if r < .25:
            return {"net": "keepalive", "ops": [rng.choice([1, 3, 7, 19, 20, 21, 33, 55, 120]) for _ in range(rng.randint(1, 8))],
                    "talk": rng.random() < .3}
        ops = []
        for _ in range(rng.randint(4, 30)):
            r = rng.random()
            if r < .6:
                l = script.lat(script.line(rng))
                n = len(l)
                r = rng.random()
                ops.append(["act", l,
                            {"op": rng.choice([1, 2]), "eol": rng.choice(["", "", "", "\r\n", "\n"]), "ext": rng.choice([None, None, None, 2, 8]),
                             "mask": [rng.choice([0, 255, rng.randrange(256)]) for _ in range(4)],
                             "frag": sorted(rng.randint(0, n) for _ in range(rng.choice([0, 0, 0, 1, 2, 4]))),
                             "ping": [rng.choice([0, 1, 5, 124, 125]) for _ in range(rng.choice([0, 0, 0, 1, 2]))],
                             "cuts": [rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 13, 14, rng.randrange(1, n + 20)]) for _ in range(rng.choice([0, 0, 1, 3]))],
                             "flush": rng.random() < .5}])
            elif r < .85:
                t = rng.choice(["Act", "#a", "#b", "#a"])
                tags = script.lat(script.tags(rng)) if rng.random() < .3 else ""
                if rng.random() < .05:
                    tags = "@+y=" + rng.choice(["\xff", "\xc3", "é", "z"]) * rng.choice([700, 1400, 2700, 3900]) + " "
                body = script.lat(script.text(rng)) if rng.random() < .7 else "".join(rng.choice(["\xff", "\xe9", "a", "é".encode().decode("latin-1")]) for _ in range(rng.choice([20, 60, 120, 130, 480])))
                ops.append(["obs", rng.randrange(2), "%s%s %s :%s" % (tags.replace("\n", "").replace("\r", ""), rng.choice(["PRIVMSG", "NOTICE", "TOPIC", "TAGMSG"]), t, body)])
            elif r < .9:
                ops.append(["ctl", rng.choice([9, 10]), rng.choice([0, 1, 7, 125]), [rng.randrange(256) for _ in range(4)]])
            elif r < .92:
                ops.append(["huge", rng.choice([8703, 8704, 9000, 65535, 65536, 70000]), rng.choice([[], [1], [14, 8000], [30000]])])
            else:
                ops.append(["hold", rng.choice([0, 1, 2, 3, 10, 60, 130, 500, 5000])])
                if rng.random() < .7:
                    ops.append(["ctl", 9, rng.choice([0, 3, 125]), [1, 2, 3, 4]])
                if rng.random() < .4:
                    ops.append(["hold", -1])
        end = rng.choice([None, None, "close", "unmasked", "quit"])
        return {"net": "stream", "ops": ops, "mode": rng.choice(["text.ircv3.net", "binary.ircv3.net", None]), "end": end,
                "caps": rng.choice(["", "", "message-tags", "message-tags server-time echo-message", "server-time"])}

    def gen_handshake(self, rng):
        h = {"Upgrade": rng.choice(["websocket"] * 5 + ["WebSocket", "h2c, websocket", "h2c", None]),
             "Connection": rng.choice(["Upgrade"] * 4 + ["keep-alive, Upgrade", "upgrade", "keep-alive", None]),
             "Sec-WebSocket-Key": rng.choice(["dGhlIHNhbXBsZSBub25jZQ=="] * 4 + ["".join(rng.choice("ABab01+/") for _ in range(22)) + "==", None]),
             "Sec-WebSocket-Version": rng.choice(["13"] * 6 + [None, "8", "12", "130", "1"]),
             "Sec-WebSocket-Protocol": rng.choice([None, "binary.ircv3.net", "text.ircv3.net", "text.ircv3.net, binary.ircv3.net", "binary.ircv3.net,text.ircv3.net",
                                                   "chat, binary.ircv3.net", "chat", "Text.ircv3.net, binary.ircv3.net", "binary.ircv3.network, text.ircv3.net"]),
             "Origin": rng.choice(ORIGINS * 3 + ["HTTPS://A.EXAMPLE", "https://a.example.evil", "https://a.exampl", "null", None, ""]),
             "CF-Connecting-IP": rng.choice([None, "10.77.1.2", "2001:db8::5", "10.77.1", "x", "1.2.3.4, 5.6.7.8"]),
             "X-Other": rng.choice([None, None, "y", "Upgrade: websocket", "z" * rng.choice([100, 2000, 3500, 3700, 3900, 4200])])}
        hs = [[k if rng.random() < .8 else rng.choice([k.lower(), k.upper()]), v] for k, v in h.items() if v is not None]
        rng.shuffle(hs)
        ops = [[k, rng.choice(["", " ", " ", "  ", "\t"]), v, rng.choice(["", "", "", " ", "\t "])] for k, v in hs]
        return {"net": rng.choice(["stream", "origins"]), "ops": ops, "hs": True, "port": rng.choice([7000, 7000, 7001]),
                "cuts": [rng.random() for _ in range(rng.choice([0, 0, 1, 3]))], "tail": rng.choice([0, 0, 0, 1, 2, 3])}

    # ------------------------------------------------------------ handshake
    def handshake(self, w, case):
        c = ws.ws_connect(w, ip="10.6.0.3", port=case["port"])
        req = b"GET /irc HTTP/1.1\r\nHost: irc.test\r\n" + b"".join(ircsim.enc("%s:%s%s%s\r\n" % tuple(o)) for o in case["ops"]) + b"\r\n"
        if case["tail"]:
            req = req[:-case["tail"]]
        h = {o[0].lower(): o[2].strip(" \t") for o in case["ops"]}
        last = 0
        for f in sorted(case["cuts"]):
            k = int(f * len(req))
            if k > last:
                c.raw(req[last:k])
                w.run()
                last = k
        c.raw(req[last:])
        w.run()
        want = None
        if len(req) > 4096:
            want = "flood"
        elif case["tail"]:
            want = "wait"
        elif ("websocket" not in h.get("upgrade", "").lower() or "upgrade" not in h.get("connection", "").lower() or not h.get("sec-websocket-key")
              or h.get("sec-websocket-version", "13") != "13"):
            want = "refuse"
        elif case["net"] == "origins" and h.get("origin", "").lower() not in ORIGINS:
            want = "refuse"
        elif case["port"] == 7001 and h.get("cf-connecting-ip") not in ("10.77.1.2", "2001:db8::5"):
            want = "refuse"
        else:
            want = "accept"
        got = c.buf
        if want in ("flood", "refuse"):
            if b" 101 " in got or not c.eof:
                raise Violation("this handshake must be refused (%s): answered %r, closed: %s" % (want, got[:200], c.eof))
            if want == "refuse" and not got.startswith(b"HTTP/1.1 400 "):
                raise Violation("a refused handshake was answered %r" % got[:200])
            return {"nontrivial": True, "labels": ["handshake-" + want]}
        if want == "wait":
            if got or c.eof:
                raise Violation("an unfinished handshake was answered %r, closed: %s" % (got[:200], c.eof))
            return {"nontrivial": True, "labels": ["handshake-wait"]}
        head, sep, c.buf = got.partition(b"\r\n\r\n")
        import base64, hashlib
        acc = base64.b64encode(hashlib.sha1(h["sec-websocket-key"].encode() + ws.GUID).digest()).decode()
        hd = {}
        for l in head.decode("latin-1").split("\r\n")[1:]:
            k, _, v = l.partition(": ")
            hd[k.lower()] = v
        if not sep or not head.startswith(b"HTTP/1.1 101 ") or hd.get("sec-websocket-accept") != acc or hd.get("upgrade", "").lower() != "websocket" or hd.get("connection", "").lower() != "upgrade":
            raise Violation("the answer to a good handshake must be 101 with accept key %s: %r (closed: %s)" % (acc, got[:300], c.eof))
        proto = next((p for p in (x.strip() for x in h.get("sec-websocket-protocol", "").split(",")) if p in ("binary.ircv3.net", "text.ircv3.net")), None)
        if hd.get("sec-websocket-protocol") != proto:
            raise Violation("of the subprotocols %r the server chose %r, not %r" % (h.get("sec-websocket-protocol"), hd.get("sec-websocket-protocol"), proto))
        # the chosen mode, and the address others see
        c.control = []
        c.send("NICK Hs", "USER hs 0 * :r\xff")
        w.run()
        pl = c.payloads()
        for op, p in pl:
            if p.startswith(b"PING :"):
                c.send(b"PONG :" + p[6:])
        w.run()
        w.adv(20000)
        c.send("WHOIS Hs")
        w.run()
        pl += c.payloads()
        binary = proto == "binary.ircv3.net"
        ops = {op for op, p in pl}
        if ops != {2 if binary else 1}:
            raise Violation("subprotocol %s, but frames have the opcodes %s" % (proto, ops))
        real = [p for op, p in pl if b" 311 " in p]
        if not real or not real[0].endswith(b":r\xff" if binary else b":r\xef\xbf\xbd"):
            raise Violation("subprotocol %s: the byte FF was shown as %r" % (proto, real))
        w.svc.pump()
        nl = [l for l in w.svc.log if " N Hs " in l]
        ip = h["cf-connecting-ip"] if case["port"] == 7001 else "10.6.0.3"
        if not nl or nl[-1].split(" ")[6] != ip:
            raise Violation("the client's address is %s, the network was told %r" % (ip, nl))
        return {"nontrivial": True, "labels": ["handshake-accept", "cf" if case["port"] == 7001 else "ws"]}

    # ------------------------------------------------------------ keepalive
    def keepalive(self, w, case):
        c = ws.ws_connect(w, ip="10.6.0.3")
        if not c.handshake():
            raise Violation("handshake failed: %r" % c.head)
        self.register(w, c, "")
        c.control = []
        t = 0
        at = []
        for d in case["ops"]:
            for _ in range(d):
                w.adv(1000)
                t += 1
                if case["talk"] and t % 7 == 0:
                    c.send("PING x")
                    w.run()
                c.payloads()
                for op, p in c.control:
                    if op != 9 or p:
                        raise Violation("unexpected control frame %r" % ((op, p),))
                    at.append(t)
                c.control = []
        # the first one waits for the next periodic check of all connections (at most PINGFREQUENCY away)
        bad = [y - x for x, y in zip(at, at[1:]) if not 20 <= y - x <= 21]
        if bad or c.eof or (at[0] if at else t) > 20 + 121 or at and t - at[-1] > 21:
            raise Violation("WEBSOCKET_KEEPALIVE 20, but keepalive Pings came at the seconds %s of %d" % (at, t))
        return {"nontrivial": len(at) > 1, "labels": ["keepalive"], "checks": 1}

    def register(self, w, c, caps):
        got = []

        def pump():
            w.run()
            ls = c.lines()
            got.extend(ls)
            return ls
        c.send("CAP LS 302", "NICK Act", "USER act 0 * :Actor")
        for l in pump():
            if l.startswith("PING :"):
                c.send("PONG :" + l[6:])
        if caps:
            c.send("CAP REQ :" + caps)
        c.send("CAP END", "JOIN #a", "JOIN #b")
        pump()
        w.adv(30000)
        pump()
        if not any(" 001 " in l for l in got):
            raise Violation("registration failed: %r" % got[-5:])
        return got

    # ------------------------------------------------------------ streams
    def run(self, case):
        if case.get("hs") or case["net"] == "keepalive":
            w = self.world("net" + case["net"], lambda: self.boot(case["net"]))
            with pbt.case_of(self, w):
                try:
                    return self.handshake(w, case) if case.get("hs") else self.keepalive(w, case)
                except ws.WsError as e:
                    raise Violation(str(e))
        return super().run(case)

    def side(self, w, case, side):
        try:
            return self.side_(w, case, side)
        except ws.WsError as e:
            raise Violation("the frames sent to the client are broken: %s" % e)

    def norm(self, side, raw):
        raw = re.sub(r"PING :\d+", "PING :T", raw)
        raw = re.sub(r" 317 (\S+ \S+) .*", r" 317 \1", raw)
        # times differ between the two runs only if the flood limit of a new client did
        return raw

    def side_(self, w, case, side):
        text = case["mode"] != "binary.ircv3.net"
        if side == 0:
            c = w.connect(ip="10.6.0.3")
        else:
            c = ws.ws_connect(w, ip="10.6.0.3")
            if not c.handshake(case["mode"]):
                raise Violation("handshake failed: %r" % c.head)
        got = self.register(w, c, case["caps"])
        pings = []
        pend = b""

        def out():
            nonlocal pend
            if pend:
                c.raw(pend)
                pend = b""
            w.run()
            if side == 0 or not held:
                got.extend(c.lines())
        held = False
        huge = 0
        for op in case["ops"]:
            k = op[0]
            if k == "act":
                b = ircsim.enc(op[1])
                if side == 0:
                    if b.strip(b"\r\n"):
                        c.raw(b + b"\r\n")
                    out()
                    continue
                f = op[2]
                b += f["eol"].encode()
                mask = bytes(f["mask"])
                frs = []
                cut = [0] + f["frag"] + [len(b)]
                for j in range(len(cut) - 1):
                    frs.append(ws.frame(b[cut[j]:cut[j + 1]], f["op"] if j == 0 else 0, j == len(cut) - 2, mask, f["ext"]))
                    if f["ping"] and (j or len(cut) == 2):
                        for n in f["ping"]:
                            p = bytes((len(pings) + 3 * x) & 255 for x in range(n))
                            pings.append(p)
                            frs.append(ws.frame(p, 9, True, mask))
                data = pend + b"".join(frs)
                base = len(pend)
                pend = b""
                last = 0
                for x in sorted(set(f["cuts"])):
                    x += base
                    if last < x < len(data):
                        c.raw(data[last:x])
                        w.run()
                        last = x
                pend = data[last:]
                if f["flush"]:
                    out()
            elif k == "obs":
                out()
                w.obs[op[1]].raw(ircsim.enc(op[2]) + b"\r\n")
                out()
            elif k == "ctl":
                if side:
                    p = bytes((len(pings) + x) & 255 for x in range(op[2]))
                    if op[1] == 9:
                        pings.append(p)
                    pend += ws.frame(p, op[1], True, bytes(op[3]))
            elif k == "huge":
                huge = 1
                out()
                if side == 0:
                    c.raw(b"Z" * 600 + b"\r\n")
                else:
                    data = ws.frame(b"Z" * op[1])
                    last = 0
                    for x in op[2]:
                        c.raw(data[last:x])
                        w.run()
                        last = x
                    c.raw(data[last:])
                out()
            elif k == "hold" and side:
                out()
                w.sim.cmd("hold %d %d" % (c.ext, op[1]))
                held = op[1] >= 0
                out()
        out()
        if held:
            w.sim.cmd("hold %d -1" % c.ext)
            held = False
            out()
            out()
        w.adv(3000)
        out()
        closed = None
        if case["end"]:
            if case["end"] == "quit" or side == 0:
                c.send("QUIT :bye")
            elif case["end"] == "close":
                c.raw(ws.frame(b"\x03\xe8", 8))
            else:
                c.raw(ws.frame(b"NICK Unmasked", 1, mask=None))
            w.run()
            fin = c.lines()
            if not c.eof:
                raise Violation("the connection outlived %s" % case["end"])
            if side and case["end"] == "close" and (8, b"\x03\xe8") not in c.control:
                raise Violation("a Close frame was not answered by one: %r" % c.control)
        else:
            w.run()
        if side:
            if c.buf:
                raise Violation("bytes after the last complete frame: %r" % c.buf[:100])
            pongs = [p for op, p in c.control if op == 10]
            if pongs != pings:
                raise Violation("%d Pings were answered by %d Pongs: sent %r, got %r" % (len(pings), len(pongs), pings[:6], pongs[:6]))
            extra = [x for x in c.control if x[0] != 10 and not (x[0] == 8 and case["end"])]
            if extra:
                raise Violation("unexpected control frames %r" % extra)
            if c.eof and not case["end"] and case["ops"]:
                pass
        if side == 0 and text:
            got = [ircsim.dec(ws.sanitize(ircsim.enc(l))) for l in got]
        res = [("client", got + (["(closed)"] if c.eof else []))]
        for name, o in (("Obs1", w.obs[0]), ("Obs2", w.obs[1])):
            ls = o.lines()
            if case["end"]:
                ls = [re.sub(r"(QUIT) .*", r"\1", l) for l in ls]
            res.append((name, ls))
        ls = w.svc.pump()
        if case["end"]:
            ls = [re.sub(r"( Q) :.*", r"\1", l) for l in ls]
        prio = [l for l in ls if p10.prio(l)]
        res.append(("server", [l for l in ls if l not in prio]))
        st = []
        for q in ("NAMES #a", "MODE #a", "MODE #a b", "TOPIC #a", "WHOIS Act"):
            st += [m.raw for m in w.obs[0].do(q)]
        res.append(("state", st))
        return res, {"nontrivial": len(got) > 8, "labels": ["stream", case["mode"] or "none", "end-%s" % case["end"]]}

    def simplify(self, op):
        if isinstance(op, int):
            return
        if op and op[0] == "act":
            f = op[2]
            for k, v in (("cuts", []), ("frag", []), ("ping", []), ("ext", None), ("eol", ""), ("mask", [0, 0, 0, 0])):
                if f[k] != v:
                    yield ["act", op[1], dict(f, **{k: v})]
            if len(op[1]) > 60:
                yield ["act", op[1][:len(op[1]) // 2], f]
        elif op and op[0] == "obs" and len(op[2]) > 60:
            yield ["obs", op[1], op[2][:len(op[2]) // 2]]
        elif op and op[0] == "huge" and op[2]:
            yield ["huge", op[1], []]
