"""Output: what is queued arrives, whatever the receiver's pace; SendQ limits."""
import re
import ircsim, p10, pbt, script
from nonint import TwinCheck
from pbt import Violation

PROP = {
    "id": "C16",
    "title": "Slow receivers lose, repeat or reorder nothing, and only a full SendQ ends them",
    "statement": "However slowly a user or a linked server reads, and however its socket cuts the server's writes, it receives exactly the lines a fast reader would, complete and in order (only the documented "
                 "high-priority server messages may overtake), including multi-line replies such as LIST that are produced as the queue drains; others are not affected by its pace. A connection is dropped "
                 "with \"Max sendQ exceeded\" exactly when something is to be sent to it while more than its class's sendq bytes are waiting, and then soon and visibly to everybody.",
    "quantifier": {"over": ["schedules", "inputs"], "text": "all socket capacities and reading schedules of users and servers, all message sequences and sizes"},
    "why_tests_cant": "Tests read at once, so no write is ever partial and no queue longer than one message; the failures need particular byte counts at particular block boundaries.",
    "anchors": {
        "files": ["ircd/msgq.c", "ircd/send.c", "ircd/s_bsd.c", "ircd/list.c", "ircd/channel.c"],
        "mechanism": [{"name": "queue", "where": "ircd/msgq.c msgq_add(), msgq_mapiov(), msgq_delete(), msgq_excise()"},
                      {"name": "flush and limit", "where": "ircd/send.c send_queued(), send_buffer(), dead_link(); ircd/s_bsd.c deliver_it()"},
                      {"name": "LIST in pieces", "where": "ircd/channel.c / hash.c list_next_channels()"}],
        "observe_at": ["the receiver's byte stream", "other members' view", "the QUIT of a dropped client"],
    },
}
TECHNIQUE = "metamorphic property-based testing (throttled receiver against unthrottled one) and an exact model of the SendQ limit, over a simulated socket with generated capacity"


class CHECK(TwinCheck):
    RULE = "fidelity: the receiver was throttled while at least 2000 bytes were sent to it; limit: some bytes waited in the queue"
    QUICK, THOROUGH = 9000, 120000
    MSG = "a slow reader received something else than a fast one."
    LIMIT = 6000

    def boot(self, mode):
        w = ircsim.boot_network(1, self.VARIANT, pingfreq=100000 if mode == "limit" else 30, sendq=self.LIMIT if mode == "limit" else 3000000)
        w.svc = p10.Peer(w).handshake()
        w.obs = []
        for k in (1, 2):
            w.obs.append(w.client("Obs%d" % k, ip="10.5.0.%d" % k))
        w.act = w.client("Act", ip="10.6.0.1")
        for c in w.obs + [w.act]:
            c.do("JOIN #a")
        if mode != "limit":
            us = [w.svc.user("Rem%02d" % k, ts=1700000050, real="remote user %d" % k) for k in range(40)]
            for k in range(70):
                w.svc.send("%s B #chan%02d 1700000000 %s" % (w.svc.num, k, ",".join(us[k % 7:k % 7 + 1 + k % 20])))
                w.svc.send("%s T #chan%02d 1700000000 1700000100 :%s" % (w.svc.num, k, "topic %d " % k + "t" * (k * 2)))
            w.run()
        w.adv(20000)
        for c in w.obs + [w.act]:
            c.lines()
        w.svc.pump()
        return w

    def gen(self, rng, i, tier):
        if rng.random() < .3:
            ops = []
            for _ in range(rng.randint(3, 40)):
                r = rng.random()
                if r < .7:
                    ops.append(["msg", rng.randrange(2), rng.choice([1, 30, 100, 300, 400, 450])] if rng.random() < .8 else ["msgs", rng.randint(2, 12), rng.choice([100, 400])])
                else:
                    ops.append(["take", rng.choice([1, 20, 100, 700, 3000, 20000])])
            return {"net": "limit", "cap": rng.choice([0, 1, 100, 1000, 4096]), "ops": ops}
        who = rng.choice(["act", "act", "server"])
        ops = []
        listed = rng.random() < .5
        for _ in range(rng.randint(3, 25)):
            r = rng.random()
            if r < .35:
                ops.append(["obs", rng.randrange(2), script.lat(script.line(rng))])
            elif r < .55:
                ops.append(["rem", rng.randrange(40), rng.choice(["P Act", "O Act", "P #a", "J #a 1700000000", "L #a", "Q", "C"] + ["C"] * 3 * (who == "server")), rng.choice([0, 3, 100, 400, 490])])
            elif r < .65 and who == "act":
                q = rng.choice(["NAMES", "WHO *", "WHO Rem*", "MOTD", "WHOIS Rem01", "MAP", "VERSION", "LUSERS", "WHO #a", "STATS m", "LIST", "LIST >5", "LIST #chan*", "LINKS"])
                if q.startswith("LIST"):
                    if listed:
                        continue
                    listed = True
                ops.append(["act", q])
            elif r < .7:
                ops.append(["burst", rng.randint(5, 60), rng.choice([10, 100, 400])])
            elif r < .73:
                ops.append(["time", rng.choice([50, 70, 130])])
            elif r < .8:
                ops.append(["hold", rng.choice([0, 1, 2, 3, 7, 60, 300, 500, 511, 512, 513, 1024, 2047, 2048, 5000, 16384])])
            elif r < .97:
                ops.append(["take", rng.choice([1, 1, 2, 5, 61, 300, 510, 512, 513, 1000, 2048, 9000])] if rng.random() < .6 else
                           ["steps", rng.choice([1, 3, 17, 200, 511, 2000]), rng.randint(2, 30)])
            else:
                ops.append(["release"])
        ops.insert(rng.randint(0, 2), ["hold", rng.choice([0, 1, 10, 100, 512, 2048])])
        return {"net": "fid", "who": who, "ops": ops}

    def run(self, case):
        if case["net"] == "limit":
            w = self.world("netlimit", lambda: self.boot("limit"))
            with pbt.case_of(self, w):
                return self.limit(w, case)
        return super().run(case)

    def side(self, w, case, side):
        c = w.act if case["who"] == "act" else w.svc.c
        rem = tick = 0
        now = w.svc.now()
        gone = set()
        for op in case["ops"]:
            k = op[0]
            if k == "obs":
                w.obs[op[1]].raw(ircsim.enc(op[2]) + b"\r\n")
            elif k == "rem":
                if op[1] in gone:
                    continue
                n = w.svc.nicks["Rem%02d" % op[1]]
                cmd, _, rest = op[2].partition(" ")
                if cmd == "Q":
                    gone.add(op[1])
                if cmd == "C":      # a channel from the future is answered by a SETTIME with priority
                    rem += 1
                    rest = "#new%d %d" % (rem, now + 1000)
                if "Act" in rest:
                    rest = w.svc.nicks["Act"]
                if not (case["who"] == "server" and False):
                    w.svc.c.raw(ircsim.enc("%s %s %s%s\r\n" % (n, cmd, rest + " " if rest else "", ":" + "r" * op[3])))
            elif k == "act":
                c.raw(ircsim.enc(op[1]) + b"\r\n")
            elif k == "burst":
                t = "Act" if case["who"] == "act" else "Rem03"
                if 3 in gone and t != "Act":
                    continue
                w.obs[0].raw(b"".join(b"PRIVMSG %s :%d %s\r\n" % (t.encode(), j, b"b" * op[2]) for j in range(op[1])))
            elif k == "time":
                for _ in range(op[1] // 10):
                    w.adv(10000)
                    now += 10
                    tick += 1
                    if tick % 4 == 0:   # any input counts as a sign of life: often enough to live, not to escape the PINGs
                        for x in w.obs + [w.act, w.svc.c]:
                            x.raw(b"\r\n")
                        w.run()
            elif side == 0:
                continue
            elif k == "hold":
                w.sim.cmd("hold %d %d" % (c.ext, op[1]))
            elif k == "take":
                w.sim.cmd("take %d %d" % (c.ext, op[1]))
            elif k == "steps":
                for _ in range(op[2]):
                    w.sim.cmd("take %d %d" % (c.ext, op[1]))
                    w.run()
            elif k == "release":
                w.sim.cmd("hold %d -1" % c.ext)
            w.run()
        if side:
            w.sim.cmd("hold %d -1" % c.ext)
            w.run()
        w.run()
        out = []
        n = 0
        for name, x in (("Act", w.act), ("Obs1", w.obs[0]), ("Obs2", w.obs[1])):
            ls = x.lines()
            if x.buf:
                raise Violation("%s: an unfinished line: %r" % (name, x.buf[:200]))
            if x is c:
                n = sum(map(len, ls))
            lst = [l for l in ls if re.search(r"^(@\S+ )?:\S+ 32[123] ", l)]
            ping = [l for l in ls if l.startswith("PING :")]
            out.append((name, [l for l in ls if l not in lst and l not in ping] + ["(closed)"] * x.eof))
            out.append((name + " PING", ping))
            out.append((name + " LIST", lst))
        ls = w.svc.pump()
        if w.svc.c.buf:
            raise Violation("server: an unfinished line: %r" % w.svc.c.buf[:200])
        if case["who"] == "server":
            n = sum(map(len, ls))
        prio = [l for l in ls if p10.prio(l)]
        out.append(("server", [l for l in ls if l not in prio] + ["(closed)"] * w.svc.c.eof))
        out.append(("server, priority", prio))
        return out, {"nontrivial": n > 2000, "labels": [case["who"]]}

    def norm(self, side, raw):
        return re.sub(r" 317 (\S+ \S+) .*", r" 317 \1", raw)

    def limit(self, w, case):
        a = w.act
        w.sim.cmd("hold %d %d" % (a.ext, case["cap"]))
        w.run()
        want = b""
        out = 0          # bytes sent to Act and not yet taken
        waited = dead = 0

        def send(o, n):
            nonlocal want, out, waited, dead
            q = max(0, out - case["cap"])
            waited = max(waited, q)
            if q > self.LIMIT:
                dead = 1
            o.raw(b"PRIVMSG Act :" + b"m" * n + b"\r\n")
            w.run()
            if not dead:
                l = b":%s!%s@%s PRIVMSG Act :%s\r\n" % (o.nick.encode(), o.nick.lower().encode(), o.ip.encode(), b"m" * n)
                want += l
                out += len(l)
        for op in case["ops"]:
            if op[0] == "msg":
                send(w.obs[op[1]], op[2])
            elif op[0] == "msgs":
                for _ in range(op[1]):
                    if not dead:
                        send(w.obs[0], op[2])
            else:
                n = min(op[1], out)
                w.sim.cmd("take %d %d" % (a.ext, op[1]))
                w.run()
                # a capacity below what is taken: the server refills it
                out -= min(n, case["cap"]) if n > case["cap"] else n
            if dead:
                break
        w.obs[0].lines()
        w.obs[1].lines()
        if dead and len(case["ops"]) % 3:
            # its socket becomes readable or writable
            if len(case["ops"]) % 3 == 1:
                a.raw(b"PING x\r\n")
            else:
                w.sim.cmd("take %d %d" % (a.ext, 1))
            w.run()
        w.adv(125000)
        seen = w.obs[0].lines()
        quit_ = [l for l in seen if l.startswith(":Act!") and " QUIT " in l]
        w.sim.cmd("hold %d -1" % a.ext)
        w.run()
        w.run()
        if dead:
            if not quit_ or "Max sendQ exceeded" not in quit_[0]:
                raise Violation("%d bytes were waiting (sendq %d) when another message was sent, but the client was not dropped: %r" % (waited, self.LIMIT, seen[-3:]))
            if not want.startswith(a.buf) and not a.buf.startswith(want[:len(a.buf)]):
                raise Violation("before it was dropped the client received %r" % a.buf[:300])
        else:
            if quit_ or a.eof:
                raise Violation("at most %d bytes were waiting (sendq %d), but the client was dropped: %r" % (waited, self.LIMIT, quit_))
            if a.buf != want:
                raise Violation("received %d bytes, expected %d: ...%r" % (len(a.buf), len(want), a.buf[-200:]))
        return {"nontrivial": waited > 0, "labels": ["limit", "dropped" if dead else "kept"], "checks": 1}

    def simplify(self, op):
        if op and op[0] == "burst" and op[1] > 2:
            yield ["burst", op[1] // 2, op[2]]
        elif op and op[0] == "steps" and op[2] > 1:
            yield ["steps", op[1], op[2] // 2]
