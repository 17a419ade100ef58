"""Host names from DNS are confirmed, clean and harmless."""
import ipaddress, random, re, struct
import ircsim, pbt
from pbt import Violation

PROP = {
    "id": "C32",
    "title": "A user shows a host name only if the configured name servers confirmed it for his address, and no reply can do more than that",
    "statement": "With host lookups on, a user is shown under the name his address points to exactly if that name is a valid host name and a lookup of it, answered by a configured name server for the question that was asked, gives his address back; in every other case - no name, another address, an error, an unusable name, no answer in time - he is shown under his address, on his own server and on every other. "
                 "Replies from anyone else, to a question that was not asked or is over, or to another question, have no effect. A reply that was cut short is repeated over TCP, where no connection outlasts its lookup. "
                 "Whatever bytes arrive as a reply, in whatever pieces, no byte outside it is read, other users' lookups are not disturbed, and no user waits for ever.",
    "quantifier": {"over": ["histories", "inputs", "schedules"],
                   "text": "histories of IPv4 and IPv6 users connecting and leaving while a played name server, an impostor and a TCP name server answer the open questions in any order, truthfully or not, in well-formed, cut, damaged, duplicated and split replies, with limits on TCP lookups and with and without KILL_IPMISMATCH"},
    "why_tests_cant": "The resolver parses what others send; what a reply does depends on all its bytes and on which questions are open when it arrives. Tests run without a name server.",
    "anchors": {
        "files": ["ircd/ircd_res.c", "ircd/ircd_reslib.c", "ircd/s_auth.c"],
        "mechanism": [{"name": "matching of replies to questions", "where": "ircd/ircd_res.c res_readreply(), res_ourserver(), find_id()"},
                      {"name": "parsing of replies", "where": "ircd/ircd_res.c proc_answer(), ircd/ircd_reslib.c irc_dn_expand()"},
                      {"name": "TCP lookups", "where": "ircd/ircd_res.c start_dns_tcp(), dns_tcp_read(), close_dns_tcp()"},
                      {"name": "confirmation", "where": "ircd/s_auth.c auth_dns_callback(), auth_verify_hostname()"}],
        "observe_at": ["USERHOST at the user himself", "WHOIS on another server", "questions sent to the name servers"],
    },
}
TECHNIQUE = "model-based random testing and structure-aware fuzzing: a played name server answers the lookups of connecting users; the host shown is compared with what was confirmed; under AddressSanitizer"

A, PTR, AAAA, TXT, CNAME = 1, 12, 28, 16, 5
NS = ["10.3.0.53", "10.3.0.54"]
TCP = ["true"] * 5 + ["split", "split", "eof", "part", "cut", "mangle", "wrongid", "len", "rst", "extra", "empty", "nx"]
LONG = "l" * 40 + "." + "m" * 30 + ".ex.org"
WEIRD = [b"a b.ex.org", b"a@b.ex.org", b":a.ex.org", b":", b"", b"a*b.ex.org", b"a_b.ex.org", b"\x07bell.ex.org", b"\xffx.ex.org", b"a:b.ex.org", LONG.encode(), b"x" * 63 + b".ex.org", b"a,b!c.ex.org", b"(a).ex.org", b"#.ex.org"]
# the characters host names may have here: those of nicknames, and - _ . :
VALID = re.compile(r"^[A-Za-z0-9_.{}|~^`\[\]\\-][A-Za-z0-9_.:{}|~^`\[\]\\-]*$")


def show(name):
    """a name as RFC 1035 writes it"""
    return "".join("\\%03d" % c if not 0x20 < c < 0x7f else "\\" + chr(c) if c in b'"();@$\\' else chr(c) for c in name)


def wire(name):
    out = b""
    for l in name.split(b".") if name else []:
        out += bytes([len(l)]) + l
    return out + b"\0"


def ipof(k, v6):
    return ipaddress.ip_address("2001:db8:77::%x:1" % (k + 1) if v6 else "10.77.0.%d" % (k + 1))


class Q:
    pass


class User:
    pass


class CHECK(pbt.Check):
    RULE = "one user was shown under a confirmed name and another was not although his address had a name, and a false, damaged or misdirected reply arrived"
    QUICK, THOROUGH = 4000, 200000
    VARIANT = "asan"

    def gen(self, rng, i, tier):
        users = []
        for k in range(rng.randint(2, 5)):
            v6 = rng.random() < .35
            ip = str(ipof(k, v6))
            r = rng.random()
            name = ("h%d.ex.org" % k if r < .5 else "nodot%d" % k if r < .58 else "H%d.Ex.ORG" % k if r < .65 else None if r < .72 else
                    "w%d" % rng.randrange(len(WEIRD)))
            own, oth = [ip], [str(ipof(40 + rng.randrange(9), v6)) for _ in range(rng.choice([0, 0, 1, 2, 9]))]
            fw = own + oth if rng.random() < .75 else oth
            rng.shuffle(fw)
            users.append({"ip": ip, "name": name, "fw": fw})
        n = len(users)
        ops = [["conn", k] for k in range(n)]
        ops = ops[:rng.randint(1, n)]
        for _ in range(rng.randint(8, 40)):
            r = rng.random()
            if r < .12:
                ops.append(["conn", rng.randrange(n)])
            elif r < .66:
                how = rng.choice(["true"] * 12 + ["tc", "tc", "tc", "servfail", "nx", "refused", "empty", "wrongid", "wrongsrc", "wrongport", "cut", "cut", "mangle", "mangle", "dup", "lie", "swap"])
                ops.append(["ans", rng.randrange(8), how, rng.randrange(1 << 20)])
                if how == "tc" and rng.random() < .6:
                    ops.append(["tcp", rng.randrange(4), rng.choice(TCP), rng.randrange(1 << 20)])
            elif r < .86:
                ops.append(["tcp", rng.randrange(4), rng.choice(TCP), rng.randrange(1 << 20)])
            elif r < .94:
                ops.append(["adv", rng.choice([50, 300, 1000, 1000, 2500, 4500, 9000])])
            else:
                ops.append(["quit", rng.randrange(n)])
        return {"maxconn": rng.choice([256, 256, 1, 2, 0]), "kill": rng.random() < .15, "two": rng.random() < .3, "deaf": rng.random() < .1, "users": users, "ops": ops}

    def boot(self, case):
        f = {"NODNS": "FALSE", "DNS_TCP_MAXCONN": str(case["maxconn"]), "KILL_IPMISMATCH": "TRUE" if case["kill"] else "FALSE", "PINGFREQUENCY": "60000", "NICKDELAY": None}
        extra = 'Port { vhost = "::"; port = 6669; };\n'
        confs = [ircsim.conf(0, 2, features=f, extra=extra, pingfreq=60000), ircsim.conf(1, 2, pingfreq=60000, features={"PINGFREQUENCY": "60000"})]
        w = ircsim.boot_network(2, self.VARIANT, topology=[(1, 0)], confs=confs, files={"resolv.conf": "domain loc.test\nnameserver %s\n%s" % (NS[0], "nameserver %s\n" % NS[1] if case["two"] else "")})
        w.obs = w.client("Obs", 1, ip="10.250.0.1", user="obs")
        w.adv(5000)
        w.obs.lines()
        w.take_events()
        w.fds0 = self.fds(w)
        return w

    def fds(self, w):
        w.sim.cmd("fds 0")
        recs = w.sim.go()
        n = [r for r in recs if r[0] == "N"]
        w.absorb([r for r in recs if r[0] != "N"])
        return int(n[0][2])

    def run(self, case):
        w = self.world((case["maxconn"], case["kill"], case["two"]), lambda: self.boot(case))
        with pbt.case_of(self, w):
            self.w, self.case, self.obs = w, case, w.obs
            self.labels = set()
            self.qs, self.tcps, self.us = [], [], {}
            self.now = 0
            self.seq = 0
            self.op = "start"
            if not case["deaf"]:
                for n in NS:
                    w.sim.cmd("listen %s 53" % n)
            for n, op in enumerate(case["ops"]):
                self.op = "op %d %r" % (n, op)
                getattr(self, "do_" + op[0])(*op[1:])
                self.pump()
            self.op = "at the end"
            for _ in range(8):
                self.do_adv(10000)
                self.pump()
            for k in list(self.us):
                u = self.us[k]
                if not u.reg and not u.c.eof:
                    self.fail("user %d (%s) is still not registered: %r", k, u.ip, u.c.lines())
            self.probe()
            for k in list(self.us):
                self.do_quit(k)
            for _ in range(4):
                self.do_adv(10000)
                self.pump()
            n = self.fds(w)
            if n != w.fds0:
                self.fail("%d descriptors are open, before the first lookup it was %d", n, w.fds0)
            return {"nontrivial": {"named", "unnamed", "bad reply"} <= self.labels, "labels": sorted(self.labels)}

    def fail(self, text, *a):
        raise Violation("%s: %s" % (self.op, text % a))

    # -- the world
    def pump(self):
        w = self.w
        for _ in range(6):
            w.run()
            ev = w.take_events("U")
            evc = w.take_events("C")
            for e in ev:
                self.question(e)
            for e in evc:
                self.connected(e)
            for t in self.tcps:
                t.got += t.c.buf
                t.c.buf = b""
            busy = False
            for k, u in list(self.us.items()):
                for m in u.c.msgs():
                    if m.cmd == "PING":
                        u.c.send("PONG :" + m.params[-1])
                        busy = True
                    elif m.cmd == "001":
                        u.new = True
                        busy = True
            if not busy and not ev:
                break
        for k, u in list(self.us.items()):
            if u.new:
                u.new = False
                u.reg = True
                self.judge(k, u)
            elif u.c.eof:
                if not u.reg:
                    self.ended(k, u)
                del self.us[k]

    def question(self, e):
        b = e[5]
        q = Q()
        q.inst, q.fd, q.ip, q.port = int(e[1]), int(e[2]), e[3], int(e[4])
        q.raw = b
        q.id = b[:2]
        if len(b) < 17 or b[4:12] != b"\0\1\0\0\0\0\0\0":
            self.fail("a question is malformed: %r", b)
        i, ls = 12, []
        while b[i]:
            ls.append(b[i + 1:i + 1 + b[i]])
            i += b[i] + 1
        q.labels = ls
        q.name = b".".join(ls)
        q.type, cl = struct.unpack(">HH", b[i + 1:i + 5])
        if cl != 1 or len(b) != i + 5 or q.ip not in NS or q.port != 53:
            self.fail("a question is malformed or goes to the wrong server: %r", e)
        q.t, q.ev, q.any, q.dead = self.now, set(), False, False
        q.u = None
        for k, u in self.us.items():
            if (q.type == PTR and self.ptr_of(u.ip) == q.name) or (q.type != PTR and (u.fname or b"?") == q.name):
                q.u = u
                if q.type == PTR:
                    u.ptrs += 1
                else:
                    u.fwds += 1
        for o in self.qs:    # the same question again: what was asked before has got no answer in time
            if o.name == q.name and o.type == q.type and o.id != q.id:
                o.dead = True
                if o.u and o.t >= o.u.t:
                    o.u.dirty = True
        if not any(o.id == q.id and o.name == q.name and o.t == q.t for o in self.qs):
            self.qs.append(q)

    def ptr_of(self, ip, top=b"arpa"):
        a = ipaddress.ip_address(ip)
        return a.reverse_pointer.encode()

    def connected(self, e):
        ext = int(e[4])
        c = self.w.conns.get(ext)
        if c is None:
            c = self.w.conns[ext] = ircsim.Conn(self.w, ext, None)
        if e[2] not in NS or int(e[3]) != 53:
            return
        t = Q()
        t.c, t.got, t.over = c, b"", False
        self.tcps.append(t)

    def open(self):
        """the questions that may still be answered"""
        return [q for q in self.qs if not q.dead]

    # -- replies
    def truth(self, q, user=None):
        """(rcode, records) of an honest answer"""
        if q.type == PTR:
            for u in self.case["users"]:
                p = ipaddress.ip_address(u["ip"]).reverse_pointer
                if q.name in (p.encode(), p.replace("ip6.arpa", "ip6.int").encode()):
                    if u["name"] is None:
                        return 3, []
                    return 0, [(PTR, wire(self.name_of(u)))]
            return 3, []
        for u in self.case["users"]:
            if u["name"] is not None and self.asked(self.name_of(u)) == q.name:
                r = [(A if "." in ip else AAAA, ipaddress.ip_address(ip).packed) for ip in u["fw"]]
                r = [x for x in r if x[0] == q.type]
                return 0, r
        return 3, []

    def name_of(self, u):
        n = u["name"]
        return WEIRD[int(n[1:])] if re.match(r"w\d+$", n) else n.encode()

    def asked(self, n):
        return n if b"." in n or not n else n + b".loc.test"

    def build(self, q, rcode, recs, rng, tc=False, id=None):
        """(the bytes, the offset where the last record's data starts)"""
        pre = []
        t = rng.random()
        if recs and t < .2 and not (q.type == PTR and rng.random() < .5):
            pre = [(TXT, b"\5hello")] * rng.choice([1, 1, 2])
        elif recs and t < .35:
            pre = [(CNAME, wire(b"real." + q.name if len(q.name) < 60 else b"x.y"))]
        elif recs and t < .5 and q.type == PTR and recs[-1][1].endswith(b"\x02ex\x03org\0"):
            pre = [(TXT, b"\x02ex\x03org\0")]
        recs = pre + recs
        at = 0
        quest = q.raw[12:]
        b = (id or q.id) + bytes([0x84 | (2 if tc else 0) | 1, 0x80 | rcode]) + struct.pack(">HHHH", 1, len(recs), 0, 0) + quest
        last = len(b)
        for ty, data in recs:
            b += (b"\xc0\x0c" if rng.random() < .7 else quest[:-4]) + struct.pack(">HHIH", ty, 1, rng.choice([0, 60, 1 << 31]), len(data))
            last = len(b)
            b += data
            if ty == TXT and data.endswith(b"\x02ex\x03org\0"):
                at = last
            if ty == TXT and recs[-1][0] == PTR and at:   # the end of the name stands already in another record
                recs[-1] = (PTR, recs[-1][1][:-8] + struct.pack(">H", 0xc000 | at))
        return b, last

    def damage(self, b, rng, keep=2):
        b = bytearray(b)
        for _ in range(rng.choice([1, 1, 2, 4])):
            r = rng.random()
            if r < .5 and len(b) > keep:
                b[rng.randrange(keep, len(b))] = rng.choice([0, 1, 0xc0, 0xff, 0x3f, 0x40, 0x41, 0x0c, rng.randrange(256)])
            elif r < .65:
                i = rng.randrange(keep, len(b) + 1)
                b[i:i] = bytes([rng.choice([0, 0xc0, 0xff, 0x41])]) * rng.choice([1, 2, 40, 300])
            elif r < .8:
                del b[rng.randrange(keep, len(b) + 1):][:0]
                i = rng.randrange(keep, len(b) + 1)
                del b[i:i + rng.choice([1, 2, 8])]
            elif r < .9:
                b[4:12] = struct.pack(">HHHH", *[rng.choice([0, 1, 2, 5, 65535]) for _ in range(4)])
            else:
                i = rng.randrange(12, len(b)) if len(b) > 12 else 0
                b[i:i + 2] = struct.pack(">H", 0xc000 | rng.choice([0, 12, i, i - 2 if i > 2 else 0, len(b) - 1, 0x3fff]))
        return bytes(b[:1500])

    def note(self, q, recs):
        for ty, d in recs:
            if ty == q.type and ty in (A, AAAA):
                q.ev.add(str(ipaddress.ip_address(d)))

    def dgram(self, q, b, ip=None, port=53):
        self.w.sim.cmd("dgram %d %d %s %d %d" % (q.inst, q.fd, ip or q.ip, port, len(b)), b)

    def dirty(self, q):
        if q.u:
            q.u.dirty = True

    def do_ans(self, j, how, seed):
        l = self.open()
        if not l:
            return
        q = l[j % len(l)]
        rng = random.Random(seed)
        rc, recs = self.truth(q)
        forged = [(q.type, wire(b"forged.ex.org") if q.type == PTR else ipaddress.ip_address(self.mine(q)).packed)] if q.u else []
        if how in ("true", "dup", "tc"):
            b, _ = self.build(q, rc, [] if how == "tc" and rng.random() < .5 else recs, rng, tc=how == "tc")
            self.dgram(q, b)
            if how == "tc":
                self.labels.add("tc")
                if self.case["maxconn"] in (1, 2) or self.case["deaf"]:
                    self.dirty(q)
                if q.u:
                    q.u.tc = True
                return
            self.note(q, recs)
            if q.u and not recs and rc == 0:
                q.u.dirty = True   # asks again in other ways
            q.dead = True
            if how == "dup":
                self.dgram(q, b)
                self.w.run()
                self.dgram(q, b)
            if q.u and q.u.tc and q.u.t <= q.t:
                self.dirty(q)
            return
        self.labels.add("bad reply")
        self.labels.add(how)
        if how in ("wrongid", "wrongsrc", "wrongport"):
            ids = {x.id for x in self.qs}
            nid = bytes([rng.randrange(256), rng.randrange(256)])
            b, _ = self.build(q, rng.choice([0, 0, 3]), forged, rng, id=nid if how == "wrongid" and nid not in ids else None)
            if how == "wrongid" and nid in ids:
                return
            self.dgram(q, b, "10.9.9.9" if how == "wrongsrc" else None, 5353 if how == "wrongport" else 53)
            return
        if how in ("servfail", "nx"):
            b, _ = self.build(q, 2 if how == "servfail" else 3, [] if rng.random() < .7 else forged, rng)
            self.dgram(q, b)
            q.dead = True
            if q.u:
                self.dirty(q)
            return
        self.dirty(q)
        if how in ("refused", "empty"):
            b, _ = self.build(q, 5 if how == "refused" else 0, forged if how == "refused" else [], rng)
            self.dgram(q, b)
        elif how == "lie":
            oth = [(q.type, wire(b"other.ex.org") if q.type == PTR else ipaddress.ip_address("10.5.5.5" if q.type == A else "2001:db8::5").packed)]
            b, _ = self.build(q, 0, oth, rng)
            self.dgram(q, b)
            q.dead = True
        elif how == "swap":     # the answer to somebody else's question
            o = rng.choice(self.qs)
            orc, orecs = self.truth(o)
            b, _ = self.build(o, orc, orecs, rng, id=q.id)
            self.note(q, orecs)
            self.dgram(q, b)
        elif how == "cut":
            if recs and q.type != PTR and forged:   # what was in its place before must not count
                x, _ = self.build(q, 0, forged, random.Random(1), id=b"\0\0")
                self.dgram(q, x, "10.9.9.9")
            b, last = self.build(q, rc, recs, random.Random(1))
            b = b[:rng.randrange(min(12, last), last) if rng.random() < .3 else len(b) - rng.randint(1, max(1, len(b) - last - 1))]
            self.note(q, self.whole(q, b))
            self.dgram(q, b)
        elif how == "mangle":
            b, _ = self.build(q, rc, recs if rng.random() < .7 else forged, rng)
            q.any = True
            self.dgram(q, self.damage(b, rng))

    def mine(self, q):
        return q.u.ip if (q.type == A) == ("." in q.u.ip) else ("10.5.5.5" if q.type == A else "2001:db8::5")

    def whole(self, q, b):
        """the address records that are complete in a reply built without a name in its data"""
        out, i = [], len(q.raw)
        while i < len(b):
            j = i
            while j < len(b) and b[j] and b[j] < 0xc0:
                j += b[j] + 1
            if j >= len(b):
                break
            j += 2 if b[j] >= 0xc0 else 1
            if j + 10 > len(b):
                break
            ty, _, _, n = struct.unpack(">HHIH", b[j:j + 10])
            if j + 10 + n > len(b):
                break
            out.append((ty, b[j + 10:j + 10 + n]))
            i = j + 10 + n
        return [x for x in out if len(x[1]) in (4, 16)]

    def do_tcp(self, j, how, seed):
        l = [t for t in self.tcps if not t.over and not t.c.eof and len(t.got) > 2]
        if not l:
            return
        t = l[j % len(l)]
        rng = random.Random(seed)
        n = struct.unpack(">H", t.got[:2])[0]
        if n != len(t.got) - 2:
            self.fail("a question over TCP is malformed: %r", t.got)
        cand = [q for q in self.qs if q.raw == t.got[2:]]
        if not cand:
            self.fail("a question over TCP is not the one that was asked before: %r", t.got)
        q = cand[-1]
        rc, recs = self.truth(q)
        forged = [(q.type, wire(b"forged.ex.org") if q.type == PTR else ipaddress.ip_address(self.mine(q)).packed)] if q.u else []
        b, last = self.build(q, rc, recs, rng)
        t.over = True
        self.labels.add("tcp")
        c = t.c
        if how not in ("true", "split"):
            self.labels.add("bad reply")
            self.dirty(q)
            self.labels.add("tcp " + how)
        if how in ("true", "split", "part", "extra"):
            if q.u and not recs and rc == 0:
                q.u.dirty = True
            self.note(q, recs)
            q.dead = q.dead or how != "part"
            m = struct.pack(">H", len(b)) + b
            if how == "part":
                c.raw(m[:rng.randrange(len(m))])
                t.over = rng.random() < .5
                return
            if how == "extra":
                m += bytes(rng.randrange(256) for _ in range(rng.choice([1, 5, 80])))
            if how == "split":
                cuts = sorted(rng.randrange(1, len(m)) for _ in range(rng.choice([1, 2, 5])))
                for x, y in zip([0] + cuts, cuts + [len(m)]):
                    if y > x:
                        c.raw(m[x:y])
                        self.w.run()
            else:
                c.raw(m)
            if how == "extra":
                self.w.run()
                c.close()
        elif how in ("eof", "rst"):
            m = struct.pack(">H", len(b)) + b
            c.raw(m[:rng.choice([0, 1, 2, rng.randrange(len(m))])])
            if rng.random() < .5:
                self.w.run()
            c.close() if how == "eof" else c.rst()
        elif how == "cut":
            b, last = self.build(q, rc, recs, random.Random(1))
            b = b[:rng.randrange(0, last) if rng.random() < .3 else len(b) - rng.randint(1, max(1, len(b) - last - 1))]
            self.note(q, self.whole(q, b))
            c.raw(struct.pack(">H", len(b)) + b)
        elif how == "mangle":
            if rng.random() < .3:
                b, _ = self.build(q, 0, forged, rng)
            b = self.damage(b, rng)
            q.any = True
            c.raw(struct.pack(">H", len(b)) + b)
        elif how == "wrongid":
            nid = bytes([q.id[0] ^ 1, q.id[1]])
            b, _ = self.build(q, 0, forged, rng, id=nid)
            c.raw(struct.pack(">H", len(b)) + b)
        elif how == "len":
            c.raw(struct.pack(">H", rng.choice([0, 1, 11, 12, 13, 65535])) + b[:rng.choice([0, 5, 12, len(b)])])
            q.any = True
        else:
            b, _ = self.build(q, 3 if how == "nx" else 0, [], rng)
            c.raw(struct.pack(">H", len(b)) + b)

    # -- users
    def do_conn(self, k):
        if k in self.us or k >= len(self.case["users"]):
            return
        self.connect(k, self.case["users"][k])

    def connect(self, k, spec):
        u = User()
        u.spec, u.ip = spec, spec["ip"]
        u.fname = self.asked(self.name_of(spec)) if spec["name"] is not None else None
        # several users of one name: nobody can say whose question it is
        u.dirty = sum(1 for s in self.case["users"] if s["name"] is not None and spec["name"] is not None and self.asked(self.name_of(s)).lower() == u.fname.lower()) > 1
        u.reg = u.new = u.tc = False
        u.t, u.ptrs, u.fwds = self.now, 0, 0
        u.mark = len(self.qs)
        u.c = self.w.connect(0, u.ip, 6669 if ":" in u.ip else 6667)
        self.seq += 1
        u.nick = "n%d" % self.seq
        self.us[k] = u
        u.c.send("NICK " + u.nick, "USER u 0 * :r")

    def do_quit(self, k):
        u = self.us.get(k)
        if u:
            u.c.send("QUIT :bye") if u.reg else u.c.close()
            self.w.run()
            u.c.lines()
            del self.us[k]
            for q in self.qs:
                if q.u is u:
                    q.u = None
            self.pump()

    def do_adv(self, ms):
        for q in self.open():
            if q.u and not q.u.reg and self.now + ms - q.t >= 2000:
                q.u.dirty = True
        for u in self.us.values():
            if not u.reg and self.now + ms - u.t >= 6000:
                u.dirty = True
        self.now += ms
        self.w.adv(ms)

    def expect(self, u):
        """the name a user whose questions were all answered truthfully must be shown under"""
        n = u.fname
        if n is None or u.ip not in u.spec["fw"] or len(show(n)) > 63 or not VALID.match(show(n)):
            return None
        return show(n)

    def judge(self, k, u):
        w = self.w
        own = None
        for m in u.c.do("USERHOST " + u.nick):
            if m.cmd == "302":
                own = m.params[-1].strip().split("@", 1)[1]
        far = [m.params[3] for m in self.obs.do("WHOIS " + u.nick) if m.cmd == "311" and len(m.params) == 6]
        if own is None:
            self.fail("user %d gets no answer to USERHOST", k)
        if far != [own]:
            self.fail("user %d (%s) is shown as %r on his own server and as %r on another", k, u.ip, own, far)
        isip = False
        try:
            isip = ipaddress.ip_address(own) == ipaddress.ip_address(u.ip)
        except ValueError:
            pass
        want = self.expect(u)
        if isip:
            self.labels.add("unnamed" if u.spec["name"] is not None else "no name")
            if not u.dirty and want is not None:
                self.fail("user %d (%s) is shown under his address although every lookup was answered truthfully with %r", k, u.ip, want)
            return
        if not VALID.match(own) or len(own) > 63:
            self.fail("user %d (%s) is shown as %r, which is no host name", k, u.ip, own)
        ev = [q for q in self.qs[u.mark:] if q.type in (A, AAAA) and show(q.name) == own]
        if not any(q.any or u.ip in q.ev for q in ev):
            self.fail("user %d (%s) is shown as %r, which nobody confirmed: %r", k, u.ip, own, [(q.name, q.type, sorted(q.ev)) for q in self.qs[u.mark:]])
        if not u.dirty and own != want:
            self.fail("user %d (%s) is shown as %r, not as %r", k, u.ip, own, want)
        self.labels.add("named")

    def ended(self, k, u):
        if not self.case["kill"]:
            self.fail("user %d (%s) was disconnected: %r", k, u.ip, u.c.buf)
        self.labels.add("killed")
        if not u.dirty and (self.expect(u) is not None or u.fname is None):
            self.fail("user %d (%s) was disconnected although his lookups were answered truthfully: %r", k, u.ip, u.c.buf)

    def probe(self):
        """after all that, a lookup over TCP works for a new user"""
        if self.case["deaf"]:
            return
        self.case = dict(self.case, users=[dict(s) for s in self.case["users"]] + [{"ip": "10.78.0.1", "name": "probe.ex.org", "fw": ["10.78.0.1"]}])
        k = len(self.case["users"]) - 1
        for t in self.tcps:
            t.over = True
        self.qs = []
        for u in self.us.values():
            u.mark = 0
        self.connect(k, self.case["users"][k])
        self.pump()
        u = self.us[k]
        for step in ("PTR", "A"):
            l = self.open()
            if len(l) != 1:
                self.fail("the probe: a %s question was expected, there is %r", step, [(q.name, q.type) for q in l])
            n = len(self.tcps)
            b, _ = self.build(l[0], 0, [], random.Random(1), tc=True)
            self.dgram(l[0], b)
            self.pump()
            if len(self.tcps) != n + 1:
                self.fail("the probe: no TCP connection was made for the %s lookup", step)
            self.do_tcp(0, "true", 1)
            self.pump()
        if not u.reg:
            self.fail("the probe is not registered: %r", u.c.lines())
