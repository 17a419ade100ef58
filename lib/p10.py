"""A P10 server played by the harness."""
B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789[]"


def b64(v, w):
    s = ""
    for _ in range(w):
        s = B64[v & 63] + s
        v >>= 6
    return s


def unb64(s):
    v = 0
    for c in s:
        v = v * 64 + B64.index(c)
    return v


def ip64(ip):
    a = [int(x) for x in ip.split(".")]
    return b64((a[0] << 24) | (a[1] << 16) | (a[2] << 8) | a[3], 6)


def prio(line):
    """Is this one of the server messages queued ahead of others?"""
    if line.startswith("@"):
        line = line.partition(" ")[2]
    return (line.split(" ") + [""])[1] in ("DS", "G", "Z", "PING", "PONG", "ERROR", "SE")


class Peer:
    """A fake server linked to instance `inst`."""

    def __init__(self, world, name="services.test.net", num=100, inst=0, ip="10.9.0.1", flags="+s6", start=None):
        self.w, self.name, self.num = world, name, b64(num, 2)
        self.maxmask = "]]]"
        self.nicks = {}          # lower nick -> numnick
        self.servers = {}
        self.log = []            # every line received
        self.nextuser = 0
        self.pos = 0
        self.start = start
        self.c = world.connect(inst, ip, 4400)
        self.flags = flags
        self.handshaken = False
        world.peers.append(self)

    def save(self):
        return (dict(self.nicks), dict(self.servers), list(self.log), self.nextuser, self.handshaken)

    def restore(self, s):
        self.nicks, self.servers, self.log, self.nextuser, self.handshaken = s

    def now(self):
        self.w.sim.cmd("now")
        recs = self.w.sim.go()
        t = [r for r in recs if r[0] == "T"]
        self.w.absorb([r for r in recs if r[0] != "T"])
        return int(t[0][1]) // 1000

    def send(self, *lines):
        self.c.send(*lines)

    def handshake(self, burst=(), eob=True):
        now = self.now()
        self.send("PASS :lp", "SERVER %s 1 %d %d J10 %s%s %s :fake" % (
            self.name, self.start or now, now, self.num, self.maxmask, self.flags))
        self.w.run()
        self.pump()
        self.send(*[b.replace("$ME", self.num) for b in burst])
        if eob:
            self.send(self.num + " EB")
            self.w.run()
            self.pump()
            self.send(self.num + " EA")
            self.w.run()
            self.pump()
        self.handshaken = True
        return self

    def pump(self):
        """Reads what arrived; answers pings; keeps the nick table."""
        new = self.c.lines()
        for l in new:
            raw = l
            if l.startswith("@"):
                l = l.split(" ", 1)[1]
            p = l.split(" ")
            self.log.append(l)
            if len(p) < 2:
                continue
            t = p[1]
            if p[0] == "SERVER":
                self.servers[p[1]] = p[6][:2]
                self.hubnum = p[6][:2]
            elif t in ("S", "SERVER") and len(p) > 7:
                self.servers[p[2]] = p[7][:2]
            elif t == "N":
                head = l.split(" :", 1)[0].split(" ")
                if len(head) >= 8:
                    self.nicks[p[2]] = head[-1]
                else:                      # nick change
                    for k, v in list(self.nicks.items()):
                        if v == p[0]:
                            del self.nicks[k]
                    self.nicks[p[2]] = p[0]
            elif t == "Q":
                for k, v in list(self.nicks.items()):
                    if v == p[0]:
                        del self.nicks[k]
            elif t == "G":
                arg = l.split(" G ", 1)[1]
                a = arg.split(" ")
                # :!ts name ts  or  :text
                if a[0].startswith("!"):
                    self.send("%s Z %s %s %s" % (self.num, p[0], a[0], a[-1]))
                else:
                    self.send("%s Z %s :%s" % (self.num, self.num, arg.lstrip(":")))
        return new

    def user(self, nick, ident="srv", host="svc.test", modes="+", ip="10.9.0.9", ts=None, real="svc"):
        nn = self.num + b64(self.nextuser, 3)
        self.nextuser += 1
        self.send("%s N %s 1 %d %s %s %s %s %s :%s" % (self.num, nick, ts or self.now(), ident, host, modes, ip64(ip), nn, real))
        self.nicks[nick] = nn
        return nn

    def account(self, nick, acct, ts=None):
        self.pump()
        nn = self.nicks[nick]
        self.send("%s AC %s %s" % (self.num, nn, acct))
