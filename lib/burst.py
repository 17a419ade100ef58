"""A server's complete picture of the network, as the net.burst it sends to a new link."""
import p10
from ircutil import lower
from ircsim import SimError


class Chan:
    def __init__(self, name, ts):
        self.name, self.ts = name, ts
        self.modes, self.key, self.limit = "", None, None
        self.upass = self.apass = None
        self.members = {}            # numeric -> status: letters o,v or v and op level
        self.bans = []
        self.topic = None            # (text, when, who)

    def facts(self):
        return {"ts": self.ts, "modes": self.modes, "key": self.key, "limit": self.limit, "passes": (self.upass, self.apass),
                "members": dict(self.members), "bans": sorted(self.bans), "topic": self.topic}


class Snap:
    def __init__(self):
        self.servers, self.users, self.chans = {}, {}, {}
        self.glines, self.jupes, self.slines, self.config = {}, {}, {}, {}
        self.odd = []

    def facts(self):
        return {"servers": self.servers, "users": self.users, "channels": {k: c.facts() for k, c in self.chans.items()},
                "glines": self.glines, "jupes": self.jupes, "slines": self.slines}


def split(l):
    h, sep, t = l.partition(" :")
    p = h.split(" ")
    if sep:
        p.append(t)
    return [x for x in p if x != ""] if not sep else [x for x in p[:-1] if x != ""] + [p[-1]]


def parse(lines, own=()):
    s = Snap()
    own = set(own)
    for l in lines:
        if l.startswith("@"):
            l = l.split(" ", 1)[1]
        p = split(l)
        if p[0] in ("PASS",):
            continue
        if p[0] == "SERVER":
            s.me = p[6][:2]
            s.servers[lower(p[1])] = (p[6][:2], p[3], p[-1])
            continue
        t = p[1]
        if t in ("S", "SERVER"):
            if lower(p[2]) not in own:
                s.servers[lower(p[2])] = (p[7][:2], p[5], p[-1])
        elif t == "N":
            num = p[-2]
            s.users[num] = {"nick": p[2], "ts": p[4], "user": p[5], "host": p[6],
                            "modes": "".join(sorted(p[7][1:])) if p[7][0] == "+" else "", "args": tuple(p[8:-3]) if p[7][0] == "+" else (),
                            "ip": p[-3], "real": p[-1], "away": None}
        elif t == "A":
            s.users[p[0]]["away"] = p[2] if len(p) > 2 else None
        elif t == "B":
            c = s.chans.get(lower(p[2]))
            if c is None:
                c = s.chans[lower(p[2])] = Chan(p[2], p[3])
            i = 4
            while i < len(p):
                x = p[i]
                if x[0] == "+":
                    c.modes = "".join(sorted(x[1:]))
                    for m in x[1:]:
                        if m == "l":
                            i += 1
                            c.limit = p[i]
                        elif m == "k":
                            i += 1
                            c.key = p[i]
                        elif m == "U":
                            i += 1
                            c.upass = p[i]
                        elif m == "A":
                            i += 1
                            c.apass = p[i]
                elif x[0] == "%":
                    c.bans += [b for b in x[1:].split(" ") if b]
                else:
                    st, lvl = "", None
                    for e in x.split(","):
                        n, _, f = e.partition(":")
                        if f:
                            if f.isdigit() and lvl is not None:
                                lvl += int(f)
                            else:
                                v = "v" if "v" in f else ""
                                d = f.strip("vo")
                                lvl = int(d) if d else None
                                st = v + ("o" if "o" in f or d else "")
                        c.members[n] = st + ("%d" % lvl if lvl is not None else "")
                i += 1
        elif t == "T":
            s.chans[lower(p[2])].topic = (p[-1], p[4], p[5])
        elif t == "GL":
            s.glines[p[3].lstrip("!+-<>")] = tuple(p[3:])
        elif t == "JU":
            s.jupes[lower(p[3].lstrip("+-!<>"))] = tuple(p[3:])
        elif t in ("EB", "EA", "G", "Z"):
            pass
        elif t in ("SL", "SLINE"):
            s.slines[p[-1]] = tuple(p[2:])
        elif t in ("CF", "CONFIG"):
            s.config[p[3]] = tuple(p[4:])
        else:
            s.odd.append(l)
    return s


def snapshot(w, inst, name="peer1.test.net", num=90, ip="10.9.0.1"):
    """Links a throw-away server to `inst` and returns the burst it is given."""
    p = p10.Peer(w, name, num, inst, ip, flags="+6")
    p.handshake(eob=True)
    lines = list(p.log)
    w.peers.remove(p)
    p.send("%s SQ %s 0 :done" % (p.num, name))
    w.run()
    p.c.close()
    w.run()
    p.c.lines()
    if not any(l.split(" ")[1:2] == ["EB"] for l in lines):
        raise SimError("server %d gave no burst to a new link: %r" % (inst, lines[-3:]))
    end = [i for i, l in enumerate(lines) if l.split(" ")[1:2] == ["EB"]][0]
    return parse(lines[:end + 1], own=[name])


def diff(a, b, path=""):
    """First few differences between two fact trees."""
    out = []
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                out.append("%s/%s: missing here, there %r" % (path, k, b[k]))
            elif k not in b:
                out.append("%s/%s: here %r, missing there" % (path, k, a[k]))
            else:
                out += diff(a[k], b[k], "%s/%s" % (path, k))
    elif a != b:
        out.append("%s: %r here, %r there" % (path, a, b))
    return out
