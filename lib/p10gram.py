"""A grammar of P10 lines: mostly what a server might really send, with anything possible anywhere.

Words of the form $X stand for things only known while the case runs:
$nick0.. numerics of known users, $me the peer's numeric, $hub/$leaf those of the real servers."""
from cmdgram import NUMS, WEIRD, IPS, CAPS

CHANS = ["#a", "#b", "#new", "#Loc", "#x\x1dy", "#" + "q" * 199, "#" + "q" * 300, "&l", "0", "#", "#c,#d", "+p", "#rem", "#apass"]
USERS = ["$Ann", "$bob", "$Cyd", "$Oper", "$u0", "$u1", "$u2", "$u3", "$s0", "$gone"]
SERVERS = ["$me", "$hub", "$leaf", "$sub", "ZZ", "]]", "A", "$sub2", "*"]
NAMES = ["hub.test.net", "leaf1.test.net", "services.test.net", "sub.test.net", "sub2.test.net", "*.test.net", "*", "nope.test.net", "a", "x" * 70, "nodot", "Bad.Name\x01", "jup.test.net"]
NICKS = ["Ann", "bob", "Cyd", "Oper", "U0", "U1", "U2", "U3", "Fresh9", "nobody", "N" * 15, "N" * 16, "N" * 60, "1x", "~x", "a b", ""]


class Gram:
    def __init__(self, rng):
        self.r = rng
        self.favmask = self._safemask()
        self.favname = self._name2()
        self.favban = self.mask()
        self.favpat = self._pattern()

    def word(self):
        r = self.r
        if r.random() < .7:
            return "".join(r.choice("abcXYZ019[]{}|-_^`") for _ in range(r.randint(1, 10)))
        return "".join(chr(r.choice([c for c in range(1, 256) if c not in (10, 13, 32)])) for _ in range(r.randint(1, 12)))

    def user(self):
        r = self.r
        return r.choice(USERS) if r.random() < .93 else r.choice(["ABAAA", "AB", "]]]]]", "A", "CkAAAA", "AB]]]", "$me]]]", "$meAAZ", "\xff\xff\xff\xff\xff", "", "Ann", "ABAA", "ABAAAA"])

    def newnum(self):
        return self.r.choice(["$me" + "AA" + self.r.choice("QRSTUV"), "$me]]]", "$subAAA", "$sub2AAB", "$hubAAZ", "$u0", "ZZAAA", self.word()])

    def server(self):
        return self.r.choice(SERVERS[:5] if self.r.random() < .9 else SERVERS)

    def name(self):
        return self.r.choice(NAMES[:6] if self.r.random() < .8 else NAMES)

    def nick(self):
        return self.r.choice(NICKS[:9] if self.r.random() < .85 else NICKS)

    def chan(self):
        return self.r.choice(CHANS[:4] if self.r.random() < .8 else CHANS)

    def chans(self):
        return ",".join(self.chan() for _ in range(self.r.choice([1, 1, 1, 2, 4])))

    def target(self):
        r = self.r
        return r.choice([self.user, self.user, self.chan, lambda: "@" + self.chan(), lambda: "$" + "*.net", lambda: "$" + self.name(), lambda: self.nick() + "@" + self.name()])()

    def num(self):
        return self.r.choice(NUMS)

    def ts(self):
        r = self.r
        return r.choice(["1699999999", "1700000000", "1700000001", "1700000100", "1700000200", "1700001000", "1600000000", "$now", "$now"]) if r.random() < .85 else self.num()

    def small(self):
        return self.r.choice(["0", "1", "2", "5", "60", "3600", "86400", "604800", "604801"])

    def ip(self):
        r = self.r
        return r.choice(["B]AAAB", "AAAAAA", "DAqAAA", "_", "_AAAB", "AgAAAA_AAAA", "BKAAAB", "BKAACD"]) if r.random() < .8 else r.choice(["", "]]]]]]", "B]AA", "A" * 24, "A" * 40, "__", "_" * 12, "A_A_A_A", "!", "AgAAAAAAAAAAAAAAAAAAAAAAAAAA_", "\xff\xff\xff\xff\xff\xff"])

    def host(self):
        r = self.r
        return r.choice(["h.example", "10.0.0.1", "a.b.c.d", "::1", "x" * 63, "x" * 64, "x" * 80, "h@x", "_", self.word()])

    def ident(self):
        return self.r.choice(["id", "~id", "x" * 10, "x" * 30, self.word()])

    def mask(self):
        r = self.r
        x = r.random()
        if x < .3:
            return r.choice(IPS)
        if x < .8:
            return r.choice(["*!", "Ann!", "", "", "*!"]) + r.choice(["*@", "~*@", "id@", ""]) + r.choice(IPS + ["*.net", "a?b.*.com", "10.0.9.*", self.word(), "h" * 70])
        return r.choice(WEIRD)

    def safemask(self):
        return self.favmask if self.r.random() < .7 else self._safemask()

    def _safemask(self):
        """nothing that hits everybody"""
        return self.r.choice(["*@10.0.9.*", "x@10.9.9.0/24", "*@bad.example", "*!*@10.0.9.9", "evil!*@*", "*@2001:db8:9::/48", "#badchan", "&badchan", "$Rbadreal", "*@" + "h" * 60])

    def text(self):
        r = self.r
        x = r.random()
        if x < .3:
            return r.choice(WEIRD)
        if x < .4:
            return "".join(r.choice("ab \xe9%") for _ in range(r.choice([100, 200, 300, 400, 450, 480])))
        return " ".join(self.word() for _ in range(r.choice([1, 1, 2, 4, 10])))

    def key(self):
        return self.r.choice(["key", self.word(), "k" * 23, "k" * 24, "k" * 60, "", ":x", "a,b"])

    def modestr(self):
        r = self.r
        return "".join(r.choice("+-") * (r.random() < .4) + r.choice("ovbklimnpstrDdRAUcCMuz" if r.random() < .95 else "eIqXYZ*%\x01\xe9") for _ in range(r.choice([1, 2, 3, 8, 14])))

    def modes(self):
        r = self.r
        p = [r.choice([self.user, self.user, self.mask, self.num, self.key])() for _ in range(r.choice([0, 1, 1, 2, 4, 7]))]
        s = " ".join([r.choice(["+", "-", ""]) + self.modestr()] + p)
        return s + r.choice(["", " " + self.ts()])

    def umodes(self):
        r = self.r
        return r.choice(["+", "-", ""]) + "".join(r.choice(["", "+", "-"]) + r.choice("iwsdkgxoOrRhnXz" if r.random() < .9 else "abcdef\x01\xff") for _ in range(r.choice([1, 2, 4, 10])))

    def nmodes(self):
        r = self.r
        x = r.random()
        if x < .5:
            return "+" + "".join(r.sample("iwsdkgx", r.randint(0, 3)))
        if x < .8:
            return r.choice(["+r acc", "+xr acc:1700000000", "+ir acc:1700000000:77:1", "+h id@host.x", "+o", "+rh acc:1:2:3 id@host", "+oi oper"])
        return "+" + "".join(r.choice("iwsdkgxorhz") for _ in range(r.randint(1, 8))) + r.choice(["", " " + self.word(), " " + self.text()])

    def members(self):
        r = self.r
        return ",".join(self.user() + r.choice(["", "", ":o", ":v", ":ov", ":vo", ":0", ":1", ":999", ":v5", ":1000", ":-1", ":x", ":"]) for _ in range(r.choice([1, 1, 2, 4, 30])))

    def bmodes(self):
        r = self.r
        return r.choice(["+tn", "+", "+ntl 10", "+k key", "+lk 5 key", "+iA pass", "+AU pass up", "+sD", "+nl", "+k", "+U", "+A", "+lkAU 1 2 3 4", "+" + self.modestr().replace("+", "").replace("-", "") + " " + self.key()])

    def bans(self):
        r = self.r
        return ":%" + r.choice(["", "~ ", " "]) + " ".join(self.mask() for _ in range(r.choice([1, 2, 5, 12])))

    def b64(self):
        return "".join(self.r.choice("ABCDEFabcdef0123456789+/=") for _ in range(self.r.choice([1, 4, 40, 399, 400, 401, 480])))

    def weird(self):
        return self.r.choice(WEIRD)

    def stat(self):
        return self.r.choice(list("aAbcCdDeEfFgGhiIjJkKlLmMnoOpPqQrRsStTuUvVwWxXyYzZ*?") + ["gline", "memory", "bogus", ""])

    def cap(self):
        return self.r.choice(["S", "C", "H", "L", "D", "A", "K", "", "X", "R", "M"])

    # src: u user, s server, p peer's own server, a any
    T = [
        ("u", "P", ["target :text"]), ("u", "O", ["target :text"]), ("s", "P", ["target :text"]), ("s", "O", ["target :text"]), ("u", "TM", ["target"]), ("u", "WC", ["chan :text"]), ("u", "WV", ["chan :text"]),
        ("u", "W", ["server nick", "server :nick", "server word"]), ("u", "X", ["nick num server", "nick"]), ("a", "H", ["mask server"]),
        ("s", "N", ["nick small ts ident host nmodes ip newnum :text", "nick small ts ident host ip newnum :text", "nick small ts ident host nmodes ip newnum :text"]), ("u", "N", ["nick ts", "nick :ts"]),
        ("p", "S", ["name !2 !0 ts !P10 !$sub]]] !+6 :text", "name !2 !0 ts !J10 !$sub2]]] !+s :text", "name num num num word word word :text", "name !2 !0 ts !P10 !$hub]]] !+ :text"]), ("a", "SERVER", ["name !2 !0 ts !P10 !ZZ]]] :text"]),
        ("u", "T", ["chan :text", "chan ts ts :text", "chan nick ts ts :text"]), ("s", "T", ["chan ts ts :text", "chan :text", "chan nick ts ts :text"]), ("a", "I", ["nick chan", "nick chan ts", "user chan"]),
        ("u", "V", ["server", ":name"]), ("u", "Q", [":text", ""]), ("s", "Q", [":text"]), ("a", "SQ", ["name ts :text", "name !0 :text", "!sub.test.net !0 :text", "name"]), ("a", "D", ["user :name!nick (text)", "user :text", "user"]),
        ("u", "F", ["server"]), ("u", "LI", ["server mask", ":mask"]), ("u", "R", ["stat server", "stat server mask", "stat"]), ("a", "Y", [":text"]), ("u", "A", ["", ":text"]), ("u", "CO", ["name num server", "name num"]),
        ("a", "G", [":text", "!!1700000000.5 name !1700000000.5", "name name", "word name", "word", "!! word"]), ("a", "Z", ["server !!1700000000.5 num num", "server :text", "name name", "word"]), ("p", "PA", [":text"]),
        ("a", "WA", [":text"]), ("a", "WU", [":text"]), ("a", "DS", [":text"]), ("u", "TI", ["server"]), ("a", "SE", ["ts server", "num", "ts"]), ("a", "RI", ["server user num num :text", "name user :text", "word"]),
        ("a", "RO", ["nick server num num :text", "user name num :text", "word"]), ("u", "E", ["chans server", "chan"]), ("u", "AD", [":server"]), ("u", "TR", ["name server", "nick server", "word"]),
        ("u", "CP", ["nick chan :text"]), ("u", "CN", ["nick chan :text"]), ("u", "J", ["chans ts", "chans", "!0", "chan num"]), ("u", "L", ["chans", "chans :text"]), ("u", "LU", ["mask server"]), ("u", "MO", [":server"]),
        ("a", "M", ["chan modes", "chan modes", "chan modes", "nick umodes", "user umodes", "chan !+b", "chan"]), ("a", "K", ["chan user :text", "chan user"]), ("u", "U", ["user mask", "!* mask", "user !-mask", "user masks"]),
        ("a", "GL", ["!* !+safemask small ts ts :text", "!* !+safemask small $now $now :text", "!* !-safemask small $later $later :text", "!* !safemask small $later", "!* !-safemask $later", "$hub !+safemask small $now :text", "$hub !-safemask", "$hub !>safemask", "$hub !<safemask", "!* !+safemask $later", "!* !+safemask $later $later2 $later2 :text", "!* !%+safemask small ts :text", "!* !-safemask", "!* !+safemask small", "server !+safemask small ts :text", "!* !-safemask ts", "!* !>safemask ts", "!* !<safemask small ts", "!* mask num num num :text", "server mask"]),
        ("a", "SL", ["sign ts !0 stype :pattern", "sign $now !0 stype :pattern", "sign $later $later2 stype :pattern", "sign num num word :text", "sign $later2 !0 stype :pattern", "word"]), ("a", "JU", ["!* !+name2 small ts :text", "!* !-name2 small $later :text", "!* !+name2 small $later2 :text", "!* !+name2 !0 $later2 :text", "$hub !+name2 small $now :text", "$hub !-name2 small $now :text", "!* name2", "!* !-name2 small ts", "server !+name2 small ts :text", "!* name num num :text", "!* !-name2 num"]),
        ("s", "B", ["chan ts", "chan ts members", "chan ts bmodes members", "chan ts bmodes members bans", "chan ts bmodes", "chan ts bans", "chan ts members members", "chan ts word word word", "chan num bmodes members"]),
        ("u", "UP", ["name num server num", "name num"]), ("u", "C", ["chans ts", "chans num", "chan"]), ("a", "DE", ["chan ts", "chan num"]), ("s", "EB", ["", ":text"]), ("s", "EA", [""]),
        ("a", "OM", ["chan modes", "nick umodes", "user umodes", "user !-o"]), ("a", "CM", ["chan modestr", "chan"]),
        ("s", "AC", ["user word ts", "user word", "user word ts num num", "user !R word ts num num", "user !M word", "user !U", "user !A cookie", "user !C word word word", "user"]),
        ("a", "LL", ["server name", "name server num num num num", "server", "user server num num num"]), ("u", "PR", ["user user", "nick"]), ("a", "XQ", ["server word :text", "word"]), ("a", "XR", ["server word :text", "server !iauth:x :text", "server !sasl:0.0 :text", "word"]),
        ("a", "CF", ["ts feat word", "num feat word", "ts feat :text", "word"]), ("a", "LIST", [""]), ("a", "USER", ["word word word :text"]), ("a", "OPER", ["word word"]), ("u", "OPER", ["word"]), ("a", "MAP", [""]),
        ("a", "DIE", [""]), ("a", "RESTART", [""]), ("a", "REHASH", [""]), ("a", "SET", ["word word"]), ("a", "GET", ["word"]), ("a", "PRIVS", ["nick"]), ("a", "AUTHENTICATE", ["b64"]), ("a", "CAP", ["!LS", "!REQ :text"]), ("a", "CHGHOST", ["word word"]),
        ("a", "WEBIRC", ["word word word word"]), ("a", "PRIVMSG", ["target :text"]), ("a", "", ["word"]), ("a", "001", ["user :text"]), ("a", "433", ["user nick :text"]), ("a", "351", ["user word :text"]), ("a", "999", ["user word :text"]), ("a", "1234", ["user"]), ("a", "12", ["user :text"]),
        ("a", "318", ["nick word :text"]), ("a", "015", ["user :text"]),
    ]

    def masks(self):
        return ",".join(self.r.choice(["", "-", "~", "+"]) + self.mask() for _ in range(self.r.choice([1, 1, 2, 4])))

    def sign(self):
        return self.r.choice(["+", "-", "+", "x", ""])

    def stype(self):
        return "".join(self.r.choice("APCLQ") for _ in range(self.r.choice([1, 1, 2, 5])))

    def pattern(self):
        return self.favpat if self.r.random() < .7 else self._pattern()

    def _pattern(self):
        return self.r.choice(["spam.*word", "[", "(((", "(a+)+$", "", "^x", "\\x41", "a{1000}", "(?i)x", "x" * 300, "[[:alpha:]]+q", "*", "+", "\\", self.word(), "(x|y)*z\\1"])

    def cookie(self):
        return self.r.choice(["!7.123", "!-1.0", ".5.6", self.word()])

    def name2(self):
        return self.favname if self.r.random() < .7 else self._name2()

    def _name2(self):
        return self.r.choice(["jup.test.net", "x.test.net", "y.z", "nodot", "*.test.net", "sub9.test.net"])

    def feat(self):
        return self.r.choice(["sasl.server", "sasl.mechanisms", "sasl.timeout", "x.y", "sasl", "irc.test", self.word()])

    def param(self, k):
        if k[:1] == "$":
            return k
        if k[:1] == "!":
            s = k[1:]
            if s == "!":
                return "!"
            for p in ("%+", "+", "-", ">", "<"):
                if s.startswith(p) and len(s) > len(p) and hasattr(self, s[len(p):]):
                    return p + getattr(self, s[len(p):])()
            return s
        if k.startswith("name!"):
            return "%s!%s (%s)" % (self.name(), self.nick(), self.text())
        if k in ("(text)",):
            return ""
        return getattr(self, k)()

    def line(self, tok=None, wild=True):
        r = self.r
        src, t, forms = r.choice([x for x in self.T if x[1] == tok] if tok else self.T)
        ps = []
        for k in r.choice(forms).split():
            tr = k[0] == ":"
            v = self.param(k[1:] if tr else k)
            if not tr and t not in ("M", "OM", "N", "B") and k[:1] != "!":
                v = v.replace(" ", "_")
            ps.append((":" if tr else "") + v)
        x = r.random()
        if wild:
            if x < .06 and ps:
                ps.pop(r.randrange(len(ps)))
            elif x < .12:
                ps.insert(r.randint(0, len(ps)), r.choice([self.weird, self.num, self.word, self.text, self.nick, self.server, self.user])())
            elif x < .20 and ps:
                ps[r.randrange(len(ps))] = r.choice([self.weird, self.num, self.word, self.text, self.nick, self.chan, self.server, self.mask, self.user])()
            elif x < .22:
                ps += [self.word() for _ in range(r.choice([5, 14, 15, 20]))]
            elif x < .24 and ps:
                ps[-1] = ":" + ps[-1].lstrip(":")
            elif x < .28:
                ps = ps[:r.randint(0, len(ps))]
        own = ["$u0", "$u1", "$u2", "$u3"]
        x = r.random()
        if src == "a":
            src = r.choice("us")
        if x < .06 and wild:
            pre = r.choice(["$Ann", "$bob", "$hub", "$leaf", "ZZ", "ZZAAA", self.word(), "$gone", "$Oper", ":hub.test.net", ":Ann", ":nobody"])
        elif x < .08 and wild:
            pre = None
        elif src == "u":
            pre = r.choice(own + (["$s0"] if r.random() < .2 else []))
        elif src == "s":
            pre = "$me" if r.random() < .85 else "$sub"
        else:
            pre = "$me"
        s = " ".join(([pre] if pre is not None else []) + [t] + ps)
        if wild and r.random() < .02:
            i = r.randrange(len(s) + 1)
            s = s[:i] + r.choice(["\0", "\r", "\x01", "  ", "\xff" * 20, "x" * 512]) + s[i:]
        if wild and r.random() < .03:
            s = "@" + ";".join(r.choice(["time", "account", "msgid", "+x", self.word()]) + r.choice(["", "=" + self.word(), "=" + "v" * 1000]) for _ in range(r.choice([1, 2, 5]))) + " " + s
        return s.replace("\n", "")


Gram.tokens = sorted({t for _, t, _ in Gram.T})
