"""A grammar of client commands: mostly sensible lines, with anything possible anywhere."""

NICKS = ["Ann", "bob", "Cyd", "Oper", "Locop", "Rem0", "Rem1", "Svc", "nobody", "anN"]
SERVERS = ["hub.test.net", "leaf1.test.net", "services.test.net", "peer1.test.net", "nope.test.net", "*.test.net", "*", "leaf?.*", "BA", "AB", "CC"]
NUMNICKS = ["ABAAA", "ABAAB", "ACAAA", "AB", "BA", "BAAAA", "]]]]]", "A", "ABAA", "\xff\xff\xff\xff\xff"]
CHANS = ["#a", "#b", "#new", "&loc", "#A", "#x\x1dy", "#", "&", "#" + "q" * 199, "#" + "q" * 260, "0", "#c,d", "+plus", "#rem"]
NUMS = ["0", "1", "-1", "5", "10", "999", "1000", "1001", "60", "604800", "604801", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "1700000100",
        "1699999999", "99999999999999999999", "9223372036854775807", "-9223372036854775808", "0x10", "1e9", "", "+5", "00000000000001", "*", "600.600.300"]
IPS = ["10.0.0.1", "10.0.0.0/8", "10.0.*", "::1", "2001:db8::/32", "10.0.0.1/33", "0::", "::ffff:10.0.0.1", "1.2.3", "10.0.0.1/", "*/0", "a:b:c:d:e:f:1:2:3", "999.1.1.1", "0.0.0.0/0", "::/0"]
WEIRD = ["", ":", "%s%n%x", "%", "%#Hu%Tu", "*" * 100, "?" * 80, "\\" * 50, "\\*\\?", ",", ",,,,", ",a,,b,", "a,", "\x01ACTION x\x01", "\x02\x03\x0f", "\xff\xfe", "!", "@", "!@", "a!b@c", "*!*@*",
         "~", "-", "--", "+", "=", "$", "$*", "$*.net", "#*", "@#a", "+#a", "%", "/", "../../etc/passwd", "\x7f", "'", "\"", "{}", "[]|^", "\t", "*!" * 40, "x" * 30, "x" * 63, "x" * 64, "x" * 127, "x" * 255,
         "x" * 300, "é漢字".encode().decode("latin-1"), "\xc0\x80", "&", ";", "=;=", "0", "00", "A" * 12]
CAPS = ["away-notify", "account-notify", "chghost", "echo-message", "extended-join", "invite-notify", "userhost-in-names", "message-tags", "server-time", "account-tag", "cap-notify", "sasl", "bogus"]
FEATURES = ["NICKLEN", "MAXCHANNELSPERUSER", "MAXBANS", "AVBANLEN", "NICKNAMEHISTORYLENGTH", "HIDDEN_HOST", "HIDDEN_IP", "HOST_HIDING", "CLIENTTAGDENY", "MAXSILES", "TOPICLEN", "CHANNELLEN", "OPLEVELS",
            "ZANNELS", "LOCAL_CHANNELS", "UNDERNET_REPLIES", "HIS_STATS_*", "DEFAULT_LIST_PARAM", "RANDOM_SEED", "KILLCHASETIMELIMIT", "CLIENT_FLOOD", "MSGQ_MAX", "URL_CLIENTS",
            "TPATH", "RPATH", "PPATH", "MPATH", "AWAYLEN", "MAXWHOISTARGETS", "LOG", "NETWORK", "DOMAINNAME", "NONEXISTANT", "HIS_WHOIS_SERVERNAME", "ANNOUNCE_INVITES", "WALLOPS_OPER_ONLY", "EXCEPTS", "NODELAY",
            "DEFAULTMAXSENDQLENGTH", "GLINEMAXUSERCOUNT", "SOCKSENDBUF", "SOCKRECVBUF", "IPCHECK_CLONE_LIMIT", "TOS_CLIENT", "CRYPT", "NOIDENT", "CONFIG_OPERCMDS", "IRCD_RES_TIMEOUT"]


class Gram:
    def __init__(self, rng, nicks=(), nums=()):
        self.r = rng
        self.nicks = list(nicks) or NICKS
        self.nums = list(nums)

    # -- parameters
    def nick(self):
        return self.r.choice(self.nicks)

    def anynick(self):
        r = self.r.random()
        if r < .8:
            return self.nick()
        if r < .9:
            return self.r.choice(NUMNICKS + self.nums)
        return self.word()

    def nicks_(self):
        return ",".join(self.anynick() for _ in range(self.r.choice([1, 1, 2, 3, 7, 25])))

    def word(self):
        r = self.r
        if r.random() < .6:
            return "".join(r.choice("abcXYZ019[]{}|-_^`") for _ in range(r.randint(1, 10)))
        return "".join(chr(r.choice([c for c in range(1, 256) if c not in (10, 13, 32)])) for _ in range(r.randint(1, 12)))

    def newnick(self):
        r = self.r
        return r.choice([self.nick(), self.word(), r.choice(["New", "n" * 9, "n" * 15, "n" * 16, "n" * 40, "1abc", "-x", "a~b", "a", "[]\\`^{|}"])])

    def chan(self):
        return self.r.choice(CHANS[:4] if self.r.random() < .75 else CHANS)

    def chans(self):
        return ",".join(self.chan() for _ in range(self.r.choice([1, 1, 1, 2, 3, 20])))

    def target(self):
        r = self.r
        return ",".join(r.choice([self.chan(), self.anynick(), "@" + self.chan(), "$" + self.server(), "%s@%s" % (self.nick(), self.server()), "$*.net"]) for _ in range(r.choice([1, 1, 1, 2, 5, 21])))

    def server(self):
        return self.r.choice(SERVERS)

    def num(self):
        return self.r.choice(NUMS)

    def mask(self):
        r = self.r
        x = r.random()
        if x < .3:
            return r.choice(IPS)
        if x < .8:
            return r.choice(["*!", self.nick() + "!", "a*b!", "", self.word() + "!"]) + r.choice(["*@", "~*@", self.word() + "@", "", "*a*b*c*d@"]) + r.choice(IPS + ["*", "*.net", "a?b.*.com", self.word(), "h" * 70])
        return r.choice(WEIRD)

    def masks(self):
        return ",".join(self.r.choice(["", "-", "~", "+"]) + self.mask() for _ in range(self.r.choice([1, 1, 2, 4])))

    def text(self):
        r = self.r
        x = r.random()
        if x < .3:
            return r.choice(WEIRD)
        if x < .36:
            return "".join(r.choice("ab \xe9%") for _ in range(r.choice([100, 200, 250, 300, 390, 400, 450, 480, 490, 500])))
        return " ".join(self.word() for _ in range(r.choice([1, 1, 2, 4, 10])))

    def key(self):
        return self.r.choice([self.word(), "key", "k" * 23, "k" * 24, "k" * 60, "", "a,b", ":x"])

    def modes(self):
        r = self.r
        s = "".join(r.choice("+-") * (r.random() < .4) + r.choice("ovbklimnpstrDdRAUcCMuOz" if r.random() < .95 else "eIqXYZ*%\x01\xe9") for _ in range(r.choice([1, 1, 2, 3, 8, 14])))
        p = [r.choice([self.anynick, self.mask, self.num, self.key, self.key])() for _ in range(r.choice([0, 1, 1, 2, 4, 7]))]
        return " ".join([r.choice(["+", "-", ""]) + s] + p)

    def umodes(self):
        r = self.r
        s = "".join(r.choice(["", "+", "-"]) + r.choice("iwsdkgxoOrRhnXz" if r.random() < .9 else "abcdef\x01\xff") for _ in range(r.choice([1, 2, 4, 10])))
        return r.choice(["+", "-", ""]) + s + r.choice(["", "", " " + self.num(), " " + self.word(), " " + r.choice("+-") + self.num()])

    def whoflags(self):
        r = self.r
        return "".join(r.choice("oxhnuisrcadfgltX%,0123456789") for _ in range(r.randint(1, 12))) + r.choice(["", "%tcuihsnfdlaor," + self.num(), "%," + "9" * r.choice([1, 3, 5, 300])])

    def stats(self):
        r = self.r
        return r.choice(list("aAbcCdDeEfFgGhiIjJkKlLmMnoOpPqQrRsStTuUvVwWxXyYzZ*?") + ["gline", "klines", "commands", "locals", "vserversmach", "features", "uworld", "connect", "help", "memory", "bogus", "", "engine"])

    def expr(self):
        """LIST parameters"""
        r = self.r
        return ",".join(r.choice(["<", ">", "C<", "C>", "T<", "T>", "c<", "t>", "R", "M", "!", "#", "*", "N"]) + r.choice([self.num(), self.chan(), self.mask(), ""]) for _ in range(r.choice([1, 1, 2, 4])))

    def feature(self):
        return self.r.choice(FEATURES)

    def capreq(self):
        r = self.r
        return " ".join(r.choice(["", "-", "=", "~", "-~"] if r.random() < .3 else [""]) + r.choice(CAPS) + ("=x" if r.random() < .1 else "") for _ in range(r.choice([0, 1, 1, 3, 12])))

    def weird(self):
        return self.r.choice(WEIRD)

    def b64(self):
        r = self.r
        return "".join(r.choice("ABCDEFabcdef0123456789+/=") for _ in range(r.choice([1, 4, 40, 399, 400, 401, 480])))

    # -- lines.  Lower-case words are parameter kinds, ":" marks the trailing one.
    COMMANDS = {
        "PRIVMSG": ["target :text"], "NOTICE": ["target :text"], "TAGMSG": ["target"], "WALLCHOPS": ["chan :text"], "WALLVOICES": ["chan :text"],
        "CPRIVMSG": ["anynick chan :text"], "CNOTICE": ["anynick chan :text"], "JOIN": ["chans", "chans key", "chan key,key", "!0"], "PART": ["chans", "chans :text"],
        "MODE": ["chan modes", "chan modes", "chan modes", "chan", "chan !b", "nick umodes", "nick umodes", "nick"], "QUIT": [":text"], "TOPIC": ["chan", "chan :text", "chans :text"],
        "INVITE": ["anynick chan", "", "anynick chan num"], "KICK": ["chan anynick :text", "chan nicks_ :text", "chans nicks_"], "WALLOPS": [":text"], "WALLUSERS": [":text"],
        "PING": ["word", "word server", ":text", "!!word num num", "server server"], "PONG": ["word", ":text", "num"], "ERROR": [":text"], "KILL": ["anynick :text", "anynick", "server :text"],
        "USER": ["word num word :text"], "AWAY": ["", ":text"], "ISON": ["nick nick word nick", ":text", "nicks_"], "SERVER": ["server num num num word num :text"],
        "SQUIT": ["server num :text", "server :text"], "WHOIS": ["nicks_", "server nicks_", "nick nick", "mask", "nick nicks_"], "WHO": ["mask", "chan", "mask whoflags", "chan whoflags mask", "num !%tn,1", "!* whoflags"],
        "WHOWAS": ["nicks_", "nick num", "nick num server", "mask num"], "LIST": ["", "expr", "expr server", "chans", "!STOP"], "NAMES": ["chans", "", "chans server", "!0"], "USERHOST": ["nick nick nick nick nick nick", "nicks_"],
        "USERIP": ["nick nick nick", "nicks_"], "TRACE": ["", "anynick", "server", "server server", "num server"], "PASS": ["word", ":text"], "LUSERS": ["", "mask server", "word server", "mask"], "TIME": ["", "server"],
        "SETTIME": ["num", "num server"], "RPING": ["server", "server server :text", "server num num :text"], "OPER": ["!oper !operpass", "!locop !lpass", "word word", "!oper text", "nick !operpass"],
        "CONNECT": ["server", "server num", "server num server"], "MAP": ["", "server", "mask"], "VERSION": ["", "server", "nick"], "STATS": ["stats", "stats server", "stats server mask", "stats !* mask", "stats nick word word"],
        "LINKS": ["", "server", "server mask"], "ADMIN": ["", "server"], "HELP": ["", "word"], "INFO": ["", "server"], "MOTD": ["", "server"], "CLOSE": [""], "SILENCE": ["", "masks", "nick", "masks masks"],
        "GLINE": ["", "mask", "!!@mask num :text", "!+@mask server num :text", "!-@mask", "!+@mask !* num :text", "!>@mask server :text", "!<@mask server num", "!!+@mask num text", "!!+@mask server num :text"],
        "JUPE": ["", "server", "!+@server server num :text", "!-@server", "!+@server !* num :text", "!+@server num :text"], "OPMODE": ["chan modes"], "CLEARMODE": ["chan word", "chan", "chan modes"], "UPING": ["server num server num", "server num", "server"],
        "HASH": [""], "REHASH": ["", "!m", "!l", "!q", "!s", "!x", "word"], "PROTO": ["word word"], "SET": ["feature word", "feature num", "feature text", "!LOG word word word", "!LOG !OPER !FILE word"], "RESET": ["feature", "feature word"],
        "GET": ["feature", "!LOG word word", "!LOG !OPER"], "PRIVS": ["nick nick", "nicks_", ""], "ASLL": ["server", "server server"], "WEBIRC": ["word word word mask", "!wpass !cgi word mask :text", "!wpass !cgi word !1.2.3.4"],
        "XQUERY": ["server word :text"], "XREPLY": ["server word :text"], "CAP": ["!LS", "!LS num", "!LIST", "!REQ :capreq", "!REQ capreq", "!END", "!ACK :capreq", "word word", "!LS :text"], "AUTHENTICATE": ["!PLAIN", "b64", "!*", "word", "!+", "!EXTERNAL"],
        "NICK": ["newnick"], "DNS": ["word"], "POST": ["word"], "GETX": ["word"], "ACCOUNT": ["nick word"], "BURST": ["chan num word"], "CREATE": ["chan num"], "DESTRUCT": ["chan num"], "DESYNCH": [":text"],
        "END_OF_BURST": [""], "EOB_ACK": [""], "RPONG": ["nick num :text"], "SLINE": ["word word num num word :text"], "CONFIG": ["mask num word word"], "CHGHOST": ["word"], "SQUERY": ["nick :text"], "NICKSERV": [":text"],
        "CHANSERV": [":text"], "SVC": [":text"], "HELPME": [":text"], "LOGIN": ["word word"], "": ["word"],
    }

    def param(self, kind):
        if kind[:1] == "!":
            s = kind[1:]
            if s.startswith(("+@", "-@", "!@", "!+@", ">@", "<@")):
                h, k = s.split("@")
                return h + getattr(self, k)()
            if s.startswith("!") and len(s) > 1:
                return "!" + getattr(self, s[1:])() if hasattr(self, s[1:]) else s
            return s
        return getattr(self, kind)()

    def line(self, cmds=None):
        r = self.r
        c = r.choice(cmds or self.names)
        t = r.choice(self.COMMANDS[c])
        kinds = []
        for k in t.split():
            tr = k[0] == ":"
            kinds.append((k[1:] if tr else k, tr))
        ps = []
        for k, tr in kinds:
            if "," in k and k[0] != "!":
                v = ",".join(self.param(x) for x in k.split(","))
            else:
                v = self.param(k)
            ps.append((":" if tr else "") + v)
        x = r.random()
        if x < .06 and ps:
            ps.pop(r.randrange(len(ps)))
        elif x < .12:
            ps.insert(r.randint(0, len(ps)), r.choice([self.weird, self.num, self.word, self.text, self.nick, self.server])())
        elif x < .18 and ps:
            ps[r.randrange(len(ps))] = r.choice([self.weird, self.num, self.word, self.text, self.nick, self.chan, self.server, self.mask])()
        elif x < .20:
            ps += [self.word() for _ in range(r.choice([5, 14, 15, 20]))]
        elif x < .22 and ps:
            ps[-1] = ":" + ps[-1].lstrip(":")
        elif x < .24:
            ps = ps[:r.randint(0, len(ps))]
        w = c if r.random() < .9 else r.choice([c.lower(), c.title(), c + "X", c[:-1]])
        s = " ".join([w] + ps)
        x = r.random()
        if x < .05:
            s = ":" + r.choice([self.nick(), self.server(), self.word(), self.mask()]) + " " + s
        if x > .93:
            s = "@" + ";".join(r.choice(["+typing", "+a", "time", "account", "+ex.com/x", self.word()]) + r.choice(["", "=" + self.word(), "=\\s\\:\\\\", "=" + "v" * r.choice([10, 1000, 4000, 8000])])
                               for _ in range(r.choice([1, 2, 5]))) + " " + s
        if r.random() < .02:
            i = r.randrange(len(s) + 1)
            s = s[:i] + r.choice(["\0", "\r", "\x01", "  ", "\xff" * 20, "x" * 512]) + s[i:]
        return s.replace("\n", "")


Gram.names = sorted(Gram.COMMANDS)
