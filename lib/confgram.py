"""Generated configurations.  A configuration is a list of blocks (strings); build() makes them from a random choice of
classes, hosts, operators, links, rules.  Everything is drawn from small pools so that two configurations overlap."""
import ircsim

IPS = ["*", "10.0.0.*", "10.0.0.1", "10.1.*", "10.0.0.0/8", "10.0.0.2/31", "2001:db8::/32", "!bad", "10.2.0.0/15"]
HOSTS = ["*", "*.example.net", "10.0.0.*", "nomatch.example", "*@*", "~*@*", "u*@10.0.0.*", "x@*"]
CLASSES = ["Local", "Opers", "Slow", "Server2"]
PRIVS = ["chan_limit", "mode_lchan", "deop_lchan", "walk_lchan", "kill", "local_kill", "rehash", "gline", "local_gline", "jupe", "local_jupe", "opmode", "local_opmode", "set", "whox", "badchan", "local_badchan", "see_chan",
         "show_invis", "show_all_invis", "unlimit_query", "display", "see_opers", "wide_gline", "list_chan", "force_opmode", "force_local_opmode", "apass_opmode"]
FEATURES = {
    "NICKLEN": ["5", "9", "15"], "MAXCHANNELSPERUSER": ["1", "3", "20"], "MAXBANS": ["2", "30"], "AVBANLEN": ["10", "40"], "HIDDEN_HOST": ["users.example", "hid.den"], "HOST_HIDING": ["TRUE", "FALSE"],
    "MAXSILES": ["1", "5"], "TOPICLEN": ["20", "160"], "AWAYLEN": ["10", "160"], "CHANNELLEN": ["10", "200"], "OPLEVELS": ["TRUE", "FALSE"], "ZANNELS": ["TRUE", "FALSE"], "LOCAL_CHANNELS": ["TRUE", "FALSE"],
    "NETWORK": ["Alpha", "Beta Net"], "URL_CLIENTS": ["http://a.example"], "HIS_SERVERNAME": ["*.x.y"], "HIS_SERVERINFO": ["Some net"], "HIS_WHOIS_SERVERNAME": ["TRUE", "FALSE"], "HIS_LINKS": ["TRUE", "FALSE"],
    "HIS_STATS_u": ["TRUE", "FALSE"], "HIS_MAP": ["TRUE", "FALSE"], "HIS_TRACE": ["TRUE", "FALSE"], "CLIENTTAGDENY": ["*", "a,b", "*,-typing"], "AUTOCHANMODES": ["nt"], "DEFAULT_LIST_PARAM": ["T<5", ">2"],
    "IPCHECK_CLONE_LIMIT": ["2", "4", "1000"], "KILLCHASETIMELIMIT": ["10", "60"], "ANNOUNCE_INVITES": ["TRUE", "FALSE"], "WALLOPS_OPER_ONLY": ["TRUE", "FALSE"], "MPATH": ["ircd.motd", "alt.motd", "none.motd"],
    "NICKNAMEHISTORYLENGTH": ["4", "50"], "USER_HIDECHANS": ["TRUE"], "SETHOST": ["TRUE"], "LOGIN_ON_CONNECT": ["TRUE"], "CHECK": ["TRUE", "FALSE"], "MAXWHOISTARGETS": ["1"], "RELIABLE_CLOCK": ["TRUE", "FALSE"],
    "DISABLE_GLINES": ["TRUE"], "HIS_WHOIS_LOCALCHAN": ["TRUE", "FALSE"], "HIS_MODEWHO": ["TRUE", "FALSE"], "CONNEXIT_NOTICES": ["TRUE"], "OPER_NO_CHAN_LIMIT": ["TRUE", "FALSE"], "UNDERNET_REPLIES": ["TRUE", "FALSE"],
    "GLINEMAXUSERCOUNT": ["1", "20"], "NODNS": ["TRUE"], "CAP_account-notify": ["FALSE"], "CAP_AWAY_NOTIFY": ["FALSE"], "CAP_MESSAGE_TAGS": ["FALSE", "TRUE"], "HIDDEN_IP": ["127.0.0.9"], "DEFAULTMAXSENDQLENGTH": ["50000"],
    "MAXLIST": ["3"], "LOG": None,
    "DOMAINNAME": ["dom.ain"], "CLIENT_FLOOD": ["2048", "1024"], "NODEFAULTMOTD": ["FALSE", "TRUE"], "MOTD_BANNER": ["Banner one", "x %s y"], "PROVIDER": ["Prov"], "KILL_IPMISMATCH": ["TRUE"], "IDLE_FROM_MSG": ["FALSE"], "TOPIC_BURST": ["FALSE"],
    "AWAY_BURST": ["FALSE"], "DISABLE_SLINES": ["TRUE"], "JOIN_TARGET": ["TRUE"], "HANGONGOODLINK": ["10"], "CONNECTTIMEOUT": ["60", "120"], "PINGFREQUENCY": ["60", "300"], "CONNECTFREQUENCY": ["60"], "STRICT_USERNAME": ["TRUE"],
    "IPCHECK_CLONE_PERIOD": ["5", "60"], "IPCHECK_48_CLONE_LIMIT": ["1", "9"], "IPCHECK_CLONE_DELAY": ["1"], "AUTH_TIMEOUT": ["3", "15"], "IRCD_RES_TIMEOUT": ["1", "6"], "IRCD_RES_RETRIES": ["1"], "WEBSOCKET_KEEPALIVE": ["30"],
    "WEBSOCKET_ALLOWED_ORIGINS": ["*.org", "http://a"], "NETWORK_FEATURES": ["FALSE"], "NETWORK_TIME": ["FALSE"], "CONFIG_OPERCMDS": ["TRUE"], "HIS_SNOTICES": ["FALSE"], "HIS_WALLOPS": ["FALSE"], "HIS_STATS_i": ["FALSE"], "HIS_STATS_k": ["FALSE"],
    "HIS_WEBIRC": ["FALSE"], "HIS_WHOIS_IDLETIME": ["FALSE"], "HIS_WHO_SERVERNAME": ["FALSE"], "HIS_WHO_HOPCOUNT": ["FALSE"], "HIS_REWRITE": ["FALSE"], "HIS_REMOTE": ["FALSE"], "HIS_URLSERVERS": ["http://h"], "URLREG": ["http://r"],
    "CAP_CHGHOST": ["FALSE"], "CAP_ECHOMESSAGE": ["FALSE"], "CAP_SASL": ["FALSE"], "CAP_UHNAMES": ["FALSE"], "HUB": ["FALSE", "TRUE"], "MAXTARGETS": ["1"], "TLS_CIPHERS": ["ALL"], "BUFFERPOOL": ["30000000"], "POLLS_PER_LOOP": ["10"],
}
# (category, key, values): the LOG feature takes a list
LOGS = ['"LOG" = "OPER" "FILE" "oper.log"', '"LOG" = "OPER" "LEVEL" "INFO"', '"LOG" = "CONFIG" "FACILITY" "LOCAL3"', '"LOG" = "SOCKET" "FILE" "sock.log"', '"LOG" = "GLINE" "SNOMASK" "NETWORK"']


def q(s):
    return '"%s"' % s


def broken(block):
    """The parser complains about this block."""
    return "missing.conf" in block or "Jupe, Kill from" in block or "include Class from" in block or '"Ghost"' in block or block.startswith("Operator") and "local = " not in block


class ConfGram:
    def __init__(self, rng):
        self.r = rng
        self.faults = True

    def some(self, xs, lo, hi):
        n = min(len(xs), self.r.randint(lo, hi))
        return self.r.sample(xs, n)

    def maybe(self, p, s):
        return s if self.r.random() < p else ""

    def privs(self, n=3):
        return " ".join("%s = %s;" % (p, self.r.choice(["yes", "no"])) for p in self.some(PRIVS, 0, n))

    def num(self):
        return self.r.choice(["0", "1", "2", "5", "90", "1000"])

    def timespec(self):
        return self.r.choice(["90", "60 seconds", "2 minutes", "1 minutes 30 seconds", "3 * 30", "(100 + 20)", "1 hours"])

    def sizespec(self):
        return self.r.choice(["100000", "2 megabytes", "500 kbytes", "40000 bytes", "10 * 20000"])

    def klass(self, name):
        r = self.r
        return "Class { name = %s; pingfreq = %s; connectfreq = %s; %smaxlinks = %s; %s%s%s};" % (
            q(name), self.timespec(), self.timespec(), self.maybe(.7, "sendq = %s; " % self.sizespec()), r.choice(["1", "3", "100"]), self.maybe(.3, "maxflood = %s; " % r.choice(["2000", "100000"])),
            self.maybe(.3, "usermode = %s; " % q(r.choice(["+i", "+w", "+iw", "x", "-i", "+ixg"]))), self.maybe(.6, self.privs() + " ") + self.maybe(.3, "local = %s; " % r.choice(["yes", "no"])))

    def client(self, classes):
        r = self.r
        o = ["class = %s;" % q(r.choice(classes))]
        if r.random() < .7:
            o.append("ip = %s;" % q(self.maybe(.2, r.choice(["u*@", "~*@", "x@"])) + r.choice(IPS[:-2] + [IPS[-1]])))
        if r.random() < .3:
            o.append("host = %s;" % q(r.choice(HOSTS)))
        if r.random() < .2:
            o.append("username = %s;" % q(r.choice(["u*", "x", "~*"])))
        if r.random() < .2:
            o.append("password = %s;" % q(r.choice(["pw", "other"])))
        if r.random() < .3:
            o.append("maxlinks = %s;" % r.choice(["0", "1", "2", "5"]))
        if r.random() < .15:
            o.append("port = %s;" % r.choice(["6667", "6668"]))
        r.shuffle(o)
        return "Client { %s };" % " ".join(o)

    def oper(self, classes):
        r = self.r
        o = ["class = %s;" % q(r.choice(classes)), "name = %s;" % q(r.choice(["boss", "helper", "third"])), "password = %s;" % q("$PLAIN$" + r.choice(["p1", "p2"]))]
        for _ in range(r.choice([1, 1, 2, 3])):
            o.append("host = %s;" % q(r.choice(["*@*", "*@10.0.0.*", "u*@*", "*@10.1.0.0/16", "u@10.0.0.1", "10.0.0.2"])))
        if not self.faults or r.random() < .85:
            o.append("local = %s;" % r.choice(["yes", "no"]))
        if r.random() < .1:
            o.append('tls fingerprint = "%s";' % ("AB" * 32))
        o.append(self.privs(5))
        r.shuffle(o)
        return "Operator { %s };" % " ".join(o)

    def connect(self):
        r = self.r
        o = ["name = %s;" % q(r.choice(["peer3.test.net", "peer4.test.net", "x.y.z"])), 'host = "10.9.0.%d";' % r.choice([2, 3]), 'password = %s;' % q(r.choice(["lp", "zz"])), 'class = %s;' % q(r.choice(["Server", "Server", "Local"])), "autoconnect = no;",
             "port = %s;" % r.choice(["4400", "4401"])]
        o.append(r.choice(["", "hub;", "leaf;", 'hub = "*.test.net";', "maxhops = 2;", 'hub = "*.x"; maxhops = 1;']))
        if r.random() < .2:
            o.append('vhost = "10.1.0.1";')
        r.shuffle(o)
        return "Connect { %s };" % " ".join(o)

    def kill(self):
        r = self.r
        o = [r.choice(['host = %s;' % q(r.choice(["10.0.0.3", "*.bad.example", "x*@10.*", "10.0.0.4/31", "*@10.66.*"])), 'username = %s;' % q(r.choice(["evil*", "x"])), 'real = %s;' % q(r.choice(["*spam*", "bad ?uy"]))])]
        if r.random() < .3:
            o.append('username = "evil*";')
        if r.random() < .7:
            o.append(r.choice(['reason = %s;' % q(r.choice(["go away", "no %s spam"])), 'file = "kill.txt";', 'file = "nofile.txt";']))
        return "Kill { %s };" % " ".join(o)

    def port(self):
        r = self.r
        return r.choice(["Port { port = 6668; };", "Port { port = 6669; hidden = yes; };", 'Port { port = 6670; mask = "10.0.0.*"; };', "Port { websocket = yes; port = 7001; };", "Port { webirc = yes; port = 6901; };", 'Port { vhost = "10.1.0.1"; port = 6671; };',
                         "Port { server = yes; port = 4405; hidden = yes; };", "Port { port = ipv4 6672; };", 'Port { vhost = ipv4 "10.1.0.1" 6673; vhost = "10.1.0.2" 6674; port = 6675; };', 'Port { port = 6676; tls = no; tls ciphers = "ALL"; };'])

    def misc(self):
        r = self.r
        return r.choice([
            lambda: 'Motd { host = %s; file = %s; };' % (q(r.choice(["*.net", "10.0.0.1", "10.0.0.*", "Local", "Opers", "10.1.0.0/16"])), q(r.choice(["alt.motd", "none.motd", "ircd.motd"]))),
            lambda: 'Quarantine { %s = %s; };' % (q(r.choice(["#quar", "#q2", "&qloc"])), q(r.choice(["closed", "odd %s text"]))),
            lambda: 'Jupe { nick = %s; };' % q(r.choice(["jup1,jup2", "bot*", "a?b,c?d", "[x],y"])),
            lambda: 'Pseudo "%s" { name = "Svc%d"; nick = "Bot%d@services.test.net"; %s%s};' % (r.choice(["HELPME", "HELPME", "ASKME", "HELPMEB"]), r.randrange(2), r.randrange(2), self.maybe(.4, 'prepend = "ask "; '), self.maybe(.3, "fast; ")),
            lambda: 'CRULE { server = %s; rule = %s; %s};' % (q(r.choice(["*.test.net", "x.*"])), q(self.bad_rule() if self.faults and r.random() < .3 else self.rule()), self.maybe(.4, "all = %s; " % r.choice(["yes", "no"]))),
            lambda: 'WebIRC { ip = %s; password = %s; %s%s};' % (q(r.choice(["10.77.0.*", "10.77.0.1", "10.78.0.0/16"])), q(r.choice(["wp", "wq"])), self.maybe(.6, 'description = %s; ' % q(r.choice(["cgi", "gateway x"]))), self.maybe(.3, "hidden = yes; ")),
            lambda: 'UWorld { %s = %s; };' % (r.choice(["name", "oper"]), q(r.choice(["uw.test.net", "services.test.net", "uw2.test.net"]))),
            lambda: 'IPCheck { except %s; };' % " ".join(q(x) for x in self.some(["10.0.0.0/24", "10.1.0.1", "2001:db8::/32", "10.0.0.0/8"], 1, 3)),
            lambda: 'include %s;' % r.choice(['"inc.conf"', 'Jupe, Kill from "inc.conf"', 'Class from "inc.conf"', '"missing.conf"', 'Jupe, Kill, Class, Client, Features, Include from "inc.conf"', 'all from "inc.conf"']),
            lambda: 'IAuth { program = %s; };' % r.choice(['"/nonexistent/iauth"', '"/nonexistent/other" "-a"']),
            self.kill, self.port, self.connect,
        ])()

    def rule(self, depth=3):
        """A connection rule."""
        r = self.r
        x = r.random()
        if depth == 0 or x < .45:
            m = lambda: r.choice(["*", "*.test.net", "peer1.test.net", "peer?.test.net", "x.*", "s*.leaf.net", "services.test.net"])
            return r.choice([lambda: "connected(%s)" % m(), lambda: "directcon(%s)" % m(), lambda: "via(%s,%s)" % (m(), m()), lambda: "directop()"])()
        if x < .6:
            return "!" + self.rule(depth - 1)
        if x < .75:
            return "(%s)" % self.rule(depth - 1)
        return self.rule(depth - 1) + r.choice([" && ", "||", " || ", "&&"]) + self.rule(depth - 1)

    def bad_rule(self):
        r = self.r
        if r.random() < .5:
            t = self.rule()
            i = r.randrange(len(t))
            return t[:i] + r.choice(["", "&&", "||", "(", ")", "!", ",", "&", ";", ":", "a(", "x" * 90]) + t[i + r.choice([0, 1, 3]):]
        return r.choice(["", " "]).join(r.choice(["&&", "||", "(", ")", "!", ",", "|", "connected", "via", "directop", "(a,b)", "()", "*.net", "x", "connected(*)", ";", "a b", "(a,b,c,d,e,f)"]) for _ in range(r.randint(0, 9)))

    def feature_block(self):
        r = self.r
        o = []
        for k in self.some([x for x in FEATURES if x != "LOG"], 0, r.choice([3, 8, 20])):
            o.append('  "%s" = "%s";' % (k, r.choice(FEATURES[k])))
        if r.random() < .3:
            o.append("  " + r.choice(LOGS) + ";")
        r.shuffle(o)
        return "Features {\n" + "\n".join(o) + "\n};" if o else ""

    def build(self, faults=True):
        """Blocks of a well-formed configuration (without the fixed part)."""
        r = self.r
        self.faults = faults
        classes = ["Local"] + self.some(CLASSES[1:], 0, 3)
        if faults and r.random() < .08:
            classes.append("Ghost")                    # used but not defined
        o = [self.klass(c) for c in classes if c not in ("Local", "Ghost")]
        rest = [self.client(classes) for _ in range(r.randint(0, 4))]
        rest += [self.oper(classes) for _ in range(r.randint(0, 3))]
        rest += [self.misc() for _ in range(r.randint(0, 8))]
        rest += [self.feature_block() for _ in range(r.choice([0, 1, 1, 2]))]
        r.shuffle(rest)
        return [x for x in o + rest if x and (faults or not broken(x))]

    def mangle(self, text):
        """Something an operator might get wrong, or worse."""
        text = text.replace("BUFFERPOOL", "NOBUFPOOL")   # no memory is no defect
        r = self.r
        for _ in range(r.choice([1, 1, 2, 4])):
            x = r.random()
            if not text:
                break
            i = r.randrange(len(text))
            if x < .25:
                text = text[:i] + text[i + r.choice([1, 1, 5, 40, 300]):]
            elif x < .5:
                text = text[:i] + r.choice([";", "{", "}", '"', "=", "\n", "#", "}; ", '";', "/*", "*/", "\0", "\xff", " yes ", " 99999999999999 ", ' "" ', "tls", "-", "(", "include \"inc.conf\";", "x" * 1200,
                                            '"%s"' % ("y" * 900), "#" + "c" * 1100 + "\n", "Class", "password", 'CRULE { server = "*"; rule = "%s"; }; ' % self.bad_rule(), "5/0", "name = \"x\";"]) + text[i:]
            elif x < .7:
                j = r.randrange(len(text))
                text = text[:i] + text[j:j + r.choice([5, 30, 200])] + text[i:]
            elif x < .85:
                ws = text.split(" ")
                k = r.randrange(len(ws))
                ws[k] = r.choice([ws[r.randrange(len(ws))], '""', "0", '"a"', "name", ";"])
                text = " ".join(ws)
            else:
                text = text[:i]
        return text


INC = ['Jupe { nick = "incnick"; };\nKill { host = "10.55.*"; reason = "inc"; };\n', 'Class { name = "Slow"; pingfreq = 77; sendq = 50000; maxlinks = 9; };\nFeatures { "NICKLEN" = "7"; };\n', 'Client { ip = "10.55.*"; class = "Local"; };\n# last line without end',
       'include "inc2.conf";\nJupe { nick = "n2"; };\n']


