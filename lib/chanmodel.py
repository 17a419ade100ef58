"""Reference model of users and channels, at the level of what clients observe.

Every operation updates the model and appends, per user, the messages that user
must receive.  Nothing here looks at the server: the model is the specification
(RFC 1459/2812 as amended by doc/readme.* and the channel mode documentation).
"""
from ircutil import lower, glob, covers, cidr_match, pretty_mask, collapse

HIS = "*.undernet.org"
HIDDEN_HOST = "users.undernet.org"
MAXMODEPARAMS = 6
KEYLEN = 23
TOPICLEN = 160
NICKLEN = 12
CHANNELLEN = 200
SIMPLE = {"p", "s", "m", "t", "i", "n", "r", "D", "c", "C", "u", "M", "Z"}


class User:
    def __init__(self, idx, nick, user, ip, server):
        self.idx, self.nick, self.user, self.ip, self.server = idx, nick, user, ip, server
        self.host = ip
        self.away = self.away_remote = None
        self.modes = set()
        self.account = None
        self.alive = True
        self.invited = []
        self.silence = []

    @property
    def full(self):
        return "%s!%s@%s" % (self.nick, self.user, self.host)


class Memb:
    __slots__ = ("op", "voice", "delayed")

    def __init__(self, op=False, delayed=False):
        self.op, self.voice, self.delayed = op, False, delayed


class Chan:
    def __init__(self, name):
        self.name = name
        self.members = {}     # User -> Memb, insertion order
        self.modes = set()
        self.key = None
        self.limit = 0
        self.bans = []        # (mask, setter)
        self.topic = ""
        self.topic_who = None
        self.wasdel = False   # no longer +D, but some joins are still hidden

    def local(self):
        return self.name[0] == "&"


class Model:
    def __init__(self, maxchannels=20, maxbans=100, avbanlen=40):
        self.users = []
        self.chans = {}
        self.exp = {}
        self.maxchannels = maxchannels
        self.maxbans = maxbans
        self.avbanlen = avbanlen
        self.labels = set()

    # ---- helpers
    def emit(self, u, *t):
        if u.alive:
            self.exp.setdefault(u.idx, []).append(t)

    def num(self, u, code, *params):
        self.emit(u, "num", code, *params)

    def ckey(self, u, name):
        return lower(name) + ("@%d" % u.server if name[:1] == "&" else "")

    def find(self, u, name):
        return self.chans.get(self.ckey(u, name))

    def user(self, nick):
        for u in self.users:
            if u.alive and lower(u.nick) == lower(nick):
                return u
        return None

    def banned(self, u, ch):
        return any(self.mask_hits(m, u) for m, _ in ch.bans)

    def mask_hits(self, mask, u):
        i = mask.rindex("@")
        nu, host = mask[:i], mask[i + 1:]
        if not glob(nu, "%s!%s" % (u.nick, u.user)):
            return False
        hosts = [u.host, u.ip]
        if u.account:
            hosts.append("%s.%s" % (u.account, HIDDEN_HOST))
        return any(glob(host, h) for h in hosts) or cidr_match(host, u.ip)

    def silenced(self, src, dst):
        hit = any(not exc and self.mask_hits(mk, src) for exc, mk in dst.silence)
        spared = any(exc and self.mask_hits(mk, src) for exc, mk in dst.silence)
        if hit and spared:
            self.labels.add("silence-exception")
        return hit and not spared

    def silence(self, u, arg):
        """SILENCE with a list of changes; an exception is never covered by a plain mask"""
        o = self.user(arg)
        if o is not None:       # the nickname of a user asks for that user's list: only one's own is shown
            self.emit(u, "SILELIST", frozenset(("~" if e else "") + mk for e, mk in u.silence) if o is u else frozenset())
            return
        cur = [[e, mk, ""] for e, mk in u.silence]

        def cov(a, b):
            return (a[0] or not b[0]) and covers(a[1], b[1])

        for x in arg.split(","):
            if not x:
                continue
            add = x[0] != "-"
            if x[0] in "+-":
                x = x[1:]
            exc = x[:1] == "~"
            if exc:
                x = x[1:]
            new = [exc, collapse(pretty_mask(x)), "a"]
            if add:
                if any(cov(o, new) and "d" not in o[2] for o in cur):
                    continue
                for o in cur:
                    if cov(new, o):
                        o[2] += "d"
                cur.append(new)
            else:
                for o in cur:
                    if cov(new, o):
                        o[2] += "d"
        diff = frozenset(("-" if "d" in f else "+") + ("~" if e else "") + mk for e, mk, f in cur if f)
        if diff:
            self.emit(u, "SILENCE", diff)
        u.silence = [(e, mk) for e, mk, f in cur if "d" not in f]

    def silence_list(self, u):
        self.emit(u, "SILELIST", frozenset(("~" if e else "") + mk for e, mk in u.silence))

    def gone(self, ch):
        """remove the channel if nobody is left"""
        if not ch.members:
            for k in [k for k, v in self.chans.items() if v is ch]:
                del self.chans[k]
            for u in self.users:
                if ch in u.invited:
                    u.invited.remove(ch)

    def bcast(self, ch, *t, skip=None):
        for m in list(ch.members):
            if m is not skip:
                self.emit(m, *t)

    def reveal(self, u, ch):
        m = ch.members.get(u)
        if m and m.delayed:
            m.delayed = False
            self.labels.add("reveal")
            self.bcast(ch, "JOIN", u.full, ch.name, skip=u)
            self.check_delayed(ch)

    def check_delayed(self, ch):
        if ch.wasdel and not any(m.delayed for m in ch.members.values()):
            ch.wasdel = False
            self.labels.add("wasdel-cleared")
            self.bcast(ch, "MODE", HIS, ch.name, frozenset([("-", "d", None)]))

    def can_send(self, u, ch):
        m = ch.members.get(u)
        if m:
            if m.op or m.voice:
                return True
            if "m" in ch.modes:
                return False
        elif "n" in ch.modes or "m" in ch.modes:
            return False
        if "Z" in ch.modes:
            return False
        if ch.modes & {"r", "M"} and not u.account:
            return False
        return not self.banned(u, ch)

    def names(self, asker, ch, visible_only=False, delayed=False):
        out = set()
        for u, m in ch.members.items():
            if visible_only and "i" in u.modes:
                continue
            if m.delayed and u is not asker:
                continue
            out.add(("@" if m.op else "+" if m.voice else "") + u.nick)
        return out

    def names_reply(self, u, ch, typed):
        member = u in ch.members
        sym = "@" if "s" in ch.modes else "*" if "p" in ch.modes else "="
        if member or not ch.modes & {"s", "p"}:
            self.emit(u, "NAMES", ch.name, sym, frozenset(self.names(u, ch, not member)))
        # hidden: nothing at all is said about it

    # ---- operations
    def join(self, u, arg, key=None):
        keys = key.split(",") if key else []
        for name in arg.split(","):
            if not name:
                continue
            k = keys.pop(0) if keys else None
            if k == "":
                k = None
            if name[0] not in "#&" or any(c in name for c in "\x07"):
                self.num(u, "403", name)
                continue
            if sum(1 for c in self.chans.values() if u in c.members) >= self.maxchannels:
                self.num(u, "405", name)
                break
            ch = self.find(u, name)
            if ch is None:
                if len(name) > CHANNELLEN:
                    self.num(u, "403", name)
                    continue
                ch = Chan(name)
                self.chans[self.ckey(u, name)] = ch
                ch.members[u] = Memb(op=True)
                self.emit(u, "JOIN", u.full, ch.name)
            elif u in ch.members:
                continue
            else:
                err = None
                if ch in u.invited:
                    self.labels.add("join-invited")
                elif "i" in ch.modes:
                    err = "473"
                elif ch.limit and len(ch.members) >= ch.limit:
                    err = "471"
                elif "r" in ch.modes and not u.account:
                    err = "477"
                elif self.banned(u, ch):
                    err = "474"
                elif ch.key and k != ch.key:
                    err = "475"
                elif "Z" in ch.modes:
                    err = "489"
                if err:
                    self.labels.add("join-denied-" + err)
                    self.num(u, err, ch.name)
                    continue
                d = "D" in ch.modes
                ch.members[u] = Memb(delayed=d)
                if d:
                    self.labels.add("join-delayed")
                    self.emit(u, "JOIN", u.full, ch.name)
                else:
                    self.bcast(ch, "JOIN", u.full, ch.name)
            if ch in u.invited:
                u.invited.remove(ch)
            if ch.topic:
                self.num(u, "332", ch.name, ch.topic)
                self.num(u, "333", ch.name, ch.topic_who)
            self.names_reply(u, ch, name)

    def remote_join(self, u, ch):
        """a join its own server has decided on"""
        d = "D" in ch.modes
        ch.members[u] = Memb(delayed=d)
        if not d:
            self.bcast(ch, "JOIN", u.full, ch.name, skip=u)
        if ch in u.invited:
            u.invited.remove(ch)

    def server_mode(self, v, ch, what):
        """operator or voice status given or taken by a server"""
        attr = "op" if what[1] == "o" else "voice"
        if getattr(ch.members[v], attr) == (what[0] == "+"):
            return
        if what[0] == "+":
            self.reveal(v, ch)
        setattr(ch.members[v], attr, what[0] == "+")
        self.bcast(ch, "MODE", HIS, ch.name, frozenset([(what[0], what[1], v.nick)]))

    def drop_member(self, u, ch):
        m = ch.members.pop(u)
        if m.delayed:
            self.check_delayed(ch)
        self.gone(ch)

    def part(self, u, name, msg=None):
        ch = self.find(u, name)
        if ch is None:
            self.num(u, "403", name)
            return
        m = ch.members.get(u)
        if m is None:
            self.num(u, "442", ch.name)
            return
        if msg:
            color = any(c in msg for c in "\x03\x1b")
            if not self.can_send(u, ch) or ("c" in ch.modes and color) or "u" in ch.modes:
                self.labels.add("part-msg-hidden")
                msg = None
        t = ("PART", u.full, ch.name, msg or None)
        if m.delayed:
            self.emit(u, *t)
        else:
            self.bcast(ch, *t)
        self.drop_member(u, ch)

    def part_all(self, u):
        """JOIN 0"""
        for ch in [c for c in self.chans.values() if u in c.members]:
            m = ch.members[u]
            msg = "Left all channels"       # a fixed text, so never hidden
            t = ("PART", u.full, ch.name, msg)
            if m.delayed:
                self.emit(u, *t)
            else:
                self.bcast(ch, *t)
            self.drop_member(u, ch)

    def kick(self, u, name, victim, comment=None):
        ch = self.find(u, name)
        if ch is None:
            self.num(u, "403", name)
            return
        m = ch.members.get(u)
        if m is None or not m.op:
            self.labels.add("kick-denied")
            self.num(u, "482", name)
            return
        v = self.user(victim)
        if v is None:
            self.num(u, "401", victim)
            return
        if "k" in v.modes:
            self.num(u, "484", v.nick, ch.name)
            return
        if ch.local() and v.server != u.server:
            self.num(u, "498", v.nick, ch.name)
            return
        vm = ch.members.get(v)
        if vm is None:
            self.num(u, "441", v.nick, ch.name)
            return
        t = ("KICK", u.full, ch.name, v.nick, comment if comment is not None and comment != "" else victim_default(u, v, comment))
        self.labels.add("kick")
        if vm.delayed:
            self.emit(v, *t)
            if v is not u:
                self.emit(u, "JOIN", v.full, ch.name)
            self.emit(u, *t) if v is not u else None
        else:
            self.bcast(ch, *t)
        self.drop_member(v, ch)

    def topic(self, u, name, text=None):
        ch = self.find(u, name) if name[:1] in ("#", "&") else None
        if ch is None:
            self.num(u, "403", name)
            return
        m = ch.members.get(u)
        if (text is not None or "s" in ch.modes) and m is None:
            self.num(u, "442", ch.name)
            return
        if text is None:
            if ch.topic:
                self.num(u, "332", ch.name, ch.topic)
                self.num(u, "333", ch.name, ch.topic_who)
            else:
                self.num(u, "331", ch.name)
            return
        if "t" in ch.modes and not m.op:
            self.labels.add("topic-denied")
            self.num(u, "482", ch.name)
            return
        if not self.can_send(u, ch):
            self.labels.add("topic-denied")
            self.num(u, "404", ch.name)
            return
        if not (m.op or m.voice):
            self.reveal(u, ch)     # speaking reveals
        new = text[:TOPICLEN]
        # servers compare case-insensitively
        changed = new != ch.topic
        ch.topic = new
        ch.topic_who = u.nick
        if changed:
            self.labels.add("topic-set")
            self.reveal(u, ch)
            self.bcast(ch, "TOPIC", u.full, ch.name, new)
        else:
            self.emit(u, "TOPIC", u.full, ch.name, new)

    def invite(self, u, nick, name):
        v = self.user(nick)
        if v is None:
            self.num(u, "401", nick)
            return
        if self.unauth_block(u, v):
            self.num(u, "477", v.nick)
            return
        sil = self.silenced(u, v)
        if sil and v.server == u.server:
            return

        def num(*t):
            # the inviter's server may not know yet that the invited user silences the inviter
            self.emit(u, "opt", ("num",) + t) if sil else self.num(u, *t)

        ch = self.find(u, name) if name[:1] in ("#", "&") else None
        if ch is None:
            return num("403", name)
        m = ch.members.get(u)
        if m is None:
            return num("442", ch.name)
        if v in ch.members:
            return num("443", v.nick, ch.name)
        if not m.op:
            return num("482", ch.name)
        num("341", v.nick, ch.name)
        if v.away:
            num("301", v.nick, v.away if v.server == u.server else v.away_remote)
        if sil:
            return
        if not ch.local() or v.server == u.server:
            if ch in v.invited:
                v.invited.remove(ch)
            v.invited.append(ch)
            self.labels.add("invite")
            self.emit(v, "INVITE", u.full, v.nick, ch.name)

    def nick(self, u, new):
        typed = new
        new = new[:NICKLEN].split("~")[0]
        if new[:1] == "-" or new[:1].isdigit():
            new = ""
        for i, x in enumerate(new):         # an invalid character ends the nickname
            if x not in NICKCHARS:
                new = new[:i]
                break
        if not new:
            self.num(u, "432", typed)
            return
        o = self.user(new)
        if o is not None and o is not u:
            self.labels.add("nick-in-use")
            self.num(u, "433", new)
            return
        if o is u and new == u.nick:
            return
        for ch in self.chans.values():
            m = ch.members.get(u)
            if m is None or m.op or m.voice:
                continue
            if "m" in ch.modes or (ch.modes & {"r", "M"} and not u.account) or self.banned(u, ch):
                self.labels.add("nick-denied-channel")
                self.emit(u, "num437")      # which of several channels is named is unspecified
                return
        t = ("NICK", u.full, new)
        self.to_common(u, *t, me=True)
        u.nick = new

    def to_common(self, u, *t, me=False):
        seen = set()
        for ch in self.chans.values():
            m = ch.members.get(u)
            if m is None or m.delayed:
                continue
            seen |= set(ch.members)
        seen.discard(u)
        if me:
            seen.add(u)
        for x in seen:
            self.emit(x, *t)

    def quit(self, u, msg=None):
        hidden = False
        for ch in self.chans.values():
            m = ch.members.get(u)
            if m is None or m.delayed:
                continue
            if not self.can_send(u, ch) or "u" in ch.modes:
                hidden = True
        reason = "Signed off" if hidden else ("Quit: " + msg if msg else "Quit")
        if hidden and msg:
            self.labels.add("quit-msg-hidden")
        self.vanish(u, reason)

    def vanish(self, u, reason):
        self.to_common(u, "QUIT", u.full, reason)
        u.alive = False
        for ch in [c for c in self.chans.values() if u in c.members]:
            self.drop_member(u, ch)
        u.invited = []
        u.away = None
        u.account = None
        u.modes = set()
        u.silence = []
        u.host = u.ip

    def away(self, u, msg=None):
        if msg:
            # other servers only hear of the first message of an absence
            if not u.away:
                u.away_remote = msg[:160]
            u.away = msg[:160]
            self.num(u, "306")
        else:
            u.away = None
            self.num(u, "305")

    def umode(self, u, change):
        """one of + or - with letters among i d R c (no privileges needed)"""
        s, done = change[0], []
        for l in change[1:]:
            if s == "+" and l not in u.modes:
                u.modes.add(l)
                done.append(("+", l))
            elif s == "-" and l in u.modes:
                u.modes.discard(l)
                done.append(("-", l))
        if done:
            self.emit(u, "UMODE", frozenset(done))

    def unauth_block(self, u, v):
        return "R" in v.modes and u is not v and "k" not in u.modes and "o" not in u.modes and not u.account

    def common_block(self, u, v):
        if "c" not in v.modes or u is v or u.modes & {"k", "o"}:
            return False
        for ch in self.chans.values():
            a = ch.members.get(u)
            if a and not a.delayed and v in ch.members:
                return False
        return True

    def msg(self, u, cmd, targets, text):
        seen = set()
        for tgt in targets.split(","):
            if not tgt or lower(tgt) in seen:
                continue
            seen.add(lower(tgt))
            if tgt[0] in "#&":
                self.msg_chan(u, cmd, tgt, text)
            else:
                self.msg_user(u, cmd, tgt, text)

    def msg_chan(self, u, cmd, name, text):
        ch = self.find(u, name)
        loud = cmd == "PRIVMSG"
        if ch is None:
            if loud:
                self.num(u, "403", name)
            return
        if not self.can_send(u, ch):
            self.labels.add("speech-denied")
            if loud:
                self.num(u, "404", ch.name)
            return
        if "c" in ch.modes and any(c in text for c in "\x03\x1b"):
            self.labels.add("speech-denied-c")
            self.num(u, "404", ch.name)
            return
        if "C" in ch.modes and "\x01" in text and not lower(text).startswith("\x01action "):
            self.labels.add("speech-denied-C")
            self.num(u, "404", ch.name)
            return
        self.reveal(u, ch)
        for m in ch.members:
            if m is u:
                continue
            if "d" in m.modes:
                self.labels.add("deaf-skip")
                continue
            self.emit(m, cmd, u.full, ch.name, text)
            self.labels.add("speech-delivered")

    def msg_user(self, u, cmd, nick, text):
        loud = cmd == "PRIVMSG"
        v = self.user(nick)
        if v is None:
            if loud:
                self.num(u, "401", nick)
            return
        if self.unauth_block(u, v):
            self.labels.add("pm-block-R")
            if loud:
                self.num(u, "477", v.nick)
            return
        if self.silenced(u, v):
            self.labels.add("pm-silenced")
            if loud and v.away and v.server != u.server:
                # the sender's server may not know yet that the addressee silences the sender
                self.emit(u, "opt", ("num", "301", v.nick, v.away_remote))
            return
        if self.common_block(u, v):
            self.labels.add("pm-block-c")
            return
        if loud and v.away:
            self.num(u, "301", v.nick, v.away if v.server == u.server else v.away_remote)
            self.labels.add("pm-away")
        self.emit(v, cmd, u.full, v.nick, text)
        self.labels.add("pm-delivered")

    def wall(self, u, which, name, text):
        """WALLCHOPS / WALLVOICES"""
        ch = self.find(u, name) if name[:1] in ("#", "&") else None
        if ch is None:
            self.num(u, "403", name)
            return
        if not self.can_send(u, ch):
            self.num(u, "404", name)
            return
        self.reveal(u, ch)
        for m, st in ch.members.items():
            if m is u or "d" in m.modes:
                continue
            if st.op or (which == "WALLVOICES" and st.voice):
                self.emit(m, "NOTICE", u.full, "@" + ch.name, ("@ " if which == "WALLCHOPS" else "+ ") + text)
                self.labels.add("wall-delivered")

    def mode_query(self, u, name):
        ch = self.find(u, name)
        if ch is None:
            self.num(u, "403", name)
            return
        m = ch.members.get(u)
        params = []
        modes = set(ch.modes)
        if ch.wasdel:
            modes.add("d")
        if ch.limit:
            modes.add("l")
            params.append(str(ch.limit))
        if ch.key:
            modes.add("k")
            params.append(ch.key if m and m.op else "*")
        self.emit(u, "MODEIS", ch.name, frozenset(modes), tuple(params))

    def ban_list(self, u, name):
        ch = self.find(u, name)
        if ch is None:
            self.num(u, "403", name)
            return
        self.emit(u, "BANS", ch.name, frozenset((m, w) for m, w in ch.bans))

    def mode(self, u, name, modestr, args=()):
        ch = self.find(u, name) if name[:1] in ("#", "&") else None
        if ch is None:
            self.num(u, "403", name)
            return
        me = ch.members.get(u)
        allowed = bool(me and me.op)
        noperm = None if allowed else ("482" if me else "442")
        told = [False]
        args = list(args)
        changes = []          # (sign, letter, arg)
        add, rem = set(), set()
        sign = "+"
        left = MAXMODEPARAMS
        done = set()
        clients = []          # [sign, letter, user]
        bans = [list(b) + [None] for b in ch.bans]   # [mask, who, state]
        newbans = []
        listed = False

        def deny():
            if not told[0]:
                told[0] = True
                self.labels.add("mode-denied")
                self.num(u, noperm, ch.name)

        while modestr:
            for c in modestr:
                if c in "+-":
                    sign = c
                elif c == "l":
                    lim = None
                    if sign == "+":
                        if left <= 0:
                            continue
                        if not args:
                            self.num(u, "461", "MODE", "+l")
                            continue
                        lim = to_ulong(args.pop(0))
                        left -= 1
                        if lim >= 1 << 31 or lim == 0 or lim == ch.limit:
                            continue
                    if not allowed:
                        deny()
                        continue
                    if sign == "-" and not ch.limit:
                        continue
                    if "l" in done:
                        continue
                    done.add("l")
                    if sign == "+":
                        ch.limit = lim
                        changes.append(("+", "l", str(lim)))
                    else:
                        ch.limit = 0
                        changes.append(("-", "l", None))
                elif c == "k":
                    if left <= 0:
                        continue
                    if not args:
                        self.num(u, "461", "MODE", sign + "k")
                        continue
                    k = args.pop(0)
                    left -= 1
                    if not allowed:
                        deny()
                        continue
                    if sign == "+":
                        if "k+" in done:
                            continue
                        done.add("k+")
                    else:
                        if "k+" in done or "k-" in done:
                            continue
                        done.add("k-")
                    if k == "":
                        self.num(u, "461", "MODE", sign + "k")
                        continue
                    if k[0] == ":" or len(k) > KEYLEN or any(ord(x) <= 32 or x == "," for x in k):
                        self.num(u, "525", ch.name)
                        continue
                    if (sign == "+" and ch.key) or (sign == "-" and lower(ch.key or "") != lower(k)):
                        self.num(u, "467", ch.name)
                        continue
                    changes.append((sign, "k", k))
                    ch.key = k if sign == "+" else None
                elif c == "b":
                    if not args:
                        if not listed:
                            listed = True
                            # changes of this very command are still pending: old and new are both listed
                            self.emit(u, "BANS", ch.name, frozenset((b[0], b[1]) for b in bans))
                        continue
                    if left <= 0:
                        continue
                    b = args.pop(0)
                    left -= 1
                    if not allowed:
                        deny()
                        continue
                    b = b.split(" ")[0]
                    if b == "" or b[0] == ":":
                        self.num(u, "461", "MODE", sign + "b")
                        continue
                    mask = collapse(pretty_mask(b))
                    self.apply_ban(bans, newbans, sign, mask, u.nick)
                elif c in "ov":
                    if left <= 0 or not args:
                        continue
                    n = args.pop(0)
                    left -= 1
                    if not allowed:
                        deny()
                        continue
                    n = n.split(":")[0]
                    v = self.user(n)
                    if v is None:
                        self.num(u, "401", n)
                        continue
                    for e in clients:
                        if e[2] is v and e[1] == c:
                            e[0] = sign
                            break
                    else:
                        clients.append([sign, c, v])
                elif c in SIMPLE or c == "R":
                    if not allowed:
                        deny()
                        continue
                    if c == "R":
                        continue
                    if sign == "+":
                        add.add(c)
                        rem.discard(c)
                        if c == "s":
                            add.discard("p")
                            rem.add("p")
                        elif c == "p":
                            add.discard("s")
                            rem.add("s")
                    else:
                        add.discard(c)
                        rem.add(c)
                elif c in "AU":
                    continue       # only with OPLEVELS
                else:
                    self.num(u, "472", c)
            if args and left > 0:
                modestr = args.pop(0)
            else:
                break
        if not allowed:
            return
        for c in rem & ch.modes:
            changes.append(("-", c, None))
        for c in add - ch.modes:
            changes.append(("+", c, None))
        if "i" in ch.modes and "i" in rem:
            for x in self.users:
                if ch in x.invited:
                    x.invited.remove(ch)
                    self.labels.add("invite-cleared")
        ch.modes = (ch.modes - rem) | add
        self.process_bans(u, ch, bans, newbans, changes)
        for s, l, v in clients:
            m = ch.members.get(v)
            if m is None:
                self.num(u, "441", v.nick, ch.name)
                continue
            attr = "op" if l == "o" else "voice"
            if getattr(m, attr) == (s == "+"):
                continue
            if l == "o" and s == "-" and "k" in v.modes:
                self.num(u, "484", v.nick, ch.name)
                continue
            if s == "+":
                self.reveal(v, ch)
            setattr(m, attr, s == "+")
            changes.append((s, l, v.nick))
        if ("-", "D", None) in changes and any(m.delayed for m in ch.members.values()):
            ch.wasdel = True
            self.labels.add("wasdel")
            changes.append(("+", "d", None))
        if ("+", "D", None) in changes and ch.wasdel:
            ch.wasdel = False
            changes.append(("-", "d", None))
        if changes:
            self.labels.add("mode-changed")
            self.bcast(ch, "MODE", u.full, ch.name, frozenset(changes))

    @staticmethod
    def apply_ban(bans, newbans, sign, mask, who):
        """bans entries: [mask, who, state]; state None, 'del', 'add', 'add+del'"""
        if sign == "+":
            for b in bans:
                if covers(b[0], mask) and "del" not in (b[2] or ""):
                    return
            for b in bans:
                if covers(mask, b[0]):
                    b[2] = "add+del" if b[2] and "add" in b[2] else "del"
            bans.append([mask, who, "add"])
        else:
            for b in bans:
                if covers(mask, b[0]):
                    b[2] = "add+del" if b[2] and "add" in b[2] else "del"

    def process_bans(self, u, ch, bans, newbans, changes):
        keep = []
        count = 0
        length = 0
        for b in bans:
            count += 1
            length += len(b[0])
            st = b[2] or ""
            if st == "add+del":
                count -= 1
                length -= len(b[0])
                continue
            if st == "del":
                changes.append(("-", "b", b[0]))
                count -= 1
                length -= len(b[0])
                continue
            if st == "add":
                if length > self.avbanlen * self.maxbans or count > self.maxbans:
                    self.labels.add("banlist-full")
                    self.num(u, "478", ch.name, b[0])
                    count -= 1
                    length -= len(b[0])
                    continue
                changes.append(("+", "b", b[0]))
                self.labels.add("ban-set")
            keep.append((b[0], b[1]))
        ch.bans = keep


def victim_default(u, v, comment):
    return u.nick


def to_ulong(s):
    """strtoul(s, 0, 10) cut to 32 bits"""
    t = s.lstrip(" \t\n\v\f\r")
    neg = False
    if t[:1] in "+-" and t[:1]:
        neg = t[0] == "-"
        t = t[1:]
    d = ""
    for c in t:
        if c.isdigit() and c in "0123456789":
            d += c
        else:
            break
    v = int(d) if d else 0
    if v >= 1 << 64:
        v = (1 << 64) - 1
    elif neg:
        v = (-v) & ((1 << 64) - 1)
    return v & 0xffffffff


NICKCHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789[]\\`_^{}|-"
