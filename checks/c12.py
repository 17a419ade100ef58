"""Wildcard masks and address masks against reference semantics."""
import ctypes, ipaddress, re
from unit import Bad, Guard, UnitCheck

PROP = {
    "id": "C12",
    "title": "Masks match exactly what their wildcards and prefix lengths say",
    "statement": "A wildcard mask matches a string exactly if '*' can stand for any run of characters, '?' for one, a backslash for the literal next character, and everything "
                 "else for itself up to RFC 1459 case; the compiled form used by WHO, server-name lookup and realname G-lines agrees with the direct form; collapsing a mask "
                 "does not change what it matches; one mask is taken to cover another (and displaces it) only if everything the second matches is matched by the first, and always when it "
                 "is a plain generalisation of it; a mask CIDR matches exactly the addresses with its prefix, and an address or mask text is read as the address it denotes. No mask reads past its end.",
    "quantifier": {"over": ["inputs"], "text": "all masks and strings over letters, wildcards, escapes, RFC 1459 punctuation and 8-bit characters, all IPv4/IPv6 addresses, prefixes and their text forms"},
    "why_tests_cant": "The matcher backtracks; the unit tests list a few dozen pairs, and errors sit in combinations of stars, escapes and suffixes nobody listed.",
    "anchors": {
        "files": ["ircd/match.c", "ircd/ircd_string.c", "ircd/channel.c", "ircd/gline.c", "ircd/m_who.c"],
        "mechanism": [{"name": "matchers", "where": "ircd/match.c match(), mmatch(), collapse(), matchcomp(), matchexec(), ipmask_check()"},
                      {"name": "address text", "where": "ircd/ircd_string.c ipmask_parse()"}],
        "observe_at": ["return values", "memory beyond the strings (guard pages)"],
    },
}
TECHNIQUE = "property-based testing of the matchers against a reference automaton, exact language inclusion and Python's ipaddress; strings end at guard pages"

LOW = {chr(c): chr(c + 32) for c in range(65, 91)}
LOW.update({"[": "{", "]": "}", "\\": "|", "~": "^"})
LOW.update({chr(c): chr(c + 32) for c in range(0xC0, 0xDF) if c != 0xD7})


def low(c):
    return LOW.get(c, c)


def toks(m):
    r, i = [], 0
    while i < len(m):
        c = m[i]
        if c == "\\":
            # the escaped character matches itself only, in this case; a mask ending in a backslash matches nothing
            r.append(("x", m[i + 1]) if i + 1 < len(m) else ("never", ""))
            i += 2
            continue
        r.append(("*", "") if c == "*" else ("?", "") if c == "?" else ("l", low(c)))
        i += 1
    return r


def step(t, S, c):
    """positions after reading c"""
    nx = set()
    for i in S:
        if i == len(t):
            continue
        k, v = t[i]
        if k == "*":
            nx.add(i)
        elif k == "?" or (k == "x" and c == v) or (k == "l" and low(c) == v):
            nx.add(i + 1)
    return close(t, nx)


def close(t, S):
    S = set(S)
    for i in range(len(t)):
        if i in S and t[i][0] == "*":
            S.add(i + 1)
    return frozenset(S)


def ref(m, s):
    t = toks(m)
    S = close(t, {0})
    for c in s:
        S = step(t, S, c)
        if not S:
            return False
    return len(t) in S


def included(old, new, limit=4000):
    """None if every string new matches is matched by old, else a string that is not"""
    to, tn = toks(old), toks(new)
    alpha = []
    for k, v in to + tn:
        if v:
            alpha += [v] + [a for a in LOW if LOW[a] == v][:1]
    alpha = sorted(set(alpha)) + ["\x01"]
    start = (close(tn, {0}), close(to, {0}))
    seen = {start}
    todo = [(start, "")]
    while todo:
        (sn, so), w = todo.pop()
        if len(tn) in sn and len(to) not in so:
            return w
        for c in alpha:
            n = step(tn, sn, c)
            if n:
                nxt = (n, step(to, so, c))
                if nxt not in seen:
                    if len(seen) > limit:
                        return None
                    seen.add(nxt)
                    todo.append((nxt, w + c))
    return None


def plain(old, new):
    """old generalises new character by character ('*' in new only under '*' in old)"""
    to, tn = toks(old), toks(new)
    S = close(to, {0})
    for k, v in tn:
        nx = set()
        for i in S:
            if i == len(to):
                continue
            ko, vo = to[i]
            if ko == "*":
                nx.add(i)
            elif ko == "?" and k != "*":
                nx.add(i + 1)
            elif (ko, vo) == (k, v) and k != "*":
                nx.add(i + 1)
        S = close(to, nx)
    return len(to) in S


ALPH = ["ab*?", "aAb*?[{", "ab*?\\", "ab*?\\*|", "abc.*", "aB\xe9\xc9*?", "ab*", "a*?", "~^_*?a", "abcdefgh.-@!*?"]


def gmask(rng):
    al = rng.choice(ALPH)
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 20])
    return "".join(rng.choice(al) for _ in range(n))


def instance(rng, m, noise=.1):
    s = ""
    for k, v in toks(m):
        if k == "*":
            s += "".join(rng.choice("abAB*?{|\\.") for _ in range(rng.choice([0, 0, 1, 2, 4])))
            if rng.random() < .3:       # decoys: the literal after the star, again
                s += "".join(v for k, v in toks(m)[-3:])
        elif k == "?":
            s += rng.choice("abAB*?{|\\")
        elif k == "x":
            s += v if rng.random() > noise else rng.choice("abAB*?")
        elif k == "l":
            up = [a for a in LOW if LOW[a] == v]
            s += rng.choice([v] + up) if rng.random() > noise else rng.choice("abAB*?")
    if rng.random() < .35 and s:
        i = rng.randrange(len(s))
        s = s[:i] + rng.choice(["", "a", "*", s[i:i + 2] * 2]) + s[i + 1:]
    return s[:60]


def gen_addr(rng):
    if rng.random() < .5:
        a = [0, 0, 0, 0, 0, 0xffff, rng.choice([0x0a00, 0xc0a8, rng.randrange(1, 65536)]), rng.randrange(65536)]
    else:
        a = [rng.choice([0, 0, 1, 0xffff, 0x2001, rng.randrange(65536), (1 << rng.choice([4, 8, 12, rng.randrange(16)])) - rng.randrange(2), rng.randrange(256)]) for _ in range(8)]
    return a


def addr_bytes(a):
    return b"".join(x.to_bytes(2, "big") for x in a)


def is4(a):
    return not any(a[:5]) and (a[5] == 0xffff or (a[5] == 0 and a[6] != 0))


def text_of(rng, a):
    """One of the ways to write the address down."""
    b = addr_bytes(a)
    if is4(a) and a[5] == 0xffff and rng.random() < .7:
        return ".".join(map(str, b[12:]))
    r = rng.random()
    ip = ipaddress.IPv6Address(b)
    if r < .3:
        t = ip.compressed
    elif r < .5:
        t = ip.exploded
    elif r < .7:
        t = ":".join("%x" % x for x in a)
    elif r < .85 and any(x == 0 for x in a):
        # '::' at any run, not only the longest
        i = rng.choice([i for i in range(8) if a[i] == 0])
        j = i
        while j < 8 and a[j] == 0 and rng.random() < .8:
            j += 1
        j = max(j, i + 1)
        t = ":".join("%x" % x for x in a[:i]) + "::" + ":".join("%x" % x for x in a[j:])
    else:
        t = ":".join("%x" % x for x in a[:6]) + ":" + ".".join(map(str, b[12:]))
    return rng.choice([t, t.upper(), t.lower()])


class CHECK(UnitCheck):
    RULE = "at least one mask with a wildcard or escape matched and one did not"
    QUICK, THOROUGH = 8000, 400000
    WORKERS = 8

    def setup(self, L):
        for f in ("match", "mmatch"):
            getattr(L, f).argtypes = [ctypes.c_void_p, ctypes.c_void_p]
        L.collapse.argtypes = [ctypes.c_void_p]
        L.collapse.restype = ctypes.c_void_p
        L.matchcomp.argtypes = [ctypes.c_void_p] * 4
        L.matchexec.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int]
        L.ipmask_parse.argtypes = [ctypes.c_void_p] * 3
        L.ipmask_check.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_ubyte]

    def gen(self, rng, i, tier):
        ops = []
        for _ in range(rng.randint(5, 40)):
            r = rng.random()
            if r < .45:
                m = gmask(rng)
                ops.append(["match", m, [instance(rng, m) for _ in range(rng.randint(1, 4))]])
            elif r < .7:
                new = gmask(rng)
                old = gmask(rng)
                if rng.random() < .7:
                    old = ""
                    j = 0
                    while j < len(new):
                        c = new[j]
                        if c == "\\":
                            c = new[j:j + 2]
                        x = rng.random()
                        old += "*" if x < .2 else "?" if x < .3 else "*" + c if x < .37 else "" if x < .4 else c
                        j += len(c)
                ops.append(["cover", old, new])
            elif r < .85:
                a = gen_addr(rng)
                ops.append(["parse", text_of(rng, a), a, rng.choice([None, None, rng.randint(0, 32 if is4(a) else 128)])])
            elif r < .97:
                a = gen_addr(rng)
                bits = rng.randint(0, 128)
                b = list(a)
                for _ in range(rng.choice([0, 1, 1, 2])):
                    k = rng.choice([bits - 1, bits, rng.randrange(128)])
                    k = min(max(k, 0), 127)
                    b[k // 16] ^= 0x8000 >> (k % 16)
                ops.append(["cidr", a, b, bits])
            else:
                t = text_of(rng, gen_addr(rng))
                for _ in range(rng.randint(1, 4)):
                    j = rng.randint(0, len(t))
                    t = t[:j] + rng.choice([":", "::", ".", "/", "*", "f", "9", "", "/24", ".*", ":*", "x"]) + t[j + rng.choice([0, 1, 2]):]
                ops.append(["junk", t])
        return {"ops": ops}

    def eval(self, L, case):
        g1, g2, g3 = Guard(), Guard(), Guard()
        n = yes = no = 0
        labels = set()
        ml, cs = ctypes.c_int(), ctypes.c_int()
        for op in case["ops"]:
            k = op[0]
            if k == "match":
                m = op[1]
                esc = any(m[i] == "\\" and (i + 1 == len(m) or m[i + 1] not in "*?") for i in range(len(m)) if (len(m[:i + 1]) - len(m[:i + 1].rstrip("\\"))) % 2)
                for s in op[2]:
                    want = ref(m, s)
                    got = L.match(g1.s(m), g2.s(s)) == 0
                    n += 1
                    if got != want:
                        raise Bad("match(%r, %r) says %s" % (m, s, "match" if got else "no match"), "match")
                    if want and ("*" in m or "?" in m or "\\" in m):
                        yes += 1
                    elif not want:
                        no += 1
                    labels.add("match-%s" % want)
                    if not esc:         # the compiled form knows escapes of wildcards only
                        room = g3.room(len(m) + 1)
                        L.matchcomp(room, ctypes.byref(ml), ctypes.byref(cs), g1.s(m))
                        if not g3.intact():
                            raise Bad("matchcomp(%r) wrote before its buffer" % m, "comp")
                        got = L.matchexec(g2.s(s), room, ml.value) == 0
                        n += 1
                        if got != want:
                            raise Bad("matchexec of compiled %r on %r says %s" % (m, s, "match" if got else "no match"), "exec")
                        labels.add("exec")
                    c = g3.s(m)
                    c = g3.str(L.collapse(c))
                    n += 1
                    if ref(c, s) != want:
                        raise Bad("collapse(%r) = %r changes whether %r matches" % (m, c, s), "collapse")
            elif k == "cover":
                _, old, new = op
                if any(m[i] == "\\" and (i + 1 == len(m) or m[i + 1] not in "*?") for m in (old, new) for i in range(len(m))):
                    # mmatch reads '\x' for other x as two characters: it is used on masks that IRC users made from nicks, where '\' is a letter
                    L.mmatch(g1.s(old), g2.s(new))
                    continue
                o, w = g1.str(L.collapse(g1.s(old))), g2.str(L.collapse(g2.s(new)))
                got = L.mmatch(g1.s(o), g2.s(w)) == 0
                n += 1
                labels.add("cover-%s" % got)
                if got:
                    x = included(o, w)
                    if x is not None:
                        raise Bad("mmatch(%r, %r) claims the first covers the second, but only the second matches %r" % (o, w, x), "mmatch")
                elif plain(o, w):
                    raise Bad("mmatch(%r, %r) does not see that the first generalises the second" % (o, w), "mmatch2")
            elif k in ("parse", "junk"):
                t = op[1]
                bits = None
                if k == "parse" and op[3] is not None:
                    if "." in t and ":" in t:
                        bits = None
                    else:
                        bits = op[3] if ":" not in t or not is4(op[2]) else op[3] + 96 if op[3] <= 32 else 128
                        t += "/%d" % bits
                out = g2.room(17)
                r = L.ipmask_parse(g1.s(t), out, out + 16)
                n += 1
                if not g2.intact():
                    raise Bad("ipmask_parse(%r) wrote before its buffer" % t, "parse")
                if k == "junk":
                    if r > len(t) or r < 0:
                        raise Bad("ipmask_parse(%r) used %d characters" % (t, r), "parse")
                    try:
                        want = ipaddress.ip_address(t)
                    except ValueError:
                        continue
                    got = g2.bytes(out, 16)
                    wb = want.packed if want.version == 6 else b"\0" * 10 + b"\xff\xff" + want.packed
                    if not re.match(r"^[0-9a-fA-F:.]+$", t):
                        continue
                    if r != len(t) or got != wb:
                        raise Bad("ipmask_parse(%r) = %s (used %d)" % (t, got.hex(), r), "parse")
                    continue
                got = g2.bytes(out, 17)
                wb = 128 if bits is None else bits if ":" in t else bits + 96
                if r != len(t) or got[:16] != addr_bytes(op[2]) or got[16] != wb:
                    raise Bad("ipmask_parse(%r) = %s/%d (used %d), expected %s/%d" % (t, got[:16].hex(), got[16], r, addr_bytes(op[2]).hex(), wb), "parse")
                labels.add("parse")
            elif k == "cidr":
                _, a, b, bits = op
                want = bits == 0 or int.from_bytes(addr_bytes(a), "big") >> (128 - bits) == int.from_bytes(addr_bytes(b), "big") >> (128 - bits)
                got = L.ipmask_check(g1.put(addr_bytes(a)), g2.put(addr_bytes(b)), bits) != 0
                n += 1
                if got != want:
                    raise Bad("ipmask_check(%s, %s, %d) = %s" % (addr_bytes(a).hex(), addr_bytes(b).hex(), bits, got), "cidr")
                labels.add("cidr-%s" % want)
        return {"nontrivial": bool(yes and no), "labels": sorted(labels), "checks": n}

    def simplify(self, op):
        if op[0] == "match":
            for s in op[2]:
                if len(op[2]) > 1:
                    yield [op[0], op[1], [s]]
            for i in range(len(op[1])):
                yield [op[0], op[1][:i] + op[1][i + 1:], op[2]]
            if len(op[2]) == 1:
                s = op[2][0]
                for i in range(len(s)):
                    yield [op[0], op[1], [s[:i] + s[i + 1:]]]
        elif op[0] == "cover":
            for j in (1, 2):
                for i in range(len(op[j])):
                    yield op[:j] + [op[j][:i] + op[j][i + 1:]] + op[j + 1:]
