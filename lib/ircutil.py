"""Reference definitions shared by the models: case mapping, globbing, masks."""
import functools

# RFC 1459: {}|~ are the lower case of []\^
_low = {c: chr(ord(c) + 32) for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^"}


def lower(s):
    return "".join(_low.get(c, c) for c in s)


@functools.lru_cache(maxsize=20000)
def glob(mask, s):
    """Does the wildcard mask match the string (case-insensitively)?
    '*' any run, '?' any one character, '\\' quotes the next character."""
    m, s = [], lower(s)
    i = 0
    while i < len(mask):
        c = mask[i]
        if c == "\\" and i + 1 < len(mask):
            m.append(("c", lower(mask[i + 1])))
            i += 2
            continue
        if c == "*":
            if not m or m[-1] != ("*", None):
                m.append(("*", None))
        elif c == "?":
            m.append(("?", None))
        else:
            m.append(("c", lower(c)))
        i += 1
    # set-of-positions simulation
    pos = {0}
    for kind, c in m:
        if kind == "*":
            lo = min(pos)
            pos = set(range(lo, len(s) + 1))
        elif kind == "?":
            pos = {p + 1 for p in pos if p < len(s)}
        else:
            pos = {p + 1 for p in pos if p < len(s) and s[p] == c}
        if not pos:
            return False
    return len(s) in pos


@functools.lru_cache(maxsize=20000)
def covers(old, new):
    """Is every string matched by mask `new` matched by mask `old`?  Exact for
    masks without escapes, treating a '*' in new as matchable only by '*'."""
    old, new = lower(old), lower(new)
    pos = {0}
    for c in old:
        if c == "*":
            pos = set(range(min(pos), len(new) + 1))
        elif c == "?":
            pos = {p + 1 for p in pos if p < len(new) and new[p] != "*"}
        else:
            pos = {p + 1 for p in pos if p < len(new) and new[p] == c}
        if not pos:
            return False
    return len(new) in pos


def cidr_match(host, ip):
    """host: mask text that may be an address or CIDR; ip: dotted quad"""
    import ipaddress
    try:
        net = ipaddress.ip_network(host, strict=False)
        return ipaddress.ip_address(ip) in net
    except ValueError:
        return False


def pretty_mask(m):
    """The documented expansion of a ban argument to nick!user@host."""
    if "!" in m and ("@" not in m or m.index("!") < m.index("@")):
        nick, rest = m.split("!", 1)
        if "@" in rest:
            i = rest.rindex("@")
            user, host = rest[:i], rest[i + 1:]
        else:
            user, host = rest, "*"
    elif "@" in m:
        i = m.rindex("@")
        nick, user, host = "*", m[:i], m[i + 1:]
    elif "." in m or ":" in m:
        nick, user, host = "*", "*", m
    else:
        nick, user, host = m, "*", "*"
    return "%s!%s@%s" % (nick, user, host)


def collapse(m):
    while "**" in m:
        m = m.replace("**", "*")
    return m
