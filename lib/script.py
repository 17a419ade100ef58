"""Random command scripts for one actor, good and bad lines mixed, as bytes."""

CHANS = [b"#a", b"#b", b"#New"]
NICKS = [b"Act", b"Obs1", b"Obs2", b"Act2", b"nobody", b"Rem"]
UTF = ["é", "漢字", "😀", "ß", "\ud7ff", "\U0010ffff", "\u0800"]
BADUTF = [b"\xed\xa0\x80", b"\xc0\xaf", b"\xe0\x9f\xbf", b"\xf4\x90\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xe6\xbc", b"\xf0\x9f\x98"]


def word(rng):
    r = rng.random()
    if r < .5:
        return bytes(rng.choice(b"abcdefXYZ0189[]{}|-_^`") for _ in range(rng.randint(1, 8)))
    if r < .7:
        return (rng.choice(UTF).encode() if rng.random() < .7 else rng.choice(BADUTF)) * rng.randint(1, 3)
    return bytes(rng.choice([c for c in range(1, 256) if c not in (10, 13, 32)]) for _ in range(rng.randint(1, 10)))


def text(rng, n=None):
    n = rng.choice([0, 1, 3, 6, 40]) if n is None else n
    return b" ".join(word(rng) for _ in range(n))


def tags(rng):
    t = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice([b"+typing", b"+a", b"+ex.com/x", b"time", b"account", b"x", b"+draft/reply", word(rng).replace(b";", b"")])
        t.append(k + (b"=" + word(rng).replace(b";", b":") if rng.random() < .7 else b""))
    r = b"@" + b";".join(t)
    if rng.random() < .1:
        r += b";+pad=" + b"p" * rng.choice([1000, 3900, 4040, 4080, 4100, 5000])
    return r + b" "


def line(rng):
    c, n = rng.choice(CHANS), rng.choice(NICKS)
    r = rng.random()
    if r < .30:
        s = rng.choice([b"PRIVMSG", b"NOTICE", b"TAGMSG", b"privmsg"]) + b" " + rng.choice([c, n, c + b"," + n, b"@#a"]) + b" :" + text(rng)
    elif r < .36:
        s = b"PRIVMSG " + c + b" :" + bytes(rng.choice(b"abc \xe9") for _ in range(rng.choice([300, 480, 490, 495, 499, 500, 501, 502, 520, 700])))
    elif r < .46:
        s = rng.choice([b"JOIN ", b"PART "]) + c + rng.choice([b"", b" :" + text(rng, 2)])
    elif r < .54:
        s = b"TOPIC " + c + b" :" + text(rng)
    elif r < .64:
        s = b"MODE " + c + b" " + rng.choice([b"+m", b"-m", b"+nt", b"+v Obs1", b"+b " + word(rng), b"+k " + word(rng), b"-k x", b"+l 5", b"b", b""])
    elif r < .68:
        s = b"NICK " + rng.choice([b"Act", b"Act2", b"Act[", word(rng)])
    elif r < .73:
        s = b"AWAY" + rng.choice([b"", b" :" + text(rng)])
    elif r < .80:
        s = rng.choice([b"WHOIS ", b"WHO ", b"NAMES ", b"ISON ", b"USERHOST ", b"LIST "]) + rng.choice([c, n])
    elif r < .86:
        s = b"PING :" + text(rng, 1)
    elif r < .90:
        s = text(rng, 3)
    elif r < .93:
        s = b"X" * rng.choice([400, 509, 510, 511, 512, 513, 600])
    elif r < .95:
        s = b"PRIVMSG #a :a\0b" + text(rng)
    else:
        s = rng.choice([b"", b" ", b"  PING  x", b":prefix PING x", b":", b"@ PING y", b"@a", b"  @a=b  PING z", b":x"])
    if rng.random() < .15:
        s = tags(rng) + s
    if rng.random() < .05:
        s += b" " * rng.randint(1, 5)
    return s.replace(b"\n", b"").replace(b"\r", b"")


def lat(b):
    return b.decode("latin-1")
