"""Encodings and text formatting against independent definitions."""
import ctypes, ipaddress
from c12 import addr_bytes, gen_addr, is4, low
from unit import Bad, Guard, UnitCheck

PROP = {
    "id": "C13",
    "title": "Numbers, addresses and formatted text survive encoding unchanged",
    "statement": "Numerics and IP addresses given to other servers in base 64 decode to the same value; an address printed for a user or a log reads back as the same address; "
                 "messages are formatted as the C printf rules say and cut at, never beyond, their buffer; names compare equal exactly if they differ in RFC 1459 case only, and comma lists split "
                 "into each distinct name once, in order; MD5 digests do not depend on how the data was split.",
    "quantifier": {"over": ["inputs"], "text": "all integers and addresses, all format strings built of supported conversions with all argument values and buffer sizes, all name lists"},
    "why_tests_cant": "The failing values are particular patterns (two zero runs in an address, a precision next to a flag, a list that fills the vector) out of an unbounded space.",
    "anchors": {
        "files": ["ircd/numnicks.c", "ircd/ircd_string.c", "ircd/ircd_snprintf.c", "ircd/ircd_md5.c"],
        "mechanism": [{"name": "base 64", "where": "ircd/numnicks.c inttobase64(), base64toint(), iptobase64(), base64toip()"},
                      {"name": "address text", "where": "ircd/ircd_string.c ircd_ntoa_r(), ipmask_parse()"},
                      {"name": "formatter", "where": "ircd/ircd_snprintf.c doprintf()"}],
        "observe_at": ["returned values and buffers", "guard pages and canaries around the buffers"],
    },
}
TECHNIQUE = "property-based testing: round trips, and differential testing against libc snprintf, Python's ipaddress and hashlib; buffers end at guard pages"

LEN = {"": 4, "h": 2, "hh": 1, "l": 8, "ll": 8, "q": 8, "j": 8, "z": 8, "t": 8, "T": 8}
LIBC = {"T": "l", "q": "ll"}


class CHECK(UnitCheck):
    RULE = "at least one IPv6 round trip, one formatted text and one list were checked"
    QUICK, THOROUGH = 8000, 400000

    def setup(self, L):
        P = ctypes.c_void_p
        L.inttobase64.argtypes = [P, ctypes.c_uint, ctypes.c_uint]
        L.base64toint.argtypes = [P]
        L.base64toint.restype = ctypes.c_uint
        L.iptobase64.argtypes = [P, P, ctypes.c_uint, ctypes.c_int]
        L.base64toip.argtypes = [P, P]
        L.ircd_ntoa_r.argtypes = [P, P]
        L.ipmask_parse.argtypes = [P, P, P]
        L.ircd_strcmp.argtypes = [P, P]
        L.ircd_strncmp.argtypes = [P, P, ctypes.c_size_t]
        L.ircd_strncpy.argtypes = [P, P, ctypes.c_size_t]
        L.unique_name_vector.argtypes = [P, ctypes.c_char, P, ctypes.c_int]
        L.canonize.argtypes = [P]
        L.canonize.restype = ctypes.c_char_p
        L.host_from_uh.argtypes = [P, P, ctypes.c_size_t]

    def gen(self, rng, i, tier):
        ops = []
        for _ in range(rng.randint(6, 40)):
            r = rng.random()
            if r < .08:
                n = rng.randint(1, 6)
                ops.append(["int", n, rng.choice([0, 64 ** n - 1, rng.randrange(64 ** n)]) & 0xffffffff])
            elif r < .3:
                ops.append(["ip", gen_addr(rng)])
            elif r < .65:
                ops.append(["fmt", *self.fmt(rng), rng.choice([rng.randint(1, 12), 40, 512])])
            elif r < .8:
                al = rng.choice(["aAbB[{", "ab]}|\\~^", "aA\xe9\xc9\xd7\xf7z", "abc_-`@"])
                a = "".join(rng.choice(al) for _ in range(rng.randint(0, 8)))
                b = "".join(rng.choice(al) for _ in range(rng.randint(0, 8))) if rng.random() < .3 else "".join(
                    c if rng.random() < .6 else rng.choice([c.lower(), c.upper(), low(c), rng.choice(al)]) if ord(c) < 128 else c for c in a)
                ops.append(["cmp", a, b, rng.randint(0, 9)])
            elif r < .95:
                names = ["#a", "#A", "#b", "#[", "#{", "bob", "BOB", "x", ""]
                ops.append(["list", rng.choice(["", ","]) + ",".join(rng.choice(names) for _ in range(rng.randint(0, 9))) + rng.choice(["", ",", ",,"]), rng.choice([2, 3, 5, 20])])
            else:
                ops.append(["md5", [rng.choice([0, 1, 3, 55, 56, 63, 64, 65, 119, 120, 128, rng.randint(0, 300)]) for _ in range(rng.randint(1, 5))], rng.randrange(1 << 30)])
        return {"ops": ops}

    def fmt(self, rng):
        f, args = "", []
        for _ in range(rng.randint(1, 4)):
            f += "".join(rng.choice("ab :%") for _ in range(rng.randint(0, 3))).replace("%", "%%")
            k = rng.choice("ddiuxXoscs")
            fl = "".join(c for c in "-+ #0" if rng.random() < .2)
            if k in "sc":
                fl = fl.replace("0", "").replace("#", "").replace("+", "").replace(" ", "")
            spec = "%" + fl
            if rng.random() < .5:
                if rng.random() < .3:
                    spec += "*"
                    args.append(["i", rng.choice([0, 1, 5, 12, 40, -7, -1])])
                else:
                    spec += str(rng.choice([1, 2, 5, 9, 20, 80]))
            if k != "c" and rng.random() < .4:
                spec += "."
                if rng.random() < .3:
                    spec += "*"
                    args.append(["i", rng.choice([0, 1, 5, 12, -1])])
                else:
                    spec += rng.choice(["0", "1", "3", "8", "15", "25", ""])
            if k in "sc":
                if k == "s":
                    args.append(["s", "".join(rng.choice("abcXYZ \xe9") for _ in range(rng.choice([0, 1, 5, 30])))])
                else:
                    args.append(["i", rng.randint(1, 127)])
            else:
                ln = rng.choice(list(LEN) + [""] * 4)
                spec += ln
                n = LEN[ln] * 8
                args.append(["n", rng.choice([0, 1, 9, 10, 12345, -1, -10, (1 << n) - 1, 1 << (n - 1), (1 << (n - 1)) - 1, rng.randrange(1 << n)]), n])
            f += spec + k
        return f, args

    def eval(self, L, case):
        libc = ctypes.CDLL(None)
        g1, g2, g3 = Guard(), Guard(), Guard()
        n = 0
        labels = set()
        for op in case["ops"]:
            k = op[0]
            n += 1
            labels.add(k)
            if k == "int":
                room = g1.room(op[1] + 1)
                L.inttobase64(room, op[2], op[1])
                t = g1.str(room)
                if len(t) != op[1] or not g1.intact() or L.base64toint(g2.s(t)) != op[2]:
                    raise Bad("%d in %d base-64 digits is %r, which reads back as %d" % (op[2], op[1], t, L.base64toint(g2.s(t))), "int")
            elif k == "ip":
                a = op[1]
                b = addr_bytes(a)
                room, out = g1.room(26), g2.room(16)
                L.iptobase64(room, g3.put(b), 26, 1)
                t = g1.str(room)
                L.base64toip(g3.s(t), out)
                want = b if not is4(a) else b"\0" * 10 + b"\xff\xff" + b[12:]
                if want[12:] == b"\0" * 4 and is4(a):
                    want = b"\0" * 16      # documented: an all-zero address stays that way
                got = g2.bytes(out, 16)
                if not g1.intact() or not g2.intact() or got != want:
                    raise Bad("address %s is sent as %r, which reads back as %s" % (b.hex(), t, got.hex()), "ip64")
                room = g1.room(48)
                L.ircd_ntoa_r(room, g3.put(b))
                t = g1.str(room)
                try:
                    p = ipaddress.ip_address(t)
                    got = p.packed if p.version == 6 else b"\0" * 10 + b"\xff\xff" + p.packed
                except ValueError:
                    got = b""
                want = b if not is4(a) else b"\0" * 10 + b"\xff\xff" + b[12:]
                if got != want or t.startswith(":"):
                    raise Bad("address %s is printed as %r" % (b.hex(), t), "ntoa")
                if L.ipmask_parse(g3.s(t), out, None) != len(t) or g2.bytes(out, 16) != want:
                    raise Bad("address %s printed as %r is read back as %s" % (b.hex(), t, g2.bytes(out, 16).hex()), "ntoa")
            elif k == "fmt":
                _, f, args, size = op
                lf = self.libc_fmt(f)
                keep, av = [], []
                for a in args:
                    if a[0] == "i":
                        av.append(ctypes.c_int(a[1]))
                    elif a[0] == "n":
                        av.append(ctypes.c_ulong(a[1] & 0xffffffffffffffff) if a[2] == 64 else ctypes.c_uint(a[1] & 0xffffffff))
                    else:
                        s = ctypes.create_string_buffer(a[1].encode("latin-1"))
                        keep.append(s)
                        av.append(ctypes.c_char_p(ctypes.addressof(s)))
                if self.alt_zero(f, args):
                    continue
                room = g1.room(size)
                r = L.ircd_snprintf(None, ctypes.c_void_p(room), ctypes.c_size_t(size), ctypes.c_void_p(g3.s(f)), *av)
                ref = ctypes.create_string_buffer(4096)
                rr = libc.snprintf(ref, ctypes.c_size_t(4096), lf.encode("latin-1"), *av)
                got, want = g1.str(room), ref.value.decode("latin-1")[:size - 1]
                if got != want or not g1.intact() or r != rr:
                    raise Bad("format %r of %s in %d bytes gives %r (%d), expected %r (%d)" % (f, args, size, got, r, want, rr), "fmt")
            elif k == "cmp":
                _, a, b, m = op
                la, lb = [low(c) for c in a], [low(c) for c in b]
                if (L.ircd_strcmp(g1.s(a), g2.s(b)) == 0) != (la == lb):
                    raise Bad("%r and %r compare %s" % (a, b, "different" if la == lb else "equal"), "cmp")
                if (L.ircd_strncmp(g1.s(a), g2.s(b), m) == 0) != (la[:m] == lb[:m]):
                    raise Bad("the first %d of %r and %r compare wrongly" % (m, a, b), "cmp")
                x, y = L.ircd_strcmp(g1.s(a), g2.s(b)), L.ircd_strcmp(g2.s(b), g1.s(a))
                if (x > 0) != (y < 0):
                    raise Bad("%r and %r order both ways alike (%d, %d)" % (a, b, x, y), "cmp")
                room = g3.room(m + 1)
                L.ircd_strncpy(room, g1.s(a), m)
                if g3.str(room) != a[:m] or not g3.intact():
                    raise Bad("copy of %r limited to %d is %r" % (a, m, g3.str(room)), "cpy")
                L.host_from_uh(g3.room(m + 1), g1.s(a), m)
                if g3.str(g3.end - m - 1) != a[a.find("@") + 1:][:m]:
                    raise Bad("host of %r limited to %d is %r" % (a, m, g3.str(g3.end - m - 1)), "host")
            elif k == "list":
                _, t, size = op
                vec = (ctypes.c_void_p * size)()
                p = g1.s(t)
                c = L.unique_name_vector(p, b",", vec, size)
                got = [g1.str(vec[i]) for i in range(c)]
                want = []
                for x in t.split(","):
                    if x and not any([low(q) for q in x] == [low(q) for q in y] for y in want):
                        want.append(x)
                if got != want[:size]:
                    raise Bad("list %r into %d: %s" % (t, size, got), "list")
                got = L.canonize(g1.s(t)).decode("latin-1")
                want = []
                for x in t.split(","):
                    if x and not any([low(q) for q in x] == [low(q) for q in y] for y in want):
                        want.append(x)
                if got != ",".join(want):
                    raise Bad("canonize(%r) = %r" % (t, got), "canonize")
            elif k == "md5":
                import hashlib, random
                rng = random.Random(op[2])
                parts = [rng.randbytes(x) for x in op[1]]
                ctx = ctypes.create_string_buffer(256)
                L.MD5Init(ctx)
                for x in parts:
                    L.MD5Update(ctx, ctypes.c_void_p(g1.put(x)), len(x))
                out = g2.room(16)
                L.MD5Final(ctypes.c_void_p(out), ctx)
                if g2.bytes(out, 16) != hashlib.md5(b"".join(parts)).digest() or not g2.intact():
                    raise Bad("MD5 of parts of %s bytes is %s" % (op[1], g2.bytes(out, 16).hex()), "md5")
        return {"nontrivial": {"ip", "fmt", "list"} <= labels, "labels": sorted(labels), "checks": n}

    def libc_fmt(self, f):
        out, i = "", 0
        while i < len(f):
            if f[i] == "%":
                j = i + 1
                if f[j] == "%":
                    out += "%%"
                    i = j + 1
                    continue
                while f[j] not in "diuxXosc":
                    j += 1
                s = f[i:j + 1]
                out += s.replace("T", "l").replace("q", "ll")
                i = j + 1
            else:
                out += f[i]
                i += 1
        return out

    def alt_zero(self, f, args):
        """%#x of zero prints 0x: documented"""
        return "#" in f and any(a[0] == "n" and a[1] & ((1 << a[2]) - 1) == 0 for a in args)

    def simplify(self, op):
        if op[0] == "list":
            p = op[1].split(",")
            for i in range(len(p)):
                yield [op[0], ",".join(p[:i] + p[i + 1:]), op[2]]
        if op[0] == "ip":
            for i in range(8):
                if op[1][i]:
                    yield [op[0], op[1][:i] + [0] + op[1][i + 1:]]
