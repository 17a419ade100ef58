"""A WebSocket client on top of a simulated connection."""
import base64, hashlib, random
import ircsim

GUID = b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11"


def sanitize(b):
    """Invalid UTF-8 replaced byte by byte with U+FFFD (the rule for text mode)."""
    out, i = b"", 0
    while i < len(b):
        for n in (4, 3, 2, 1):
            if i + n <= len(b):
                try:
                    s = b[i:i + n].decode("utf-8")
                except UnicodeDecodeError:
                    continue
                if len(s) == 1:
                    out += b[i:i + n]
                    i += n
                    break
        else:
            out += b"\xef\xbf\xbd"
            i += 1
    return out


def frame(payload, op=1, fin=True, mask=b"\1\2\3\4", ext=None, rsv=0):
    n = len(payload)
    h = bytes([(0x80 if fin else 0) | rsv | op])
    mb = 0x80 if mask is not None else 0
    if ext == 8 or (ext is None and n > 65535):
        h += bytes([mb | 127]) + n.to_bytes(8, "big")
    elif ext == 2 or (ext is None and n > 125):
        h += bytes([mb | 126]) + n.to_bytes(2, "big")
    else:
        h += bytes([mb | n])
    if mask is not None:
        h += mask
        payload = bytes(c ^ mask[i % 4] for i, c in enumerate(payload))
    return h + payload


class WsError(Exception):
    pass


class WsConn(ircsim.Conn):
    """Frames in, frames out; lines() gives the payloads of data frames."""
    up = False
    head = b""

    def handshake(self, proto="binary.ircv3.net", key=b"dGhlIHNhbXBsZSBub25jZQ==", extra=b"", cuts=()):
        req = (b"GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: keep-alive, Upgrade\r\nSec-WebSocket-Version: 13\r\n"
               b"Sec-WebSocket-Key: " + key + b"\r\n" + (b"Sec-WebSocket-Protocol: " + proto.encode() + b"\r\n" if proto else b"") + extra + b"\r\n")
        self.control = []
        last = 0
        for c in sorted(cuts):
            c = min(c, len(req) - 1)
            if c > last:
                self.raw(req[last:c])
                self.w.run()
                last = c
        self.raw(req[last:])
        self.w.run()
        h, sep, self.buf = self.buf.partition(b"\r\n\r\n")
        self.head = h
        want = base64.b64encode(hashlib.sha1(key + GUID).digest())
        self.up = sep != b"" and h.startswith(b"HTTP/1.1 101") and want in h
        return self.up

    def frames(self):
        out = []
        b = self.buf
        while len(b) >= 2:
            n = b[1] & 127
            if b[1] & 128:
                raise WsError("a masked frame from the server: %r" % b[:20])
            o = 2
            if n == 126:
                if len(b) < 4:
                    break
                n, o = int.from_bytes(b[2:4], "big"), 4
            elif n == 127:
                raise WsError("a 64-bit frame length from the server")
            if len(b) < o + n:
                break
            if b[0] & 0x70:
                raise WsError("reserved bits set: %r" % b[:20])
            out.append((b[0] & 0x80, b[0] & 15, b[o:o + n]))
            b = b[o + n:]
        self.buf = b
        return out

    def payloads(self):
        out = []
        for fin, op, p in self.frames():
            if op in (8, 9, 10):
                self.control.append((op, p))
            elif not fin or op not in (1, 2):
                raise WsError("unexpected frame: fin %d opcode %d %r" % (fin, op, p))
            else:
                out.append((op, p))
        return out

    def lines(self):
        return [ircsim.dec(p) for op, p in self.payloads()]

    def send(self, *lines):
        for x in lines:
            self.raw(frame(ircsim.enc(x)))


def ws_connect(w, inst=0, ip="10.0.0.1", port=7000):
    e = w.next_ext
    w.next_ext += 1
    w.sport += 1
    w.sim.cmd("conn %d %d %s %d %d" % (e, inst, ip, w.sport, port))
    c = WsConn(w, e, inst)
    c.ip = ip
    w.conns[e] = c
    return c
