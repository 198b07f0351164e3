"""Independent CBOR (RFC 8949) encoder and decoder, used as oracle: shares no code with cbor2.

Python mapping: int, bytes, str, list, dict, bool, None, float, Tag(tag, value), Simple(n), UNDEFINED.
enc(x) is deterministic (shortest heads, insertion order).  enc_var(x, rng) draws any other valid encoding of the same
item: longer heads, indefinite-length strings/arrays/maps, other map order.
"""
import struct


class Tag:
    def __init__(self, tag, value):
        self.tag, self.value = tag, value

    def __eq__(self, o):
        return isinstance(o, Tag) and (self.tag, self.value) == (o.tag, o.value)

    def __hash__(self):
        return hash((self.tag, repr(self.value)))

    def __repr__(self):
        return "Tag(%d, %r)" % (self.tag, self.value)


class Raw(bytes):
    """Pre-encoded CBOR, spliced verbatim."""


class Simple:
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Simple) and o.n == self.n

    def __hash__(self):
        return hash(("simple", self.n))

    def __repr__(self):
        return "Simple(%d)" % self.n


class _Undef:
    def __repr__(self):
        return "UNDEFINED"


UNDEFINED = _Undef()
_BREAK = object()


def head(major, n, width=None):
    """width: None shortest, else 0,1,2,4,8 bytes of argument."""
    if width is None:
        width = 0 if n < 24 else 1 if n < 256 else 2 if n < 65536 else 4 if n < 2 ** 32 else 8
    if width == 0:
        return bytes([major << 5 | n])
    return bytes([major << 5 | {1: 24, 2: 25, 4: 26, 8: 27}[width]]) + n.to_bytes(width, "big")


def _bignum(x):
    if x >= 0:
        return head(6, 2) + enc(x.to_bytes((x.bit_length() + 7) // 8, "big"))
    n = -1 - x
    return head(6, 3) + enc(n.to_bytes((n.bit_length() + 7) // 8, "big"))


def enc(x):
    if isinstance(x, Raw):
        return bytes(x)
    if x is True:
        return b"\xf5"
    if x is False:
        return b"\xf4"
    if x is None:
        return b"\xf6"
    if x is UNDEFINED:
        return b"\xf7"
    if isinstance(x, Simple):
        return bytes([0xe0 | x.n]) if x.n < 24 else bytes([0xf8, x.n])
    if isinstance(x, int):
        if not -2 ** 64 <= x < 2 ** 64:
            return _bignum(x)
        return head(0, x) if x >= 0 else head(1, -1 - x)
    if isinstance(x, float):
        return b"\xfb" + struct.pack(">d", x)
    if isinstance(x, (bytes, bytearray)):
        return head(2, len(x)) + bytes(x)
    if isinstance(x, str):
        b = x.encode()
        return head(3, len(b)) + b
    if isinstance(x, (list, tuple)):
        return head(4, len(x)) + b"".join(enc(i) for i in x)
    if isinstance(x, dict):
        return head(5, len(x)) + b"".join(enc(k) + enc(v) for k, v in x.items())
    if isinstance(x, Tag):
        return head(6, x.tag) + enc(x.value)
    raise TypeError("cannot encode %r" % (x,))


def _vhead(major, n, rng, p):
    if rng.random() >= p:
        return head(major, n)
    widths = [w for w, lim in ((1, 256), (2, 65536), (4, 2 ** 32), (8, 2 ** 64)) if n < lim]
    return head(major, n, rng.choice(widths))


def enc_var(x, rng, p=0.4):
    """Any valid encoding of the same data item; p = probability of deviating per node."""
    if isinstance(x, Raw):
        return bytes(x)
    if isinstance(x, bool) or x is None or x is UNDEFINED or isinstance(x, Simple):
        return enc(x)
    if isinstance(x, int):
        if not -2 ** 64 <= x < 2 ** 64:
            return _bignum(x)
        return _vhead(0, x, rng, p) if x >= 0 else _vhead(1, -1 - x, rng, p)
    if isinstance(x, float):
        if rng.random() < p:
            try:
                f = struct.pack(">f", x)
                if struct.unpack(">f", f)[0] == x:
                    return b"\xfa" + f
            except OverflowError:
                pass
        return enc(x)
    if isinstance(x, (bytes, bytearray, str)):
        major = 3 if isinstance(x, str) else 2
        if rng.random() < p / 2:
            out = bytes([major << 5 | 31])
            i = 0
            while i < len(x):
                n = rng.randint(1, max(1, len(x) - i))
                piece = x[i:i + n]
                b = piece.encode() if major == 3 else bytes(piece)
                out += _vhead(major, len(b), rng, p) + b
                i += n
            return out + b"\xff"
        b = x.encode() if major == 3 else bytes(x)
        return _vhead(major, len(b), rng, p) + b
    if isinstance(x, (list, tuple)):
        body = b"".join(enc_var(i, rng, p) for i in x)
        if rng.random() < p / 2:
            return b"\x9f" + body + b"\xff"
        return _vhead(4, len(x), rng, p) + body
    if isinstance(x, dict):
        items = list(x.items())
        if rng.random() < p:
            rng.shuffle(items)
        body = b"".join(enc_var(k, rng, p) + enc_var(v, rng, p) for k, v in items)
        if rng.random() < p / 2:
            return b"\xbf" + body + b"\xff"
        return _vhead(5, len(x), rng, p) + body
    if isinstance(x, Tag):
        return _vhead(6, x.tag, rng, p) + enc_var(x.value, rng, p)
    raise TypeError("cannot encode %r" % (x,))


class CBORError(Exception):
    pass


class _Dec:
    def __init__(self, data):
        self.d, self.i = data, 0

    def take(self, n):
        if self.i + n > len(self.d):
            raise CBORError("truncated")
        r = self.d[self.i:self.i + n]
        self.i += n
        return r

    def arg(self, info):
        if info < 24:
            return info
        if info in (24, 25, 26, 27):
            return int.from_bytes(self.take(1 << (info - 24)), "big")
        if info == 31:
            return None
        raise CBORError("reserved additional information")

    def item(self, brk=False, depth=0):
        if depth > 200:
            raise CBORError("too deep")
        ib = self.take(1)[0]
        major, info = ib >> 5, ib & 31
        if ib == 0xff:
            if brk:
                return _BREAK
            raise CBORError("unexpected break")
        if major == 7:
            if info == 20:
                return False
            if info == 21:
                return True
            if info == 22:
                return None
            if info == 23:
                return UNDEFINED
            if info == 24:
                return Simple(self.take(1)[0])
            if info == 25:
                return struct.unpack(">e", self.take(2))[0]
            if info == 26:
                return struct.unpack(">f", self.take(4))[0]
            if info == 27:
                return struct.unpack(">d", self.take(8))[0]
            if info < 20:
                return Simple(info)
            raise CBORError("reserved simple")
        n = self.arg(info)
        if major == 0 or major == 1:
            if n is None:
                raise CBORError("indefinite int")
            return n if major == 0 else -1 - n
        if major == 2 or major == 3:
            if n is None:
                parts = []
                while True:
                    c = self.item(True, depth + 1)
                    if c is _BREAK:
                        break
                    if not isinstance(c, bytes if major == 2 else str):
                        raise CBORError("bad chunk")
                    parts.append(c)
                return (b"" if major == 2 else "").join(parts)
            b = self.take(n)
            if major == 2:
                return bytes(b)
            try:
                return bytes(b).decode()
            except UnicodeDecodeError:
                raise CBORError("bad utf-8")
        if major == 4:
            out = []
            while n is None or len(out) < n:
                v = self.item(n is None, depth + 1)
                if v is _BREAK:
                    break
                out.append(v)
            return out
        if major == 5:
            out = {}
            cnt = 0
            while n is None or cnt < n:
                k = self.item(n is None, depth + 1)
                if k is _BREAK:
                    break
                v = self.item(False, depth + 1)
                out[_freeze(k)] = v
                cnt += 1
            return out
        if n is None:
            raise CBORError("indefinite tag")
        v = self.item(False, depth + 1)
        if n in (2, 3) and isinstance(v, bytes):
            k = int.from_bytes(v, "big")
            return k if n == 2 else -1 - k
        return Tag(n, v)


def _freeze(k):
    if isinstance(k, list):
        return tuple(_freeze(i) for i in k)
    if isinstance(k, dict):
        return tuple(sorted(((_freeze(a), _freeze(b)) for a, b in k.items()), key=repr))
    return k


def dec(data, exact=True):
    d = _Dec(data)
    v = d.item()
    if exact and d.i != len(data):
        raise CBORError("trailing bytes")
    return v


def same(a, b):
    """Strict structural equality: 1 != True, b'' != '', map order ignored, list == tuple."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        for k, v in a.items():
            if k not in b or not same(v, b[k]):
                return False
            if not any(type(k) is type(k2) and k == k2 for k2 in b):
                return False
        return True
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return type(a) is type(b) and a == b
