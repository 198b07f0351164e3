"""C19 decoding of arbitrary bytes: valid messages are mutated structurally and bytewise and decoded through every entry point; a
well-formedness monitor walks whatever is returned, a watchdog catches hangs, and control messages are decoded in between."""
import random

from .. import cborref as C, coseref as R, gen as G, kit as K
from ..core import Violation, short

PROP = "C19"
RULE = ("a case is one valid message with ~60 mutants decoded through the generic and the specific classes; non-trivial: an object was "
        "walked by the well-formedness monitor or a refusal was seen")
HANG_IS_VIOLATION = True
CASE_LIMIT = 60
REQUIRED = {"valid messages decoded": 300, "mutants refused": 9000, "mutants decoded and walked": 4000, "wrong class refused": 1500,
            "unknown or missing tag refused": 1500, "control messages unchanged": 900, "random bytes": 3000, "same outcome twice": 2000,
            "malformed structures refused": 4000, "nested recipients walked": 200, "signers walked": 500, "bombs": 150}
KINDS = ("Sign1", "Sign", "Mac0", "Mac", "Enc0", "Enc")
TAGS = set(R.MSG_TAG.values())


def cases(tier, rng):
    n = {"quick": 400, "thorough": 6000}[tier]
    for rep in range(n):
        for kind in KINDS:
            yield {"do": "mutants", "kind": kind, "s": rng.getrandbits(48)}
        if rep % 2 == 0:
            yield {"do": "noise", "s": rng.getrandbits(48)}
        if rep % 5 == 0:
            yield {"do": "bombs", "s": rng.getrandbits(48)}


def run(case, mon):
    {"mutants": mutants, "noise": noise, "bombs": bombs}[case["do"]](case, mon, random.Random(case["s"]))


# ------------------------------------------------------------------------------------------------- valid messages
def hdr_bytes(rng, h):
    if not h:
        return rng.choice([b"", b"", b"\xa0"])
    return C.enc(h) if rng.random() < 0.7 else C.enc_var(h, rng)


def two(rng, alg=None, n=None, reg=G.SAFE):
    p, u = G.buckets(rng, alg, n=n)
    return p, u


def recipients(rng, depth=1):
    """Recipients that may stand side by side."""
    n = G.layers(rng, (1, 1, 2, 3)) if depth else rng.choice([1, 1, 2])
    wrapping = [-3, -4, -5, -40, -41, -42, -29, -30, -31, -32, -33, -34]
    pool = wrapping + [-6, -25, -26, -27, -28] if n == 1 else wrapping if rng.random() < 0.8 else [-6]
    return [recipient(rng, rng.choice(pool), depth) for _ in range(n)]


def recipient(rng, alg, depth=1):
    """A recipient that keeps the rules of its class."""
    extra = G.header(rng, rng.choice([0, 0, 1, 3]), reg=[3, 4, 10, 35, -3])
    if alg in (-6, -3, -4, -5):
        w = [b"", {1: alg, **extra}, b"" if alg == -6 else rng.randbytes(24)]
    elif alg in R.OAEP:
        w = [b"", {1: alg, **extra}, rng.randbytes(128)]
    else:
        kind, _, kw = R.ECDH[alg]
        p, u = ({1: alg}, dict(extra)) if rng.random() < 0.7 else ({}, {1: alg, **extra})
        for lab in (-20, -21, -24):
            if rng.random() < 0.3:
                rng.choice([p, u])[lab] = rng.randbytes(8)
        if kind == "es" or rng.random() < 0.7:
            pub = R.public(G.ec_key(rng.choice([1, 2, 3]), rng))
            (p if rng.random() < 0.3 else u)[-1 if kind == "es" else -2] = pub
        w = [C.enc(p) if p else b"", u, b"" if kw is None else rng.randbytes(24)]
    if depth and alg in (-3, -4, -5) and rng.random() < 0.5:
        w.append(recipients(rng, depth - 1))
    return w


def message(rng, kind):
    """The array of a valid message."""
    p, u = two(rng, {"Sign1": -7, "Sign": None, "Mac0": 5, "Mac": 5, "Enc0": 1, "Enc": 3}[kind], n=rng.choice([0, 1, 2, 4]))
    body = [hdr_bytes(rng, p), u, rng.choice([G.payload(rng, 0), None, b"x"])]
    if kind in ("Enc0", "Enc") and rng.random() < 0.7:
        (u if rng.random() < 0.9 or p else p)[5] = rng.randbytes(12)
    if kind == "Sign1":
        body.append(rng.randbytes(64))
    if kind == "Sign":
        signers = []
        for _ in range(G.layers(rng, (1, 1, 2, 3))):
            sp, su = two(rng, rng.choice([-7, -8, -37]), n=rng.choice([0, 1, 2]))
            signers.append([hdr_bytes(rng, sp), su, rng.randbytes(64)])
        body.append(signers)
    if kind in ("Mac0", "Mac"):
        body.append(rng.randbytes(rng.choice([8, 16, 32])))
    if kind in ("Mac", "Enc"):
        body.append(recipients(rng))
    return body


# ---------------------------------------------------------------------------------------------------- monitors
def wellformed(mon, m, kind, what):
    mon.check(type(m) is K.MSG[kind], what + ": type of the message", type(m), kind)
    layer(mon, m, what, (bytes, type(None)))
    if kind == "Sign1":
        mon.check(isinstance(m.signature, bytes), what + ": signature", m.signature)
    if kind in ("Mac0", "Mac"):
        mon.check(isinstance(m.auth_tag, bytes), what + ": tag", m.auth_tag)
    if kind == "Sign":
        mon.check(isinstance(m.signers, list), what + ": signers", m.signers)
        for s in m.signers:
            mon.check(type(s) is K.CoseSignature, what + ": signer", type(s))
            layer(mon, s, what + ": signer", (bytes,))
            mon.check(isinstance(s.signature, bytes), what + ": signature", s.signature)
            mon.saw("signers walked")
    if kind in ("Mac", "Enc"):
        walk(mon, m.recipients, what, 0)


def layer(mon, obj, what, types):
    mon.check(type(obj.phdr) is dict, what + ": protected header is no map", obj.phdr)
    mon.check(type(obj.uhdr) is dict, what + ": unprotected header is no map", obj.uhdr)
    mon.check(isinstance(obj.payload, types), what + ": payload", obj.payload)


def walk(mon, rcpts, what, depth):
    mon.check(isinstance(rcpts, list), what + ": recipients", rcpts)
    for r in rcpts:
        mon.check(type(r) in (K.DirectEncryption, K.DirectKeyAgreement, K.KeyWrap, K.KeyAgreementWithKeyWrap), what + ": recipient", type(r))
        layer(mon, r, what + ": recipient", (bytes, type(None)))
        mon.saw("nested recipients walked" if depth else "recipients walked")
        walk(mon, r.recipients, what, depth + 1)


def outcome(mon, cls, data, what, **kw):
    """Decodes; an exception that is not an ordinary one is a violation."""
    try:
        return cls.decode(data, **kw), None
    except Exception as e:
        if type(e).__name__ == "Watchdog":
            raise
        mon.rejections[type(e).__name__] += 1
        return None, e
    except (KeyboardInterrupt, SystemExit):
        raise Violation("%s: decode raised a non-ordinary exception" % what)


KIND_OF = {v: k for k, v in R.MSG_TAG.items()}


def probe(mon, rng, data, what, may=None, tag=None):
    """One byte string through every entry point; may: kind it may decode to, () if it must be refused, None if unknown."""
    aua = rng.random() < 0.75
    m, e = outcome(mon, K.CoseMessage, data, what, allow_unknown_attributes=aua)
    if m is not None:
        kind = next((k for k, c in K.MSG.items() if type(m) is c), None)
        if kind is None:
            raise Violation("%s: decode returned %s" % (what, short(m)))
        if may is not None and kind not in may:
            raise Violation("%s: was not refused, decoded as %s | %s" % (what, kind, data[:200].hex()))
        t = leading_tag(data)
        mon.check(t is None or R.MSG_TAG[kind] == t, what + ": type does not match the tag", kind, t, data[:40].hex())
        wellformed(mon, m, kind, what)
        mon.saw("mutants decoded and walked", kind, what)
    else:
        kind = None
        mon.saw("mutants refused", what, type(e).__name__)
    # the specific classes
    for k in ([kind] if kind else []) + rng.sample(KINDS, 2):
        n, e2 = outcome(mon, K.MSG[k], data, what, allow_unknown_attributes=aua)
        if n is not None:
            mon.check(type(n) is K.MSG[k], what + ": %s.decode returned another type" % k, type(n))
            wellformed(mon, n, k, what)
            mon.check(k == kind, what + ": the generic class and %s do not agree" % k, kind)
        elif k != kind:
            mon.saw("wrong class refused" if kind else "refused by a specific class")
        else:
            raise Violation("%s: decoded generically, but refused by its own class: %s" % (what, short(str(e2))))
    if rng.random() < 0.2:
        again, e3 = outcome(mon, K.CoseMessage, data, what, allow_unknown_attributes=aua)
        mon.check((again is None) == (m is None) and (m is None or type(again) is type(m)), what + ": decoding twice differs", m, again)
        if m is not None:
            mon.check(view(m) == view(again), what + ": decoding twice differs", view(m), view(again))
        mon.saw("same outcome twice")
    return m


def leading_tag(data):
    """Message tag in front, when it can be read off (tags that only describe the encoding are skipped)."""
    for skip in (b"\xd9\xd9\xf7", b"\xd8\x1c", b"\xd9\x01\x00"):
        if data.startswith(skip):
            return leading_tag(data[len(skip):])
    if not data or data[0] >> 5 != 6:
        return None
    a = data[0] & 31
    if a < 24:
        return a
    n = {24: 1, 25: 2, 26: 4, 27: 8}.get(a)
    return int.from_bytes(data[1:1 + n], "big") if n and len(data) > n else None


def view(m):
    """Everything a decoded message shows, comparable."""
    out = [type(m).__name__, plainview(m.phdr), plainview(m.uhdr), m.payload, m.phdr_encoded, getattr(m, "auth_tag", None)]
    if isinstance(m, K.Sign1Message):
        out.append(m.signature)
    for s in getattr(m, "signers", []):
        out.append([plainview(s.phdr), plainview(s.uhdr), s.signature, s.phdr_encoded])
    for r in getattr(m, "recipients", []):
        out.append(view(r))
    return out


def plainview(x, d=0):
    if d > 12:
        return "deep"
    if isinstance(x, type):
        return x.__name__
    if isinstance(x, dict) or isinstance(x, K.CoseKey):
        return ["map"] + [(plainview(k, d + 1), plainview(v, d + 1)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [plainview(v, d + 1) for v in x]
    return repr(x) if x is None or isinstance(x, (bool, int, float, str, bytes)) else type(x).__name__


_CTRL = {}


def controls(mon, rng):
    """Messages whose decoding must not depend on what was decoded before."""
    if not _CTRL:
        r = random.Random(1)
        for k in KINDS:
            data = C.enc(C.Tag(R.MSG_TAG[k], message(r, k)))
            _CTRL[k] = (data, view(mon.must("control message", K.CoseMessage.decode, data)))
        _CTRL["strict"] = C.enc(C.Tag(18, [C.enc({1: -7, 77777: 1}), {}, b"x", b"s"]))
    for k in rng.sample(KINDS, 3):
        data, want = _CTRL[k]
        cls = rng.choice([K.CoseMessage, K.MSG[k]])
        got = mon.must("control message after other decodes", cls.decode, data)
        mon.check(view(got) == want, "control message decodes differently after other decodes", view(got), want)
        mon.saw("control messages unchanged")
    mon.rejects("unknown attribute in strict mode after other decodes", K.CoseMessage.decode, _CTRL["strict"], allow_unknown_attributes=False)
    mon.must("unknown attribute in lenient mode after other decodes", K.CoseMessage.decode, _CTRL["strict"])


# ---------------------------------------------------------------------------------------------------- mutations
ODD = [None, True, False, 0, 1, -1, 2 ** 64, b"", b"\xa0", b"\x80", b"\x00", "", "abc", [], {}, [b"", {}, b""], 1.5, C.UNDEFINED]


def odd(rng, depth=2):
    k = rng.randrange(10)
    if k < 5:
        return rng.choice(ODD)
    if k < 8 or depth == 0:
        return G.value(rng)
    if k == 8:
        t = rng.choice([0, 1, 2, 3, 4, 5, 18, 28, 29, 30, 35, 36, 37, 100, 258, 260, 261, 55799, 12345])
        return C.Tag(t, odd(rng, depth - 1))
    return [odd(rng, depth - 1) for _ in range(rng.choice([0, 1, 3]))]


def wrong(rng, *ok):
    """An item that is of none of the given types."""
    while True:
        v = rng.choice([None, True, 0, 7, -1, b"", b"\xa0", b"abc", "", "abc", [], [1], {}, {1: 2}, 1.5, [b"", {}, b""], C.Tag(99, b"x"), C.Tag(18, b"x")])
        if not isinstance(v, ok):
            return v


def nodes(x, path=()):
    """Paths of all nodes, descending into encoded maps as well."""
    yield path
    if isinstance(x, list):
        for i, v in enumerate(x):
            yield from nodes(v, path + (i,))
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from nodes(v, path + (("v", k),))


def edit(x, path, f):
    """x with the node at path replaced by f(node)."""
    if not path:
        return f(x)
    s, rest = path[0], path[1:]
    if isinstance(x, list):
        out = list(x)
        out[s] = edit(x[s], rest, f)
        return out
    out = dict(x)
    out[s[1]] = edit(x[s[1]], rest, f)
    return out


def structural(rng, body):
    path = rng.choice(list(nodes(body)))
    k = rng.randrange(6)
    if k <= 1:
        return edit(body, path, lambda v: odd(rng))
    if k == 2:
        return edit(body, path, lambda v: [v])
    if k == 3:
        return edit(body, path, lambda v: v[:rng.randrange(len(v))] if isinstance(v, (list, bytes, str)) and len(v) else odd(rng))
    if k == 4:
        return edit(body, path, lambda v: v + v if isinstance(v, (list, bytes, str)) else odd(rng))
    return edit(body, path, lambda v: {**v, odd_label(rng): odd(rng)} if isinstance(v, dict) else C.Tag(rng.choice([2, 18, 24, 28, 100, 98]), v))


def odd_label(rng):
    return rng.choice([rng.choice(G.HDR_IDS), rng.choice(G.HDR_IDS), "alg", "IV", "", b"", 1.5, True, None, 2 ** 70])


def layers(body, kind):
    """(path, kind of layer) of all header-carrying structures."""
    out = [((), "body")]
    if kind == "Sign":
        out += [((3, i), "signer") for i in range(len(body[3]))]

    def rc(path, node):
        out.append((path, "recipient"))
        if len(node) > 3:
            for i, r in enumerate(node[3]):
                rc(path + (3, i), r)
    if kind in ("Mac", "Enc"):
        at = 4 if kind == "Mac" else 3
        for i, r in enumerate(body[at]):
            rc((at, i), r)
    return out


def malformed(rng, body, kind):
    """A message that cannot be a well-formed one: every such mutant has to be refused."""
    path, lay = rng.choice(layers(body, kind))
    k = rng.randrange(9)
    f = None
    if k == 0:
        f, what = (lambda n: [wrong(rng, bytes)] + n[1:]), "protected header is no byte string"
    elif k == 1:
        f = lambda n: [C.enc(wrong(rng, dict))] + n[1:]
        what = "protected header holds no map"
    elif k == 2:
        f = lambda n: [rng.choice([b"\xa1", b"\xa1\x01", b"\xff", b"\xbf\x01", b"\x5f\x01", b"\xa1\x01\x1c", b"\x1f"])] + n[1:]
        what = "protected header is no CBOR"
    elif k == 3:
        f, what = (lambda n: [n[0], wrong(rng, dict)] + n[2:]), "unprotected header is no map"
    elif k == 4:
        f = lambda n: n[:2] + [wrong(rng, bytes, *(() if lay == "signer" else (type(None),)))] + n[3:]
        what = "payload or signature is no byte string"
    elif k == 5:
        least = {"body": {"Sign1": 4, "Sign": 4, "Mac0": 4, "Mac": 4, "Enc0": 3, "Enc": 3}[kind], "signer": 3, "recipient": 3}[lay]
        f, what = (lambda n: n[:rng.randrange(least)]), "too few elements"
    elif k == 6:
        f, what = (lambda n: wrong(rng, list)), "no array"
        if not path:
            f = lambda n: rng.choice([b"x", {}, {0: b"", 1: {}, 2: b"", 3: b""}, "x", 1, None, 1.5])
    elif k == 7 and kind in ("Sign1", "Mac0", "Mac"):
        return body[:3] + [wrong(rng, bytes)] + body[4:], "signature or tag is no byte string"
    else:
        if kind in ("Sign", "Mac", "Enc"):
            at = {"Sign": 3, "Mac": 4, "Enc": 3}[kind]
            return body[:at] + [rng.choice([None, 1, True, "abc", b"abc", {1: 2}, [1], [None], [b"abc"], [{}], [[]], 1.5])], "no list of signers or recipients"
        return rng.choice([[], [[]], [body], {}]), "no message array"
    return edit(body, path, f), what + " (%s)" % lay


def bytewise(rng, data):
    b = bytearray(data)
    for _ in range(rng.choice([1, 1, 2, 4])):
        k = rng.randrange(6)
        i = rng.randrange(len(b)) if b else 0
        if k == 0 and b:
            b[i] ^= 1 << rng.randrange(8)
        elif k == 1 and b:
            b[i] = rng.choice([0x00, 0xff, 0xf6, 0x40, 0x60, 0x80, 0xa0, 0xd8, 0x5f, 0x9f, 0xbf, 0x1b, 0xfb, rng.randrange(256)])
        elif k == 2:
            b[i:i] = rng.randbytes(rng.choice([1, 2, 9]))
        elif k == 3 and b:
            del b[i:i + rng.choice([1, 2, 8])]
        elif k == 4:
            b = b[:i]
        elif len(b) > 4:
            j = rng.randrange(len(b))
            b[i:i] = b[j:j + rng.randrange(1, 30)]
    return bytes(b)


def mutants(case, mon, rng):
    kind = case["kind"]
    body = message(rng, kind)
    tag = R.MSG_TAG[kind]
    data = C.enc(C.Tag(tag, body)) if rng.random() < 0.6 else C.head(6, tag) + C.enc_var(body, rng)
    m = mon.must("valid %s message" % kind, K.CoseMessage.decode, data)
    wellformed(mon, m, kind, "valid message")
    mon.eq(m.payload, body[2], "payload of a valid message")
    if kind == "Sign":
        mon.eq(len(m.signers), len(body[3]), "number of signers")
    if kind in ("Mac", "Enc"):
        mon.eq(len(m.recipients), len(body[-1]), "number of recipients")
    n = mon.must("valid %s message" % kind, K.MSG[kind].decode, data)
    mon.check(view(n) == view(m), "generic and specific class decode differently")
    mon.saw("valid messages decoded", kind)
    # every other class and every other tag
    for k in KINDS:
        if k != kind:
            mon.rejects("%s message decoded by %s" % (kind, k), K.MSG[k].decode, data)
            mon.saw("wrong class refused", kind, k)
    raw = C.enc(body)
    probe(mon, rng, raw, "untagged message", ())
    for t in (rng.choice([0, 1, 2, 15, 19, 24, 61, 95, 99, 100, 258, 12345, 2 ** 32, 2 ** 64 - 1]), rng.choice([16 + 256, 18 + 256, 98 + 65536, 97 + 2 ** 32, 20, 21, 30])):
        probe(mon, rng, C.head(6, t) + raw, "message under an unknown tag", ())
        mon.saw("unknown or missing tag refused", t)
    probe(mon, rng, C.head(6, tag) + C.head(6, rng.choice([tag, 99, 18, 97])) + raw, "message under two tags", ())
    other = rng.choice([t for t in sorted(TAGS) if t != tag])
    probe(mon, rng, C.head(6, other) + raw, "message under the tag of another type", (KIND_OF[other],))
    mon.saw("unknown or missing tag refused", "untagged")
    for width in (1, 2, 4, 8):
        m2 = probe(mon, rng, C.head(6, tag, width) + raw, "message under a tag in a longer encoding", (kind,))
        mon.check(m2 is not None or width, "unreachable")
    for _ in range(16):
        bad, what = malformed(rng, body, kind)
        probe(mon, rng, C.enc(C.Tag(tag, bad)), "%s: %s" % (kind, what), ())
        mon.saw("malformed structures refused", kind, what)
    for i in range(16):
        mut = body
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            mut = structural(rng, mut)
        try:
            wire = C.enc(C.Tag(tag, mut))
        except TypeError:
            continue
        probe(mon, rng, wire, "structural mutant")
    for _ in range(24):
        probe(mon, rng, bytewise(rng, data), "bytewise mutant")
    for cut in rng.sample(range(len(data)), min(8, len(data))):
        probe(mon, rng, data[:cut], "truncated message", ())
    controls(mon, rng)


def noise(case, mon, rng):
    for _ in range(150):
        n = rng.choice([0, 1, 2, 3, 5, 8, 16, 40, 200])
        k = rng.randrange(4)
        if k == 0:
            data = rng.randbytes(n)
        elif k == 1:
            data = C.head(6, rng.choice(sorted(TAGS))) + rng.randbytes(n)
        elif k == 2:
            try:
                data = C.enc(C.Tag(rng.choice(sorted(TAGS)), [odd(rng) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6]))]))
            except TypeError:
                continue
        else:
            # headers of any content in a correct frame
            try:
                p = {(odd_label(rng) if rng.random() < 0.6 else G.custom_label(rng)): odd(rng) for _ in range(rng.choice([0, 1, 2]))}
                u = {(odd_label(rng) if rng.random() < 0.6 else G.custom_label(rng)): odd(rng) for _ in range(rng.choice([0, 1, 2]))}
                data = C.enc(C.Tag(rng.choice([16, 17, 18]), [C.enc(p), u, b"x", b"y"]))
            except TypeError:
                continue
        probe(mon, rng, data, "random bytes")
        mon.saw("random bytes")
    for junk in (None, 1, "abc", [], object(), {}):
        mon.rejects("decode of %r" % type(junk), K.CoseMessage.decode, junk)
    controls(mon, rng)


def bombs(case, mon, rng):
    deep = rng.choice([10, 100, 390, 500, 5000, 200000])
    frame = lambda p, u: [C.enc(p) if not isinstance(p, bytes) else p, u, b"x", b"y"]
    nest = C.Raw(b"\x81" * deep + b"\x00")
    items = [
        b"\x81" * deep + b"\x00", b"\xd2" * deep, b"\xa1\x01" * deep, b"\x9f" * deep, b"\xbf" * deep, b"\x5f" * deep,
        C.enc(C.Tag(18, frame({}, {99: nest}))), C.enc(C.Tag(18, frame(b"\xa1\x18\x63" + bytes(nest), {}))),
        b"\xd2\x84\x5b" + b"\xff" * 8, b"\xd2\x9b" + b"\xff" * 8, b"\xd2\x84\x40\xbb" + b"\x7f" + b"\xff" * 7, b"\xd2\x84\x40\xba\xff\xff\xff\xff",
        b"\xd2\x9a\xff\xff\xff\xff" + b"\x40\xa0\x40\x40", b"\xd2\x84\x5b\x00\x00\x00\xff\xff\xff\xff\xff\xff",
        C.enc(C.Tag(18, frame({}, {99: C.Tag(4, [2 ** 40, 1]), 98: C.Tag(5, [2 ** 20, 3])}))),
        C.enc(C.Tag(18, frame({}, {99: C.Tag(35, "(a+)+$"), 98: C.Tag(36, "MIME: x\n\ny"), 97: C.Tag(0, "2013-03-21T20:04:00Z")}))),
        b"\xd2\x84\x40\xd8\x1c\xa1\x18\x63\xd8\x1d\x00\x41x\x41y",               # a header that contains itself
        b"\xd8\x62\x84\x40\xa0\x41x\xd8\x1c\x81\xd8\x1d\x00",                    # a list of signers that contains itself
        b"\xd8\x60\x84\x40\xa0\x41x\xd8\x1c\x81\x84\x40\xa1\x01\x22\x41x\xd8\x1d\x00",
        b"\xd8\x60\x84\x40\xa0\x41x\x81\xd8\x1c\x84\x40\xa1\x01\x22\x41x\x81\xd8\x1d\x00",
        b"\xd8\x1c\xd2\x84\x40\xa0\x41x\x41y", b"\xd2\xd8\x1c\x84\x40\xa0\x41x\x41y",
    ]
    # recipients nested as deep as the decoder lets them
    r = [b"", {1: -3}, b"x"]
    for _ in range(rng.choice([2, 20, 150, 190])):
        r = [b"", {1: -3}, b"x", [r]]
    items.append(C.enc(C.Tag(96, [b"", {1: 1, 5: b"n"}, b"x", [r]])))
    items.append(C.enc(C.Tag(96, [b"", {1: 1, 5: b"n"}, b"x", [[b"", {1: -3}, b"x"]] * 2000])))
    items.append(C.enc(C.Tag(98, [b"", {}, b"x", [[b"", {1: -7}, b"x"]] * 2000])))
    items.append(C.enc(C.Tag(18, [C.enc({1000 + i: i for i in range(3000)}), {"k%d" % i: i for i in range(3000)}, bytes(100000), b"x"])))
    for data in items:
        probe(mon, rng, bytes(data), "resource bomb")
        mon.saw("bombs")
    controls(mon, rng)
