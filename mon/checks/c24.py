"""C24 thumbprints, bags, chains and URIs: compared with independently computed digests, and carried through the headers of messages."""
import random

from pycose.extensions.x509 import X5Bag, X5Chain, X5T, X5U

from .. import cborref as C, coseref as R, gen as G, kit as K

PROP = "C24"
RULE = ("a case is one hash algorithm (or container) with one certificate byte string and its near misses; non-trivial: the thumbprint was "
        "compared with the reference digest and every near miss judged, or a container went over the wire")
SIZES = [0, 1, 2, 3, 23, 24, 55, 56, 57, 63, 64, 65, 111, 112, 113, 119, 127, 128, 129, 135, 136, 137, 167, 168, 169, 255, 256, 257, 300, 511, 1000, 4096,
         65535, 65536, 70000]
HASHES = sorted(R.HASHES)
REQUIRED = {"thumbprints compared": 900, "own certificate matched": 900, "near misses judged": 6000, "header transports": 250, "other algorithm": 600,
            "equality judged": 900, "wrapped certificates": 400, "single certificate": 80, "several certificates": 120, "containers transported": 200, "uris": 60,
            "illegal thumbprint items refused": 60, "interleaved": 100}


def cases(tier, rng):
    for rep in range({"quick": 60, "thorough": 1500}[tier]):
        for alg in HASHES:
            for n in SIZES:
                yield {"do": "thumb", "alg": alg, "n": n, "s": rng.getrandbits(48)}
            for _ in range(14):
                yield {"do": "thumb", "alg": alg, "n": rng.randint(0, 3000), "s": rng.getrandbits(48)}
            for _ in range(6):
                yield {"do": "transport", "alg": alg, "s": rng.getrandbits(48)}
        for _ in range(90):
            yield {"do": rng.choice(["bag", "chain"]), "n": rng.choice([1, 1, 2, 2, 3, 5, 12]), "s": rng.getrandbits(48)}
        for _ in range(30):
            yield {"do": "uri", "s": rng.getrandbits(48)}
        for _ in range(30):
            yield {"do": "interleave", "s": rng.getrandbits(48)}


def run(case, mon):
    rng = random.Random(case["s"])
    {"thumb": thumb, "transport": transport, "bag": container, "chain": container, "uri": uri, "interleave": interleave}[case["do"]](case, mon, rng)


def wrapped(rng, data):
    return C.enc(data) if rng.random() < 0.6 else C.enc_var(data, rng)


def near(rng, data):
    """Byte strings that are not this certificate."""
    out = [data + b"\0", data + bytes([rng.randrange(256)]), b"\0" + data, data + data if data else b"\0\0", C.enc(data)]
    if data:
        out += [data[:-1], data[1:], b"", data[::-1]]
        for i in (0, len(data) - 1, rng.randrange(len(data))):
            b = bytearray(data)
            b[i] ^= 1 << rng.randrange(8)
            out.append(bytes(b))
    return [x for x in out if x != data]


def thumb(case, mon, rng):
    alg, data = case["alg"], rng.randbytes(case["n"])
    cls = K.ALG[alg]
    want = R.digest(alg, data)
    got = mon.must("compute_hash", cls.compute_hash, data)
    mon.check(type(got) is bytes and got == want, "%s: digest of %d bytes" % (cls.__name__, len(data)), got, want)
    if rng.random() < 0.5:
        t = mon.must("from_certificate", X5T.from_certificate, cls, wrapped(rng, data), True)
        mon.saw("wrapped certificates")
    else:
        t = mon.must("from_certificate", X5T.from_certificate, cls, data, *([False] if rng.random() < 0.5 else []))
    mon.check(t.alg is cls and type(t.thumbprint) is bytes and t.thumbprint == want, "thumbprint", t.alg, t.thumbprint, want)
    e = mon.must("encode", t.encode)
    mon.check(isinstance(e, list) and len(e) == 2 and K.norm(e) == [alg, want], "encoded thumbprint", e)
    mon.saw("thumbprints compared", alg, case["n"])
    how = rng.randrange(4)
    u = mon.must("decode", X5T.decode, [[alg, want], [cls, want], [K.case_of(rng, cls.fullname), want], (alg, want)][how])
    mon.check(u.alg is cls and u.thumbprint == want, "decoded thumbprint", u.alg, u.thumbprint)
    u2 = mon.must("decode", X5T.decode, mon.must("encode", u.encode))
    for x in (t, u, u2):
        mon.check(mon.must("matches", x.matches, data) is True, "%s thumbprint does not match its certificate" % cls.__name__, len(data))
        mon.check(mon.must("matches", x.matches, wrapped(rng, data), True) is True, "%s thumbprint does not match its wrapped certificate" % cls.__name__)
        mon.saw("own certificate matched", alg)
    for bad in near(rng, data):
        mon.check(mon.must("matches", t.matches, bad) is False, "%s thumbprint matches another certificate" % cls.__name__, data, bad)
        mon.check(mon.must("matches", u.matches, wrapped(rng, bad), True) is False, "%s thumbprint matches another wrapped certificate" % cls.__name__, data, bad)
        mon.saw("near misses judged", alg)
    # other thumbprint bytes
    alt = [want[:-1], want + b"\0", b"", want[1:], bytes(len(want)), want[: len(want) // 2], want[:8], want[:1]]
    flip = bytearray(want)
    flip[rng.randrange(len(flip))] ^= 1 << rng.randrange(8)
    alt += [bytes(flip), want[:-1] + bytes([want[-1] ^ 1]), bytes([want[0] ^ 0x80]) + want[1:], want + want]
    for w in alt:
        if w != want:
            x = X5T(cls, w) if rng.random() < 0.5 else X5T.decode([alg, w])
            mon.check(mon.must("matches", x.matches, data) is False, "an altered %s thumbprint matches" % cls.__name__, w, want)
            mon.check((x == t) is False and (t == x) is False and (x != t) is True, "an altered thumbprint compares equal", w, want)
            mon.saw("near misses judged", alg)
    # the same certificate under other algorithms
    for o in HASHES:
        if o == alg:
            continue
        x = X5T.from_certificate(K.ALG[o], data)
        mon.check((x == t) is False and (t == x) is False, "thumbprints of different algorithms compare equal", o, alg)
        y = X5T(K.ALG[o], want)
        mon.check((y == t) is False and (t == y) is False, "thumbprints of different algorithms compare equal", o, alg)
        mon.check(mon.must("matches", y.matches, data) is (R.digest(o, data) == want), "%s thumbprint matched under %s" % (alg, o))
        mon.saw("other algorithm", alg, o)
    mon.check((t == u) is True and (u == t) is True and (t != u) is False, "equal thumbprints compare different")
    mon.saw("equality judged")
    for bad in ([rng.choice([1000, -999, "nonsense", 2.5]), want], [alg], []):
        mon.rejects("decoding the thumbprint item %r" % (bad,), X5T.decode, bad)
        mon.saw("illegal thumbprint items refused")


def interleave(case, mon, rng):
    """Thumbprints of several algorithms and certificates alive together."""
    made = []
    for _ in range(8):
        a = rng.choice(HASHES)
        d = rng.randbytes(rng.choice([0, 5, 64, 128, 300]))
        made.append((a, d, X5T.from_certificate(K.ALG[a], d)))
    rng.shuffle(made)
    for a, d, t in made:
        mon.check(K.norm(t.encode()) == [a, R.digest(a, d)], "thumbprint changed", a)
        for b, e, _ in made:
            mon.check(t.matches(e) is (d == e), "match of one thumbprint against another's certificate", a, b)
        mon.saw("interleaved", a)


KINDS = ("Sign1", "Sign", "Mac0", "Mac", "Enc0", "Enc")


def carry(mon, rng, label, value):
    """The header value after a message has carried it, and as it was on the wire."""
    kind = rng.choice(KINDS)
    layer = rng.choice(["body", "inner"]) if kind in ("Sign", "Mac", "Enc") else "body"
    bucket = rng.choice(["phdr", "uhdr"])
    cls = K.HDR[label]
    h = {bucket: {rng.choice([cls, label, K.case_of(rng, cls.fullname)]): value}}
    body, kw = {}, {}
    if layer == "body":
        body = h
    if kind == "Sign":
        kw["signers"] = [K.CoseSignature(**({} if layer == "body" else h))]
        p = kw["signers"][0]
        p.phdr_update({1: -8})
        p.key = K.key(rng, G.okp_key(6, rng))
    elif kind in ("Mac", "Enc"):
        r = K.DirectEncryption() if layer == "body" or bucket == "uhdr" else K.DirectEncryption(**h)
        if layer == "inner":
            if bucket == "uhdr":
                r = K.DirectEncryption(**h)
            else:                                       # plain direct encryption has no protected header
                bucket = "uhdr"
                r = K.DirectEncryption(uhdr=h["phdr"])
        r.uhdr_update({1: -6})
        kw["recipients"] = [r]
    m = K.MSG[kind](payload=b"payload", **body, **kw)
    if kind == "Sign1":
        m.phdr_update({1: -8})
        m.key = K.key(rng, G.okp_key(6, rng))
    elif kind in ("Mac0", "Mac"):
        m.phdr_update({1: 5})
        m.key = K.key(rng, G.mac_key(5, rng))
    elif kind in ("Enc0", "Enc"):
        m.phdr_update({1: 1})
        m.uhdr_update({5: b"n" * 12})
        m.key = K.key(rng, G.aead_key(1, rng))
    data = K.encode(mon, kind, m, rng)
    d = K.decode(mon, kind, data, rng.random() < 0.5)
    arr = C.dec(data).value
    obj, row = (d, arr) if layer == "body" else ((d.signers if kind == "Sign" else d.recipients)[0], arr[-1][0])
    hdr = (C.dec(row[0]) if row[0] else {}) if bucket == "phdr" else row[1]
    mon.check(label in hdr, "the header is not on the wire", hdr)
    held = obj.get_attr(cls)
    mon.check(held is not None and (obj.phdr if bucket == "phdr" else obj.uhdr).get(cls) == held, "the header is not in its bucket", bucket)
    return held, hdr[label], (kind, layer, bucket)


def transport(case, mon, rng):
    alg, data = case["alg"], rng.randbytes(rng.choice([0, 10, 300, 1500]))
    cls = K.ALG[alg]
    t = X5T.from_certificate(cls, data)
    value = mon.must("encode", t.encode)
    if rng.random() < 0.3:
        value = [alg, t.thumbprint]
    held, wire, where = carry(mon, rng, 34, value)
    mon.check(C.same(wire, [alg, R.digest(alg, data)]), "thumbprint on the wire", wire, alg)
    u = mon.must("decode of the carried thumbprint", X5T.decode, held)
    mon.check(u == t and t == u and u.alg is cls and u.thumbprint == t.thumbprint, "thumbprint after transport", held)
    mon.check(u.matches(data) is True and u.matches(data + b"x") is False, "match after transport")
    mon.check(K.norm(mon.must("encode", u.encode)) == wire, "encoding again", u.encode())
    mon.saw("header transports", alg, *where)


def container(case, mon, rng):
    n = case["n"]
    certs = [rng.randbytes(rng.choice([0, 1, 30, 400, 900])) for _ in range(n)]
    if n > 2 and rng.random() < 0.3:
        certs[-1] = certs[0]
    cls, label = (X5Bag, 32) if case["do"] == "bag" else (X5Chain, 33)
    given = certs[0] if n == 1 and rng.random() < 0.4 else list(certs)
    before = list(given) if isinstance(given, list) else given
    x = mon.must("constructor", cls, given)
    want = certs[0] if n == 1 else certs
    for _ in range(2):
        e = mon.must("encode", x.encode)
        mon.check(type(e) is type(want) and e == want, "%s of %d certificates" % (cls.__name__, n), e, want)
    mon.check(given == before, "the caller's list was changed", given)
    mon.saw("single certificate" if n == 1 else "several certificates", case["do"], n, isinstance(given, list))
    held, wire, where = carry(mon, rng, label, e)
    mon.check(C.same(wire, want), "%s on the wire" % cls.__name__, wire, want)
    mon.check(type(held) is type(want) and held == want, "%s after transport" % cls.__name__, held, want)
    y = mon.must("constructor", cls, held)
    mon.check(y.encode() == want, "%s built from the transported header" % cls.__name__)
    mon.saw("containers transported", case["do"], n, *where)


def uri(case, mon, rng):
    u = rng.choice(["", "https://example.com/cert.der", "coap://[::1]/c?q=%20", "https://exämple.org/ü", "urn:x:" + "y" * rng.choice([17, 18, 250, 300]),
                    "".join(chr(rng.choice([rng.randint(32, 126), rng.randint(0xa0, 0x2fff), 0x1f511])) for _ in range(rng.randint(1, 40)))])
    x = mon.must("constructor", X5U, u)
    mon.check(x.encode() == u and type(x.encode()) is str, "URI", x.encode(), u)
    held, wire, where = carry(mon, rng, 35, mon.must("encode", x.encode))
    mon.check((wire == u or isinstance(wire, C.Tag) and wire.value == u) and held == u, "URI after transport", wire, held, u)
    mon.check(X5U(held).encode() == u, "URI built from the transported header")
    mon.saw("uris", *where)
