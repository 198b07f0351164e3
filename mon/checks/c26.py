"""C26 printing: objects of all kinds are driven through their states and converted to text in every state; a leak monitor searches the text
for secret key values and for long pieces of payloads, ciphertexts, tags and signatures, in raw, escaped, hexadecimal, base64 and decimal form."""
import base64
import io
import pprint
import random

from .. import cborref as B, coseref as R, gen as G, kit as K, rcpt as P
from ..core import Violation

PROP = "C26"
RULE = ("a case is one message (with its layers) or key driven through its states; non-trivial: it was printed in at least three states and "
        "the leak monitor searched the text")
KINDS = ("Sign1", "Sign", "Mac0", "Mac", "Enc0", "Enc")
STATES = ("fresh", "headers", "keyed", "encoded", "decoded", "received", "opened", "detached", "emptied")
KEYSTATES = ("built", "public", "private only", "custom", "changed", "deleted", "generated", "decoded", "key_ops")
NAME = {"Sign1": "COSE_Sign1", "Sign": "COSE_Sign", "Mac0": "COSE_Mac0", "Mac": "COSE_Mac", "Enc0": "COSE_Encrypt0", "Enc": "COSE_Encrypt"}
KNAME = {1: "OKP", 2: "EC2", 3: "RSA", 4: "Symmetric"}
SECRET = {1: [-4], 2: [-4], 3: [-3, -4, -5, -6, -7, -8], 4: [-1]}
REQUIRED = {"texts searched": 12000, "kinds named": 12000, "secrets searched": 20000, "content searched": 10000,
            **{"message state: " + s: 150 for s in STATES}, **{"key state: " + s: 60 for s in KEYSTATES}, "signers printed": 300,
            "recipients printed": 400, "nested recipients printed": 60, "embedded keys printed": 60, "custom labels like registered ones": 60,
            "multi-prime keys printed": 10, "text labels like registered names printed": 200, "short content printed": 30}
WINDOW = 12         # a prefix of a handful of bytes is allowed


def cases(tier, rng):
    for rep in range({"quick": 120, "thorough": 3000}[tier]):
        for kind in KINDS:
            yield {"do": "message", "kind": kind, "s": rng.getrandbits(48)}
        for kty in (1, 2, 3, 4):
            yield {"do": "key", "kty": kty, "s": rng.getrandbits(48)}


def run(case, mon):
    {"message": message, "key": key}[case["do"]](case, mon, random.Random(case["s"]))


# ----------------------------------------------------------------------------------------------------------- text monitor
def texts(mon, o, what):
    out = []
    for name, f in (("repr", repr), ("str", str), ("format", lambda x: "{}".format(x)), ("f-string", lambda x: f"{x!r}"), ("percent", lambda x: "%s" % x),
                    ("in a list", lambda x: repr([x])), ("in a dict", lambda x: str({"a": x})), ("pprint", pprint.pformat)):
        try:
            t = f(o)
        except Exception as e:
            raise Violation("%s: %s raised %s: %s" % (what, name, type(e).__name__, e))
        mon.check(type(t) is str and t, "%s: %s gave no text" % (what, name), t)
        out.append(t)
    buf = io.StringIO()
    print(o, file=buf)
    out.append(buf.getvalue())
    mon.saw("texts searched")
    mon.check(repr(o) == out[0], what + ": two conversions differ")
    return out[0], "\n".join(set(out))


def forms(piece):
    """The ways a byte string may appear in a text."""
    esc = repr(piece)[2:-1]
    yield esc
    yield piece.hex()
    yield piece.hex().upper()
    yield piece.hex(":")
    yield ", ".join(map(str, piece))
    yield "".join("\\x%02x" % b for b in piece)
    if len(piece) >= 12:
        for k in range(3):
            yield base64.b64encode(piece[k:k + (len(piece) - k) // 3 * 3]).decode()
    if len(piece) >= 8:
        yield str(int.from_bytes(piece, "big"))
        yield "%x" % int.from_bytes(piece, "big")
    try:
        t = piece.decode("ascii")
        if len(t) >= 8 and t.isprintable():
            yield t
    except UnicodeDecodeError:
        pass


def leak(mon, text, value, what, whole=False):
    """whole: the complete value may not appear; always: no window of WINDOW bytes may."""
    if not isinstance(value, bytes) or len(value) < WINDOW:
        return
    if len(set(value)) < 6:             # says nothing: could be anybody's zeros
        return
    pieces = [value] if whole else []
    steps = range(0, len(value) - WINDOW + 1, max(1, (len(value) - WINDOW) // 10))
    pieces += [value[i:i + WINDOW] for i in steps] + [value[:WINDOW], value[-WINDOW:]]
    for p in pieces:
        if len(set(p)) < 5:
            continue
        for f in forms(p):
            if f and f in text:
                raise Violation("%s: the text shows %d bytes of it (%s)" % (what, len(p), f[:80]))
    mon.saw("secrets searched" if whole else "content searched")


class Watch:
    def __init__(self, mon):
        self.mon, self.keys, self.content = mon, [], {}

    def look(self, o, name, what, state=None):
        t, alltext = texts(self.mon, o, what)
        self.mon.check(named(t, name), what + ": the text does not name the kind", t, name)
        self.mon.saw("kinds named", name, state)
        for k in self.keys:
            for lab in SECRET[k[1]]:
                if lab in k:
                    leak(self.mon, alltext, k[lab], "%s: secret key value (label %d of %s key)" % (what, lab, KNAME[k[1]]), True)
            for other in k.get(-9, []):
                for v in other.values():
                    leak(self.mon, alltext, v, "%s: secret prime information" % what, True)
        for n, v in self.content.items():
            leak(self.mon, alltext, v, "%s: %s" % (what, n))
        return alltext


def named(text, name):
    i = text.find(name)
    return i >= 0 and not text[i + len(name):i + len(name) + 1].isalnum()


# ---------------------------------------------------------------------------------------------------------------- messages
def headers(mon, rng, alg=None):
    """Header maps with everything that may stand in them."""
    p, u = G.buckets(rng, alg, n=rng.choice([0, 1, 3, 5]))
    for lab in (5, 6):
        if rng.random() < 0.3:
            (p if rng.random() < 0.5 else u)[lab] = rng.randbytes(rng.choice([0, 1, 7, 13]))
    if rng.random() < 0.3:
        v = rng.choice([5, "x", b"", [1, [2]], {}, {"a": {1: b"x"}}, True, 1.5, None])
        (p if rng.random() < 0.5 else u)[rng.choice(["IV0", "Algorithm", "EphemeralKey", "PartialIV", "KID ", "__name__", "{}", "%s", "", -70000, 70001])] = v
        mon.saw("custom labels like registered ones")
    return p, u


def embedded(mon, rng, w, p, u):
    """A key in a header, private part included: it is printed with the header."""
    k = rng.choice([G.ec_key(rng.choice([1, 2, 3]), rng), G.okp_key(rng.choice([4, 5, 6, 7]), rng)])
    w.keys.append(k)
    v = k if rng.random() < 0.5 else K.key(rng, k)
    (p if rng.random() < 0.5 else u)[rng.choice([-1, -2])] = v
    mon.saw("embedded keys printed")


def payload(rng):
    if rng.random() < 0.04:
        return rng.randbytes(rng.choice([1024, 4097, 9000, 65000]))
    return rng.choice([rng.randbytes(rng.choice([13, 24, 64, 300])), ("the secret text of message %d" % rng.getrandbits(60)).encode(), b"", b"abc", b"'\"\\\n\0",
                       rng.randbytes(5)])


def message(case, mon, rng):
    kind = case["kind"]
    cls, name = K.MSG[kind], NAME[kind]
    w = Watch(mon)

    def look(o, state):
        what = "%s (%s)" % (kind, state)
        w.look(o, name, what, state)
        mon.saw("message state: " + state, kind)
        for s in getattr(o, "signers", []) if kind == "Sign" else []:
            w.look(s, "COSE_Signature", what + " signer", state)
            mon.saw("signers printed", state)
        walk(o.recipients, what, state, 0) if kind in ("Mac", "Enc") else None

    def walk(rs, what, state, depth):
        for r in rs:
            w.look(r, "COSE_Recipient", what + " recipient", state)
            mon.saw("nested recipients printed" if depth else "recipients printed", type(r).__name__, state)
            walk(r.recipients, what, state, depth + 1)
            if r.key is not None:
                t = w.look(r.key, "COSE_Key", what + " key of a recipient", state)
    look(mon.must("constructor", cls), "fresh")
    look(mon.must("constructor", cls, payload=None) if rng.random() < 0.5 else mon.must("constructor", cls, phdr={}, uhdr={}, payload=b"x"), "fresh")
    alg = rng.choice(list({"Sign1": R.SIG, "Sign": R.SIG, "Mac0": R.MAC, "Mac": P.MACS, "Enc0": R.AEAD, "Enc": R.AEAD}[kind]))
    p, u = headers(mon, rng, None if kind == "Sign" else alg)
    if kind in ("Enc0", "Enc"):
        p.pop(5, None)
        u[5] = rng.randbytes(R.AEAD[alg][3])
    if rng.random() < 0.25:
        embedded(mon, rng, w, p, u)
    pl = payload(rng)
    w.content["payload"] = pl
    if len(pl) <= 6:
        mon.saw("short content printed")
    m = mon.must("constructor", cls, phdr=p, uhdr=u, payload=pl)
    m.external_aad = rng.choice([b"", rng.randbytes(20)])
    look(m, "headers")
    # keys, signers, recipients
    specs = []
    if kind == "Sign":
        for _ in range(rng.choice([1, 2, 3])):
            a = rng.choice(list(R.SIG))
            k = G.sig_key(a, rng)
            w.keys.append(k)
            sp, su = headers(mon, rng, a)
            if rng.random() < 0.15:
                embedded(mon, rng, w, sp, su)
            m.signers.append(K.CoseSignature(phdr=sp, uhdr=su, key=K.key(rng, k)))
    elif kind in ("Mac", "Enc") and rng.random() < 0.8:
        for a in [rng.choice(P.DIRECT_KA)] if rng.random() < 0.3 else [rng.choice(P.WRAP) for _ in range(G.layers(rng))]:
            s = P.spec(rng, a, None, True, [o["key"] for o in specs])
            specs.append(s)
            w.keys.append(s["key"])
            if "sender" in s:
                w.keys.append(s["sender"])
        m.recipients = [P.build(mon, rng, s) for s in specs]
        for s, r in zip(specs, m.recipients):
            if s["alg"] in R.KW and rng.random() < 0.5:
                x = K.DirectEncryption(uhdr={1: -6, **G.header(rng, 1, reg=[4, 10])})
                if rng.random() < 0.5:
                    k2 = G.sym_key(16, rng)
                    w.keys.append(k2)
                    x = K.KeyWrap(uhdr={1: -3}, key=K.key(rng, k2), payload=rng.randbytes(16))
                    w.content["key in a nested recipient"] = x.payload
                r.recipients = [x]
    else:
        k = G.sig_key(alg, rng) if kind == "Sign1" else G.mac_key(alg, rng) if kind in ("Mac0", "Mac") else G.aead_key(alg, rng)
        w.keys.append(k)
        m.key = K.key(rng, k)
        if kind in ("Mac", "Enc"):
            m.recipients = [K.DirectEncryption(uhdr={1: -6, 4: b"kid"})]
    look(m, "keyed")
    data = K.encode(mon, kind, m, rng)
    note(w, m, kind)
    if m.key is not None:
        w.look(m.key, "COSE_Key", "%s key" % kind)
    look(m, "encoded")
    d = K.decode(mon, kind, data, rng.random() < 0.5)
    note(w, d, kind)
    if kind in ("Enc0", "Enc"):
        w.content["ciphertext"] = d.payload
    look(d, "decoded")
    # the same with text labels which only look like registered names, in every layer
    t = B.dec(data)
    renamed(rng, t.value)
    x = K.decode(mon, kind, B.enc(t), rng.random() < 0.5)
    if kind in ("Enc0", "Enc"):
        w.content["ciphertext"] = d.payload
    look(x, "decoded")
    if rng.random() < 0.3:
        G.textual(rng, x.phdr, x.uhdr)
        look(x, "decoded")
    mon.saw("text labels like registered names printed")
    # the receiver
    d.external_aad = m.external_aad
    if kind == "Sign":
        for s, o in zip(m.signers, d.signers):
            o.key = s.key
        look(d, "received")
        for o in d.signers:
            mon.must("verify", o.verify_signature) if pl is not None else None
    elif specs:
        i = rng.randrange(len(specs))
        r = d.recipients[i]
        P.open_side(mon, rng, specs[i], r)
        look(d, "received")
        if kind == "Enc":
            mon.must("decrypt", d.decrypt, r)
        elif type(r) is K.DirectKeyAgreement:
            d.key = r.compute_cek(K.ALG[alg], "decrypt")
        else:
            d.key = K.SymmetricKey(k=r.decrypt(K.ALG[alg]))
        if d.key is not None:
            w.keys.append({1: 4, -1: d.key.k})
            w.look(d.key, "COSE_Key", "recovered content key")
    else:
        d.key = m.key
        look(d, "received")
        if kind in ("Enc0", "Enc"):
            mon.must("decrypt", d.decrypt, *d.recipients[:1] if kind == "Enc" else ())
        elif kind == "Sign1":
            d.verify_signature()
        else:
            d.verify_tag()
    look(d, "opened")
    for o in (m, d):
        o.payload = None
        look(o, "detached")
        o.phdr, o.uhdr = {}, {}
        if rng.random() < 0.5:
            o.key = None
        look(o, "emptied")
        if hasattr(o, "recipients") and kind in ("Mac", "Enc"):
            o.recipients = []
        if kind == "Sign":
            o.signers = []
        look(o, "emptied")


def renamed(rng, arr):
    h = dict(B.dec(arr[0]) if arr[0] else {})
    G.textual(rng, *([arr[1]] if layer_is_fixed(arr[1]) else [h, arr[1]]))
    arr[0] = B.enc(h) if h else b""
    for sub in arr[-1] if isinstance(arr[-1], list) else []:
        renamed(rng, sub)


def layer_is_fixed(uhdr):
    """Direct encryption and AES key wrap: nothing is protected."""
    return uhdr.get(1) in (-6, -3, -4, -5)


def note(w, m, kind):
    if kind == "Sign1":
        w.content["signature"] = m.signature
    if kind == "Sign":
        for i, s in enumerate(m.signers):
            w.content["signature %d" % i] = s.signature
    if kind in ("Mac0", "Mac"):
        w.content["tag"] = m.auth_tag
    for i, r in enumerate(m.recipients if kind in ("Mac", "Enc") else []):
        w.content["key carried by recipient %d of %s" % (i, id(m))] = r.payload
        for j, x in enumerate(r.recipients):
            w.content["key carried by nested recipient %d.%d of %s" % (i, j, id(m))] = x.payload


# -------------------------------------------------------------------------------------------------------------------- keys
def key(case, mon, rng):
    kty = case["kty"]
    k = {1: lambda: G.okp_key(rng.choice([4, 5, 6, 7]), rng), 2: lambda: G.ec_key(rng.choice([1, 2, 3]), rng),
         3: lambda: dict(G.rsa_key(rng, rng.choice([1088, 1536]))), 4: lambda: G.sym_key(rng.choice([16, 24, 32]), rng)}[kty]()
    w = Watch(mon)
    w.keys = [k]

    def look(o, state):
        t = w.look(o, "COSE_Key", "%s key (%s)" % (KNAME[kty], state), state)
        mon.check(KNAME[kty] in t, "the text does not name the kind of key", t)
        mon.saw("key state: " + state, kty)
        return t
    extra = {}
    for lab, v in ((2, G.kid(rng)), (3, rng.choice({1: [-8], 2: [-7, -25], 3: [-37, -257], 4: [1, 5, -3]}[kty])), (4, [rng.choice([1, 2, 3, 4])]),
                   (5, rng.randbytes(rng.choice([0, 5, 13, 40])))):
        if rng.random() < 0.5:
            extra[lab] = v
    o = K.key(rng, k, None, extra)
    look(o, "built")
    if kty != 4:
        look(K.key(rng, R.public(k), None, extra), "public")
    if kty in (1, 2):
        look(K.key(rng, {l: v for l, v in k.items() if l not in (-2, -3)}, None, extra), "private only")
    elif kty == 4:
        look(o, "private only")
    else:
        look(o, "private only")
    # custom parameters, with labels that resemble registered ones
    odd = ["EC2KpD", "EC2KpX", "OKPKpD", "OKPKpX", "SymKpK", "RSAKpN", "RSAKpD", "RSAKpOther", "KpKeyOps", "KpAlg", "KpKty", "BASE_IV ", "KpBaseIV", "K_", "x1", "",
           "{}", "%s", "__name__", "identifier", -70000, 77, 1000, -99]
    for _ in range(4):
        c = {}
        for _ in range(rng.randint(1, 4)):
            c[rng.choice(odd)] = rng.choice([5, 0, None, True, 1.5, "", "text", b"", b"abc", [1, 2], [], {}, {"a": 1}, [[1], {2: 3}]])
        form = rng.choice(["dict", "cbor", "cls"])
        q = K.key(rng, {**k, **c}, form, extra)
        look(q, "custom")
        mon.saw("custom labels like registered ones")
        look(K.CoseKey.decode(mon.must("encode", q.encode)), "decoded")
        for lab in list(c):
            q[lab] = rng.choice([7, None, "t", [], {}])
            look(q, "changed")
            del q[lab]
        look(q, "deleted")
    # histories of the registered attributes
    for a, v in (("kid", b"another kid"), ("key_ops", []), ("key_ops", [K.OPS[1]]), ("base_iv", b""), ("base_iv", rng.randbytes(9)), ("alg", None)):
        try:
            setattr(o, a, v)
        except Exception as e:
            mon.rejections[type(e).__name__] += 1
        look(o, "key_ops" if a == "key_ops" else "changed")
    for a in ("kid", "key_ops", "base_iv", "alg"):
        try:
            delattr(o, a)
        except Exception as e:
            mon.rejections[type(e).__name__] += 1
        look(o, "deleted")
    o = K.key(rng, k, None, extra)
    for lab in {1: ["x"], 2: ["x", "y"], 3: [], 4: []}[kty]:
        try:
            delattr(o, lab)
        except Exception as e:
            mon.rejections[type(e).__name__] += 1
        look(o, "deleted")
    if kty == 3:
        g = multi(rng, k)
        w.keys.append(g)
        look(K.key(rng, g, "dict"), "custom")
        mon.saw("multi-prime keys printed")
        if rng.random() < 0.1:
            o = K.RSAKey.generate_key(1024)
            w.keys.append({l: v for l, v in zip((1, -3, -4, -5, -6, -7, -8), (3, o.d, o.p, o.q, o.dp, o.dq, o.qinv))})
            look(o, "generated")
    elif kty == 4:
        o = K.SymmetricKey.generate_key(32)
        w.keys.append({1: 4, -1: o.k})
        look(o, "generated")
    else:
        o = K.KEYCLS[kty].generate_key(K.CRV[k[-1]])
        w.keys.append({1: kty, -4: o.d})
        look(o, "generated")
    # inside other things
    look_in = K.Mac0Message(phdr={1: 5}, payload=b"x")
    look_in.key = o
    w.look(look_in, "COSE_Mac0", "message holding the key")


def multi(rng, k):
    """A key with additional (not arithmetically consistent) primes: only printed."""
    return {**k, -9: [{-10: rng.randbytes(64), -11: rng.randbytes(64), -12: rng.randbytes(64)} for _ in range(rng.choice([1, 2]))]}
