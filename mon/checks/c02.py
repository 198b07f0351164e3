"""C02 no altered signed message verifies: a valid message is observed to verify, then one authenticated ingredient is
altered (on the wire or on the decoded object), then it must not verify, then the original must verify again."""
import random

from .. import cborref as C, coseref as R, gen as G, kit as K

PROP = "C02"
RULE = ("a case takes one valid message (made by pycose or by the reference) and applies a list of alterations to authenticated "
        "data; non-trivial: the unaltered message was observed to verify and at least one alteration was judged")
REQUIRED = {"originals verified": 100, "altered: payload": 60, "altered: phdr": 60, "altered: aad": 60, "altered: signature": 300,
            "altered: key": 60, "altered: alg": 20, "altered: kind": 60, "altered: transplant": 40, "altered: every byte": 500,
            "altered: body phdr": 15, "altered: boundary": 30, "altered: detached": 200, "altered: long": 200,
            "altered: zeros trimmed": 60}
ASSUMPTIONS = ["(r, n-s) is accepted as another signature of the same message by every ECDSA verifier and is not counted as an alteration"]


def cases(tier, rng):
    n = {"quick": 24, "thorough": 400}[tier]
    for alg in R.SIG:
        for part in range(4):
            yield {"do": "bytes", "alg": alg, "part": part, "s": rng.getrandbits(48)}
    for rep in range({"quick": 2, "thorough": 12}[tier]):
        for alg in R.SIG:
            for where in ("first", "half", "last"):
                yield {"do": "zeros", "alg": alg, "kind": rng.choice(["Sign1", "Sign"]), "where": where, "s": rng.getrandbits(48)}
    for rep in range({"quick": 2, "thorough": 12}[tier]):
        for alg in R.SIG:
            yield {"do": "long", "alg": alg, "kind": rng.choice(["Sign1", "Sign"]), "s": rng.getrandbits(48)}
    for rep in range(n):
        for alg in R.SIG:
            for kind in ("Sign1", "Sign"):
                yield {"do": "mix", "alg": alg, "kind": kind, "place": rng.choice("ppu"), "s": rng.getrandbits(48)}


NONE = object()


class Msg:
    """A valid message in parts, with the means to rebuild it on the wire and to verify it."""

    def __init__(self, rng, kind, alg, place="p", long=None):
        self.kind, self.alg = kind, alg
        self.key = G.sig_key(alg, rng)
        self.params = {a: b for a, b in {2: G.kid(rng), 3: alg, 4: [2]}.items() if rng.random() < 0.5}
        self.p, self.u = G.buckets(rng, alg, place, rng.choice([0, 1, 2, 3]))
        self.payload, self.aad = G.payload(rng, 0.005), G.aad(rng)
        self.bp, self.bu = G.buckets(rng, None, n=rng.choice([0, 1, 2]))
        if long == "payload":
            self.payload = rng.randbytes(rng.choice(G.LONG))
        elif long == "aad":
            self.aad = rng.randbytes(rng.choice(G.LONG))
        elif long == "phdr":
            self.p[-70125] = rng.randbytes(rng.choice(G.LONG[:2]))
        self.pb, self.bpb = R.hdr_bytes(self.p), R.hdr_bytes(self.bp)
        self.others = []
        self.detached = rng.random() < 0.25
        body, det = (None, {"detached_payload": self.payload}) if self.detached else (self.payload, {})
        if rng.random() < 0.5:
            self.sig = R.sign(alg, self.key, self.tbs())
        else:
            key = K.key(rng, self.key)
            if kind == "Sign1":
                m = K.Sign1Message(phdr=K.spell(rng, self.p), uhdr=K.spell(rng, self.u), payload=body, external_aad=self.aad, key=key)
                arr = C.dec(m.encode(**det)).value
                self.pb, self.sig = arr[0], arr[3]
            else:
                s = K.CoseSignature(phdr=K.spell(rng, self.p), uhdr=K.spell(rng, self.u), external_aad=self.aad, key=key)
                m = K.SignMessage(phdr=K.spell(rng, self.bp), uhdr=K.spell(rng, self.bu), payload=body, signers=[s])
                arr = C.dec(m.encode(**det)).value
                self.bpb, self.pb, self.sig = arr[0], arr[3][0][0], arr[3][0][2]
        if kind == "Sign":
            self.others = [[b"\xa1\x01\x26", {4: b"o%d" % i}, rng.randbytes(64)] for i in range(G.layers(rng, (0, 1, 2)))]
        self.at = rng.randrange(len(self.others) + 1)

    def tbs(self):
        if self.kind == "Sign1":
            return R.tbs1(self.pb, self.aad, self.payload)
        return R.tbs(self.bpb, self.pb, self.aad, self.payload)

    def wire(self, **alt):
        """(message, payload supplied at verification or NONE)"""
        g = lambda n: alt[n] if n in alt else getattr(self, n)
        payload, det = (None, g("payload")) if self.detached else (g("payload"), NONE)
        if g("kind") == "Sign1":
            return R.tagged("Sign1", [g("pb"), g("u"), payload, g("sig")]), det
        signers = list(self.others)
        signers.insert(self.at, [g("pb"), g("u"), g("sig")])
        return R.tagged("Sign", [g("bpb"), self.bu, payload, signers]), det

    def target(self, d):
        return d if isinstance(d, K.Sign1Message) else d.signers[self.at]

    def distract(self, rng, d):
        """The right values in places that do not count for this signer: the body message and the other signers."""
        if isinstance(d, K.SignMessage) and rng.random() < 0.6:
            d.external_aad = rng.choice([self.aad, self.aad, b"body", rng.randbytes(3)])
        for i, o in enumerate(d.signers if isinstance(d, K.SignMessage) else []):
            if i != self.at and rng.random() < 0.5:
                o.external_aad = self.aad
                o.key = K.key(rng, R.public(self.key))

    def public(self, rng, m=None):
        """A verification key, with the same parameters (key id and so on) whichever key it is."""
        return K.key(rng, R.public(m or self.key), None, self.params)

    def verify(self, rng, data, aad=None, key=None):
        data, det = data
        d = K.CoseMessage.decode(data)
        t = self.target(d)
        t.external_aad = self.aad if aad is None else aad
        self.distract(rng, d)
        t.key = key if key is not None else self.public(rng)
        return t.verify_signature() if det is NONE else t.verify_signature(det)


def same_sig(m, sig):
    """The alteration produced an equivalent ECDSA signature."""
    if R.SIG[m.alg][0] != "ecdsa" or len(sig) != len(m.sig):
        return False
    n, order = len(sig) // 2, R.DOMAIN[R.SIG[m.alg][1]][3]
    f = lambda b: (int.from_bytes(b[:n], "big"), int.from_bytes(b[n:], "big"))
    (r, s), (r0, s0) = f(sig), f(m.sig)
    return r == r0 and s in (s0, order - s0)


def original(mon, rng, m):
    r = mon.must("verification of the unaltered message", m.verify, rng, m.wire())
    mon.check(r is True, "unaltered message does not verify", m.kind, m.alg, r)
    mon.saw("originals verified", m.kind, m.alg)
    if m.detached:
        mon.saw("detached originals", m.kind, m.alg)


def run(case, mon):
    rng = random.Random(case["s"])
    if case["do"] == "bytes":
        m = Msg(rng, rng.choice(["Sign1", "Sign"]), case["alg"])
        original(mon, rng, m)
        step = {"ecdsa": 2, "eddsa": 1}.get(R.SIG[m.alg][0], 3)
        key = K.key(rng, R.public(m.key))
        for i in range(case["part"], len(m.sig), 4 if step == 1 else 4 * step):
            sig = bytearray(m.sig)
            sig[i] ^= rng.randrange(1, 256)
            if not same_sig(m, bytes(sig)):
                mon.never_true("signature byte %d altered, %s alg %d" % (i, m.kind, m.alg), m.verify, rng, m.wire(sig=bytes(sig)), key=key)
                mon.saw("altered: every byte", m.alg, i)
        for cut in sorted({0, 1, len(m.sig) // 2, len(m.sig) - 1}):
            mon.never_true("signature truncated to %d" % cut, m.verify, rng, m.wire(sig=m.sig[:cut]), key=key)
            mon.saw("altered: signature", m.alg, "cut", cut)
        return
    if case["do"] == "zeros":
        m = Msg(rng, case["kind"], case["alg"])
        n = len(m.sig) // 2
        for _ in range(250 if len(m.sig) > 255 else 700):
            if m.sig[{"first": 0, "half": n, "last": -1}[case["where"]]] == 0:
                break
            m.payload = rng.randbytes(9)
            m.sig = R.sign(m.alg, m.key, m.tbs())
        original(mon, rng, m)
        for sig in G.trimmed(m.sig, n):
            refuse(mon, rng, m, "zeros trimmed", m.wire(sig=sig))
        return
    if case["do"] == "long":
        for what in ("payload", "aad", "phdr"):
            m = Msg(rng, case["kind"], case["alg"], "p", what)
            original(mon, rng, m)
            if what == "phdr":
                for v in G.tails(rng, m.p[-70125]):
                    refuse(mon, rng, m, "long/phdr", m.wire(pb=C.enc({**m.p, -70125: v})))
            for v in G.tails(rng, getattr(m, what)) if what != "phdr" else ():
                refuse(mon, rng, m, "long/" + what, m.wire(**({"payload": v} if what == "payload" else {})), **({"aad": v} if what == "aad" else {}))
            original(mon, rng, m)
        return
    m = Msg(rng, case["kind"], case["alg"], case["place"])
    original(mon, rng, m)
    acts = list(ACTS)
    rng.shuffle(acts)
    for name, fn in acts:
        fn(mon, rng, m)
    original(mon, rng, m)
    objects(mon, rng, m)


def refuse(mon, rng, m, what, data, **kw):
    mon.never_true("%s (%s, alg %d)" % (what, m.kind, m.alg), m.verify, rng, data, **kw)
    mon.saw("altered: " + what.split("/")[0], m.kind, m.alg, what)
    if m.detached:
        mon.saw("altered: detached", m.kind, m.alg, what)


def alt_payload(mon, rng, m):
    for _ in range(3):
        refuse(mon, rng, m, "payload", m.wire(payload=G.variant(rng, m.payload)))
    if m.payload:
        refuse(mon, rng, m, "payload/absent", m.wire(payload=None))
        refuse(mon, rng, m, "payload/empty", m.wire(payload=b""))


def empty_map(b):
    try:
        return b == b"" or C.dec(b, exact=False) == {}
    except C.CBORError:
        return False


def alt_phdr(mon, rng, m):
    for _ in range(2):
        v = G.variant(rng, m.pb)
        if m.p or not empty_map(v):         # all encodings of the empty map are authenticated alike
            refuse(mon, rng, m, "phdr/bits", m.wire(pb=v))
    refuse(mon, rng, m, "phdr/added", m.wire(pb=C.enc({**m.p, -70123: 1})))
    if len(m.p) > 1:
        k = rng.choice([k for k in m.p if k != 1])
        refuse(mon, rng, m, "phdr/removed", m.wire(pb=C.enc({a: b for a, b in m.p.items() if a != k})))
    for _ in range(3):
        v = C.enc_var(m.p, rng, 0.6)
        if v != m.pb and m.p:
            refuse(mon, rng, m, "phdr/same items, other bytes", m.wire(pb=v))
            break


def alt_aad(mon, rng, m):
    for _ in range(2):
        refuse(mon, rng, m, "aad", m.wire(), aad=G.variant(rng, m.aad))
    if m.aad:
        refuse(mon, rng, m, "aad/omitted", m.wire(), aad=b"")


def alt_signature(mon, rng, m):
    seen = set()
    for _ in range(4):
        sig = G.variant(rng, m.sig)
        if sig not in seen and not same_sig(m, sig):
            seen.add(sig)
            refuse(mon, rng, m, "signature", m.wire(sig=sig))
    n = len(m.sig) // 2
    refuse(mon, rng, m, "signature/zero", m.wire(sig=bytes(len(m.sig))))
    if R.SIG[m.alg][0] == "ecdsa":
        order = R.DOMAIN[R.SIG[m.alg][1]][3]
        r, s = m.sig[:n], m.sig[n:]
        for sig in (r + bytes(n), bytes(n) + s, s + r, order.to_bytes(n, "big") + s, r + order.to_bytes(n, "big"), r + r,
                    b"\0" + r + b"\0" + s, (1).to_bytes(n, "big") * 2):
            if not same_sig(m, sig):
                refuse(mon, rng, m, "signature/special", m.wire(sig=sig))
    elif R.SIG[m.alg][0] == "eddsa":
        refuse(mon, rng, m, "signature/special", m.wire(sig=m.sig[n:] + m.sig[:n]))
        refuse(mon, rng, m, "signature/special", m.wire(sig=b"\x01" + bytes(len(m.sig) - 1)))
    else:
        i = int.from_bytes(m.sig, "big") + int.from_bytes(m.key[-1], "big")
        if i < 1 << 8 * len(m.sig):
            refuse(mon, rng, m, "signature/special", m.wire(sig=i.to_bytes(len(m.sig), "big")))
        refuse(mon, rng, m, "signature/special", m.wire(sig=b"\0" + m.sig))
        refuse(mon, rng, m, "signature/special", m.wire(sig=(1).to_bytes(len(m.sig), "big")))
    other = R.sign(m.alg, m.key, m.tbs() + b"\0")
    refuse(mon, rng, m, "signature/of other data", m.wire(sig=other))


def alt_key(mon, rng, m):
    k = m.key
    for _ in range(10):
        k = G.sig_key(m.alg, rng)
        if R.public(k) != R.public(m.key):
            break
    if R.public(k) != R.public(m.key):
        refuse(mon, rng, m, "key", m.wire(), key=m.public(rng, k))
        refuse(mon, rng, m, "key/no parameters", m.wire(), key=K.key(rng, R.public(k)))
    if m.key[1] == 2:
        y = R.DOMAIN[m.key[-1]][0] - int.from_bytes(m.key[-3], "big")
        refuse(mon, rng, m, "key/negated", m.wire(), key=K.key(rng, {**R.public(m.key), -3: y.to_bytes(len(m.key[-3]), "big")}))
    if m.key[1] == 3:
        e = rng.choice([x for x in (b"\x03", b"\x11", b"\x01\x00\x01", b"\x01\x00\x03", b"\x01" + m.key[-2]) if x != m.key[-2]])
        refuse(mon, rng, m, "key/exponent", m.wire(), key=K.key(rng, {**R.public(m.key), -2: e}))
    # a key of another type altogether
    alg = rng.choice([a for a in R.SIG if R.SIG[a][0][:1] != R.SIG[m.alg][0][:1] or R.SIG[a][0] == "eddsa" != R.SIG[m.alg][0]])
    o = G.sig_key(alg, rng)
    if o[1] != m.key[1]:
        refuse(mon, rng, m, "key/type", m.wire(), key=K.key(rng, R.public(o)))


def alt_alg(mon, rng, m):
    for alg in rng.sample([a for a in R.SIG if a != m.alg], 4):
        if 1 in m.p:
            pb = C.enc({**m.p, 1: alg})
            refuse(mon, rng, m, "alg/protected", m.wire(pb=pb))
        else:
            refuse(mon, rng, m, "alg/unprotected", m.wire(u={**m.u, 1: alg}))
    if 1 in m.p:        # a second, unprotected algorithm
        refuse(mon, rng, m, "alg/both", m.wire(u={**m.u, 1: rng.choice(list(R.SIG))}))


def alt_kind(mon, rng, m):
    if m.kind == "Sign1":
        if m.bpb == b"":
            refuse(mon, rng, m, "kind/signer without body header", m.wire(kind="Sign", bpb=b""))
        refuse(mon, rng, m, "kind/signer", m.wire(kind="Sign", bpb=m.pb))
        refuse(mon, rng, m, "kind/signer", m.wire(kind="Sign", bpb=m.pb, pb=b"", u={**m.u, 1: m.alg}))
    else:
        refuse(mon, rng, m, "kind/sign1", m.wire(kind="Sign1"))
        refuse(mon, rng, m, "kind/sign1", m.wire(kind="Sign1", pb=m.bpb, u={**m.u, 1: m.alg}))
    # a signature over the other kind's structure, over a MAC structure, or over a wrong context string
    for ctx in ("Signature", "Signature1", "CounterSignature", "MAC0", "", "signature1"):
        if m.kind == "Sign1" and ctx != "Signature1":
            data = C.enc([ctx, m.pb, m.aad, m.payload])
        elif m.kind == "Sign" and ctx != "Signature":
            data = C.enc([ctx, m.bpb, m.pb, m.aad, m.payload])
        else:
            continue
        if rng.random() < 0.4:
            refuse(mon, rng, m, "kind/context", m.wire(sig=R.sign(m.alg, m.key, data)))
    # structures with a missing or misplaced field
    for data in ([m.payload], ["Signature1", m.pb, m.payload], ["Signature1", m.payload, m.aad, m.pb], ["Signature1", m.aad, m.pb, m.payload],
                 ["Signature", m.pb, m.bpb, m.aad, m.payload], ["Signature", m.bpb, m.aad, m.payload], ["Signature", m.pb, m.aad, m.payload]):
        data = C.enc(data)
        if data != m.tbs() and rng.random() < 0.4:
            refuse(mon, rng, m, "kind/structure", m.wire(sig=R.sign(m.alg, m.key, data)))
    if m.payload and R.SIG[m.alg][0] != "pss":
        refuse(mon, rng, m, "kind/bare payload", m.wire(sig=R.sign(m.alg, m.key, m.payload)))


def alt_transplant(mon, rng, m):
    o = Msg(rng, m.kind, m.alg, "p")
    o.key = m.key
    o.sig = R.sign(o.alg, o.key, o.tbs())
    if o.tbs() != m.tbs():
        refuse(mon, rng, m, "transplant/signature", m.wire(sig=o.sig))
        refuse(mon, rng, m, "transplant/payload", m.wire(payload=o.payload, sig=m.sig if o.payload != m.payload else o.sig))
    # another signer of the same body, same key
    if m.kind == "Sign":
        pb = C.enc({**m.p, 4: b"another signer"})
        if pb != m.pb:
            refuse(mon, rng, m, "transplant/signer", m.wire(sig=R.sign(m.alg, m.key, R.tbs(m.bpb, pb, m.aad, m.payload))))


def alt_body(mon, rng, m):
    if m.kind == "Sign":
        refuse(mon, rng, m, "body phdr", m.wire(bpb=C.enc({**m.bp, -70123: 1})))
        refuse(mon, rng, m, "body phdr", m.wire(bpb=G.variant(rng, m.bpb)) if m.bpb not in (b"", b"\xa0") else m.wire(bpb=b"\xa1\x04\x40"))
        if m.bpb:
            refuse(mon, rng, m, "body phdr", m.wire(bpb=b""))


def alt_boundary(mon, rng, m):
    """Move bytes between external data and payload: the concatenation stays, the fields change."""
    if m.payload:
        n = rng.randrange(1, len(m.payload) + 1)
        refuse(mon, rng, m, "boundary", m.wire(payload=m.payload[n:]), aad=m.aad + m.payload[:n])
    if m.aad:
        n = rng.randrange(len(m.aad))
        refuse(mon, rng, m, "boundary", m.wire(payload=m.aad[n:] + m.payload), aad=m.aad[:n])
    if m.aad != m.payload:
        refuse(mon, rng, m, "boundary/swapped", m.wire(payload=m.aad), aad=m.payload)


ACTS = [("payload", alt_payload), ("phdr", alt_phdr), ("aad", alt_aad), ("signature", alt_signature), ("key", alt_key),
        ("alg", alt_alg), ("kind", alt_kind), ("transplant", alt_transplant), ("body", alt_body), ("boundary", alt_boundary)]


def objects(mon, rng, m):
    """The same on one decoded object: verify, alter, verify, restore, verify."""
    d = K.CoseMessage.decode(m.wire()[0])
    t = m.target(d)
    key = m.public(rng)
    t.external_aad, t.key = m.aad, key
    m.distract(rng, d)
    det = [m.payload] if m.detached and rng.random() < 0.7 else []
    if m.detached and not det:
        d.payload = m.payload           # the received payload is attached instead

    def good():
        mon.check(mon.must("verify", t.verify_signature, *det) is True, "restored message does not verify", m.kind, m.alg)
        mon.saw("restored and verified", m.kind, m.alg)

    def bad(what):
        mon.never_true("object altered: %s (%s, alg %d)" % (what, m.kind, m.alg), t.verify_signature, *det)
        mon.saw("altered: object", m.kind, m.alg, what)

    good()
    steps = ["payload", "aad", "sig", "key"]
    rng.shuffle(steps)
    for st in steps:
        if st == "payload":
            if det:
                det[0] = G.variant(rng, m.payload)
                bad(st)
                d.payload = det.pop()
                bad("other payload attached")
                d.payload = None
                bad("no payload")
                det.append(m.payload)
            else:
                d.payload = G.variant(rng, m.payload)
                bad(st)
                d.payload = m.payload
        elif st == "aad":
            t.external_aad = G.variant(rng, m.aad)
            bad(st)
            t.external_aad = m.aad
        elif st == "sig":
            s = G.variant(rng, m.sig)
            if same_sig(m, s):
                continue
            t.signature = s
            bad(st)
            t.signature = m.sig
        else:
            k = G.sig_key(m.alg, rng)
            if R.public(k) == R.public(m.key):
                continue
            t.key = m.public(rng, k)
            bad(st)
            t.key = key
        good()
    if rng.random() < 0.5:
        t.phdr_update({-70124: b"new"})
        bad("phdr_update")
    elif m.kind == "Sign" and rng.random() < 0.5:
        d.phdr_update({-70124: b"new"})
        bad("body phdr_update")
    else:
        t.phdr = K.spell(rng, {**m.p, -70124: b"new"})
        bad("phdr assigned")
