"""C22 detached payloads: histories of detaching, attaching, supplying, transporting and re-encoding a payload, monitored against the
reference (which signature covers which bytes) and against the four combinations of attached and supplied payload."""
import random

from .. import cborref as C, coseref as R, gen as G, kit as K, rcpt

H = K.headers
PROP = "C22"
RULE = ("a case is one signed, MACed or encrypted message taken through detached and attached states; non-trivial: a verification verdict, a "
        "wire form or a refusal in one of these states was observed")
REQUIRED = {"nil payload on the wire": 500, "verified with supplied payload": 500, "verified with attached payload": 500, "other payload refused": 1500,
            "neither refused": 800, "both refused": 1200, "signed bytes equal attached form": 300, "attached message detached later": 300,
            "re-encoded detached": 200, "MAC without payload refused": 300, "MAC re-attached": 150, "plaintext absent refused": 300,
            "ciphertext re-attached": 150, "empty payloads": 100, "reference message": 200, "history steps": 5000}
SIGS = list(R.SIG)


def cases(tier, rng):
    n = {"quick": 36, "thorough": 1600}[tier]
    for rep in range(n):
        for kind in ("Sign1", "Sign"):
            for a in rng.sample(SIGS, 5):
                yield {"do": "sign", "kind": kind, "alg": a, "s": rng.getrandbits(48)}
        for kind in ("Mac0", "Mac"):
            for a in rng.sample(list(R.MAC), 4):
                yield {"do": "mac", "kind": kind, "alg": a, "s": rng.getrandbits(48)}
        for kind in ("Enc0", "Enc"):
            for a in rng.sample(list(R.AEAD), 4):
                yield {"do": "enc", "kind": kind, "alg": a, "s": rng.getrandbits(48)}


def run(case, mon):
    {"sign": sign, "mac": mac, "enc": enc}[case["do"]](case, mon, random.Random(case["s"]))


def payload(rng):
    if rng.random() < 0.04:
        return G.blob(rng, rng.choice([1024, 4096, 4097, 8200, 65535]))
    return rng.choice([b"", b"\0", b"\xf6", b"\x40", G.payload(rng, 0), G.payload(rng, 0), G.payload(rng, 0)])


def others(rng, p):
    return [x for x in (b"", b"\0", b"\xf6", p + b"\0", b"\0" + p, G.variant(rng, p), p[:-1] if p else b"x") if x != p]


# ------------------------------------------------------------------------------------------------------------ signed
class Signed:
    """One side's view: the body message and what is signed by each signer."""

    def __init__(self, rng, kind, alg):
        self.kind, self.rng = kind, rng
        n = 1 if kind == "Sign1" else G.layers(rng)
        algs = [alg] + [rng.choice(SIGS) for _ in range(n - 1)]
        self.signers = [(a, G.sig_key(a, rng), G.aad(rng)) for a in algs]
        self.p, self.u = G.buckets(rng, alg if kind == "Sign1" else None, n=rng.choice([0, 1]))
        self.sp = [G.buckets(rng, a, n=0) for a in algs]

    def build(self, mon, body):
        rng = self.rng
        if self.kind == "Sign1":
            a, k, aad = self.signers[0]
            kw = {} if body is None and rng.random() < 0.5 else {"payload": body}
            return mon.must("constructor", K.Sign1Message, phdr=K.spell(rng, self.p), uhdr=K.spell(rng, self.u), external_aad=aad, key=K.key(rng, k), **kw)
        m = mon.must("constructor", K.SignMessage, phdr=K.spell(rng, self.p), uhdr=K.spell(rng, self.u), payload=body)
        m.signers = [K.CoseSignature(phdr=K.spell(rng, sp), uhdr=K.spell(rng, su), external_aad=aad, key=K.key(rng, k))
                     for (sp, su), (a, k, aad) in zip(self.sp, self.signers)]
        return m

    def equip(self, r):
        for s, (a, k, aad) in zip(self.parts(r), self.signers):
            s.key, s.external_aad = K.key(self.rng, R.public(k)), aad
        return r

    def parts(self, m):
        return [m] if self.kind == "Sign1" else m.signers

    def wire_sigs(self, arr):
        return [(arr[0], None, arr[3])] if self.kind == "Sign1" else [(arr[0], s[0], s[2]) for s in arr[3]]

    def covered(self, mon, arr, body, what):
        """The signatures on the wire are over this payload."""
        for (bp, sp, sig), (a, k, aad) in zip(self.wire_sigs(arr), self.signers):
            tbs = R.tbs1(bp, aad, body) if sp is None else R.tbs(bp, sp, aad, body)
            mon.check(R.verify(a, R.public(k), tbs, sig), what + ": the signature is not over the payload", a, body)

    def reference(self, body, attached):
        """Made by the reference."""
        pb = C.enc(self.p) if self.p else b""
        if self.kind == "Sign1":
            a, k, aad = self.signers[0]
            return R.tagged("Sign1", [pb, self.u, body if attached else None, R.sign(a, k, R.tbs1(pb, aad, body))])
        sigs = []
        for (sp, su), (a, k, aad) in zip(self.sp, self.signers):
            sb = C.enc(sp) if sp else b""
            sigs.append([sb, su, R.sign(a, k, R.tbs(pb, sb, aad, body))])
        return R.tagged("Sign", [pb, self.u, body if attached else None, sigs])


def supply(rng, fn, p):
    return fn(p) if rng.random() < 0.5 else fn(detached_payload=p)


def states(mon, rng, S, r, body, what):
    """All combinations of attached and supplied payload on a decoded message."""
    r.payload = None
    for s in S.parts(r):
        mon.check(mon.must(what + ": verify with the supplied payload", supply, rng, s.verify_signature, body) is True, what + ": supplied payload not accepted")
        mon.saw("verified with supplied payload", S.kind, len(body))
        mon.rejects(what + ": verify with no payload at all", s.verify_signature)
        mon.rejects(what + ": verify with None supplied", s.verify_signature, None)
        mon.saw("neither refused", S.kind, "verify")
        for o in others(rng, body):
            mon.never_true(what + ": verify with another supplied payload", supply, rng, s.verify_signature, o)
            mon.saw("other payload refused", S.kind, "supplied")
        mon.check(mon.must(what + ": verify again", s.verify_signature, body) is True, what + ": supplied payload not accepted again")
    r.payload = body
    for s in S.parts(r):
        mon.check(mon.must(what + ": verify with the attached payload", s.verify_signature) is True, what + ": attached payload not accepted")
        mon.saw("verified with attached payload", S.kind, len(body))
        for o in [body, b"", b"x", rng.randbytes(3)]:
            mon.rejects(what + ": verify with attached and supplied payload", supply, rng, s.verify_signature, o)
            mon.saw("both refused", S.kind, "verify", o == body, o == b"", body == b"")
    for o in others(rng, body)[:3]:
        r.payload = o
        for s in S.parts(r):
            mon.never_true(what + ": verify with another attached payload", s.verify_signature)
            mon.rejects(what + ": verify with attached and supplied payload", supply, rng, s.verify_signature, body)
            mon.saw("other payload refused", S.kind, "attached")
    r.payload = None
    for s in S.parts(r):
        mon.rejects(what + ": verify with no payload after detaching again", s.verify_signature)
        mon.saw("neither refused", S.kind, "verify after detaching")
        mon.check(mon.must(what + ": verify after detaching again", s.verify_signature, body) is True, what + ": supplied payload not accepted again")


NONE = object()


def walk_received(mon, rng, S, data, body, attached, what):
    """A random history of attaching, detaching, verifying and re-encoding; the model is the attached payload alone."""
    r = S.equip(K.decode(mon, S.kind, data, rng.random() < 0.5))
    att = body if attached else None
    pool = [body, body, None, None] + others(rng, body)[:4]
    trace = []
    for _ in range(rng.randrange(8, 20)):
        act = rng.random()
        if act < 0.35:
            att = rng.choice(pool)
            r.payload = att
            trace.append(("payload", att))
        elif act < 0.9:
            i = rng.randrange(len(S.parts(r)))
            s = S.parts(r)[i]
            sup = rng.choice([NONE, NONE, *pool])
            trace.append(("verify", i, "nothing" if sup is NONE else sup))
            args = [] if sup is NONE else [sup]
            if (att is None) == (sup is NONE or sup is None):
                mon.rejects(what + ": verification after %r" % trace, s.verify_signature, *args)
            elif (att if att is not None else sup) == body:
                mon.check(mon.must(what + ": verification", s.verify_signature, *args) is True, what + ": not accepted", trace)
            else:
                mon.never_true(what + ": verification after %r" % trace, s.verify_signature, *args)
            mon.saw("history steps", S.kind, "verify", att is None, sup is NONE, sup is None)
        elif S.kind == "Sign1":
            out = mon.must(what + ": re-encoding", r.encode, sign=False)
            a = C.dec(out).value
            mon.check(a[2] == att and a[3] == C.dec(data).value[3], what + ": re-encoded", a, trace)
            r = S.equip(K.decode(mon, S.kind, out))
            trace.append("re-encoded")
            mon.saw("history steps", S.kind, "re-encode", att is None)
        else:
            i = rng.randrange(len(S.signers))
            K_, a = S.signers[i][1], S.signers[i][2]
            r.signers[i].key, r.signers[i].external_aad = K.key(rng, R.public(K_)), a
            trace.append("key")
        mon.check(r.payload == att, what + ": payload", r.payload, trace)


def walk_sending(mon, rng, S, body, what):
    """The same for the sender: which payload each produced signature covers."""
    att = rng.choice([None, body])
    m = S.build(mon, att)
    pool = [body, None] + others(rng, body)[:3]
    trace = []
    for _ in range(rng.randrange(5, 11)):
        if rng.random() < 0.45:
            att = rng.choice(pool)
            m.payload = att
            trace.append(("payload", att))
        else:
            sup = rng.choice([NONE, *pool])
            trace.append(("encode", "nothing" if sup is NONE else sup))
            kw = {} if sup is NONE else {"detached_payload": sup}
            if (att is None) == (sup is NONE or sup is None):
                mon.rejects(what + ": signing after %r" % trace, m.encode, **kw)
            else:
                arr = C.dec(mon.must(what + ": signing", m.encode, **kw)).value
                mon.check(arr[2] == att, what + ": payload on the wire", arr[2], trace)
                S.covered(mon, arr, att if att is not None else sup, what + " after %r" % trace)
            mon.saw("history steps", S.kind, "sign", att is None, sup is NONE, sup is None)
        mon.check(m.payload == att, what + ": payload", m.payload, trace)


def sign(case, mon, rng):
    kind, alg = case["kind"], case["alg"]
    S = Signed(rng, kind, alg)
    body = payload(rng)
    if body == b"":
        mon.saw("empty payloads", kind)
    what = "%s %d" % (kind, alg)
    # signing in the four combinations
    m = S.build(mon, None)
    mon.rejects(what + ": signing without payload", m.encode)
    if kind == "Sign1":
        mon.rejects(what + ": signing without payload", m.compute_signature)
    mon.saw("neither refused", kind, "sign")
    w = mon.must(what + ": detached signing", m.encode, detached_payload=body)
    arr = C.dec(w).value
    mon.check(arr[2] is None, what + ": detached payload on the wire", arr[2])
    mon.check(len(set(body)) < 12 or body not in w, what + ": the detached payload is part of the message")
    mon.saw("nil payload on the wire", kind, "signed")
    S.covered(mon, arr, body, what + " detached")
    mon.check(m.payload is None, what + ": detached signing attaches the payload", m.payload)
    mon.rejects(what + ": signing without payload after detached signing", m.encode)
    m2 = S.build(mon, body)
    for o in (body, b"", b"x"):
        mon.rejects(what + ": signing with attached and supplied payload", m2.encode, detached_payload=o)
        mon.saw("both refused", kind, "sign")
    w2 = mon.must(what + ": attached signing", m2.encode)
    arr2 = C.dec(w2).value
    mon.check(arr2[2] == body, what + ": attached payload on the wire", arr2[2])
    S.covered(mon, arr2, body, what + " attached")
    mon.check(arr[:2] == arr2[:2], what + ": headers differ between detached and attached", arr[:2], arr2[:2])
    for (bp, sp, s1), (_, _, s2), (a, k, aad) in zip(S.wire_sigs(arr), S.wire_sigs(arr2), S.signers):
        if a in (-8, -257, -258, -259, -65535):
            mon.eq(s1, s2, what + ": detached and attached signature")
    mon.saw("signed bytes equal attached form", kind, alg)
    # detaching before signing, attaching before signing
    m.payload = body
    w3 = mon.must(what + ": signing after attaching", m.encode)
    S.covered(mon, C.dec(w3).value, body, what + " attached later")
    m2.payload = None
    w4 = mon.must(what + ": signing after detaching", m2.encode, detached_payload=body)
    mon.check(C.dec(w4).value[2] is None, what + ": detached payload on the wire after detaching")
    S.covered(mon, C.dec(w4).value, body, what + " detached later")
    # transport
    for data, name in ((w, "detached"), (w4, "detached later"), (S.reference(body, False), "detached by the reference")):
        r = S.equip(K.decode(mon, kind, data, rng.random() < 0.5))
        mon.check(r.payload is None, what + ": decoded detached payload", r.payload)
        states(mon, rng, S, r, body, what + " " + name)
        if "reference" in name:
            mon.saw("reference message", kind)
    for data, name in ((w2, "attached"), (S.reference(body, True), "attached by the reference")):
        r = S.equip(K.decode(mon, kind, data, rng.random() < 0.5))
        mon.eq(r.payload, body, what + ": decoded attached payload")
        states(mon, rng, S, r, body, what + " " + name)
        mon.saw("attached message detached later", kind)
        # detached for transport by its receiver: the signature goes along
        if kind == "Sign1":
            r.payload = None
            out = mon.must(what + ": re-encoding the detached message", r.encode, sign=False)
            a = C.dec(out).value
            mon.check(a[2] is None and a[3] == C.dec(data).value[3] and a[0] == C.dec(data).value[0], what + ": re-encoded detached message", a)
            again = S.equip(K.decode(mon, kind, out))
            mon.check(mon.must(what + ": verify", again.verify_signature, body) is True, what + ": detached after transport does not verify")
            again.payload = body
            back = mon.must(what + ": re-encoding the attached message", again.encode, sign=False)
            mon.eq(C.dec(back).value[2:], C.dec(data).value[2:], what + ": attached again")
            mon.saw("re-encoded detached", kind)
        else:
            # the wire form without payload
            a = C.dec(data).value
            out = R.tagged(kind, [C.Raw(C.enc(a[0])), a[1], None, a[3]])
            again = S.equip(K.decode(mon, kind, out))
            for s in again.signers:
                mon.check(mon.must(what + ": verify", s.verify_signature, body) is True, what + ": detached on the way does not verify")
            mon.saw("re-encoded detached", kind)
    for data, attached in ((w, False), (w2, True)):
        walk_received(mon, rng, S, data, body, attached, what + " history")
    walk_sending(mon, rng, S, body, what + " sender's history")


# -------------------------------------------------------------------------------------------------------------- MACs
def recipients(mon, rng, kind, alg):
    """Recipients of a COSE_Mac or COSE_Encrypt message: (objects, specs or None)"""
    if rng.random() < 0.6:
        return [K.DirectEncryption(uhdr={H.Algorithm: K.ALG[-6]})], None
    if kind == "Mac" and alg not in rcpt.MACS:
        return [K.DirectEncryption(uhdr={H.Algorithm: K.ALG[-6]})], None
    s = rcpt.spec(rng, rng.choice(rcpt.WRAP + rcpt.DIRECT_KA))
    return [rcpt.build(mon, rng, s)], s


def mac(case, mon, rng):
    kind, alg = case["kind"], case["alg"]
    body, aad = payload(rng), G.aad(rng)
    if body == b"":
        mon.saw("empty payloads", kind)
    km = G.mac_key(alg, rng)
    p, u = G.buckets(rng, alg, n=rng.choice([0, 1]))
    what = "%s %d" % (kind, alg)

    def fresh(pl, spec_out=None):
        m = K.MSG[kind](phdr=K.spell(rng, p), uhdr=K.spell(rng, u), payload=pl, external_aad=aad, key=K.key(rng, km))
        spec = None
        if kind == "Mac":
            m.recipients, spec = recipients(mon, rng, kind, alg)
        return m, spec
    m, spec = fresh(None)
    mon.rejects(what + ": MAC without payload", m.encode)
    mon.rejects(what + ": tag without payload", m.compute_tag)
    mon.check(m.auth_tag == b"", what + ": a tag was produced without payload", m.auth_tag)
    mon.saw("MAC without payload refused", kind, "create")
    m, spec = fresh(None)
    m.payload = body
    w = mon.must(what + ": encoding after attaching", m.encode)
    arr = C.dec(w).value
    mon.eq(arr[2], body, what + ": payload on the wire")
    if spec is None:
        mon.eq(arr[3], R.mac(alg, km[-1], R.tbm(kind, arr[0], aad, body)), what + ": tag")
        k = km[-1]
    else:
        k = rcpt.ref_open(spec, arr[4][0], alg)
        mon.check(k is not None and arr[3] == R.mac(alg, k, R.tbm(kind, arr[0], aad, body)), what + ": tag")
    # payload taken out in transit
    out = R.tagged(kind, [C.Raw(C.enc(arr[0])), arr[1], None] + arr[3:])
    r = K.decode(mon, kind, out, rng.random() < 0.5)
    mon.check(r.payload is None, what + ": decoded payload", r.payload)
    r.key, r.external_aad = K.key(rng, {1: 4, -1: k}), aad
    mon.never_true(what + ": verification without payload", r.verify_tag)
    mon.rejects(what + ": verification without payload", r.verify_tag)
    mon.saw("MAC without payload refused", kind, "verify")
    for o in others(rng, body)[:4]:
        r.payload = o
        mon.never_true(what + ": verification with another payload", r.verify_tag)
        mon.saw("other payload refused", kind, "mac")
    r.payload = body
    mon.check(mon.must(what + ": verification after attaching", r.verify_tag) is True, what + ": re-attached payload is not accepted")
    r.payload = None
    mon.rejects(what + ": verification after detaching again", r.verify_tag)
    r.payload = body
    mon.check(mon.must(what + ": verification after attaching", r.verify_tag) is True, what + ": re-attached payload is not accepted")
    mon.saw("MAC re-attached", kind)
    mon.saw("nil payload on the wire", kind, "mac")
    # a random history of the payload
    pool = [body, body, None] + others(rng, body)[:3]
    trace = []
    for _ in range(12):
        r.payload = att = rng.choice(pool)
        trace.append(att)
        if att is None:
            mon.rejects(what + ": verification after %r" % trace, r.verify_tag)
        elif att == body:
            mon.check(mon.must(what + ": verification", r.verify_tag) is True, what + ": not accepted", trace)
        else:
            mon.never_true(what + ": verification after %r" % trace, r.verify_tag)
        mon.check(r.payload == att and r.auth_tag == arr[3], what + ": verification changed the message", r.payload, r.auth_tag)
        mon.saw("history steps", kind, "verify", att is None, att == body)
    r.payload = body
    # detached by the receiver, encoding must not produce a tag
    if spec is None:
        r.payload = None
        mon.rejects(what + ": encoding without payload", r.encode)
        mon.check(r.auth_tag == arr[3], what + ": failed tag computation changed the tag", r.auth_tag)


def enc(case, mon, rng):
    kind, alg = case["kind"], case["alg"]
    body, aad = payload(rng), G.aad(rng)
    if body == b"":
        mon.saw("empty payloads", kind)
    km = G.aead_key(alg, rng)
    nonce = G.nonce(alg, rng)
    p, u = G.buckets(rng, alg, n=rng.choice([0, 1]), extra_u={5: nonce})
    what = "%s %d" % (kind, alg)

    def fresh(pl):
        m = K.MSG[kind](phdr=K.spell(rng, p), uhdr=K.spell(rng, u), payload=pl, external_aad=aad, key=K.key(rng, km))
        spec = None
        if kind == "Enc":
            m.recipients, spec = recipients(mon, rng, kind, alg)
        return m, spec
    m, spec = fresh(None)
    mon.rejects(what + ": encryption without plaintext", m.encode)
    mon.rejects(what + ": encryption without plaintext", m.encrypt)
    mon.saw("plaintext absent refused", kind, "encrypt", spec and spec["alg"])
    m, spec = fresh(None)
    m.payload = body
    w = mon.must(what + ": encoding after attaching", m.encode)
    arr = C.dec(w).value
    k = km[-1] if spec is None else rcpt.ref_open(spec, arr[3][0], alg)
    ea = R.enc_aad(kind, arr[0], aad)
    mon.check(k is not None and arr[2] == R.seal(alg, k, nonce, ea, body), what + ": ciphertext")
    mon.eq(m.payload, body, what + ": the sender's payload")

    def ready(data):
        r = K.decode(mon, kind, data, rng.random() < 0.5)
        r.external_aad = aad
        if spec is None:
            r.key = K.key(rng, km)
        else:
            rcpt.open_side(mon, rng, spec, r.recipients[0])
        return r

    def dec(r):
        return r.decrypt(r.recipients[0]) if kind == "Enc" else r.decrypt()
    out = R.tagged(kind, [C.Raw(C.enc(arr[0])), arr[1], None] + arr[3:])
    r = ready(out)
    mon.check(r.payload is None, what + ": decoded ciphertext", r.payload)
    mon.rejects(what + ": decryption without ciphertext", dec, r)
    mon.saw("plaintext absent refused", kind, "decrypt", spec and spec["alg"])
    for o in (b"", arr[2][:-1], G.variant(rng, arr[2])):
        r.payload = o
        mon.rejects(what + ": decryption of another ciphertext", dec, r)
        mon.saw("other payload refused", kind, "enc")
    r.payload = arr[2]
    mon.eq(mon.must(what + ": decryption after attaching", dec, r), body, what + ": plaintext")
    mon.saw("ciphertext re-attached", kind)
    trace = []
    for _ in range(10):
        r.payload = att = rng.choice([arr[2], arr[2], None, b"", arr[2] + b"\0", body, G.variant(rng, arr[2])])
        trace.append(att)
        if att == arr[2]:
            mon.eq(mon.must(what + ": decryption", dec, r), body, what + ": plaintext after %r" % trace)
        else:
            mon.rejects(what + ": decryption after %r" % trace, dec, r)
        mon.check(r.payload == att, what + ": decryption changed the message", r.payload, trace)
        mon.saw("history steps", kind, "decrypt", att is None, att == arr[2])
    r.payload = arr[2]
    mon.saw("nil payload on the wire", kind, "enc")
    if spec is None:
        # detached by its owner for transport
        r.payload = None
        det = C.dec(mon.must(what + ": encoding the detached message", r.encode, encrypt=False)).value
        mon.check(det[2] is None and det[0] == arr[0], what + ": detached ciphertext on the wire", det)
        mon.rejects(what + ": encrypting without plaintext", r.encode)
