"""C12 header lookups against the two-bucket model: values in neither, one or both buckets, over every parameter, custom labels, falsy
values and defaults, on every kind of object; and operations on messages carrying an algorithm or IV twice."""
import random

from .. import cborref as C, coseref as R, gen as G, kit as K, rcpt as P

PROP = "C12"
RULE = ("a case is one object with a random distribution of parameters over its buckets and every lookup on it, or one operation with an "
        "algorithm or IV in both buckets next to its accepted single-bucket original; non-trivial: some lookup or operation was judged")
OPS = ("sign1", "verify1", "sign", "verify", "mac0", "verify mac0", "mac", "verify mac", "enc0", "decrypt enc0", "enc", "decrypt enc",
       "kw wrap", "kw unwrap", "oaep wrap", "oaep unwrap", "ka wrap", "ka unwrap", "direct ka", "direct ka receive")
REQUIRED = {"lookup: protected": 1500, "lookup: unprotected": 1500, "lookup: neither": 1500, "lookup: both": 1500,
            "lookup: both equal": 200, "falsy value": 800, "falsy default": 800, "custom label": 500, "decoded objects": 150,
            "built objects": 150, **{"twice refused: " + o: 10 for o in OPS}, "original accepted": 200, "same value twice": 80,
            "iv twice": 40, "partial iv twice": 20}
FALSY = [None, b"", 0, "", False, [], {}, 0.0]


def cases(tier, rng):
    for rep in range({"quick": 300, "thorough": 4000}[tier]):
        for how in ("built", "built", "decoded"):
            for cls in ("Sign1", "Sign", "Mac0", "Mac", "Enc0", "Enc", "signer", "recipient"):
                yield {"do": "lookup", "how": how, "cls": cls, "s": rng.getrandbits(48)}
    for rep in range({"quick": 300, "thorough": 4000}[tier]):
        for op in OPS:
            yield {"do": "op", "op": op, "s": rng.getrandbits(48)}


def run(case, mon):
    (lookup if case["do"] == "lookup" else operation)(case, mon, random.Random(case["s"]))


def some_value(rng, lab):
    if lab in (4, 10, 5, 6, 9):
        return rng.choice([b"", b"", b"\x00", rng.randbytes(rng.choice([1, 8, 13]))])
    if lab == 1:
        return rng.choice(list(K.ALG))
    if lab == 2:
        return rng.choice([[0], [1, "x"], [""]])
    if lab == 3:
        return rng.choice([0, 0, "", 7, "text/plain"])
    if lab in (-1, -2):
        return R.public(rng.choice([G.okp_key(rng.choice([4, 6]), rng), G.ec_key(1, rng)]))
    return rng.choice(FALSY + [G.value(rng)]) if rng.random() < 0.6 else G.value(rng)


def lookup(case, mon, rng):
    labels = list(K.HDR) + [rng.choice([-70000, 8, 99, 2 ** 40]), rng.choice(["x", "", "\u20ac"])]
    if case["how"] == "decoded":        # on the wire the names of parameters are ordinary text
        labels += rng.sample([f(x.fullname) for x in K.HDR.values() for f in (str, str.lower)], rng.choice([0, 2, 6]))
    p, u = {}, {}
    for lab in labels:
        r = rng.random()
        if r < 0.3 or 0.5 < r < 0.75:
            p[lab] = some_value(rng, lab)
        if 0.3 < r < 0.75:
            u[lab] = p[lab] if lab in p and rng.random() < 0.2 else some_value(rng, lab)
    p, u = G.shuffled(rng, p), G.shuffled(rng, u)
    c = case["cls"]
    if case["how"] == "decoded":
        if c in ("recipient", "signer"):
            if c == "recipient":        # needs an unambiguous algorithm of a class without rules on the header
                for h in (p, u):
                    h.pop(1, None)
                    h.pop(-1, None)
                rng.choice([p, u])[1] = rng.choice([-10, -13, -40, -29])
                a = p.get(1, u.get(1))
                o = K.decode(mon, "Enc", C.enc(C.Tag(96, [b"", {}, b"c", [[C.enc(p), u, b"" if a in (-10, -13) else b"k"]]]))).recipients[0]
            else:
                o = K.decode(mon, "Sign", C.enc(C.Tag(98, [b"", {}, b"c", [[C.enc(p), u, b"s"]]]))).signers[0]
        else:
            arr = [C.enc(p), u, b"payload", *({"Enc0": [], "Sign": [[]], "Enc": [[]], "Mac": [b"t", []]}.get(c, [b"t"]))]
            o = K.decode(mon, c, C.enc(C.Tag(R.MSG_TAG[c], arr)))
        mon.saw("decoded objects", c)
    else:
        cls = K.MSG.get(c) or (K.CoseSignature if c == "signer" else rng.choice([K.DirectEncryption, K.KeyWrap, K.DirectKeyAgreement, K.KeyAgreementWithKeyWrap]))
        if rng.random() < 0.5:
            o = mon.must("constructor", cls, phdr=K.spell(rng, p), uhdr=K.spell(rng, u))
        else:
            o = mon.must("constructor", cls)
            K.build_headers(mon, rng, o, p, u)
        mon.saw("built objects", c)
    K.headers_match(mon, o, p, u, "object")
    for lab in labels:
        cls = K.HDR.get(lab, lab)
        inp, inu = lab in p, lab in u
        for d in (NONE, None, 0, b"", False, "dflt", [1], 5):
            a = (d,) if d is not NONE and rng.random() < 0.5 else ()
            kw = {"default": d} if d is not NONE and not a else {}
            if inp and inu:
                mon.rejects("lookup of %s, present in both buckets (%r, %r)" % (lab, p[lab], u[lab]), o.get_attr, cls, *a, **kw)
                mon.saw("lookup: both", c, lab)
                if C.same(p[lab], u[lab]):
                    mon.saw("lookup: both equal")
                continue
            got = mon.must("lookup", o.get_attr, cls, *a, **kw)
            if inp or inu:
                want = (p if inp else u)[lab]
                mon.check(C.same(K.norm(got), want), "lookup of %s with default %r" % (lab, d), got, want)
                mon.saw("lookup: protected" if inp else "lookup: unprotected", c, lab, type(d).__name__)
                if not want:
                    mon.saw("falsy value")
            else:
                want = None if d is NONE else d
                mon.check(got is want or C.same(got, want), "lookup of absent %s does not give the default" % lab, got, want)
                mon.saw("lookup: neither", c, lab)
            if d is not NONE and not d:
                mon.saw("falsy default")
            if lab not in K.HDR:
                mon.saw("custom label")
    K.headers_match(mon, o, p, u, "after lookups")


NONE = object()


# -------------------------------------------------------------------------------------------------------------- operations
def twice(rng, lab, p, u, other):
    """Adds to the bucket that lacks the label: the same or another legal value."""
    v = p.get(lab, u.get(lab))
    w = v if rng.random() < 0.4 else other
    (u if lab in p else p)[lab] = w
    return v == w


def nonces(rng, alg, p, u):
    """Places IV or partial IV; returns (label to duplicate, other value, key parameters, nonce)."""
    n = rng.randbytes(R.AEAD[alg][3])
    if rng.random() < 0.3:
        part = rng.randbytes(rng.choice([1, 2, 4]))
        base = bytes(a ^ b for a, b in zip(n, bytes(len(n) - len(part)) + part))
        rng.choice([p, u])[6] = part
        return 6, rng.choice([b"", rng.randbytes(3)]), {5: base}, n
    rng.choice([p, u])[5] = n
    return 5, rng.choice([b"", rng.randbytes(len(n))]), {}, n


def operation(case, mon, rng):
    op = case["op"]
    kind = {"sign1": "Sign1", "verify1": "Sign1", "sign": "Sign", "verify": "Sign", "mac0": "Mac0", "verify mac0": "Mac0", "mac": "Mac",
            "verify mac": "Mac", "enc0": "Enc0", "decrypt enc0": "Enc0", "enc": "Enc", "decrypt enc": "Enc"}.get(op)
    if kind is None:
        return recipients(case, mon, rng, op)
    receive = op.startswith(("verify", "decrypt"))
    algs = R.SIG if kind in ("Sign1", "Sign") else R.MAC if kind in ("Mac0", "Mac") else R.AEAD
    alg = rng.choice(list(algs))
    p, u = G.buckets(rng, alg, None, rng.choice([0, 1]))
    lab, other = 1, rng.choice([a for a in algs if a != alg])
    kp, nonce = {}, None
    if kind in ("Enc0", "Enc"):
        l2, o2, kp, nonce = nonces(rng, alg, p, u)
        if rng.random() < 0.6:
            lab, other = l2, o2
            mon.saw("iv twice" if lab == 5 else "partial iv twice")
    km = G.sig_key(alg, rng) if kind in ("Sign1", "Sign") else G.mac_key(alg, rng) if kind in ("Mac0", "Mac") else G.aead_key(alg, rng)
    p2, u2 = dict(p), dict(u)
    same = twice(rng, lab, p2, u2, other)
    if same:
        mon.saw("same value twice")
    key = lambda: K.key(rng, {**km, **kp})

    def attempt(p, u):
        """The whole operation on a message with these headers."""
        pl = b"payload"
        if not receive:
            kw = {}
            if kind == "Sign":
                kw["signers"] = [K.CoseSignature(phdr=K.spell(rng, p), uhdr=K.spell(rng, u), key=key())]
                m = K.MSG[kind](payload=pl, **kw)
            else:
                if kind in ("Mac", "Enc"):
                    kw["recipients"] = [K.DirectEncryption(uhdr={K.headers.Algorithm: K.ALG[-6]})]
                m = K.MSG[kind](phdr=K.spell(rng, p), uhdr=K.spell(rng, u), payload=pl, key=key(), **kw)
            f = {"Sign1": "compute_signature", "Mac0": "compute_tag", "Mac": "compute_tag", "Enc0": "encrypt", "Enc": "encrypt"}.get(kind)
            if f and rng.random() < 0.5:
                return getattr(m, f)()
            if kind == "Sign" and rng.random() < 0.5:
                return m.signers[0].compute_signature()
            return m.encode()
        pb = R.hdr_bytes(p)
        rec = [[b"", {1: -6}, b""]]
        if kind == "Sign1":
            arr = [pb, u, pl, R.sign(alg, km, R.tbs1(pb, b"", pl))]
        elif kind == "Sign":
            arr = [b"", {}, pl, [[pb, u, R.sign(alg, km, R.tbs(b"", pb, b"", pl))]]]
        elif kind in ("Mac0", "Mac"):
            arr = [pb, u, pl, R.mac(alg, km[-1], R.tbm(kind, pb, b"", pl))] + ([rec] if kind == "Mac" else [])
        else:
            arr = [pb, u, R.seal(alg, km[-1], nonce, R.enc_aad(kind, pb, b""), pl)] + ([rec] if kind == "Enc" else [])
        d = K.CoseMessage.decode(R.tagged(kind, arr))
        o = d.signers[0] if kind == "Sign" else d
        o.key = key()
        if kind in ("Sign1", "Sign"):
            r = o.verify_signature()
        elif kind in ("Mac0", "Mac"):
            r = o.verify_tag()
        else:
            r = o.decrypt(*(d.recipients if kind == "Enc" else ()))
        if r is False:
            raise ValueError("not verified")
        return r

    mon.must(op, attempt, p, u)
    mon.saw("original accepted", op)
    e = mon.rejects("%s with %s in both buckets (%s)" % (op, K.HDR[lab].fullname, "equal" if same else "different"), attempt, p2, u2)
    # a wrong signature would also be refused: with the same value twice or as a sender only the duplication can be the reason
    mon.check(str(e) != "not verified", "%s went on with %s in both buckets and came to a verdict" % (op, K.HDR[lab].fullname), case)
    mon.saw("twice refused: " + op, lab, same, alg)


def recipients(case, mon, rng, op):
    alg = rng.choice({"kw": list(R.KW), "oaep": list(R.OAEP), "ka": [a for a in R.ECDH if R.ECDH[a][2] is not None]}.get(op.split()[0], P.DIRECT_KA))
    s = P.spec(rng, alg, rng.choice([1, 2]), False)
    target = rng.choice([1, 3, 10])
    nonce = rng.randbytes(R.AEAD[target][3])
    receive = op.endswith(("unwrap", "receive"))
    others = [a for a in (list(R.KW) + list(R.OAEP) + list(R.ECDH)) if a != alg]
    s2 = {**s, "p": dict(s["p"]), "u": dict(s["u"])}
    same = twice(rng, 1, s2["p"], s2["u"], rng.choice(others))
    if same:
        mon.saw("same value twice")
    wire, cek = P.ref_build(rng, s, target, rng.randbytes(R.key_bytes(target)))

    def attempt(t):
        if not receive:
            r = P.build(mon, rng, t)
            m = K.EncMessage(phdr={K.headers.Algorithm: K.ALG[target]}, uhdr={K.headers.IV: nonce}, payload=b"x", recipients=[r])
            return m.encode() if rng.random() < 0.5 else m.encrypt()
        w = [R.hdr_bytes(t["p"]), {**wire[1], **t["u"]}, wire[2]]
        pb = C.enc({1: target})
        ct = R.seal(target, cek, nonce, R.enc_aad("Enc", pb, b""), b"x")
        d = K.CoseMessage.decode(C.enc(C.Tag(96, [pb, {5: nonce}, ct, [w]])))
        P.open_side(mon, rng, t, d.recipients[0])
        return d.decrypt(d.recipients[0])

    r = mon.must(op, attempt, s)
    mon.check(type(r) is bytes and (not receive or r == b"x"), "original", r)
    mon.saw("original accepted", op)
    mon.rejects("%s with the algorithm in both buckets (%s)" % (op, "equal" if same else "different"), attempt, s2)
    mon.saw("twice refused: " + op, alg, same)
