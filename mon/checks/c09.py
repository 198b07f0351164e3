"""C09 key derivation: for every context the key pycose derives, as sender and as receiver, is the reference's key for exactly that
context; one field of the context is changed at a time and the two sides must then disagree."""
import random

from .. import cborref as C, coseref as R, gen as G, kit as K, rcpt as P

PROP = "C09"
RULE = ("a case is one ECDH algorithm, curve and context, followed by changes of single context fields; non-trivial: the key derived by "
        "pycose was compared with the reference for the original and for at least one changed context")
FIELDS = ("algorithm", "key length", "party u identity", "party u nonce", "party u other", "party v identity", "party v nonce",
          "party v other", "protected", "protected bytes", "public other", "private other", "salt", "sender key", "receiver key",
          "key agreement", "fields swapped")
REQUIRED = {"receiver key compared": 400, "sender key compared": 150, "context structures compared": 300, "derive_kek compared": 150, "edited context structures compared": 200,
            "messages opened": 40, "derived by an object with a history": 500, "messages refused": 100, **{"changed: " + f: 15 for f in FIELDS}}
LABEL = {-20: "salt", -21: "party u identity", -22: "party u nonce", -23: "party u other", -24: "party v identity", -25: "party v nonce",
         -26: "party v other"}
TARGETS = list(R.AEAD) + P.MACS


def cases(tier, rng):
    for rep in range({"quick": 16, "thorough": 250}[tier]):
        for alg in R.ECDH:
            for crv in P.CURVES:
                yield {"do": "recipient", "alg": alg, "crv": crv, "s": rng.getrandbits(48)}
        for _ in range(30):
            yield {"do": "context", "alg": rng.choice(list(R.ECDH)), "crv": rng.choice(P.CURVES), "s": rng.getrandbits(48)}


def run(case, mon):
    (recipient if case["do"] == "recipient" else context)(case, mon, random.Random(case["s"]))


# ------------------------------------------------------------------------------------------------------ recipient level
def decoded(mon, rng, s, wire):
    """The receiver's recipient object, out of a decoded message."""
    data = R.tagged("Enc", [C.enc({1: 1}), {5: bytes(12)}, bytes(16), [wire]])
    d = mon.must("decode", K.CoseMessage.decode, data)
    r = d.recipients[0]
    P.open_side(mon, rng, s, r)
    return r


def receiver_key(mon, rng, s, wire, target, kek):
    """Observes the key a receiver derives: directly, or by what it can unwrap."""
    if R.ECDH[s["alg"]][2] is None:
        k = mon.must("compute_cek", decoded(mon, rng, s, wire).compute_cek, K.ALG[target], "decrypt")
        mon.check(k.alg is K.ALG[target], "derived key is not restricted to the target algorithm", k.alg)
        return k.k
    cek = rng.randbytes(rng.choice([16, 24, 32]))
    r = decoded(mon, rng, s, [wire[0], wire[1], R.wrap(kek, cek)])
    got = mon.must("unwrapping under the key of this context", r.decrypt, K.ALG[target])
    mon.check(got == cek, "unwrapped key", got, cek)
    return kek


def other(rng, v):
    """A different value for a context field, or None for its absence."""
    if v is None:
        return rng.choice([b"\x01", rng.randbytes(8)])
    if type(v) is int:
        return rng.choice([None, v + 1, -1 - v, -v or 7, v + 256, bytes(8), v.to_bytes(17, "big", signed=True), str(v).encode()])
    return rng.choice([None, G.variant(rng, v) or None, G.variant(rng, v) or None])


def changes(rng, s, wire, target):
    """(field, changed specification, changed wire, changed target)"""
    p0 = C.dec(wire[0]) if wire[0] else {}
    for lab, name in LABEL.items():
        v = p0.get(lab, wire[1].get(lab))
        n = other(rng, v)
        # in the bucket it is in, or newly in the unprotected one
        if lab in p0:
            p = {k: x for k, x in p0.items() if k != lab}
            if n is not None:
                p[lab] = n
            yield name, s, [C.enc(p) if p else b"", wire[1], b""], target
        else:
            u = {k: x for k, x in wire[1].items() if k != lab}
            if n is not None:
                u[lab] = n
            yield name, s, [wire[0], u, b""], target
    u = dict(wire[1])
    labs = [lab for lab in LABEL if lab in u]
    for a in labs:
        b = rng.choice([x for x in LABEL if x != a and x not in p0])
        va, vb = u.get(a), u.get(b)
        if int in (type(va), type(vb)) and {a, b} != {-22, -25}:        # only nonces may be integers
            continue
        if va != vb:
            u2 = {k: x for k, x in u.items() if k not in (a, b)}
            u2[b] = va
            if vb is not None:
                u2[a] = vb
            yield "fields swapped", s, [wire[0], u2, b""], target
    yield "protected", s, [C.enc({**p0, -70200: rng.randrange(100)}), wire[1], b""], target
    if p0:
        v = C.enc_var(p0, rng, 0.9)
        if v != wire[0]:
            yield "protected bytes", s, [v, wire[1], b""], target
        if not any(k in p0 for k in (1, -1, -2)):
            k = rng.choice(list(p0))
            q = {a: b for a, b in p0.items() if a != k}
            yield "protected", s, [C.enc(q) if q else b"", wire[1], b""], target
    for loc, name in (("pub", "public other"), ("priv", "private other")):
        n = other(rng, s["local"].get(loc))
        l2 = {k: v for k, v in s["local"].items() if k != loc}
        if n is not None:
            l2[loc] = n
        yield name, {**s, "local": l2}, wire, target
    if "pub" in s["local"] or "priv" in s["local"]:
        l2 = {{"pub": "priv", "priv": "pub"}[k]: v for k, v in s["local"].items()}
        if l2.get("pub") != s["local"].get("pub"):
            yield "fields swapped", {**s, "local": l2}, wire, target
    crv = s["key"][-1]
    lab = -1 if R.ECDH[s["alg"]][0] == "es" else -2
    snd = R.public(P.ec_different(crv, rng, s["key"], *([s["sender"]] if "sender" in s else [])))
    if lab in wire[1] and snd[-2] != wire[1][lab][-2]:
        yield "sender key", s, [wire[0], {**wire[1], lab: snd}, b""], target
    yield "receiver key", {**s, "key": P.ec_different(crv, rng, s["key"])}, wire, target
    if R.ECDH[s["alg"]][2] is None:
        n = R.key_bytes(target)
        for t in rng.sample([t for t in TARGETS if t != target], 3):
            yield ("algorithm" if R.key_bytes(t) == n else "key length"), s, wire, t
        same = [t for t in TARGETS if t != target and R.key_bytes(t) == n]
        yield "algorithm", s, wire, rng.choice(same) if same else 3
    # the same kind of key agreement with another hash or key wrap algorithm
    kind, _, kw = R.ECDH[s["alg"]]
    for a in R.ECDH:
        if a != s["alg"] and R.ECDH[a][0] == kind and (R.ECDH[a][2] is None) == (kw is None):
            if 1 in p0:
                yield "key agreement", {**s, "alg": a}, [C.enc({**p0, 1: a}), wire[1], b""], target
            else:
                yield "key agreement", {**s, "alg": a}, [wire[0], {**wire[1], 1: a}, b""], target


def recipient(case, mon, rng):
    alg = case["alg"]
    target = rng.choice(TARGETS)
    s = P.spec(rng, alg, case["crv"], True)
    direct = R.ECDH[alg][2] is None
    # sender: pycose derives, the reference repeats it from the wire
    cek = rng.randbytes(rng.choice([16, 24, 32]))
    r = P.build(mon, rng, s, None if direct else cek)
    if direct:
        k = mon.must("compute_cek", r.compute_cek, K.ALG[target], "encrypt").k
        w = C.dec(C.enc(mon.must("encode", encoded, r)))
        P.check_wire(mon, s, w, "recipient")
        mon.check(k == P.ref_key(s, w, target), "key derived by the sender (alg %d, target %d)" % (alg, target), case, k)
    else:
        w = C.dec(C.enc(mon.must("encode", encoded, r)))
        P.check_wire(mon, s, w, "recipient")
        mon.check(R.unwrap(P.ref_key(s, w, target), w[2]) == cek, "key derived by the sender does not wrap as the reference's (alg %d)" % alg, case)
    mon.saw("sender key compared", alg, case["crv"], target, tuple(sorted(s["local"])))
    # receiver: reference sender
    wire, _ = P.ref_build(rng, s, target, None if direct else cek, rng.random() < 0.5)
    k0 = P.ref_key(s, wire, target)
    mon.check(receiver_key(mon, rng, s, wire, target, k0) == k0, "key derived by the receiver (alg %d, target %d)" % (alg, target), case)
    mon.saw("receiver key compared", alg, case["crv"], target)
    for field, s2, w2, t2 in changes(rng, s, wire, target):
        k2 = P.ref_key(s2, w2, t2)
        got = receiver_key(mon, rng, s2, w2, t2, k2)
        mon.check(got == k2, "key derived by the receiver after changing %s (alg %d, target %d)" % (field, alg, t2), case, s2["local"])
        mon.saw("receiver key compared", field)
        if k2 == k0:
            continue            # salts that HMAC pads to the same block
        if direct:
            mon.check(got != k0, "changing %s does not change the derived key (alg %d)" % (field, alg), case)
        else:
            r = decoded(mon, rng, s2, [w2[0], w2[1], wire[2]])
            mon.rejects("unwrapping after changing %s (alg %d)" % (field, alg), r.decrypt, K.ALG[target])
        mon.saw("changed: " + field, alg, case["crv"])
    same_object(mon, rng, s, target, case)
    message(mon, rng, s, case)


def same_object(mon, rng, s, target, case):
    """One recipient object sees its headers, local information, keys and target change; each key derived on the way is for the context
    as it is at that moment."""
    alg, kw = s["alg"], R.ECDH[s["alg"]][2]
    wire, _ = P.ref_build(rng, s, target, None if kw is None else bytes(16))
    r = decoded(mon, rng, s, wire)

    def derived(s2, u, target, what):
        w = [r.phdr_encoded, u, b""]
        k = P.ref_key(s2, w, target)
        if kw is None:
            got = mon.must("compute_cek " + what, r.compute_cek, K.ALG[target], "decrypt").k
            mon.check(got == k, "key derived %s (alg %d, target %d)" % (what, alg, target), case)
        else:
            cek = rng.randbytes(rng.choice([16, 24, 32]))
            r.payload = R.wrap(k, cek)
            mon.check(mon.must("unwrapping " + what, r.decrypt, K.ALG[target]) == cek, "key unwrapped %s (alg %d)" % (what, alg), case)
        if kw is None or rng.random() < 0.5:
            a, b = C.dec(w[0]) if w[0] else {}, u
            h = {**a, **b}
            ctx = mon.must("get_kdf_context", r.get_kdf_context, K.ALG[kw or target])
            mon.check(ctx.encode() == R.kdf_context(kw or target, R.key_bytes(kw or target), R.auth_phdr(w[0]), (h.get(-21), h.get(-22), h.get(-23)),
                                                    (h.get(-24), h.get(-25), h.get(-26)), s2["local"].get("pub"), s2["local"].get("priv")),
                      "KDF context %s (alg %d)" % (what, alg), case)
        mon.saw("derived by an object with a history", what, alg)

    u = dict(wire[1])
    derived(s, u, target, "as decoded")
    for _ in range(6):
        what = rng.choice(["party", "party", "protected", "local", "key", "target", "nothing"])
        if what == "party":
            lab = rng.choice([x for x in LABEL if x not in s["p"]] or [0])
            if not lab:
                continue
            if lab in u and rng.random() < 0.4:
                u = {k: v for k, v in u.items() if k != lab}
                r.uhdr = K.spell(rng, u)
            else:
                u = {**u, lab: rng.randbytes(rng.choice([1, 7, 24])) if lab not in (-22, -25) or rng.random() < 0.7 else G.number(rng)}
                r.uhdr_update(K.spell(rng, {lab: u[lab]}))
        elif what == "protected":
            r.phdr_update({-70210: rng.randrange(10 ** 6)})
        elif what == "local":
            loc = rng.choice(["pub", "priv"])
            n = other(rng, s["local"].get(loc))
            s = {**s, "local": {**{k: v for k, v in s["local"].items() if k != loc}, **({loc: n} if n is not None else {})}}
            if n is None:           # assigning local_attrs adds to them
                r.local_attrs.pop(K.headers.SuppPubOther if loc == "pub" else K.headers.SuppPrivOther, None)
            r.local_attrs = P._local(s)
        elif what == "key":
            s = {**s, "key": P.ec_different(s["key"][-1], rng, s["key"])}
            r.key = K.key(rng, s["key"])
        elif what == "target" and kw is None:
            target = rng.choice(TARGETS)
        derived(s, u, target, "after a change of " + what)


def encoded(r):
    """The wire form of a recipient, as pycose embeds it in a message."""
    alg = {16: 1, 24: 2, 32: 3}.get(len(r.payload), 1)
    m = K.EncMessage(phdr={K.headers.Algorithm: K.ALG[alg]}, uhdr={K.headers.IV: bytes(12)}, payload=b"x", recipients=[r])
    return C.dec(m.encode()).value[3][0]


def message(mon, rng, s, case):
    """Whole messages: the receiver's local information has to agree."""
    alg = rng.choice(list(R.AEAD))
    nonce = rng.randbytes(R.AEAD[alg][3])
    cek = rng.randbytes(R.key_bytes(alg))
    wire, cek = P.ref_build(rng, s, alg, None if R.ECDH[s["alg"]][2] is None else cek)
    pb = C.enc({1: alg})
    data = R.tagged("Enc", [pb, {5: nonce}, R.seal(alg, cek, nonce, R.enc_aad("Enc", pb, b""), b"secret"), [wire]])

    def attempt(s2, change=None):
        d = K.CoseMessage.decode(data)
        r = d.recipients[0]
        P.open_side(mon, rng, s2, r)
        if change:
            change(r)
        return d.decrypt(r)

    mon.check(mon.must("decrypt", attempt, s) == b"secret", "message does not open", case)
    mon.saw("messages opened", s["alg"])
    for loc in ("pub", "priv"):
        n = other(rng, s["local"].get(loc))
        l2 = {k: v for k, v in s["local"].items() if k != loc}
        if n is not None:
            l2[loc] = n
        mon.rejects("decryption with other %s information" % loc, attempt, {**s, "local": l2})
        mon.saw("messages refused", s["alg"], loc)
    mon.rejects("decryption with a changed recipient header", attempt, s, lambda r: r.phdr_update({-70201: b"x"}))
    lab = rng.choice([x for x in LABEL if x not in s["p"] and x not in s["u"]] or [0])
    if lab:
        mon.rejects("decryption with added %s" % LABEL[lab], attempt, s, lambda r: r.uhdr_update({lab: b"\x07"}))
    mon.saw("messages refused", s["alg"])


# -------------------------------------------------------------------------------------------------------- context level
def context(case, mon, rng):
    from pycose.messages.context import CoseKDFContext, PartyInfo, SuppPubInfo
    alg, crv = case["alg"], case["crv"]
    kw = R.ECDH[alg][2]
    opt = lambda: rng.choice([None, None, b"", rng.randbytes(rng.choice([1, 8, 24, 64]))])
    for _ in range(10):
        target = kw or rng.choice(TARGETS)
        n = R.key_bytes(target)
        nonce = lambda: opt() if rng.random() < 0.8 else G.number(rng)
        u, v = (opt(), nonce(), opt()), (opt(), nonce(), opt())
        hdr = {**({1: alg} if rng.random() < 0.7 else {}), **G.header(rng, rng.choice([0, 1, 2]), reg=[3, 4, 10])}
        po, pr = rng.choice([None, rng.randbytes(9)]), rng.choice([None, rng.randbytes(9)])
        prot = C.enc_var(hdr, rng) if hdr and rng.random() < 0.5 else R.hdr_bytes(hdr)
        arg = prot
        if prot == R.hdr_bytes(hdr) and rng.random() < 0.6:
            arg = K.spell(rng, hdr, rng.choice(["class", "int"]))
        kwargs = {}
        if po is not None:
            kwargs["other"] = po
        pub = mon.must("SuppPubInfo", SuppPubInfo, n, arg, **kwargs) if rng.random() < 0.5 or kwargs else mon.must("SuppPubInfo", SuppPubInfo, n, protected=arg)
        args = [K.ALG[target], pub]
        kwargs = {}
        if any(x is not None for x in u) or rng.random() < 0.5:
            kwargs["party_u_info"] = PartyInfo(*u)
        if any(x is not None for x in v) or rng.random() < 0.5:
            kwargs["party_v_info"] = PartyInfo(identity=v[0], nonce=v[1], other=v[2])
        if pr is not None:
            kwargs["supp_priv_info"] = pr
        ctx = mon.must("CoseKDFContext", CoseKDFContext, *args, **kwargs)
        if isinstance(arg, dict):       # encoded by pycose: any encoding of these items, empty as b''
            prot = C.dec(mon.must("CoseKDFContext.encode", ctx.encode))[3][1]
            mon.check(type(prot) is bytes and (C.same(C.dec(prot), hdr) if hdr else prot == b""), "protected header in the KDF context", prot, hdr)
        want = R.kdf_context(target, n, prot, u, v, po, pr)
        for _ in range(2):
            got = mon.must("CoseKDFContext.encode", ctx.encode)
            mon.check(type(got) is bytes and C.same(C.dec(got), C.dec(want)) and got == want, "encoded KDF context", C.dec(got), C.dec(want))
        mon.saw("context structures compared", target, bool(hdr), po is None, pr is None, u, v)
        # the same object after changes of its fields
        for _ in range(rng.choice([0, 2, 5])):
            what = rng.choice(["u", "v", "u replaced", "v replaced", "algorithm", "length", "illegal length", "protected", "public other", "private other"])
            if what in ("u", "v"):
                k = rng.randrange(3)
                new = nonce() if k == 1 else opt()
                setattr(ctx.party_u_info if what == "u" else ctx.party_v_info, ("identity", "nonce", "other")[k], new)
                side = [*(u if what == "u" else v)]
                side[k] = new
                u, v = (tuple(side), v) if what == "u" else (u, tuple(side))
            elif what == "u replaced":
                u = (opt(), nonce(), opt())
                ctx.party_u_info = PartyInfo(*u)
            elif what == "v replaced":
                v = (opt(), nonce(), opt())
                ctx.party_v_info = PartyInfo(*v)
            elif what == "algorithm":
                target = kw or rng.choice(TARGETS)
                ctx.algorithm = K.ALG[target]
            elif what == "length":
                n = rng.choice([16, 24, 32])
                ctx.supp_pub_info.key_data_length = n
            elif what == "illegal length":
                mon.rejects("illegal key length", setattr, ctx.supp_pub_info, "key_data_length", rng.choice([0, 1, 8, 15, 17, 33, 64, 128, 256, -16, None, "16", b"16"]))
            elif what == "protected":
                prot = R.hdr_bytes({**({1: alg} if rng.random() < 0.5 else {}), **G.header(rng, rng.choice([0, 1, 2]), reg=[3, 4, 10])})
                ctx.supp_pub_info.protected = prot
            elif what == "public other":
                po = rng.randbytes(5) if po is None or rng.random() < 0.5 else None
                ctx.supp_pub_info.other = po or b""
            else:
                pr = rng.randbytes(5) if pr is None or rng.random() < 0.5 else None
                ctx.supp_priv_info = pr or b""
            want = R.kdf_context(target, n, prot, u, v, po, pr)
            got = mon.must("CoseKDFContext.encode", ctx.encode)
            mon.check(got == want, "encoded KDF context after a change of " + what, C.dec(got), C.dec(want))
            mon.check(ctx.supp_pub_info.key_data_length == n, "key length of the KDF context after a change of " + what)
            mon.saw("edited context structures compared", what)
        a = G.ec_key(crv, rng)
        b = P.ec_different(crv, rng, a)
        salt = rng.choice([None, None, rng.randbytes(rng.choice([1, 16, 32, 64, 100]))])
        k = mon.must("derive_kek", K.ALG[alg].derive_kek, K.CRV[crv], K.key(rng, a), K.key(rng, R.public(b)), ctx, *([salt] if salt or rng.random() < 0.5 else []))
        mon.check(k == R.hkdf(R.ECDH[alg][1], salt, R.ecdh(b, R.public(a)), want, n), "derive_kek (alg %d, curve %d)" % (alg, crv), k)
        mon.saw("derive_kek compared", alg, crv, target, salt is None)
