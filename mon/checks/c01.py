"""C01 signed messages: encode, transport, decode, verify; monitors content equality and the verdict."""
import json
import os
import random

from .. import cborref as C, coseref as R, gen as G, kit as K

PROP = "C01"
RULE = ("a case draws key, headers, payload, external data and an edit/re-encode history for one algorithm and message kind; "
        "non-trivial: at least one signature was produced by the real code and verified after decoding")
REQUIRED = {"algorithms written as text": 30, "sign1 verified": 200, "signer verified": 200, "re-encoded without signing": 50, "signers appended": 20,
            "algorithm unprotected": 30, "empty payload": 10, "signers moved": 30, "signers moved back": 10, "leading zero key": 20, "reference signatures with leading zeros": 10,
            **{"edited and encoded again: " + w: 20 for w in ("payload", "phdr", "uhdr", "aad", "key")}}
ASSUMPTIONS = ["labels spelled as registered names are not used as custom labels (the decoder treats both alike)"]
SHORT = json.load(open(os.path.join(os.path.dirname(R.__file__), "data", "short.json")))


def cases(tier, rng):
    for alg in SHORT:
        yield {"kind": "short", "alg": int(alg), "s": rng.getrandbits(48)}
    n = {"quick": 80, "thorough": 900}[tier]
    for rep in range(n):
        for alg in R.SIG:
            yield {"kind": "Sign1", "alg": alg, "place": "pu"[rep % 3 == 2], "s": rng.getrandbits(48)}
        for _ in range(6):
            yield {"kind": "Sign", "n": rng.choice([1, 1, 2, 2, 3, 4, 6, 25] if rep % 3 == 0 else [1, 2, 3]), "s": rng.getrandbits(48)}


def params(rng, alg, private):
    p = {}
    if rng.random() < 0.3:
        p[3] = alg
    if rng.random() < 0.3:
        p[4] = [1, 2] if rng.random() < 0.5 else ([1] if private else [2])
    if rng.random() < 0.3:
        p[2] = G.kid(rng)
    return p


def observe_key(mon, m):
    if any(isinstance(v, bytes) and v[:1] == b"\0" for k, v in m.items() if k in (-2, -3, -4)):
        mon.saw("leading zero key")


def verify_key(rng, m, alg):
    pub = R.public(m)
    if m[1] == 2 and rng.random() < 0.25:
        pub = {**pub, -3: bool(m[-3][-1] & 1)}        # compressed point
        return K.key(rng, pub, rng.choice(["dict", "cbor", "ctor"]), params(rng, alg, False))
    return K.key(rng, m if rng.random() < 0.15 else pub, None, params(rng, alg, False) if rng.random() < 0.7 else {4: [2]})


def run(case, mon):
    rng = random.Random(case["s"])
    {"Sign1": sign1, "Sign": sign, "short": short}[case["kind"]](case, mon, rng)


def short(case, mon, rng):
    """Signatures whose components start (or end) with zero bytes: the deterministic algorithms give them for these payloads."""
    alg = case["alg"]
    spec = SHORT[str(alg)]
    if R.SIG[alg][0] == "ecdsa":
        pairs = [(R.ec_key(R.SIG[alg][1], spec["d"]), pl) for pl in spec["payloads"]]
    elif R.SIG[alg][0] == "pkcs1":
        pairs = [(G.RSA[bits][i], pl) for bits, i, pls in spec for pl in pls]
    else:
        pairs = [(R.okp_key(crv, bytes.fromhex(d)), pl) for crv, d, pls in spec for pl in pls]
    pb = C.enc({1: alg})
    for km, pl in pairs:
        pl = pl.encode()
        m = K.Sign1Message(phdr={1: alg}, payload=pl, key=K.key(rng, km))
        arr = C.dec(mon.must("encode", m.encode)).value
        sigs = [arr[3]]
        if R.SIG[alg][0] == "ecdsa":
            n = R.CURVES[R.SIG[alg][1]][2]
            zero = lambda s: not any(s[:2 if n == 66 else 1]) or not any(s[n:n + (2 if n == 66 else 1)])
            for _ in range(3000):
                s = R.sign(alg, km, R.tbs1(pb, b"", pl))
                if zero(s):
                    break
            if zero(s):
                mon.saw("reference signatures with leading zeros")
                sigs.append(s)
            mon.check(len(arr[3]) == 2 * n, "length of an ECDSA signature (alg %d)" % alg, arr[3])
            if zero(arr[3]):
                mon.saw("signatures with leading zeros", alg)
        elif 0 in (arr[3][0], arr[3][-1], arr[3][len(arr[3]) // 2], arr[3][len(arr[3]) // 2 - 1]):
            mon.saw("signatures with leading zeros", alg)
        mon.check(R.verify(alg, km, R.tbs1(arr[0], b"", pl), arr[3]), "a signature is not accepted by the reference (alg %d)" % alg, pl, arr[3])
        for s in sigs:
            d = mon.must("decode", K.CoseMessage.decode, R.tagged("Sign1", [pb, {}, pl, s]))
            d.key = K.key(rng, R.public(km))
            mon.check(mon.must("verify_signature", d.verify_signature) is True, "a signature with leading zeros does not verify (alg %d)" % alg, pl, s)


def sign1(case, mon, rng):
    alg = case["alg"]
    km = G.sig_key(alg, rng)
    observe_key(mon, km)
    p, u = G.buckets(rng, alg, case["place"])
    pl, aad = G.payload(rng), G.aad(rng)
    key = mon.must("key", K.key, rng, km, None, params(rng, alg, True))
    how = rng.randrange(4)
    if how == 0:
        msg = mon.must("Sign1Message()", K.MSG["Sign1"], phdr=K.spell(rng, p), uhdr=K.spell(rng, u), payload=pl, external_aad=aad, key=key)
    elif how == 1:
        msg = mon.must("Sign1Message()", K.MSG["Sign1"], payload=pl)
        mon.must("header assignment", K.build_headers, mon, rng, msg, p, u)
        msg.external_aad, msg.key = aad, key
    else:
        # a history: sign something else first, then change everything
        km0 = G.sig_key(-7, rng)
        p0, u0 = G.buckets(rng, -7)
        msg = mon.must("Sign1Message()", K.MSG["Sign1"], phdr=K.spell(rng, p0), uhdr=K.spell(rng, u0), payload=G.payload(rng), key=K.key(rng, km0))
        if how == 3:
            mon.must("encode", msg.encode)
        mon.must("header assignment", K.build_headers, mon, rng, msg, {**p}, {**u})
        msg.payload, msg.external_aad, msg.key = pl, aad, key
    K.text_algs(mon, rng, msg)
    data = K.encode(mon, "Sign1", msg, rng)
    for _ in range(rng.randrange(2)):
        data = K.encode(mon, "Sign1", msg, rng)
    mon.check(msg.payload == pl and msg.external_aad == aad, "encode changed payload or external data")
    K.headers_match(mon, msg, p, u, "after encode")
    vk = mon.must("verification key", verify_key, rng, km, alg)
    for hop in range(rng.choice([1, 1, 2, 4])):
        d = K.decode(mon, "Sign1", data, rng.random() < 0.5)
        mon.eq(d.payload, pl, "payload after transport")
        K.headers_match(mon, d, p, u, "after transport (hop %d)" % hop)
        d.key, d.external_aad = vk, aad
        for _ in range(rng.choice([1, 1, 2])):
            r = mon.must("verify_signature", d.verify_signature)
            mon.check(r is True, "valid COSE_Sign1 does not verify (hop %d)" % hop, case, r)
            mon.saw("sign1 verified", alg, case["place"], len(pl).bit_length(), len(p), len(u), hop)
        # in transit: change the unprotected header, keep the signature
        new = G.header(rng, used=set(p) | {1})
        u2 = {**({1: u[1]} if 1 in u else {}), **new}
        if rng.random() < 0.5:
            d.uhdr = K.spell(rng, u2)
        else:
            d.uhdr_update(K.spell(rng, new))
            u2 = {**u, **new}
        u = u2
        data = K.encode(mon, "Sign1", d, rng, sign=False)
        mon.saw("re-encoded without signing")
    if 1 in u:
        mon.saw("algorithm unprotected")
    if not pl:
        mon.saw("empty payload")
    for _ in range(rng.choice([0, 1, 2])):
        edited(mon, rng, msg, km)


def edited(mon, rng, msg, km):
    """One or several parts of a signed message change: the next encoding carries a signature of what it contains."""
    p, u = K.norm(msg.phdr), K.norm(msg.uhdr)
    alg = p.get(1, u.get(1))
    what = rng.sample(["payload", "phdr", "uhdr", "aad", "key"], rng.choice([1, 1, 1, 2, 3]))
    for w in what:
        p, u = K.norm(msg.phdr), K.norm(msg.uhdr)
        if w == "payload":
            msg.payload = G.variant(rng, msg.payload)
        elif w == "aad":
            msg.external_aad = G.variant(rng, msg.external_aad)
        elif w == "key":
            km = G.sig_key(alg, rng)
            msg.key = K.key(rng, km, None, params(rng, alg, True))
        else:
            new = G.header(rng, rng.choice([1, 1, 2]), used=set(u if w == "phdr" else p) | {1})
            if rng.random() < 0.5:
                getattr(msg, w + "_update")(K.spell(rng, new))
            else:
                setattr(msg, w, K.spell(rng, {**{k: v for k, v in (p if w == "phdr" else u).items() if k == 1}, **new}))
    km = {**R.public(km), **{k: v for k, v in K.norm(msg.key).items() if isinstance(k, int) and k < 0}}
    p, u = K.norm(msg.phdr), K.norm(msg.uhdr)
    arr = C.dec(K.encode(mon, "Sign1", msg, rng)).value
    mon.check(C.same(K.wired(C.dec(arr[0])) if arr[0] else {}, p) and C.same(K.wired(arr[1]), u), "headers of an edited message", what)
    mon.check(R.verify(alg, km, R.tbs1(arr[0], msg.external_aad, msg.payload), arr[3]), "signature of an edited message (%s)" % ", ".join(what), alg)
    d = K.decode(mon, "Sign1", R.tagged("Sign1", arr))
    d.external_aad, d.key = msg.external_aad, K.key(rng, R.public(km))
    mon.check(mon.must("verify_signature", d.verify_signature) is True, "an edited message does not verify (%s)" % ", ".join(what), alg)
    for w in what:
        mon.saw("edited and encoded again: " + w, alg)


def sign(case, mon, rng):
    p, u = G.buckets(rng, rng.choice([None, None, -7]))
    pl = G.payload(rng)
    n = case["n"]
    algs = [rng.choice(list(R.SIG) if n < 8 else [-7, -8, -37]) for _ in range(n)]
    spec = []
    for a in algs:
        sp, su = G.buckets(rng, a)
        spec.append((a, G.sig_key(a, rng), sp, su, G.aad(rng)))

    def signer(i):
        a, km, sp, su, aad = spec[i]
        observe_key(mon, km)
        key = K.key(rng, km, None, params(rng, a, True))
        if rng.random() < 0.6:
            return K.CoseSignature(phdr=K.spell(rng, sp), uhdr=K.spell(rng, su), external_aad=aad, key=key)
        s = K.CoseSignature(external_aad=aad)
        K.build_headers(mon, rng, s, sp, su)
        s.key = key
        return s

    signers = [mon.must("CoseSignature()", signer, i) for i in range(n)]
    for s in signers:
        K.text_algs(mon, rng, s)
    how = rng.randrange(4)
    if how == 0:
        msg = mon.must("SignMessage()", K.SignMessage, phdr=K.spell(rng, p), uhdr=K.spell(rng, u), payload=pl, signers=signers)
    elif how == 1:
        msg = mon.must("SignMessage()", K.SignMessage, phdr=K.spell(rng, p), uhdr=K.spell(rng, u), payload=pl)
        msg.signers = signers
    elif how == 2:
        msg = mon.must("SignMessage()", K.SignMessage, phdr=K.spell(rng, p), uhdr=K.spell(rng, u), payload=pl)
        for s in signers:
            msg.signers.append(s)
        mon.saw("signers appended")
    else:
        msg = mon.must("SignMessage()", K.SignMessage, signers=signers[:n // 2])
        mon.must("header assignment", K.build_headers, mon, rng, msg, p, u)
        msg.payload = pl
        if n // 2 and rng.random() < 0.5:
            mon.must("encode", msg.encode)
        msg.signers.extend(signers[n // 2:])
        mon.saw("signers appended")
    data = K.encode(mon, "Sign", msg, rng)
    if rng.random() < 0.3:
        data = K.encode(mon, "Sign", msg, rng)
    for hop in range(rng.choice([1, 1, 2]) if n < 8 else 1):
        d = K.decode(mon, "Sign", data, rng.random() < 0.5)
        mon.eq(d.payload, pl, "payload after transport")
        K.headers_match(mon, d, p, u, "body after transport")
        mon.check(len(d.signers) == n, "number of signers after transport", len(d.signers), n)
        order = list(range(n))
        rng.shuffle(order)
        for i in order:
            a, km, sp, su, aad = spec[i]
            s = d.signers[i]
            K.headers_match(mon, s, sp, su, "signer %d after transport" % i)
            s.key, s.external_aad = verify_key(rng, km, a), aad
            r = mon.must("signer.verify_signature", s.verify_signature)
            mon.check(r is True, "valid COSE_Sign signer %d/%d does not verify" % (i, n), case, r)
            mon.saw("signer verified", a, n, i, 1 in su, len(sp), hop)
        # header updates and re-signing of the decoded message
        for i in range(n):
            d.signers[i].key = K.key(rng, spec[i][1])
        new = G.header(rng, used=set(p) | {1})
        u = {**u, **new}
        d.uhdr_update(K.spell(rng, new))
        if rng.random() < 0.5:
            i = rng.randrange(n)
            a, km, sp, su, aad = spec[i]
            more = G.header(rng, used=set(su) | {1})
            d.signers[i].phdr_update(K.spell(rng, more))
            spec[i] = (a, km, {**sp, **more}, su, aad)
        if rng.random() < 0.5:
            more = G.header(rng, used=set(u) | {1})
            d.phdr_update(K.spell(rng, more))
            p = {**p, **more}
        data = K.encode(mon, "Sign", d, rng)
    if n < 8:
        move(mon, rng, K.decode(mon, "Sign", data) if rng.random() < 0.5 else msg, spec)
    if not pl:
        mon.saw("empty payload")


def move(mon, rng, old, spec):
    """The signers go over to another message: from then on they sign and verify that message."""
    p, u = G.buckets(rng, None, n=rng.choice([0, 1, 2]))
    pl = G.payload(rng, 0.01)
    signers = list(old.signers)
    rng.shuffle(signers)
    for s in signers:
        i = old.signers.index(s)
        s.key, s.external_aad = K.key(rng, spec[i][1]), spec[i][4]
    idx = [old.signers.index(s) for s in signers]
    how = rng.choice(["constructor", "assigned", "appended"])
    if how == "constructor":
        new = mon.must("SignMessage()", K.SignMessage, phdr=K.spell(rng, p), uhdr=K.spell(rng, u), payload=pl, signers=signers)
    else:
        new = mon.must("SignMessage()", K.SignMessage, phdr=K.spell(rng, p), uhdr=K.spell(rng, u), payload=pl)
        if how == "assigned":
            new.signers = signers
        else:
            for s in signers:
                new.signers.append(s)
    bp = new.phdr_encoded
    for i, s in zip(idx, signers) if how != "appended" else ():         # appended signers learn about it at encoding
        a, km, aad = spec[i][0], spec[i][1], spec[i][4]
        sig = mon.must("compute_signature", s.compute_signature)
        mon.check(R.verify(a, km, R.tbs(bp, s.phdr_encoded, aad, pl), sig), "a signer moved to another message does not sign that message", a)
        s.signature = sig
        mon.check(mon.must("verify_signature", s.verify_signature) is True, "a signer moved to another message does not verify it", a)
    mon.saw("signers moved", how)
    d = K.decode(mon, "Sign", K.encode(mon, "Sign", new, rng))
    mon.eq(d.payload, pl, "payload after transport")
    for i, s in zip(idx, d.signers):
        s.key, s.external_aad = K.key(rng, R.public(spec[i][1])), spec[i][4]
        mon.check(mon.must("verify_signature", s.verify_signature) is True, "a signer moved to another message does not verify after transport")
    # and back: the old message with the same signers
    if old.payload is not None and rng.random() < 0.5:
        d = K.decode(mon, "Sign", K.encode(mon, "Sign", old, rng))
        order = [old.signers.index(s) for s in signers]
        for i, j in zip(idx, order):
            d.signers[j].key, d.signers[j].external_aad = K.key(rng, R.public(spec[i][1])), spec[i][4]
            mon.check(mon.must("verify_signature", d.signers[j].verify_signature) is True, "a message whose signers also signed another one does not verify")
        mon.saw("signers moved back")
