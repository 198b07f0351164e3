"""C13 key restrictions as a decision table: every cryptographic operation is attempted with keys of every type, restriction, curve
and length; the oracle is the table of RFC 8152 sections 7.1, 8-12, and each refusal is judged next to an accepted key."""
import random

from .. import cborref as C, coseref as R, gen as G, kit as K, rcpt as P

PROP = "C13"
RULE = ("a case is one operation and algorithm with the whole table of key variations; non-trivial: at least one permitted key was used "
        "successfully and at least one forbidden key was refused")
OPS = ("sign1", "verify1", "sign", "verify", "mac0", "mac0 verify", "mac", "mac verify", "enc0", "enc0 decrypt", "enc", "enc decrypt",
       "kw", "unwrap", "oaep", "oaep unwrap", "ka own", "ka peer", "ka receive own", "ka receive peer", "dka own", "dka peer",
       "dka receive own", "dka receive peer")
WHY = ("wrong type", "other algorithm", "operation", "curve", "length", "no key", "no algorithm", "public only")
REQUIRED = {"permitted keys used": 1200, "forbidden keys refused": 4000, **{"refused: " + w: n for w, n in zip(
    WHY, (400, 400, 1500, 80, 100, 80, 60, 40))}, **{"op: " + o: 6 for o in OPS}, "restricted after use": 60, "no key but around it": 15, "released again": 60}
# operation lists that permit the operation (RFC 8152 sections 7.1, 8, 9.1, 10, 12.2.1, 12.4.1)
PERMIT = {"sign1": [1], "sign": [1], "verify1": [2], "verify": [2], "mac0": [9], "mac": [9], "mac0 verify": [10], "mac verify": [10],
          "enc0": [3], "enc": [3], "enc0 decrypt": [4], "enc decrypt": [4], "kw": [3, 5], "oaep": [3, 5], "unwrap": [4, 6],
          "oaep unwrap": [4, 6]}
NAMES = {1: "OKP", 2: "EC2", 3: "RSA", 4: "Symmetric"}


def algs_for(op):
    if op in ("sign1", "sign", "verify1", "verify"):
        return list(R.SIG)
    if op.startswith("mac"):
        return list(R.MAC)
    if op.startswith("enc"):
        return list(R.AEAD)
    if op in ("kw", "unwrap"):
        return list(R.KW)
    if op.startswith("oaep"):
        return list(R.OAEP)
    return [a for a in R.ECDH if (R.ECDH[a][2] is None) == op.startswith("dka")]


def cases(tier, rng):
    for rep in range({"quick": 8, "thorough": 300}[tier]):
        for op in OPS:
            for alg in algs_for(op):
                yield {"op": op, "alg": alg, "s": rng.getrandbits(48)}


def types(rng, private=True):
    f = (lambda k: k) if private else R.public
    return {1: [f(G.okp_key(c, rng)) for c in (4, 5, 6, 7)], 2: [f(G.ec_key(c, rng)) for c in (1, 2, 3, 8)],
            3: [f(dict(G.rsa_key(rng)))], 4: [G.sym_key(n, rng) for n in (16, 24, 32)]}


class Bench:
    """One operation with everything but the key fixed; attempt(key) performs it."""

    def __init__(self, op, alg, rng, mon):
        self.op, self.alg, self.rng, self.mon = op, alg, rng, mon
        self.permit = PERMIT.get(op, [7, 8])
        self.hdr = "p" if rng.random() < 0.7 else "u"
        self.private = True
        self.curves = self.lengths = None
        if alg in R.SIG:
            self.good = G.sig_key(alg, rng)
            self.kty = {"ecdsa": 2, "eddsa": 1}.get(R.SIG[alg][0], 3)
            self.curves = {2: [R.SIG[alg][1]] if self.kty == 2 else [], 1: [6, 7]}.get(self.kty)
            self.private = op in ("sign1", "sign")
        elif alg in R.MAC:
            self.good, self.kty = G.mac_key(alg, rng), 4
            self.lengths = [R.MAC[alg][1]] if R.MAC[alg][0] == "cbcmac" else None
        elif alg in R.AEAD:
            self.good, self.kty, self.lengths = G.aead_key(alg, rng), 4, [R.AEAD[alg][1]]
        elif alg in R.KW:
            self.good, self.kty, self.lengths = G.sym_key(R.KW[alg], rng), 4, [R.KW[alg]]
        elif alg in R.OAEP:
            self.good, self.kty = dict(G.rsa_key(rng, 1536)), 3
            self.private = op == "oaep unwrap"
        else:
            self.kty = 2
            self.crv = rng.choice(P.CURVES)
            self.own = P.ec_different(self.crv, rng)
            self.peer = P.ec_different(self.crv, rng, self.own)
            self.curves = [self.crv]
            self.private = op.endswith("own")
            self.good = self.own if self.private else R.public(self.peer)
        if not self.private and self.kty != 4:
            self.good = R.public(self.good)

    def obj(self, m):
        return K.key(self.rng, m, self.rng.choice(["dict", "cbor", "cls", "names", "ctor"]))

    def attempt(self, key, alg=None, km=None):
        """Runs the operation with the given key object (None: no key); km: what the reference uses to make genuine input."""
        op, rng = self.op, self.rng
        alg = self.alg if alg is None else alg
        H = K.headers
        hd = lambda a: {"phdr" if self.hdr == "p" else "uhdr": {H.Algorithm: K.ALG[a]} if a else {}}
        pb, u = (C.enc({1: alg}), {}) if self.hdr == "p" and alg else (b"", {1: alg} if alg else {})
        if op == "sign1":
            return K.Sign1Message(payload=b"x", key=key, **hd(alg)).encode()
        if op == "sign":
            m = K.SignMessage(payload=b"x", signers=[K.CoseSignature(key=key, **hd(alg))])
            self.around(m, key)
            return m.encode()
        if op in ("verify1", "verify"):
            sig = self.genuine(km, pb, op)
            if op == "verify1":
                o = K.CoseMessage.decode(R.tagged("Sign1", [pb, u, b"x", sig]))
            else:
                m = K.CoseMessage.decode(R.tagged("Sign", [b"", {}, b"x", [[pb, u, sig]] * rng.choice([1, 2])]))
                self.around(m, key)
                o = m.signers[0]
            o.key = key
            return o.verify_signature()
        if op in ("mac0", "mac"):
            kw = {"recipients": [K.DirectEncryption(uhdr={H.Algorithm: K.ALG[-6]})]} if op == "mac" else {}
            return K.MSG[op.capitalize()](payload=b"x", key=key, **hd(alg), **kw).encode()
        if op in ("mac0 verify", "mac verify"):
            kind = op.split()[0].capitalize()
            tag = self.genuine(km, pb, kind)
            o = K.CoseMessage.decode(R.tagged(kind, [pb, u, b"x", tag] + ([[[b"", {1: -6}, b""]]] if kind == "Mac" else [])))
            o.key = key
            return o.verify_tag()
        if op in ("enc0", "enc"):
            kw = {"recipients": [K.DirectEncryption(uhdr={H.Algorithm: K.ALG[-6]})]} if op == "enc" else {}
            m = K.MSG[op.capitalize()](payload=b"x", key=key, **hd(alg), **kw)
            m.uhdr_update({H.IV: bytes(R.AEAD[self.alg][3])})
            return m.encode()
        if op in ("enc0 decrypt", "enc decrypt"):
            kind = op.split()[0].capitalize()
            ct = self.genuine(km, pb, kind)
            d = K.CoseMessage.decode(R.tagged(kind, [pb, {**u, 5: bytes(R.AEAD[self.alg][3])}, ct] + ([[[b"", {1: -6}, b""]]] if kind == "Enc" else [])))
            d.key = key
            return d.decrypt(*(d.recipients if kind == "Enc" else ()))
        return self.agree(key, alg, km)

    def around(self, m, key):
        """Where the key is missing, the objects around have one."""
        if key is None and self.rng.random() < 0.7:
            m.key = self.obj(self.good)
            for o in getattr(m, "signers", [])[1:] + getattr(m, "recipients", [])[1:]:
                o.key = self.obj(self.good)
            self.mon.saw("no key but around it", self.op)

    def genuine(self, km, pb, kind):
        """What a genuine sender holding km would transmit (None: anything)."""
        try:
            if self.alg in R.SIG:
                tbs = R.tbs1(pb, b"", b"x") if kind == "verify1" else R.tbs(b"", pb, b"", b"x")
                if km[1] == 2 and -4 in km:     # the algorithm's hash with whatever curve the key has
                    return ecdsa(km, R.SIG[self.alg][2], tbs)
                return R.sign(self.alg, km, tbs)
            if self.alg in R.MAC:
                if R.MAC[self.alg][0] == "cbcmac":
                    return cbcmac(km[-1], R.tbm(kind, pb, b"", b"x"), R.MAC[self.alg][2])
                return R.mac(self.alg, km[-1], R.tbm(kind, pb, b"", b"x"))
            m, kl, tl, nl = R.AEAD[self.alg]
            f = R.AESGCM(km[-1]) if m == "gcm" else R.AESCCM(km[-1], tl)
            return f.encrypt(bytes(nl), b"x", R.enc_aad(kind, pb, b""))
        except (KeyError, ValueError, AssertionError, TypeError):
            return bytes(64)

    # -- recipients -------------------------------------------------------------------------------------------------
    def agree(self, key, alg, km):
        op, rng, H = self.op, self.rng, K.headers
        target = 10
        nonce = bytes(13)
        cek = bytes(range(16))
        if op in ("kw", "oaep"):
            r = K.KeyWrap(uhdr={H.Algorithm: K.ALG[alg]} if alg else {}, key=key, payload=rng.choice([b"", cek]))
            return self.message(r, target)
        if op in ("unwrap", "oaep unwrap"):
            w = bytes(24)
            try:
                w = R.wrap(km[-1], cek) if op == "unwrap" else R.oaep_enc(self.alg, km, cek)
            except Exception:
                pass
            return self.receive([b"", {1: alg} if alg else {}, w], key, cek, target)
        sender = "receive" not in op
        es = R.ECDH[self.alg][0] == "es"
        cls = K.DirectKeyAgreement if op.startswith("dka") else K.KeyAgreementWithKeyWrap
        if sender:
            own = key if op.endswith("own") else self.obj(self.own)
            peer = key if op.endswith("peer") else self.obj(R.public(self.peer))
            pub = R.public(km if km is not None and km[1] == 2 and op.endswith("own") else self.own)
            r = cls(phdr={H.Algorithm: K.ALG[alg]} if alg else {}, uhdr={(H.EphemeralKey if es else H.StaticKey): pub},
                    payload=b"" if cls is K.DirectKeyAgreement else rng.choice([b"", cek]))
            r.key = own
            if peer is not None:
                r.local_attrs = {H.StaticKey: peer}
            if op.startswith("dka") and rng.random() < 0.4:
                return r.compute_cek(K.ALG[target], "encrypt").k
            return self.message(r, target)
        # receiver: own private key, the sender's public key from the header
        own = key if op.endswith("own") else self.obj(self.own)
        p = {1: alg} if alg else {}
        snd = R.public(self.peer)
        u = {-1 if es else -2: C.dec(key.encode()) if op.endswith("peer") and key is not None else snd}
        if op.endswith("peer") and key is None:
            u = {}
        a = self.alg
        try:
            priv = km if op.endswith("own") else self.own
            pub = snd if op.endswith("own") else km
            k = R.derive(a, priv, R.public(pub), target, R.hdr_bytes(p))
        except Exception:
            k = bytes(R.key_bytes(R.ECDH[a][2] or target))
        if op.startswith("dka"):
            return self.receive([R.hdr_bytes(p), u, b""], own, k, target)
        return self.receive([R.hdr_bytes(p), u, R.wrap(k, cek)], own, cek, target)

    def message(self, r, target):
        H = K.headers
        if self.rng.random() < 0.7:
            m = K.EncMessage(phdr={H.Algorithm: K.ALG[target]}, uhdr={H.IV: bytes(13)}, payload=b"x", recipients=[r])
        else:
            m = K.MacMessage(phdr={H.Algorithm: K.ALG[14]}, payload=b"x", recipients=[r])
        if self.kty == 4:
            self.around(m, r.key)
        return m.encode()

    def receive(self, wire, key, cek, target):
        pb = C.enc({1: target})
        ct = R.seal(target, cek, bytes(13), R.enc_aad("Enc", pb, b""), b"x")
        d = K.CoseMessage.decode(R.tagged("Enc", [pb, {5: bytes(13)}, ct, [wire]]))
        r = d.recipients[0]
        if self.kty == 4:
            self.around(d, key)
        r.key = key
        if self.rng.random() < 0.6:
            return d.decrypt(r)
        if isinstance(r, K.DirectKeyAgreement) or self.rng.random() < 0.5:
            return r.compute_cek(K.ALG[target], "decrypt").k
        return r.decrypt(K.ALG[target])

    def check_use(self, key, km, what):
        r = self.mon.must("%s with %s (algorithm %d)" % (self.op, what, self.alg), self.attempt, key, None, km)
        ok = r is True if "verify" in self.op else type(r) is bytes and len(r) > 0
        self.mon.check(ok, "%s with %s (algorithm %d) gave" % (self.op, what, self.alg), r, km)
        self.mon.saw("permitted keys used", self.op, self.alg, what)

    def check_refused(self, why, key, km, what, alg=None):
        self.mon.rejects("%s with algorithm %d and %s" % (self.op, self.alg, what), self.attempt, key, alg, km)
        self.mon.saw("forbidden keys refused")
        self.mon.saw("refused: " + why, self.op, self.alg, what)


def ecdsa(km, h, data):
    sk = R.ec.derive_private_key(int.from_bytes(km[-4], "big"), R._EC[km[-1]]())
    r, s = R.asn.decode_dss_signature(sk.sign(data, R.ec.ECDSA(R._H[h]())))
    n = R.CURVES[km[-1]][2]
    return r.to_bytes(n, "big") + s.to_bytes(n, "big")


def cbcmac(k, data, n):
    data += bytes(-len(data) % 16)
    e = R.Cipher(R.algorithms.AES(k), R.modes.ECB()).encryptor()
    c = bytes(16)
    for i in range(0, len(data), 16):
        c = e.update(bytes(a ^ b for a, b in zip(c, data[i:i + 16])))
    return c[:n]


def run(case, mon):
    rng = random.Random(case["s"])
    op, alg = case["op"], case["alg"]
    b = Bench(op, alg, rng, mon)
    mon.saw("op: " + op)
    # what genuine input is made with: the private form
    if alg in R.SIG and not b.private:
        full = G.sig_key(alg, rng)
        b.good = R.public(full)
    elif alg in R.OAEP:
        full = b.good
    elif alg in R.ECDH and not b.private:
        full = b.peer
    else:
        full = b.good
    good = b.good
    permit = b.permit
    # permitted: no restriction, the algorithm itself, lists with a permitting operation, both
    b.check_use(b.obj(good), full, "an unrestricted key")
    b.check_use(b.obj({**good, 3: alg}), full, "a key for the algorithm")
    for o in permit:
        b.check_use(b.obj({**good, 4: [o]}), full, "key_ops [%d]" % o)
        rest = rng.sample(range(1, 11), rng.choice([1, 3, 9]))
        b.check_use(b.obj({**good, 3: alg, 4: list(G.shuffled(rng, dict.fromkeys(rest + [o])))}), full, "key_ops with %d among others" % o)
    k = b.obj(good)
    k.key_ops = []
    b.check_use(k, full, "emptied key_ops")
    # forbidden algorithms: the same family, other families, all registered ones now and then
    pool = [a for a in K.ALG if a != alg]
    fam = [a for a in algs_for(op) if a != alg]
    for a in set(([rng.choice(fam)] if fam else []) + rng.sample(pool, 4)):
        b.check_refused("other algorithm", b.obj({**good, 3: a}), full, "a key restricted to algorithm %d" % a)
        b.check_refused("other algorithm", b.obj({**good, 3: a, 4: permit}), full, "a key restricted to algorithm %d" % a)
    # forbidden operations: each alone, several
    bad = [o for o in range(1, 11) if o not in permit]
    for o in bad:
        b.check_refused("operation", b.obj({**good, 4: [o]}), full, "key_ops [%d]" % o)
    several = rng.sample(bad, rng.choice([2, 4, len(bad)]))
    b.check_refused("operation", b.obj({**good, 3: alg, 4: several}), full, "key_ops %s" % several)
    # types
    ts = types(rng, b.private)
    for kty, ks in ts.items():
        if kty != b.kty:
            for m in (ks if kty != 1 else rng.sample(ks, 2)):
                b.check_refused("wrong type", b.obj(m), full, "a key of type %s" % NAMES[kty])
    wrong = rng.choice([m for kty, ks in ts.items() if kty != b.kty for m in ks])
    b.check_refused("wrong type", b.obj({**wrong, 3: alg}), full, "a key of type %s for the algorithm" % NAMES[wrong[1]])
    # curves
    if b.curves:
        for c in [c for c in (4, 5, 6, 7) if c not in b.curves] if b.kty == 1 else [c for c in (1, 2, 3, 8) if c not in b.curves]:
            f = (G.okp_key if b.kty == 1 else G.ec_key)(c, rng)
            b.check_refused("curve", b.obj(f if b.private else R.public(f)), f, "a key on curve %s" % R.CURVES[c][0])
            b.check_refused("curve", b.obj({**(f if b.private else R.public(f)), 3: alg, 4: permit}), f, "a key on curve %s" % R.CURVES[c][0])
    # lengths
    if b.lengths:
        for n in (16, 24, 32):
            if n not in b.lengths:
                m = G.sym_key(n, rng)
                b.check_refused("length", b.obj(m), m, "a key of %d bytes" % n)
                b.check_refused("length", b.obj({**m, 3: alg, 4: permit}), m, "a key of %d bytes" % n)
    # absent key, absent algorithm, missing private part
    if not (op in ("ka own", "dka own") and R.ECDH[alg][0] == "es"):
        b.check_refused("no key", None, full, "no key")
    b.check_refused("no algorithm", b.obj(good), full, "no algorithm", 0)
    if b.private and b.kty != 4:
        b.check_refused("public only", b.obj(R.public(good)), full, "only the public key")
    # the restrictions a key gets later count from then on
    k = b.obj(good)
    b.check_use(k, full, "a key restricted later")
    how = rng.randrange(4)
    if how == 0:
        k.alg = K.spelled(rng, K.ALG, rng.choice(pool))
    elif how == 1:
        o = allowed_by_type(b.kty, bad)
        k.key_ops = [K.spelled(rng, K.OPS, rng.choice(o), rng.choice(["class", "int"]))]
    elif how == 2:
        k[K.keyparam.KpAlg] = K.ALG[rng.choice(pool)]
    else:
        k[K.keyparam.KpKeyOps] = [K.OPS[rng.choice(allowed_by_type(b.kty, bad))]]
    b.check_refused("other algorithm" if how in (0, 2) else "operation", k, full, "a key restricted after use")
    mon.saw("restricted after use", op, how)
    if how in (0, 2) and rng.random() < 0.5:
        k.alg = K.ALG[alg]
    elif how in (1, 3) and rng.random() < 0.5:
        k.key_ops = [K.OPS[rng.choice([o for o in permit if b.kty != 3 or o in RSA_OPS])]]
    else:
        del k[K.keyparam.KpAlg if how in (0, 2) else K.keyparam.KpKeyOps]
    b.check_use(k, full, "a released key")
    mon.saw("released again", op, how)


RSA_OPS = (1, 2, 3, 4, 5, 6)


def allowed_by_type(kty, ops):
    ok = {1: (1, 2, 7, 8), 2: (1, 2, 7, 8), 3: RSA_OPS, 4: (3, 4, 5, 6, 9, 10)}[kty]
    return [o for o in ops if o in ok]
