"""Recipients: reference-form specifications, the pycose side built from them, and the reference's own view of them."""
from . import cborref as C
from . import coseref as R
from . import gen as G
from . import kit as K

WRAP = list(R.KW) + list(R.OAEP) + [a for a, s in R.ECDH.items() if s[2] is not None]
DIRECT_KA = [a for a, s in R.ECDH.items() if s[2] is None]
CURVES = (1, 2, 3)
MACS = [4, 5, 14, 15, 25, 26]           # algorithms whose content key is a legal symmetric key length


def ec_different(crv, rng, *others):
    """A key whose shared secrets differ from those of the others: X(dQ) = X(-dQ)."""
    order = R.DOMAIN[crv][3]
    bad = set()
    for o in others:
        if o[1] == 2 and o[-1] == crv:
            d = int.from_bytes(o[-4], "big")
            bad |= {d, order - d}
    while True:
        k = G.ec_key(crv, rng)
        if int.from_bytes(k[-4], "big") not in bad:
            return k


def party(rng, p, u, count=None):
    """Distributes party information and salt over the buckets; returns the context as the reference wants it."""
    ctx = {}
    for lab in (-20, -21, -22, -23, -24, -25, -26):
        if rng.random() < 0.3:
            v = rng.choice([rng.randbytes(rng.choice([1, 8, 16, 32, 64])), b""]) if lab != -20 else rng.randbytes(rng.choice([1, 16, 32, 64]))
            if lab in (-22, -25) and rng.random() < 0.25:       # a nonce may be an integer
                v = G.number(rng)
            (p if rng.random() < 0.5 else u)[lab] = v
            ctx[lab] = v
    return ctx


def spec(rng, alg, crv=None, ctx=True, others=()):
    """One recipient: who receives it (key), who sends it (sender, static or preset ephemeral), headers and local context."""
    s = {"alg": alg, "p": {}, "u": {}, "local": {}, "eph": None}
    extra = G.header(rng, rng.choice([0, 0, 1, 2]), reg=[3, 4, 10, 35, -3])
    if alg in R.KW:
        s["u"] = {1: alg, **extra}
        while True:
            s["key"] = G.sym_key(R.KW[alg], rng)
            if all(o != s["key"] for o in others):
                break
    elif alg in R.OAEP:
        s["u"] = {1: alg, **extra}
        while True:
            s["key"] = dict(G.rsa_key(rng, 1536 if alg == -42 else 1088))
            if all(o.get(-1) != s["key"][-1] for o in others):
                break
    else:
        kind, _, kw = R.ECDH[alg]
        crv = crv or rng.choice(CURVES)
        s["key"] = ec_different(crv, rng, *others)
        s["p"], s["u"] = {}, {}
        (s["p"] if rng.random() < 0.75 else s["u"])[1] = alg
        for k, v in extra.items():
            (s["p"] if rng.random() < 0.3 else s["u"])[k] = v
        if ctx:
            party(rng, s["p"], s["u"])
            if rng.random() < 0.3:
                s["local"]["pub"] = rng.randbytes(rng.choice([1, 16, 40]))
            if rng.random() < 0.3:
                s["local"]["priv"] = rng.randbytes(rng.choice([1, 16, 40]))
        if kind == "ss":
            s["sender"] = ec_different(crv, rng, s["key"])
            (s["p"] if rng.random() < 0.3 else s["u"])[-2] = R.public(s["sender"])
        elif rng.random() < 0.25:
            s["sender"] = s["eph"] = ec_different(crv, rng, s["key"])
            (s["p"] if rng.random() < 0.3 else s["u"])[-1] = R.public(s["sender"])
        s["p"], s["u"] = G.shuffled(rng, s["p"]), G.shuffled(rng, s["u"])
    return s


def cls_of(alg):
    if alg in R.KW or alg in R.OAEP:
        return K.KeyWrap
    return K.DirectKeyAgreement if R.ECDH[alg][2] is None else K.KeyAgreementWithKeyWrap


def _local(s):
    out = {}
    if "pub" in s["local"]:
        out[K.headers.SuppPubOther] = s["local"]["pub"]
    if "priv" in s["local"]:
        out[K.headers.SuppPrivOther] = s["local"]["priv"]
    return out


def build(mon, rng, s, cek=None):
    """The sender's recipient object."""
    cls = cls_of(s["alg"])
    kw = {"payload": cek} if cek is not None else {}
    key = None
    if s["key"][1] == 4:
        key = K.key(rng, s["key"], None, opts(rng, s["alg"], [3, 5]))
    elif s["key"][1] == 3:
        key = K.key(rng, R.public(s["key"]), None, opts(rng, s["alg"], [3, 5]))
    elif "sender" in s:
        key = K.key(rng, s["sender"], None, opts(rng, s["alg"], [7, 8]))
    if rng.random() < 0.6:
        r = mon.must("recipient constructor", cls, phdr=K.spell(rng, s["p"]), uhdr=K.spell(rng, s["u"]), **kw)
    else:
        r = mon.must("recipient constructor", cls, **kw)
        K.build_headers(mon, rng, r, s["p"], s["u"])
    if key is not None:
        r.key = key
    K.text_algs(mon, rng, r)
    if s["key"][1] == 2:
        r.local_attrs = {K.headers.StaticKey: K.key(rng, R.public(s["key"]), None, opts(rng, s["alg"], [7, 8])), **_local(s)}
    return r


def opts(rng, alg, ops):
    p = {}
    if rng.random() < 0.25:
        p[3] = alg
    if rng.random() < 0.25:
        p[4] = [rng.choice(ops)]
    if rng.random() < 0.1:
        p[2] = G.kid(rng)
    return p


def open_side(mon, rng, s, r, key=None):
    """Gives the decoded recipient object what its receiver has."""
    key = s["key"] if key is None else key
    ops = {4: [4, 6], 3: [4, 6], 2: [7, 8]}[key[1]]
    r.key = mon.must("receiver key", K.key, rng, key, None, opts(rng, s["alg"], ops) if key is s["key"] else {})
    loc = _local(s)
    if loc:
        r.local_attrs = loc


def sender_public(s, wire):
    """The sender's public key as found on the wire, or known to the receiver."""
    _, u = wire[0], wire[1]
    p = C.dec(wire[0]) if wire[0] else {}
    lab = -1 if R.ECDH[s["alg"]][0] == "es" else -2
    m = p.get(lab, u.get(lab))
    return m


def ref_key(s, wire, target, priv=None):
    """The derived key as the receiver computes it from the wire form with the reference alone."""
    p = C.dec(wire[0]) if wire[0] else {}
    a = {**p, **wire[1]}
    pub = sender_public(s, wire)
    return R.derive(s["alg"], priv or s["key"], pub, target, R.auth_phdr(wire[0]), a.get(-20),
                    u=(a.get(-21), a.get(-22), a.get(-23)), v=(a.get(-24), a.get(-25), a.get(-26)),
                    pub_other=s["local"].get("pub"), priv_other=s["local"].get("priv"))


def ref_open(s, wire, target):
    """The content key as the receiver recovers it with the reference alone, or None."""
    alg = s["alg"]
    if alg in R.KW:
        return R.unwrap(s["key"][-1], wire[2])
    if alg in R.OAEP:
        return R.oaep_dec(alg, s["key"], wire[2])
    k = ref_key(s, wire, target)
    return k if R.ECDH[alg][2] is None else R.unwrap(k, wire[2])


def ref_build(rng, s, target, cek=None, var=False):
    """Wire form made by the reference; returns (wire, content key)."""
    alg = s["alg"]
    p, u = dict(s["p"]), dict(s["u"])
    priv = None
    if alg in R.ECDH:
        if R.ECDH[alg][0] == "es" and s["eph"] is None:
            priv = ec_different(s["key"][-1], rng, s["key"])
            pub = R.public(priv)
            if rng.random() < 0.3:
                pub = {**pub, -3: bool(pub[-3][-1] & 1)}
            u[-1] = pub
        else:
            priv = s["sender"]
    pb = (C.enc_var(p, rng, 0.5) if var else C.enc(p)) if p else b""
    wire = [pb, u, b""]
    if alg in R.KW:
        wire[2] = R.wrap(s["key"][-1], cek)
    elif alg in R.OAEP:
        wire[2] = R.oaep_enc(alg, s["key"], cek)
    else:
        k = ref_key(s, wire, target)
        if R.ECDH[alg][2] is None:
            return wire, k
        wire[2] = R.wrap(k, cek)
    return wire, cek


def check_wire(mon, s, wire, what):
    """Structure of an emitted recipient against its specification."""
    mon.check(type(wire) is list and len(wire) == 3 and type(wire[0]) is bytes and type(wire[2]) is bytes, what + ": structure", wire)
    p = K.wired(C.dec(wire[0])) if wire[0] else {}
    mon.check(C.same(p, s["p"]), what + ": protected header", p, s["p"])
    u = dict(K.wired(wire[1]))
    if s["alg"] in R.ECDH and R.ECDH[s["alg"]][0] == "es" and s["eph"] is None:
        e = u.pop(-1, None)
        mon.check(isinstance(e, dict) and e.get(1) == 2 and e.get(-1) == s["key"][-1] and -4 not in e, what + ": ephemeral key", e)
        x, y = e.get(-2), e.get(-3)
        mon.check(type(x) is bytes and type(y) is bytes and R.on_curve(e[-1], int.from_bytes(x, "big"), int.from_bytes(y, "big")),
                  what + ": ephemeral key is not a point of the curve", e)
    mon.check(C.same(u, s["u"]), what + ": unprotected header", u, s["u"])
    if s["alg"] in DIRECT_KA:
        mon.check(wire[2] == b"", what + ": direct key agreement carries a ciphertext", wire[2])
    mon.saw("recipient structures checked", s["alg"])
