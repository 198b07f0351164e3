"""C17 elliptic curve keys: invalid points, scalars and mismatching coordinates meet every construction form and every use; the oracle is
the curve equation and plain affine arithmetic. The attacks are the real ones: a signature forged against an unchecked point, a message
encrypted with the secret an unchecked agreement would compute. The same cases run again in interpreters that strip assertions."""
import functools
import json
import os
import random
import subprocess
import sys
from collections import Counter

from .. import core, cborref as C, coseref as R, gen as G, kit as K, rcpt as P

PROP = "C17"
RULE = ("a case is one key family of one curve with all its malformed siblings in one construction form, and everything done with them; "
        "non-trivial: well-formed siblings were accepted with the right point and malformed ones were refused; optimised cases run a batch "
        "of these in python -O or -OO")
REQUIRED = {"well-formed keys accepted": 1200, "mismatching private keys refused": 3000, "compressed points checked": 600,
            "invalid compressed points refused": 500, "signatures not accepted under an invalid point": 1000, "forged signatures refused": 250,
            "agreements with an invalid point refused": 800, "scalars out of range refused": 800, "agreements across curves refused": 120,
            "invalid-curve messages refused": 120, "embedded keys checked": 120, "run optimised": 150}
SIGN = {1: -7, 2: -35, 3: -36}
G0 = {c: R.ec_public(c, 1) for c in R.DOMAIN}
EC = (1, 2, 3, 8)
ALL = ["private", "compressed", "public", "scalar", "curves"]


def cases(tier, rng):
    n = {"quick": 20, "thorough": 400}[tier]
    for rep in range(n):
        for c in EC:
            for do in ALL:
                yield {"do": do, "crv": c, "s": rng.getrandbits(48)}
        if rep % 7 == 0:
            for level in (1, 2):
                for part in range(3):
                    yield {"do": "optimised", "level": level,
                           "cases": [{"do": do, "crv": c, "s": rng.getrandbits(48)} for do in ALL for c in EC]}


def run(case, mon):
    if case["do"] == "optimised":
        return optimised(case, mon)
    {"private": private, "compressed": compressed, "public": public, "scalar": scalar, "curves": curves}[case["do"]](
        case, mon, random.Random(case["s"]))


def optimised(case, mon):
    env = {**os.environ, "PYTHONPATH": core.ROOT, "PYTHONDONTWRITEBYTECODE": "1", "PYCOSE_REPO": core.REPO}
    p = subprocess.run([sys.executable, "-" + "O" * case["level"], "-m", "mon.checks.c17"], input=json.dumps(case["cases"]).encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=core.ROOT, timeout=110)
    if p.returncode != 0:
        raise RuntimeError("optimised interpreter: " + p.stderr.decode()[-600:])
    out = json.loads(p.stdout)
    if out["optimize"] != case["level"]:
        raise RuntimeError("interpreter did not optimise")
    if out["violation"]:
        raise core.Violation("under python -%s: %s | %s" % ("O" * case["level"], out["violation"], out["case"]))
    for k, v in out["counters"].items():
        mon.counters[k] += v
    mon.saw("run optimised", case["level"])
    mon.counters["run optimised"] += out["n"] - 1


# --------------------------------------------------------------------------------------------------------------- tools
def b(c, i):
    return i.to_bytes(R.CURVES[c][2], "big")


def num(x):
    return int.from_bytes(x, "big")


FORMS = ["dict", "cls", "names", "cbor", "ctor", "opt"]


def build(rng, m, form=None):
    return K.key(rng, m, form or rng.choice(FORMS))


def accepted(mon, rng, m, point, d, what):
    k = mon.must("well-formed key (%s)" % what, build, rng, m)
    c = m[-1]
    mon.check((k.x, k.y) == (b(c, point[0]), b(c, point[1])), "a key has another point than it was given (%s)" % what, m, k.x, k.y)
    mon.check(k.d == (b"" if d is None else d), "private value of a key (%s)" % what, m)
    mon.check(k.crv is K.CRV[c], "curve of a key", m)
    mon.saw("well-formed keys accepted", c, what)
    return k


def other_key(c, rng, m):
    while True:
        o = G.ec_key(c, rng)
        if o[-2] != m[-2]:
            return o


def flip(rng, x):
    i = rng.randrange(len(x) * 8)
    return x[:i // 8] + bytes([x[i // 8] ^ 1 << i % 8]) + x[i // 8 + 1:]


def off_curve(c, rng, m):
    """(name, x bytes, y bytes): pairs which are not a point of the curve with coordinates in the field."""
    p = R.DOMAIN[c][0]
    x, y = num(m[-2]), num(m[-3])
    o = other_key(c, rng, m)
    size = R.CURVES[c][2]
    out = [("bit of x", flip(rng, m[-2]), m[-3]), ("bit of y", m[-2], flip(rng, m[-3])), ("y+1", m[-2], b(c, (y + 1) % p)),
           ("x+1", b(c, (x + 1) % p), m[-3]), ("zeros", bytes(size), bytes(size)), ("y zero", m[-2], bytes(size)), ("x zero", bytes(size), m[-3]),
           ("swapped", m[-3], m[-2]), ("random", rng.randbytes(size), rng.randbytes(size)), ("mixed", m[-2], o[-3]), ("mixed", o[-2], m[-3]),
           ("generator x, zero", b(c, G0[c][0]), bytes(size)), ("ones", b"\xff" * size, b"\xff" * size)]
    if c != 8:
        out.append(("y for another b", m[-2], b(c, twin_y(c, rng, x, y))))
    for q in EC:
        if q != c and R.CURVES[q][2] == size:
            k = G.ec_key(q, rng)
            out.append(("of another curve", k[-2], k[-3]))
    out = [t for t in out if not R.on_curve(c, num(t[1]), num(t[2]))]
    if x + p < 2 ** (8 * size):
        out.append(("x+p", b(c, x + p), m[-3]))
    if y + p < 2 ** (8 * size):
        out.append(("y+p", m[-2], b(c, y + p)))
    t = rng.choice([t for t in range(1, 60) if R.solve_y(c, t)])
    out.append(("small x+p", b(c, t + p), b(c, rng.choice(R.solve_y(c, t)))))
    return out


def twin_y(c, rng, x, y):
    p = R.DOMAIN[c][0]
    while True:
        t = rng.randrange(1, p)
        if t not in (y, p - y):
            return t


def add(c, q, r):
    """Affine addition; b of the curve does not enter, so it also works on the curves an attacker would choose."""
    p, a = R.DOMAIN[c][:2]
    if q is None or r is None:
        return r if q is None else q
    (x1, y1), (x2, y2) = q, r
    if x1 == x2:
        if (y1 + y2) % p == 0:
            return None
        s = (3 * x1 * x1 + a) * pow(2 * y1, -1, p) % p
    else:
        s = (y2 - y1) * pow(x2 - x1, -1, p) % p
    x = (s * s - x1 - x2) % p
    return x, (s * (x1 - x) - y1) % p


def mul(c, d, q):
    r = None
    for bit in bin(d)[2:]:
        r = add(c, r, r)
        if bit == "1":
            r = add(c, r, q)
    return r


# ------------------------------------------------------------------------------------------ private keys and coordinates
def private(case, mon, rng):
    c = case["crv"]
    p, _, _, n = R.DOMAIN[c]
    size = R.CURVES[c][2]
    m = G.ec_key(c, rng)
    x, y, d = num(m[-2]), num(m[-3]), m[-4]
    base = {1: 2, -1: c, -4: d}
    for form in FORMS:
        for name, k in (("all", m), ("d", base), ("d x", {**base, -2: m[-2]}), ("d x sign", {**base, -2: m[-2], -3: bool(y & 1)}),
                        ("d y", {**base, -3: m[-3]}), ("d sign", {**base, -3: bool(y & 1)})):
            mon.check(True, "")
            got = mon.must("consistent private key (%s, %s)" % (name, form), build, rng, k, form)
            mon.check((got.x, got.y, got.d) == (m[-2], m[-3], d), "coordinates of a consistent private key (%s, %s)" % (name, form), k, got.x, got.y)
            mon.saw("well-formed keys accepted", c, name, form)
    o = other_key(c, rng, m)
    neg = b(c, p - y)
    wrong = [("x of another key", {**base, -2: o[-2]}), ("x of another key, own y", {**m, -2: o[-2]}), ("point of another key", {**m, -2: o[-2], -3: o[-3]}),
             ("y of another key", {**m, -3: o[-3]}), ("y of another key alone", {**base, -3: o[-3]}), ("d of another key", {**m, -4: o[-4]}),
             ("negated y", {**m, -3: neg}), ("negated y alone", {**base, -3: neg}), ("negated d", {**m, -4: b(c, n - num(d))}),
             ("wrong sign", {**m, -3: not (y & 1)}), ("wrong sign alone", {**base, -3: not (y & 1)}),
             ("swapped", {**m, -2: m[-3], -3: m[-2]}), ("x as y", {**m, -3: m[-2]}), ("bit of x", {**m, -2: flip(rng, m[-2])}),
             ("bit of y", {**m, -3: flip(rng, m[-3])}), ("bit of x, compressed", {**m, -2: flip(rng, m[-2]), -3: bool(y & 1)}),
             ("x of another key, compressed", {**m, -2: o[-2], -3: bool(y & 1)}), ("bit of x alone", {**base, -2: flip(rng, m[-2])}),
             ("x cut", {**m, -2: m[-2][:-1]}), ("y cut", {**m, -3: m[-3][:-1]}), ("x shifted", {**m, -2: m[-2] + b"\0"}),
             ("y shifted", {**m, -3: m[-3] + b"\0"}), ("d+1", {**m, -4: b(c, num(d) % (n - 1) + 1)}), ("zero point", {**m, -2: bytes(size), -3: bytes(size)}),
             ("x cut, no y", {**base, -2: m[-2][:size // 2]}), ("one byte", {**base, -2: b"\x01"}), ("one byte y", {**m, -3: b"\x01"})]
    for q in EC:
        if q != c and R.CURVES[q][2] == size:
            wrong.append(("same scalar, other curve's point", {**m, **{k: v for k, v in R.ec_key(q, num(d)).items() if k in (-2, -3)}}))
            wrong.append(("other curve", {**m, -1: q}))
            wrong.append(("other curve, x alone", {**base, -1: q, -2: m[-2]}))
    if x + p < 2 ** (8 * size):
        wrong.append(("x+p", {**m, -2: b(c, x + p)}))
        wrong.append(("y+p", {**m, -3: b(c, y + p)}))
    # the length of a coordinate is fixed (RFC 8152 13.1.1): a leading zero more or less is another octet string
    wrong += [("zero before x", {**m, -2: b"\0" + m[-2]}), ("zero before y", {**m, -3: b"\0" + m[-3]}), ("zero before x alone", {**base, -2: b"\0" + m[-2]}),
              ("zero before y alone", {**base, -3: b"\0" + m[-3]})]
    s, t = shorts(c)
    wrong += [("x without its leading zero", {**s, -2: s[-2].lstrip(b"\0")}), ("y without its leading zero", {**t, -3: t[-3].lstrip(b"\0")})]
    for name, k in wrong:
        if "zero" not in name and owns(k):
            continue
        for form in rng.sample(FORMS, 3):
            mon.rejects("private key on %s with %s (%s)" % (R.CURVES[c][0], name, form), build, rng, k, form)
            mon.saw("mismatching private keys refused", c, name, form)
    # generated keys and keys used before are still consistent
    g = mon.must("generate_key", K.EC2Key.generate_key, K.spelled(rng, K.CRV, c))
    mon.check((num(g.x), num(g.y)) == R.ec_public(c, num(g.d)), "a generated key is not consistent", g.store)
    mon.saw("well-formed keys accepted", "generated", c)


@functools.lru_cache(None)
def shorts(c):
    """Keys with a leading zero in x, in y."""
    out, rng = [], random.Random(c)
    for lab in (-2, -3):
        while True:
            k = R.ec_key(c, rng.randrange(1, R.DOMAIN[c][3]))
            if k[lab][0] == 0:
                out.append(k)
                break
    return out


def owns(k):
    """Whether the coordinates given are those of the private value, as numbers: leading zeros do not count."""
    pub = R.ec_public(k[-1], num(k[-4]))
    if -2 in k and num(k[-2]) != pub[0]:
        return False
    y = k.get(-3)
    return y is None or (y is bool(pub[1] & 1) if isinstance(y, bool) else num(y) == pub[1])


# ------------------------------------------------------------------------------------------------------ compressed points
def compressed(case, mon, rng):
    c = case["crv"]
    p = R.DOMAIN[c][0]
    size = R.CURVES[c][2]
    for _ in range(3):
        x = num(G.ec_key(c, rng)[-2]) if rng.random() < 0.6 else rng.randrange(p)
        ys = R.solve_y(c, x)
        m = {1: 2, -1: c, -2: b(c, x)}
        if ys is None:
            for form in FORMS:
                for extra in ({}, {-3: True}, {-3: False}):
                    mon.rejects("x without a point on %s (%s)" % (R.CURVES[c][0], form), build, rng, {**m, **extra}, form)
                    mon.saw("invalid compressed points refused", c, form, "no point")
            continue
        for form in FORMS:
            k = mon.must("x alone", build, rng, m, form)
            mon.check(k.x == m[-2] and len(k.y) == size and num(k.y) in ys, "Y found for an X alone is not on the curve", m, k.y)
            mon.saw("compressed points checked", c, form, "alone")
            for sign in (False, True):
                y = [v for v in ys if bool(v & 1) == sign][0]
                k = mon.must("x with the sign of y", build, rng, {**m, -3: sign}, form)
                mon.check(k.x == m[-2] and k.y == b(c, y), "Y found for a compressed point has the wrong sign or is not on the curve", m, sign, k.y)
                mon.saw("compressed points checked", c, form, sign)
    m = G.ec_key(c, rng)
    y = num(m[-3])
    x = num(m[-2])
    bad = [("p", b"\xff" * size), ("cut", m[-2][:-1]), ("longer", m[-2] + rng.randbytes(1)), ("prefixed", b"\x01" + m[-2]), ("half", m[-2][:size // 2]),
           ("p itself", b(c, p)), ("sec1", b"\x02" + m[-2]), ("uncompressed", m[-2] + m[-3])]
    if x + p < 2 ** (8 * size):
        bad.append(("x+p", b(c, x + p)))
    while True:
        t = rng.randrange(p)
        if R.solve_y(c, t) is None:
            bad.append(("no point", b(c, t)))
            break
    small = next(t for t in range(1, 200) if R.solve_y(c, t))
    if small + p < 2 ** (8 * size):
        bad.append(("small x + p", b(c, small + p)))
    for name, xb in bad:
        for form in rng.sample(FORMS, 2):
            extra = rng.choice([{}, {-3: True}, {-3: False}])
            if num(xb) < p and R.solve_y(c, num(xb)):
                # a valid number in another length: not refused means the same number, nothing else
                continue
            mon.rejects("invalid x (%s) on %s (%s)" % (name, R.CURVES[c][0], form), build, rng, {1: 2, -1: c, -2: xb, **extra}, form)
            mon.saw("invalid compressed points refused", c, name, form)
    # embedded in a message header: whatever is used afterwards is the point that was meant
    alg = rng.choice(list(R.ECDH))
    lab = -1 if R.ECDH[alg][0] == "es" else -2
    for sign in (False, True):
        k = G.ec_key(c, rng)
        ys = R.solve_y(c, num(k[-2]))
        emb = {1: 2, -1: c, -2: k[-2], -3: sign}
        wire = rng.choice([[C.enc({1: alg, lab: emb}), {}, b"x" * 24], [C.enc({1: alg}), {lab: emb}, b"x" * 24]])
        if R.ECDH[alg][2] is None:
            wire[2] = b""
        d = mon.must("decode", K.CoseMessage.decode, R.tagged("Enc", [C.enc({1: 1}), {5: bytes(12)}, b"0" * 20, [wire]]))
        got = d.recipients[0].get_attr(K.HDR[lab])
        mon.check(isinstance(got, K.EC2Key) and got.x == k[-2] and num(got.y) == [v for v in ys if bool(v & 1) == sign][0],
                  "embedded compressed key has the wrong point", emb, got)
        mon.saw("embedded keys checked", c, lab, sign)
    # and used: verification and agreement agree with the reference's point
    for sign in (False, True):
        k = G.ec_key(c, rng)
        sign = bool(num(k[-3]) & 1) if rng.random() < 0.6 else sign
        mine = mon.must("compressed key", build, rng, {1: 2, -1: c, -2: k[-2], -3: sign})
        if c in SIGN:
            ok = sign == bool(num(k[-3]) & 1)
            msg = signed(rng, SIGN[c], k)
            f = lambda: verify(msg, mine)
            if ok:
                mon.check(mon.must("verification with a compressed key", f) is True, "a signature does not verify under the compressed key", k)
            else:
                mon.never_true("signature of the key with the other sign", f)
            mon.saw("compressed points checked", "verification", c, ok)


# ------------------------------------------------------------------------------------------------------- invalid points
def signed(rng, alg, k, sig=None):
    kind = rng.choice(["Sign1", "Sign"])
    pl = rng.randbytes(20)
    ph = C.enc({1: alg})
    if kind == "Sign1":
        tbs = R.tbs1(ph, b"", pl)
        return R.tagged("Sign1", [ph, {}, pl, R.sign(alg, k, tbs) if sig is None else sig(tbs)])
    tbs = R.tbs(b"", ph, b"", pl)
    return R.tagged("Sign", [b"", {}, pl, [[ph, {}, R.sign(alg, k, tbs) if sig is None else sig(tbs)]]])


def verify(data, key):
    d = K.CoseMessage.decode(data)
    s = d if hasattr(d, "key") and not hasattr(d, "signers") else d.signers[0]
    s.key = key
    return s.verify_signature()


def forger(c, rng):
    """A signature which any point of order two, or the point at infinity, would accept."""
    n = R.DOMAIN[c][3]
    import hashlib
    h = {1: "sha256", 2: "sha384", 3: "sha512"}[c]

    def sig(tbs):
        e = num(hashlib.new(h, tbs).digest())
        while True:
            u1 = rng.randrange(1, n)
            r = R.ec_public(c, u1)[0] % n
            s = e * pow(u1, -1, n) % n
            if r and s:
                return b(c, r) + b(c, s)
    return sig


def with_point(rng, m, x, y):
    """A public key object with the coordinates, made or edited into them; None when construction refuses."""
    c = m[-1]
    how = rng.choice(FORMS + ["setters", "items", "moved"])
    if how == "setters":
        k = build(rng, R.public(m))
        k.x, k.y = x, y
    elif how == "items":
        k = build(rng, R.public(m))
        k[K.KPARAM[2][-2]] = x
        k["y"] = y
    elif how == "moved" and any(q != c for q in EC):
        o = G.ec_key(rng.choice([q for q in EC if q != c]), rng)
        k = build(rng, R.public(o))
        k.crv, k.x, k.y = K.spelled(rng, K.CRV, c), x, y
    else:
        how = "dict" if how == "moved" else how
        try:
            k = build(rng, {1: 2, -1: c, -2: x, -3: y}, how)
        except Exception:
            return None, how
    return k, how


def public(case, mon, rng):
    c = case["crv"]
    m = G.ec_key(c, rng)
    accepted(mon, rng, R.public(m), (num(m[-2]), num(m[-3])), None, "public")
    bad = off_curve(c, rng, m)
    for name, x, y in bad:
        mon.check(not R.on_curve(c, num(x), num(y)), "harness: the point is valid")
        k, how = with_point(rng, m, x, y)
        if k is None:
            mon.counters["refused at construction"] += 1
            mon.saw("agreements with an invalid point refused", c, name, how)
            mon.saw("signatures not accepted under an invalid point", c, name, how)
            continue
        if c in SIGN:
            data = signed(rng, SIGN[c], m)
            mon.never_true("genuine signature under a key with %s (%s)" % (name, how), verify, data, k)
            mon.saw("signatures not accepted under an invalid point", c, name, how)
            data = signed(rng, SIGN[c], m, forger(c, rng))
            mon.never_true("forged signature under a key with %s (%s)" % (name, how), verify, data, k)
            mon.saw("forged signatures refused", c, name, how)
        agreement(mon, rng, c, k, (x, y), "%s (%s)" % (name, how))
        mon.saw("agreements with an invalid point refused", c, name, how)
    # the same attacks do not disturb a valid key
    if c in SIGN:
        k = build(rng, R.public(m))
        mon.check(mon.must("verification", verify, signed(rng, SIGN[c], m), k) is True, "a genuine signature does not verify")
        mon.never_true("forged signature under a valid key", verify, signed(rng, SIGN[c], m, forger(c, rng)), k)
    for name, x, y in rng.sample(bad, 3):
        invalid_curve(mon, rng, c, x, y, name)


def sender(rng, c, alg, peer, own=None):
    """A message to peer, whatever it is."""
    own = own or G.ec_key(c, rng)
    u = {}
    key = None
    if R.ECDH[alg][0] == "ss" or rng.random() < 0.5:
        key = build(rng, own) if isinstance(own, dict) else own
        pub = R.public(own) if isinstance(own, dict) else None
        if pub:
            u[K.HDR[-2 if R.ECDH[alg][0] == "ss" else -1]] = pub
    kw = {"payload": rng.randbytes(16)} if R.ECDH[alg][2] is not None else {}
    r = P.cls_of(alg)(phdr={K.headers.Algorithm: K.ALG[alg]}, uhdr=u, **kw)
    if key is not None:
        r.key = key
    r.local_attrs = {K.headers.StaticKey: peer}
    return r


def send(r):
    m = K.EncMessage(phdr={K.headers.Algorithm: K.ALG[1]}, uhdr={K.headers.IV: bytes(12)}, payload=b"secret", recipients=[r])
    return m.encode()


def agreement(mon, rng, c, peer, raw, what):
    """peer as the other party of every kind of agreement, sending and receiving: no secret may come out."""
    alg = rng.choice(list(R.ECDH))
    mon.rejects("agreement (alg %d) sending to a peer with %s" % (alg, what), lambda: send(sender(rng, c, alg, peer)))
    direct = rng.choice([a for a in R.ECDH if R.ECDH[a][2] is None])
    mon.rejects("derivation (alg %d) sending to a peer with %s" % (direct, what), lambda: sender(rng, c, direct, peer).compute_cek(K.ALG[1], "encrypt"))
    # the received key is assigned as a key object or comes with the message
    direct = rng.choice([a for a in R.ECDH if R.ECDH[a][2] is None])
    lab = -1 if R.ECDH[direct][0] == "es" else -2

    def receive():
        r = K.MSG["Enc"].decode(R.tagged("Enc", [C.enc({1: 1}), {5: bytes(12)}, b"0" * 20,
                                                 [[C.enc({1: direct}), {lab: {1: 2, -1: c, -2: raw[0], -3: raw[1]}}, b""]]])).recipients[0]
        r.key = build(rng, G.ec_key(c, rng))
        return r.compute_cek(K.ALG[1], "decrypt")
    mon.rejects("derivation (alg %d) from a received key with %s" % (direct, what), receive)


def invalid_curve(mon, rng, c, x, y, name):
    """The invalid curve attack as a message: sealed with the secret an unchecked agreement would compute."""
    p = R.DOMAIN[c][0]
    rcv = G.ec_key(c, rng)
    q = num(x) % p, num(y) % p
    try:
        s = mul(c, num(rcv[-4]), q)
    except ValueError:
        s = None
    if s is None:
        return
    alg = rng.choice(list(R.ECDH))
    lab = -1 if R.ECDH[alg][0] == "es" else -2
    h, kw = R.ECDH[alg][1:]
    target = 1
    pb = C.enc({1: alg})
    a = kw if kw is not None else target
    k = R.hkdf(h, None, b(c, s[0]), R.kdf_context(a, R.key_bytes(a), pb), R.key_bytes(a))
    cek = k if kw is None else rng.randbytes(16)
    ct = b"" if kw is None else R.wrap(k, cek)
    hp = C.enc({1: target})
    nonce = rng.randbytes(12)
    data = R.tagged("Enc", [hp, {5: nonce}, R.seal(target, cek, nonce, R.enc_aad("Enc", hp, b""), b"secret"),
                            [[pb, {lab: {1: 2, -1: c, -2: x, -3: y}}, ct]]])

    def attack():
        d = K.CoseMessage.decode(data)
        d.recipients[0].key = build(rng, rcv)
        return d.decrypt(d.recipients[0])
    mon.rejects("message agreed over %s (alg %d)" % (name, alg), attack)
    mon.saw("invalid-curve messages refused", c, name, alg)
    # control: the same message over a valid point opens, so the attack arithmetic is right
    snd = P.ec_different(c, rng, rcv)
    s2 = mul(c, num(rcv[-4]), (num(snd[-2]), num(snd[-3])))
    mon.check(b(c, s2[0]) == R.ecdh(rcv, R.public(snd)), "harness: attack arithmetic")


# -------------------------------------------------------------------------------------------------------------- scalars
def scalar(case, mon, rng):
    c = case["crv"]
    n = R.DOMAIN[c][3]
    size = R.CURVES[c][2]
    d = G.ec_scalar(c, rng)
    m = R.ec_key(c, d)
    out = [("zero", bytes(size)), ("one zero byte", b"\0"), ("n", b(c, n)), ("n+1", b(c, n + 1)), ("n+d", (n + d).to_bytes(size + 1, "big")),
           ("all ones", b"\xff" * size), ("2n", (2 * n).to_bytes(size + 1, "big")), ("2n+d", (2 * n + d).to_bytes(size + 1, "big")),
           ("long", rng.randbytes(size) + m[-4]), ("n+random", b(c, n + rng.randrange(1, min(2 ** (8 * size) - n, n))))]
    if n + d < 2 ** (8 * size):
        out.append(("n+d fits", b(c, n + d)))
    for name, v in out:
        if 0 < num(v) < n:
            continue
        for how in rng.sample(["alone", "with x", "with point", "edited", "item", "forged point"], 4):
            try:
                if how == "alone":
                    k = build(rng, {1: 2, -1: c, -4: v})
                elif how in ("with x", "with point"):
                    pt = R.ec_key(c, num(v) % n or 1)
                    k = build(rng, {1: 2, -1: c, -4: v, -2: pt[-2], **({-3: pt[-3]} if how == "with point" else {})})
                elif how == "forged point":
                    k = build(rng, {**m, -4: v})
                else:
                    k = build(rng, m)
                    if how == "edited":
                        k.d = v
                    else:
                        k[K.KPARAM[2][-4]] = v
            except Exception:
                mon.counters["refused at construction"] += 1
                mon.saw("scalars out of range refused", c, name, how)
                continue
            if c in SIGN:
                mon.rejects("signing with the private value %s (%s)" % (name, how),
                            lambda: K.Sign1Message(phdr={K.headers.Algorithm: K.ALG[SIGN[c]]}, payload=b"x", key=k).encode())
            alg = rng.choice(list(R.ECDH))
            peer = build(rng, R.public(other_key(c, rng, m)))
            own_alg = rng.choice([a for a in R.ECDH if R.ECDH[a][0] == "ss"])

            def sending():
                r = sender(rng, c, own_alg, peer)
                r.key = k
                return send(r)
            mon.rejects("agreement (alg %d) sending with the private value %s (%s)" % (own_alg, name, how), sending)
            receiving(mon, rng, c, k, name, how)
            mon.saw("scalars out of range refused", c, name, how)
    accepted(mon, rng, m, (num(m[-2]), num(m[-3])), m[-4], "scalar in range")
    for e in (1, n - 1):
        accepted(mon, rng, {1: 2, -1: c, -4: b(c, e)}, R.ec_public(c, e), b(c, e), "extreme scalar")


def receiving(mon, rng, c, k, name, how):
    """A message for the reduced private value does not open with the unreduced one."""
    n = R.DOMAIN[c][3]
    red = num(k.d) % n
    alg = rng.choice(list(R.ECDH))
    if red == 0:
        red = 1
    s = {"alg": alg, "key": R.ec_key(c, red), "p": {1: alg}, "u": {}, "local": {}, "eph": None}
    if R.ECDH[alg][0] == "ss":
        s["sender"] = P.ec_different(c, rng, s["key"])
        s["u"][-2] = R.public(s["sender"])
    cek = rng.randbytes(16)
    wire, cek = P.ref_build(rng, s, 1, None if R.ECDH[alg][2] is None else cek)
    hp = C.enc({1: 1})
    data = R.tagged("Enc", [hp, {5: bytes(12)}, R.seal(1, cek, bytes(12), R.enc_aad("Enc", hp, b""), b"secret"), [wire]])

    def opening(key):
        d = K.CoseMessage.decode(data)
        d.recipients[0].key = key
        return d.decrypt(d.recipients[0])
    mon.check(mon.must("decrypt", opening, build(rng, s["key"])) == b"secret", "harness: control message")
    mon.rejects("agreement (alg %d) receiving with the private value %s (%s)" % (alg, name, how), opening, k)


# --------------------------------------------------------------------------------------------------------------- curves
def curves(case, mon, rng):
    c = case["crv"]
    for q in [q for q in EC if q != c]:
        a, o = G.ec_key(c, rng), G.ec_key(q, rng)
        alg = rng.choice([x for x in R.ECDH if R.ECDH[x][0] == "ss"])

        def sending():
            r = sender(rng, c, alg, build(rng, R.public(o)), a)
            return send(r)
        mon.rejects("agreement (alg %d) between %s and %s, sending" % (alg, c, q), sending)
        mon.saw("agreements across curves refused", c, q, "send")
        preset = rng.choice([x for x in R.ECDH if R.ECDH[x][0] == "es"])

        def ephemeral():
            r = sender(rng, c, preset, build(rng, R.public(o)))
            r.uhdr = {K.headers.EphemeralKey: R.public(a)}
            r.key = build(rng, a)
            return send(r)
        mon.rejects("agreement (alg %d) between %s and %s, preset ephemeral key" % (preset, c, q), ephemeral)
        mon.saw("agreements across curves refused", c, q, "ephemeral")
        direct = rng.choice([x for x in R.ECDH if R.ECDH[x][2] is None])
        lab = -1 if R.ECDH[direct][0] == "es" else -2

        def receive(pub):
            r = K.CoseMessage.decode(R.tagged("Enc", [C.enc({1: 1}), {5: bytes(12)}, b"0" * 20, [[C.enc({1: direct}), {lab: pub}, b""]]])).recipients[0]
            r.key = build(rng, a)
            return r.compute_cek(K.ALG[1], "decrypt")
        mon.rejects("agreement (alg %d) between %s and %s, receiving" % (direct, c, q), receive, R.public(o))
        mon.saw("agreements across curves refused", c, q, "receive")
        mon.must("agreement on one curve", receive, R.public(P.ec_different(c, rng, a)))
        # a point moved to another curve by an edit
        k = build(rng, R.public(a))
        k.crv = K.spelled(rng, K.CRV, q)
        if not R.on_curve(q, num(a[-2]), num(a[-3])):
            agreement(mon, rng, q, k, (a[-2], a[-3]), "a point of curve %d" % c)
            mon.saw("agreements across curves refused", c, q, "moved")
            if q in SIGN and c in SIGN:
                mon.never_true("signature under a key moved to another curve", verify, signed(rng, SIGN[c], a), k)
                mon.never_true("signature under a key moved to another curve", verify, signed(rng, SIGN[q], o), k)


def _main():
    todo = json.loads(sys.stdin.read())
    mon = core.Mon(PROP)
    out = {"violation": None, "case": None, "n": 0, "optimize": sys.flags.optimize}
    for case in todo:
        try:
            run(case, mon)
            out["n"] += 1
        except core.Violation as v:
            out["violation"], out["case"] = str(v), case
            break
        except Exception as e:
            import traceback
            out["violation"], out["case"] = "unexpected %r %s" % (e, traceback.format_exc()[-500:]), case
            break
    out["counters"] = dict(mon.counters)
    print(json.dumps(out))


if __name__ == "__main__":
    sys.path.insert(0, core.REPO)
    _main()
