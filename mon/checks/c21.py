"""C21 the nonce: every ciphertext made is compared byte for byte with the one the reference makes with the nonce the headers and the
key call for, and messages the reference made with that nonce, and with near misses of it, are decrypted."""
import random

from .. import cborref as C, coseref as R, gen as G, kit as K, rcpt
from ..core import short

H = K.headers
PROP = "C21"
RULE = ("a case is one key and algorithm with nonces from several sources, or a missing, doubled or overlong source; non-trivial: a ciphertext "
        "was compared with the reference, a near-miss nonce was refused, or an incomplete source raised")
REQUIRED = {"ciphertext equals reference": 2500, "plaintext recovered": 1500, "from IV": 500, "from partial IV": 1000, "near miss refused": 4000,
            "incomplete source refused": 1500, "overlong partial IV refused": 400, "result with leading zeros": 250, "IV in both buckets refused": 150,
            "generated key without IV refused": 60, "IV wins over partial IV": 200, "nonce follows edits": 200, "two-byte partial IVs": 100}


def cases(tier, rng):
    n = {"quick": 90, "thorough": 1800}[tier]
    for rep in range(n):
        for alg in R.AEAD:
            for kind in ("Enc0", "Enc"):
                yield {"do": "sources", "alg": alg, "kind": kind, "s": rng.getrandbits(48)}
        yield {"do": "generated", "alg": rng.choice(list(R.AEAD)), "s": rng.getrandbits(48)}
        yield {"do": "generated", "alg": rng.choice(list(R.AEAD)), "s": rng.getrandbits(48)}


def run(case, mon):
    {"sources": sources, "generated": generated}[case["do"]](case, mon, random.Random(case["s"]))


def xor(base, partial):
    pad = bytes(len(base) - len(partial)) + partial
    return bytes(a ^ b for a, b in zip(base, pad))


def message(rng, kind, alg, p, u, payload, aad, key):
    kw = dict(phdr=K.spell(rng, p), uhdr=K.spell(rng, u), payload=payload, external_aad=aad)
    m = K.MSG[kind](**kw)
    if kind == "Enc":
        m.recipients = [K.DirectEncryption(uhdr={H.Algorithm: K.ALG[-6]})]
    m.key = key
    return m


def wire(kind, pb, u, ct):
    return R.tagged(kind, [pb, u, ct] + ([[[b"", {1: -6}, b""]]] if kind == "Enc" else []))


def decrypt(m):
    return m.decrypt(m.recipients[0]) if isinstance(m, K.EncMessage) else m.decrypt()


def near(rng, nonce, base, partial, iv):
    """Nonces a wrong computation might arrive at."""
    n = len(nonce)
    out = {bytes(n), rng.randbytes(n), nonce.lstrip(b"\0"), nonce[::-1], nonce[:-1] + bytes([nonce[-1] ^ 1]) if n else b"", bytes([nonce[0] ^ 128]) + nonce[1:] if n else b"",
           nonce[1:] + b"\0", b"\0" + nonce[:-1], nonce.rstrip(b"\0").rjust(n, b"\0"), nonce.lstrip(b"\0").ljust(n, b"\0")}
    if base is not None:
        out |= {base}
        if partial is not None and len(partial) <= len(base):
            out |= {bytes(a ^ b for a, b in zip(base, partial + bytes(len(base) - len(partial)))), bytes(len(base) - len(partial)) + partial,
                    partial + base[len(partial):], base[:len(base) - len(partial)] + partial, xor(base, partial.lstrip(b"\0")),
                    xor(base[::-1], partial), xor(base, partial[::-1]),
                    bytes(a | b for a, b in zip(base, partial.rjust(len(base), b"\0"))),
                    ((int.from_bytes(base, "big") + int.from_bytes(partial, "big")) % 256 ** len(base)).to_bytes(len(base), "big")}
    if partial is not None:
        out |= {partial, partial.rjust(n, b"\0")}
    if iv is not None and base is not None and partial is not None and len(partial) <= len(base):
        out |= {xor(base, partial)}
    out.discard(nonce)
    return sorted(out)


def usable(alg, nonce):
    return 8 <= len(nonce) <= 128 if R.AEAD[alg][0] == "gcm" else 7 <= len(nonce) <= 13


def seal(alg, k, nonce, aad, pt):
    return R.seal(alg, k, nonce, aad, pt)


def fit(alg, nonce, pt):
    return len(pt) < 256 ** (15 - len(nonce)) if R.AEAD[alg][0] == "ccm" else True


def value(rng, n):
    r = rng.random()
    if r < 0.1:
        return bytes(n)
    if r < 0.2:
        return b"\xff" * n
    if r < 0.4:
        return bytes(min(n, rng.choice([1, 2, n]))) + rng.randbytes(max(0, n - 2))[:max(0, n - min(n, 2))]
    return rng.randbytes(n)


def sized(rng, n):
    return value(rng, n)[:n].rjust(n, b"\0")


def sources(case, mon, rng):
    alg, kind = case["alg"], case["kind"]
    mode, klen, tl, nlen = R.AEAD[alg]
    lens = [nlen, nlen, rng.choice([7, 8, 9, 10, 11, 12, 13] if mode == "ccm" else [8, 9, 12, 13, 16, 20, 32])]
    for rep in range(5):
        n = rng.choice(lens)
        base = sized(rng, n)
        plen = rng.choice([0, 1, 1, 2, 2, 3, n - 1, n, n, rng.randrange(n + 1)])
        partial = sized(rng, plen)
        if rng.random() < 0.25:
            # the leading bytes cancel out
            j = rng.randrange(1, n + 1)
            partial = base[:j] + rng.randbytes(n - j)
        if rng.random() < 0.1:
            partial = base
        iv = G.nonce(alg, rng) if rng.random() < 0.7 else sized(rng, nlen)
        which = rng.choice(["iv", "iv+base", "iv+partial", "iv+both", "partial", "partial", "partial", "partial"])
        hdr, extra = {}, {}
        if which.startswith("iv"):
            hdr[5] = iv
            nonce = iv
        if which in ("partial", "iv+partial", "iv+both"):
            hdr[6] = partial
        if which in ("partial", "iv+base", "iv+both"):
            extra[5] = base
        if which == "partial":
            nonce = xor(base, partial)
        used_base = base if 5 in extra else None
        used_partial = partial if 6 in hdr else None
        p, u = {}, {}
        for k, v in hdr.items():
            (p if rng.random() < 0.5 else u)[k] = v
        p, u = G.buckets(rng, alg, n=rng.choice([0, 0, 1]), extra_p=p, extra_u=u)
        k = sized(rng, klen)
        km = {1: 4, -1: k, **extra}
        payload, aad = G.blob(rng, rng.choice([0, 1, 15, 16, 17, 100])), G.aad(rng)
        key = key_with(rng, km)
        m = mon.must("building", message, rng, kind, alg, p, u, payload, aad, key)
        what = "%s %d nonce from %s" % (kind, alg, which)
        if not usable(alg, nonce):
            mon.rejects(what + " of unusable length %d" % len(nonce), m.encode)
            continue
        got = C.dec(mon.must(what, m.encode)).value
        want = seal(alg, k, nonce, R.enc_aad(kind, R.auth_phdr(got[0]), aad), payload)
        mon.check(got[2] == want, what + ": ciphertext is not the one made with this nonce", nonce, base, partial, identify(alg, k, got, kind, aad, payload, rng, nonce, base, partial, iv))
        mon.saw("ciphertext equals reference", alg, which, len(nonce), len(partial))
        mon.saw("from IV" if which[:2] == "iv" else "from partial IV", alg)
        if which in ("iv+partial", "iv+both"):
            mon.saw("IV wins over partial IV", alg, which)
        if nonce[:1] == b"\0" and which == "partial":
            mon.saw("result with leading zeros", alg)
        if len(partial) == 2 and which == "partial":
            mon.saw("two-byte partial IVs", alg)
        # the other direction, and near misses
        pb = C.enc(p) if p else b""
        ea = R.enc_aad(kind, R.auth_phdr(pb), aad)
        r = mon.must(what + ": decode", K.CoseMessage.decode, wire(kind, pb, u, seal(alg, k, nonce, ea, payload)))
        r.key, r.external_aad = key_with(rng, km), aad
        mon.eq(mon.must(what + ": decrypt", decrypt, r), payload, what + ": plaintext")
        mon.saw("plaintext recovered", alg, which)
        for bad in near(rng, nonce, used_base, used_partial, iv if 5 in hdr else None):
            if not usable(alg, bad) or not fit(alg, bad, payload):
                continue
            r = K.CoseMessage.decode(wire(kind, pb, u, seal(alg, k, bad, ea, payload)))
            r.key, r.external_aad = key_with(rng, km), aad
            mon.rejects(what + ": message made with nonce %s instead of %s" % (bad.hex(), nonce.hex()), decrypt, r)
            mon.saw("near miss refused", alg, which)
        # edits take effect: another IV, another partial IV, another base IV
        if rng.random() < 0.5:
            m = message(rng, kind, alg, p, u, payload, aad, key_with(rng, km))
            mon.must(what, m.encode)
            bucket = rng.choice(["phdr", "uhdr"])
            new = sized(rng, nlen)
            if which[:2] == "iv":
                where = "phdr" if 5 in p else "uhdr"
                getattr(m, where + "_update")({H.IV: new})
                expect = new
            elif rng.random() < 0.5:
                where = "phdr" if 6 in p else "uhdr"
                np = sized(rng, rng.randrange(n + 1))
                getattr(m, where + "_update")({H.PartialIV: np})
                expect = xor(base, np)
            else:
                m.key.base_iv = new
                expect = xor(new, partial) if len(partial) <= len(new) else None
            if expect is None or not usable(alg, expect):
                mon.rejects(what + " after edit", m.encode)
            else:
                got = C.dec(mon.must(what + " after edit", m.encode)).value
                mon.check(got[2] == seal(alg, k, expect, R.enc_aad(kind, R.auth_phdr(got[0]), aad), payload), what + ": nonce does not follow the edit", expect)
                mon.saw("nonce follows edits", alg)
    refused(mon, rng, kind, alg, klen, nlen)


def identify(alg, k, got, kind, aad, payload, rng, nonce, base, partial, iv):
    """Which wrong nonce was used, for the report."""
    for bad in near(rng, nonce, base, partial, iv):
        try:
            if seal(alg, k, bad, R.enc_aad(kind, R.auth_phdr(got[0]), aad), payload) == got[2]:
                return "used " + bad.hex()
        except Exception:
            pass
    return "unknown nonce"


def key_with(rng, km):
    """The key, its base IV given at construction or set afterwards."""
    if 5 in km and rng.random() < 0.3:
        k = K.key(rng, {a: v for a, v in km.items() if a != 5})
        if rng.random() < 0.5:
            k.base_iv = km[5]
        else:
            k[rng.choice([5, K.KP[5], "base_iv", "BASE_IV"])] = km[5]
        return k
    return K.key(rng, km)


def refused(mon, rng, kind, alg, klen, nlen):
    """Sources that do not make a nonce: both directions raise."""
    base, iv = sized(rng, nlen), sized(rng, nlen)
    partial = sized(rng, rng.choice([0, 1, 2, 3, nlen]))
    over = rng.choice([b"\0" + base, bytes(nlen + 1), rng.randbytes(nlen + 1), b"\0\0" + rng.randbytes(nlen), bytes(nlen) + b"\1", rng.randbytes(nlen * 2)])
    for what, hdr, extra in (("no source", {}, {}), ("base IV only", {}, {5: base}), ("partial IV only", {6: partial}, {}), ("partial IV of full length only", {6: iv}, {}),
                             ("empty base IV", {6: partial}, {5: b""}), ("empty base and partial IV", {6: b""}, {5: b""}),
                             ("overlong partial IV", {6: over}, {5: base}), ("empty IV", {5: b""}, {}), ("empty IV and base IV", {5: b""}, {5: base}),
                             ("empty IV, partial and base IV", {5: b"", 6: partial}, {5: base}),
                             ("overlong for a short base IV", {6: b"\0" * (nlen - 1) + b"\1"}, {5: base[:nlen - 1]})):
        p, u = {}, {}
        for k, v in hdr.items():
            (p if rng.random() < 0.5 else u)[k] = v
        p, u = G.buckets(rng, alg, n=0, extra_p=p, extra_u=u)
        km = {1: 4, -1: rng.randbytes(klen), **extra}
        attempt(mon, rng, kind, alg, p, u, km, "%s %d with %s" % (kind, alg, what), [iv, base, partial, bytes(nlen), over[-nlen:], xor(base, over[-nlen:]), xor(base, partial)])
        mon.saw("overlong partial IV refused" if "overlong" in what else "incomplete source refused", alg, what)
    for lab, extra in ((5, {}), (5, {5: base}), (6, {5: base})):
        a = sized(rng, nlen)
        b = a if rng.random() < 0.4 else sized(rng, rng.choice([nlen, 0, 1]))
        p, u = G.buckets(rng, alg, n=0, extra_p={lab: a}, extra_u={lab: b})
        attempt(mon, rng, kind, alg, p, u, {1: 4, -1: rng.randbytes(klen), **extra}, "%s %d with label %d in both buckets" % (kind, alg, lab), [a, b, base, xor(base, a), iv])
        mon.saw("IV in both buckets refused", alg, lab)


def attempt(mon, rng, kind, alg, p, u, km, what, guesses):
    payload = rng.randbytes(8)
    m = message(rng, kind, alg, p, u, payload, b"", K.key(rng, km))
    mon.rejects(what + ": encode", m.encode)
    if kind == "Enc0":
        mon.rejects(what + ": encrypt", m.encrypt)
    pb = C.enc(p) if p else b""
    for g in guesses:
        if usable(alg, g):
            r = K.CoseMessage.decode(wire(kind, pb, u, seal(alg, km[-1], g, R.enc_aad(kind, R.auth_phdr(pb), b""), payload)))
            r.key = K.key(rng, km)
            mon.rejects(what + ": decrypt", decrypt, r)


def generated(case, mon, rng):
    """Content keys that are generated or agreed upon have no base IV."""
    alg = case["alg"]
    mode, klen, tl, nlen = R.AEAD[alg]
    for ralg in rng.sample(rcpt.WRAP, 2) + rng.sample(rcpt.DIRECT_KA, 1):
        spec = rcpt.spec(rng, ralg)
        iv = sized(rng, nlen)
        payload = rng.randbytes(20)
        for hdr, ok in (({5: iv}, True), ({6: iv[:3]}, False), ({}, False), ({5: iv, 6: iv[:2]}, True)):
            p, u = G.buckets(rng, alg, n=0, extra_u=hdr)
            m = K.EncMessage(phdr=K.spell(rng, p), uhdr=K.spell(rng, u), payload=payload)
            s2 = {**spec, "key": dict(spec["key"])}
            r = rcpt.build(mon, rng, s2)
            m.recipients = [r]
            # a base IV of the key given to the message or to the recipient is none of the content key
            decoy = {1: 4, -1: rng.randbytes(klen), 5: sized(rng, nlen)}
            m.key = K.key(rng, decoy)
            if r.key is not None and rng.random() < 0.5:
                r.key.base_iv = sized(rng, nlen)
            what = "Enc %d for recipient %d with %s" % (alg, ralg, sorted(hdr))
            if not ok:
                mon.rejects(what, m.encode)
                mon.saw("generated key without IV refused", ralg)
                continue
            w = C.dec(mon.must(what, m.encode)).value
            cek = rcpt.ref_open(s2, w[3][0], alg)
            mon.check(cek is not None and w[2] == seal(alg, cek, iv, R.enc_aad("Enc", R.auth_phdr(w[0]), b""), payload), what + ": nonce is not the IV", iv)
            mon.saw("ciphertext equals reference", alg, ralg)
