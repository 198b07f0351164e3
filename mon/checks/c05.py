"""C05 encrypted messages: encode, transport, decode, decrypt; monitors content, ciphertext length and confidentiality of the wire."""
import random

from .. import cborref as C, coseref as R, gen as G, kit as K
from .c03 import check_direct, direct_recipients, make_direct

PROP = "C05"
RULE = ("a case draws key, nonce source, headers, plaintext, external data and a re-encode history for one AEAD algorithm and kind; "
        "non-trivial: at least one ciphertext was produced by the real code and decrypted after decoding")
REQUIRED = {"algorithms written as text": 30, "enc0 decrypted": 150, "enc decrypted": 80, "re-encoded without encryption": 80, "ciphertext lengths compared": 200,
            "wire searched for plaintext": 100, "empty plaintext": 8, "direct recipients": 80, "nonce: iv protected": 30,
            "nonce: iv unprotected": 30, "nonce: partial": 30, "headers changed before encoding": 20, "algorithm unprotected": 20,
            "re-encrypted": 20, **{"edited and encoded again: " + w: 20 for w in ("payload", "phdr", "uhdr", "aad", "key", "nonce", "alg")}}


def cases(tier, rng):
    for alg in R.AEAD:
        for size in G.SIZES:
            yield {"kind": "Enc0", "alg": alg, "size": size, "s": rng.getrandbits(48)}
    for rep in range({"quick": 700, "thorough": 8000}[tier]):
        for alg in R.AEAD:
            for kind in ("Enc0", "Enc"):
                yield {"kind": kind, "alg": alg, "s": rng.getrandbits(48)}


def enc_params(rng, alg, enc):
    p = {}
    if rng.random() < 0.3:
        p[3] = alg
    if rng.random() < 0.3:
        p[4] = [3, 4] if rng.random() < 0.5 else ([3] if enc else [4])
    if rng.random() < 0.2:
        p[2] = G.kid(rng)
    return p


def nonce_source(rng, alg):
    """(protected labels, unprotected labels, key parameters, nonce)"""
    n = G.nonce(alg, rng)
    r = rng.random()
    if r < 0.4:
        return {5: n}, {}, {}, n, "iv protected"
    if r < 0.8:
        return {}, {5: n}, ({5: rng.randbytes(len(n))} if rng.random() < 0.2 else {}), n, "iv unprotected"
    part = rng.randbytes(rng.choice([0, 1, 2, 3, len(n)]))
    if rng.random() < 0.3:
        part = b"\0" + part[1:]
    base = bytes(a ^ b for a, b in zip(n, bytes(len(n) - len(part)) + part))
    return ({6: part}, {}, {5: base}, n, "partial") if rng.random() < 0.5 else ({}, {6: part}, {5: base}, n, "partial")


def run(case, mon):
    rng = random.Random(case["s"])
    kind, alg = case["kind"], case["alg"]
    km = G.aead_key(alg, rng)
    ep, eu, kp, nonce, src = nonce_source(rng, alg)
    mon.saw("nonce: " + src)
    p, u = G.buckets(rng, alg, extra_p=ep, extra_u=eu)
    pl = G.blob(rng, case["size"]) if "size" in case else G.payload(rng)
    if R.AEAD[alg][3] == 13 and len(pl) > 65535:
        pl = pl[:65535]                    # a 2-byte length field
    aad = G.aad(rng)
    key = mon.must("key", K.key, rng, km, None, {**enc_params(rng, alg, True), **kp})
    rec = direct_recipients(rng) if kind == "Enc" else None
    kw = {"recipients": make_direct(mon, rng, rec)} if rec and rng.random() < 0.6 else {}
    if rng.random() < 0.6:
        msg = mon.must("constructor", K.MSG[kind], phdr=K.spell(rng, p), uhdr=K.spell(rng, u), payload=pl, external_aad=aad, key=key, **kw)
    else:
        a0 = rng.choice(list(R.AEAD))
        p0, u0 = G.buckets(rng, a0, extra_u={5: rng.randbytes(R.AEAD[a0][3])})
        msg = mon.must("constructor", K.MSG[kind], phdr=K.spell(rng, p0), uhdr=K.spell(rng, u0), payload=b"other", **kw)
        if rng.random() < 0.5 and (kw or not rec):
            msg.key = K.key(rng, G.aead_key(a0, rng))
            mon.must("encode", msg.encode)
        mon.must("header assignment", K.build_headers, mon, rng, msg, p, u)
        msg.payload, msg.external_aad, msg.key = pl, aad, key
        mon.saw("headers changed before encoding")
    if rec and not kw:
        msg.recipients = make_direct(mon, rng, rec)
    K.text_algs(mon, rng, msg, *(msg.recipients if rec else []))
    data = K.encode(mon, kind, msg, rng)
    if rng.random() < 0.2:
        c1 = C.dec(data).value[2]
        data = K.encode(mon, kind, msg, rng)
        mon.check(C.dec(data).value[2] == c1, "encoding twice with the same nonce gives different ciphertexts")
    mon.check(msg.payload == pl and msg.external_aad == aad, "encode changed payload or external data")
    dkey = mon.must("key", K.key, rng, km, None, {**enc_params(rng, alg, False), **kp})
    ct0 = None
    for hop in range(rng.choice([1, 2, 3])):
        arr = C.dec(data)
        mon.check(arr.tag == R.MSG_TAG[kind] and len(arr.value) == (4 if rec else 3), "shape of the encoded message", arr.tag, len(arr.value))
        ct = arr.value[2]
        mon.check(type(ct) is bytes and len(ct) == len(pl) + R.AEAD[alg][2], "ciphertext length", len(ct), len(pl))
        mon.saw("ciphertext lengths compared", alg, len(pl))
        if len(pl) >= 8:
            mon.check(pl not in ct and (len(pl) < 32 or pl[:16] not in ct) or not any(pl), "the ciphertext contains the plaintext")
            mon.saw("wire searched for plaintext")
        ct0 = ct0 or ct
        mon.check(ct == ct0, "re-encoding without encryption changed the ciphertext")
        d = K.decode(mon, kind, data, rng.random() < 0.5)
        mon.eq(d.payload, ct, "ciphertext after transport")
        K.headers_match(mon, d, p, u, "after transport")
        if rec:
            check_direct(mon, d, rec)
        d.external_aad, d.key = aad, dkey
        for _ in range(rng.choice([1, 2])):
            args = (rng.choice(d.recipients),) if rec else ()
            r = mon.must("decrypt", d.decrypt, *args)
            mon.check(type(r) is bytes and r == pl, "decryption does not return the plaintext", case, r, pl)
            mon.check(d.payload == ct, "decrypt changed the message")
            mon.saw("enc0 decrypted" if kind == "Enc0" else "enc decrypted", alg, len(pl), src, hop, 1 in u, len(p), len(u))
        if rng.random() < 0.3:
            # the receiver encrypts the plaintext again: same nonce and headers, same ciphertext
            d.payload = r
            d.key = K.key(rng, km, None, {**enc_params(rng, alg, True), **kp})
            again = C.dec(K.encode(mon, kind, d, rng)).value[2]
            mon.check(again == ct, "encrypting the decrypted message again gives another ciphertext")
            d.payload = ct
            mon.saw("re-encrypted")
        new = G.header(rng, used=set(p) | {1, 5, 6})
        u = {**u, **new}
        d.uhdr_update(K.spell(rng, new))
        data = K.encode(mon, kind, d, rng, encrypt=False)
        mon.saw("re-encoded without encryption")
    for _ in range(rng.choice([0, 0, 1, 3])):
        edited(mon, rng, kind, msg)
    if not pl:
        mon.saw("empty plaintext")
    if 1 in u:
        mon.saw("algorithm unprotected")


def edited(mon, rng, kind, msg):
    """One or several parts of an encoded message change: the next encoding carries the ciphertext of what it contains."""
    p, u = K.norm(msg.phdr), K.norm(msg.uhdr)
    alg = p.get(1, u.get(1))
    what = rng.sample(["payload", "phdr", "uhdr", "aad", "key", "nonce", "alg"], rng.choice([1, 1, 1, 2, 3]))
    for w in what:
        p, u = K.norm(msg.phdr), K.norm(msg.uhdr)
        if w == "payload":
            msg.payload = G.variant(rng, msg.payload)[:65535]
        elif w == "aad":
            msg.external_aad = G.variant(rng, msg.external_aad)
        elif w == "key":
            kp = {k: v for k, v in K.norm(msg.key).items() if k == 5}
            msg.key = K.key(rng, G.aead_key(alg, rng), None, {**enc_params(rng, alg, True), **kp})
        elif w == "nonce":
            n = rng.randbytes(R.AEAD[alg][3])
            if 6 in p or 6 in u:
                n = rng.randbytes(len(K.norm(msg.key)[5]))
                msg.key = K.key(rng, {**{k: v for k, v in K.norm(msg.key).items() if k in (1, -1)}, 5: n})
                if rng.random() < 0.5:
                    (msg.phdr_update if 6 in p else msg.uhdr_update)(K.spell(rng, {6: rng.randbytes(rng.choice([1, 2, 5]))}))
            else:
                (msg.phdr_update if 5 in p else msg.uhdr_update)(K.spell(rng, {5: n}))
        elif w == "alg":
            alg = rng.choice([a for a in R.AEAD if a != alg and R.AEAD[a][3] == R.AEAD[alg][3] and R.AEAD[a][1] == R.AEAD[alg][1]] or [alg])
            msg.key = K.key(rng, {k: v for k, v in K.norm(msg.key).items() if k in (1, 5, -1)})
            (msg.phdr_update if 1 in p else msg.uhdr_update)(K.spell(rng, {1: alg}))
            msg.payload = msg.payload[:65535]
        else:
            new = G.header(rng, rng.choice([1, 1, 2]), used=set(u if w == "phdr" else p) | {1, 5, 6})
            if rng.random() < 0.5:
                getattr(msg, w + "_update")(K.spell(rng, new))
            else:
                setattr(msg, w, K.spell(rng, {**{k: v for k, v in (p if w == "phdr" else u).items() if k in (1, 5, 6)}, **new}))
    p, u = K.norm(msg.phdr), K.norm(msg.uhdr)
    arr = C.dec(K.encode(mon, kind, msg, rng)).value
    mon.check(C.same(K.wired(C.dec(arr[0])) if arr[0] else {}, p) and C.same(K.wired(arr[1]), u), "headers of an edited message", what)
    km = K.norm(msg.key)
    both = {**u, **p}
    nonce = both[5] if 5 in both else bytes(a ^ b for a, b in zip(km[5], bytes(len(km[5]) - len(both[6])) + both[6]))
    mon.check(arr[2] == R.seal(alg, km[-1], nonce, R.enc_aad(kind, arr[0], msg.external_aad), msg.payload),
              "ciphertext of an edited message (%s)" % ", ".join(what), alg)
    d = K.decode(mon, kind, R.tagged(kind, arr))
    d.external_aad, d.key = msg.external_aad, K.key(rng, {k: v for k, v in km.items() if k in (1, 5, -1)})
    r = mon.must("decrypt", d.decrypt, *d.recipients[:1]) if kind == "Enc" else mon.must("decrypt", d.decrypt)
    mon.check(r == msg.payload, "an edited message does not decrypt (%s)" % ", ".join(what), alg)
    for w in what:
        mon.saw("edited and encoded again: " + w, alg, kind)
