"""C06 no altered encrypted message decrypts: the unaltered message is observed to decrypt, each alteration must raise."""
import random

from .. import cborref as C, coseref as R, gen as G, kit as K, rcpt as P
from .c02 import empty_map

PROP = "C06"
RULE = ("a case takes one valid message (made by pycose or by the reference) and alters authenticated data; non-trivial: the "
        "unaltered message was observed to decrypt and at least one alteration was judged")
REQUIRED = {"originals decrypted": 100, "altered: ciphertext": 300, "altered: byte": 300, "altered: length": 200, "altered: phdr": 100,
            "altered: aad": 100, "altered: nonce": 100, "altered: key": 100, "altered: alg": 100, "altered: kind": 100,
            "altered: transplant": 100, "altered: object": 100, "restored and decrypted": 100, "altered: with key from recipient": 500, "altered: long": 200, "altered: zeros trimmed": 60}


def cases(tier, rng):
    for alg in R.AEAD:
        for n in (0, 1, 16, 40):
            yield {"do": "bytes", "alg": alg, "n": n, "s": rng.getrandbits(48)}
    for rep in range({"quick": 2, "thorough": 25}[tier]):
        for alg in R.AEAD:
            for kind in ("Enc0", "Enc"):
                yield {"do": "long", "alg": alg, "kind": kind, "s": rng.getrandbits(48)}
    for rep in range({"quick": 240, "thorough": 5000}[tier]):
        for alg in R.AEAD:
            yield {"do": "mix", "alg": alg, "kind": ["Enc0", "Enc"][rep % 2], "place": rng.choice("ppu"), "s": rng.getrandbits(48)}
    for rep in range({"quick": 16, "thorough": 300}[tier]):
        for ralg in P.WRAP + P.DIRECT_KA:
            yield {"do": "recipients", "ralg": ralg, "alg": rng.choice(list(R.AEAD)), "s": rng.getrandbits(48)}


def combine(base, part):
    return bytes(x ^ y for x, y in zip(base, bytes(len(base) - len(part)) + part)) if len(part) <= len(base) else None


class Msg:
    def __init__(self, rng, kind, alg, place="p", n=None, long=None):
        self.kind, self.alg = kind, alg
        self.key = G.aead_key(alg, rng)
        self.nonce = rng.randbytes(R.AEAD[alg][3])
        self.iv = rng.choice("puk")
        self.part = rng.randbytes(rng.choice([1, 2, len(self.nonce)]))
        self.base = bytes(a ^ b for a, b in zip(self.nonce, bytes(len(self.nonce) - len(self.part)) + self.part))
        extra = {"p": ({5: self.nonce}, {}), "u": ({}, {5: self.nonce}), "k": ({}, {6: self.part})}[self.iv]
        self.p, self.u = G.buckets(rng, alg, place, rng.choice([0, 1, 2]), *extra)
        self.plain = G.payload(rng, 0.003) if n is None else rng.randbytes(n)
        self.aad = G.aad(rng)
        self.params = {a: b for a, b in {2: G.kid(rng), 3: alg, 4: [3, 4]}.items() if rng.random() < 0.5}
        if long == "payload":
            self.plain = rng.randbytes(rng.choice(G.LONG))
        elif long == "aad":
            self.aad = rng.randbytes(rng.choice(G.LONG))
        elif long == "phdr":
            self.p[-70125] = rng.randbytes(rng.choice(G.LONG[:2]))
        if R.AEAD[alg][3] == 13:
            self.plain = self.plain[:65535]
        self.pb = R.hdr_bytes(self.p)
        if rng.random() < 0.5:
            self.ct = R.seal(alg, self.key[-1], self.nonce, R.enc_aad(kind, self.pb, self.aad), self.plain)
        else:
            kw = {"recipients": [K.DirectEncryption(uhdr={1: -6, 4: b"our-secret"})]} if kind == "Enc" else {}
            m = K.MSG[kind](phdr=K.spell(rng, self.p), uhdr=K.spell(rng, self.u), payload=self.plain, external_aad=self.aad,
                            key=self.cose_key(rng), **kw)
            arr = C.dec(m.encode()).value
            self.pb, self.ct = arr[0], arr[2]

    def cose_key(self, rng, k=None, base=None):
        params = {a: b for a, b in self.params.items() if a != 3} if rng.random() < 0.2 else self.params
        return K.key(rng, {1: 4, -1: k or self.key[-1]}, None, {**params, 5: self.base if base is None else base} if self.iv == "k" else params)

    def wire(self, **alt):
        g = lambda n: alt[n] if n in alt else getattr(self, n)
        arr = [g("pb"), g("u"), g("ct")]
        if g("kind") == "Enc":
            arr.append([[b"", {1: -6, 4: b"our-secret"}, b""]])
        return R.tagged(g("kind"), arr)

    def decrypt(self, rng, data, aad=None, key=None):
        d = K.CoseMessage.decode(data)
        d.external_aad = self.aad if aad is None else aad
        d.key = key if key is not None else self.cose_key(rng)
        return d.decrypt(*d.recipients[:1]) if isinstance(d, K.EncMessage) else d.decrypt()


def original(mon, rng, m):
    r = mon.must("decryption of the unaltered message", m.decrypt, rng, m.wire())
    mon.check(r == m.plain, "unaltered message does not decrypt", m.kind, m.alg, r)
    mon.saw("originals decrypted", m.kind, m.alg)


def refuse(mon, rng, m, what, data, **kw):
    if not kw and data == m.wire():
        return              # a byte that happens to be the same as before
    mon.rejects("%s (%s, alg %d)" % (what, m.kind, m.alg), m.decrypt, rng, data, **kw)
    mon.saw("altered: " + what.split("/")[0], m.kind, m.alg, what)


def run(case, mon):
    rng = random.Random(case["s"])
    if case["do"] == "recipients":
        return recipients(mon, rng, case)
    if case["do"] == "bytes":
        for at in (0, -1, -1 - R.AEAD[case["alg"]][2]):
            m = Msg(rng, rng.choice(["Enc0", "Enc"]), case["alg"], n=case["n"])
            for _ in range(1500):
                if not len(m.ct) >= abs(at) or m.ct[at] == 0:
                    break
                m.plain = rng.randbytes(case["n"])
                m.aad = rng.randbytes(9)
                m.ct = R.seal(m.alg, m.key[-1], m.nonce, R.enc_aad(m.kind, m.pb, m.aad), m.plain)
            original(mon, rng, m)
            for c in G.trimmed(m.ct, len(m.ct) - R.AEAD[m.alg][2]):
                refuse(mon, rng, m, "zeros trimmed", m.wire(ct=c))
        m = Msg(rng, rng.choice(["Enc0", "Enc"]), case["alg"], n=case["n"])
        original(mon, rng, m)
        for i in range(len(m.ct)):
            for mask in (1, 0x80, rng.randrange(1, 256)):
                c = bytearray(m.ct)
                c[i] ^= mask
                refuse(mon, rng, m, "byte/%d" % i, m.wire(ct=bytes(c)))
            refuse(mon, rng, m, "length/first %d" % i, m.wire(ct=m.ct[:i]))
            refuse(mon, rng, m, "length/last %d" % i, m.wire(ct=m.ct[len(m.ct) - i:]))
        for n in (1, 2, 8, 16, 24):
            refuse(mon, rng, m, "length/extended", m.wire(ct=m.ct + rng.choice([bytes(n), rng.randbytes(n)])))
            refuse(mon, rng, m, "length/extended", m.wire(ct=rng.randbytes(n) + m.ct))
        for c in (None, "", [], {}, 0, m.ct.hex(), [m.ct], True, False):
            refuse(mon, rng, m, "ciphertext/other type", m.wire(ct=c))
        return
    if case["do"] == "long":
        for what in ("payload", "aad", "phdr"):
            m = Msg(rng, case["kind"], case["alg"], "p", long=what)
            original(mon, rng, m)
            if what == "phdr":
                for v in G.tails(rng, m.p[-70125]):
                    refuse(mon, rng, m, "long/phdr", m.wire(pb=C.enc({**m.p, -70125: v})))
            for v in G.tails(rng, getattr(m, "ct" if what == "payload" else what)) if what != "phdr" else ():
                refuse(mon, rng, m, "long/" + what, m.wire(**({"ct": v} if what == "payload" else {})), **({"aad": v} if what == "aad" else {}))
            original(mon, rng, m)
        return
    m = Msg(rng, case["kind"], case["alg"], case["place"])
    original(mon, rng, m)
    mix(mon, rng, m)
    original(mon, rng, m)
    objects(mon, rng, m)


def mix(mon, rng, m):
    tl = R.AEAD[m.alg][2]
    for _ in range(4):
        refuse(mon, rng, m, "ciphertext", m.wire(ct=G.variant(rng, m.ct)))
    refuse(mon, rng, m, "ciphertext/empty", m.wire(ct=b""))
    refuse(mon, rng, m, "ciphertext/tag removed", m.wire(ct=m.ct[:-tl]))
    refuse(mon, rng, m, "ciphertext/plaintext", m.wire(ct=m.plain))
    refuse(mon, rng, m, "ciphertext/plaintext with tag", m.wire(ct=m.plain + m.ct[-tl:]))
    for _ in range(2):
        v = G.variant(rng, m.pb)
        if m.p or not empty_map(v):
            refuse(mon, rng, m, "phdr/bits", m.wire(pb=v))
    refuse(mon, rng, m, "phdr/added", m.wire(pb=C.enc({**m.p, -70123: 1})))
    v = C.enc_var(m.p, rng, 0.8)
    if m.p and v != m.pb:
        refuse(mon, rng, m, "phdr/same items, other bytes", m.wire(pb=v))
    if len(m.p) > 1:
        k = rng.choice(list(m.p))
        rest = {a: b for a, b in m.p.items() if a != k}
        refuse(mon, rng, m, "phdr/moved to unprotected", m.wire(pb=R.hdr_bytes(rest), u={**m.u, k: m.p[k]}))
    for _ in range(2):
        refuse(mon, rng, m, "aad", m.wire(), aad=G.variant(rng, m.aad))
    if m.aad:
        refuse(mon, rng, m, "aad/omitted", m.wire(), aad=b"")
    nonces = [G.variant(rng, m.nonce) for _ in range(2)] + [m.nonce[:-1], m.nonce + b"\0", b"\0" + m.nonce, b"", bytes(len(m.nonce))]
    for n in nonces:
        if n == m.nonce:
            continue
        if m.iv == "u":
            refuse(mon, rng, m, "nonce/iv", m.wire(u={**m.u, 5: n}))
        elif m.iv == "p":
            refuse(mon, rng, m, "nonce/iv", m.wire(pb=C.enc({**m.p, 5: n})))
    if m.iv == "k":
        for n in nonces:
            if combine(n, m.part) != m.nonce:
                refuse(mon, rng, m, "nonce/base iv", m.wire(), key=m.cose_key(rng, base=n))
        part = bytes([m.part[0] ^ 1]) + m.part[1:]
        refuse(mon, rng, m, "nonce/partial iv", m.wire(u={**m.u, 6: part}))
        refuse(mon, rng, m, "nonce/partial iv missing", m.wire(u={k: v for k, v in m.u.items() if k != 6}))
        refuse(mon, rng, m, "nonce/iv added", m.wire(u={**m.u, 5: bytes([m.nonce[0] ^ 1]) + m.nonce[1:]}))
        if any(m.part):
            refuse(mon, rng, m, "nonce/partial shifted", m.wire(u={**m.u, 6: m.part + b"\0"}))
    k = m.key[-1]
    for _ in range(2):
        k2 = bytearray(k)
        k2[rng.randrange(len(k))] ^= rng.randrange(1, 256)
        refuse(mon, rng, m, "key", m.wire(), key=m.cose_key(rng, bytes(k2)))
    for n in (16, 24, 32):
        if n != len(k):
            refuse(mon, rng, m, "key/length", m.wire(), key=m.cose_key(rng, (k * 2)[:n]))
    for alg in [a for a in R.AEAD if a != m.alg]:
        if 1 in m.u:
            if R.AEAD[alg][:3] == R.AEAD[m.alg][:3]:
                continue        # CCM variants that differ in the nonce length only: the same AEAD for the nonce at hand
            refuse(mon, rng, m, "alg/unprotected", m.wire(u={**m.u, 1: alg}))
        else:
            refuse(mon, rng, m, "alg/protected", m.wire(pb=C.enc({**m.p, 1: alg})))
    if 1 in m.p:
        refuse(mon, rng, m, "alg/both", m.wire(u={**m.u, 1: m.alg}))
    refuse(mon, rng, m, "kind/other", m.wire(kind="Enc" if m.kind == "Enc0" else "Enc0"))
    e = lambda a: R.seal(m.alg, k, m.nonce, a, m.plain)
    good = R.enc_aad(m.kind, m.pb, m.aad)
    for a in (R.enc_aad("Enc" if m.kind == "Enc0" else "Enc0", m.pb, m.aad), C.enc(["Enc_Recipient", m.pb, m.aad]), b"", m.aad,
              C.enc([R.CONTEXT[m.kind], m.aad, m.pb]), C.enc([R.CONTEXT[m.kind], m.pb]), C.enc([R.CONTEXT[m.kind], m.aad]),
              C.enc([R.CONTEXT[m.kind], m.pb, b""]), C.enc([R.CONTEXT[m.kind], b"", m.aad]), C.enc([R.CONTEXT[m.kind].lower(), m.pb, m.aad])):
        if a != good:
            refuse(mon, rng, m, "kind/other structure", m.wire(ct=e(a)))
    o = Msg(rng, m.kind, m.alg, "p", n=len(m.plain) % 300)
    if (o.pb, o.aad) != (m.pb, m.aad):
        ct = R.seal(m.alg, k, m.nonce, R.enc_aad(o.kind, o.pb, o.aad), o.plain)
        refuse(mon, rng, m, "transplant/same key", m.wire(ct=ct))
        refuse(mon, rng, m, "transplant/other key", m.wire(ct=o.ct))


def objects(mon, rng, m):
    d = K.CoseMessage.decode(m.wire())
    key = m.cose_key(rng)
    d.external_aad, d.key = m.aad, key
    args = tuple(d.recipients[:1]) if m.kind == "Enc" else ()

    def good():
        mon.check(mon.must("decrypt", d.decrypt, *args) == m.plain, "restored message does not decrypt", m.kind, m.alg)
        mon.saw("restored and decrypted", m.kind, m.alg)

    def bad(what):
        mon.rejects("object altered: %s (%s, alg %d)" % (what, m.kind, m.alg), d.decrypt, *args)
        mon.saw("altered: object", m.kind, m.alg, what)

    good()
    steps = ["payload", "aad", "key", "none"]
    rng.shuffle(steps)
    for st in steps:
        if st == "payload":
            d.payload = G.variant(rng, m.ct)
            bad(st)
            d.payload = m.plain
            bad("plaintext as ciphertext")
            d.payload = m.ct
        elif st == "aad":
            d.external_aad = G.variant(rng, m.aad)
            bad(st)
            d.external_aad = m.aad
        elif st == "key":
            d.key = m.cose_key(rng, bytes(x ^ 0x5a for x in m.key[-1]))
            bad(st)
            d.key = key
        else:
            d.key = None
            bad("no key")
            d.key = key
        good()
    if m.iv == "u":
        d.uhdr_update({5: bytes([m.nonce[0] ^ 1]) + m.nonce[1:]})
        bad("iv updated")
        d.uhdr_update({5: m.nonce})
        good()
    if rng.random() < 0.5:
        d.phdr_update({-70124: b"new"})
    else:
        d.phdr = K.spell(rng, {**m.p, -70124: b"new"})
    bad("protected header changed")


def recipients(mon, rng, case):
    """The content key comes from a recipient; the recipient is left alone and the message around it altered."""
    alg, ralg = case["alg"], case["ralg"]
    specs = [P.spec(rng, ralg)]
    if ralg in P.WRAP:
        for _ in range(rng.choice([0, 0, 1, 2])):
            specs.append(P.spec(rng, rng.choice(P.WRAP), others=[s["key"] for s in specs]))
        rng.shuffle(specs)
    nonce, aad, pl = rng.randbytes(R.AEAD[alg][3]), G.aad(rng), G.plain(alg, rng, 0.003)
    place = rng.choice("ppu")
    p, u = G.buckets(rng, alg, place, rng.choice([0, 1, 2]), *rng.choice([({5: nonce}, {}), ({}, {5: nonce})]))
    if rng.random() < 0.5:
        pb = R.hdr_bytes(p)
        cek = None if ralg in P.DIRECT_KA else rng.randbytes(R.key_bytes(alg))
        wires = []
        for s in specs:
            w, cek = P.ref_build(rng, s, alg, cek)
            wires.append(w)
        arr = [pb, u, R.seal(alg, cek, nonce, R.enc_aad("Enc", pb, aad), pl), wires]
    else:
        m = K.EncMessage(phdr=K.spell(rng, p), uhdr=K.spell(rng, u), payload=pl, external_aad=aad, recipients=[P.build(mon, rng, s) for s in specs])
        arr = C.dec(mon.must("encode", m.encode)).value
        cek = P.ref_open(specs[0], arr[3][0], alg)
    i = rng.randrange(len(specs))

    def attempt(arr, aad=aad, change=None):
        d = K.CoseMessage.decode(R.tagged("Enc", arr))
        d.external_aad = aad
        P.open_side(mon, rng, specs[i], d.recipients[i])
        if change:
            change(d)
        return d.decrypt(d.recipients[i])

    def good():
        mon.check(mon.must("decryption of the unaltered message (recipient alg %d)" % specs[i]["alg"], attempt, arr) == pl,
                  "unaltered message does not decrypt (recipient alg %d)" % specs[i]["alg"])
        mon.saw("originals decrypted", "recipient", specs[i]["alg"])

    def bad(what, *a, **kw):
        mon.rejects("%s (recipient alg %d, alg %d)" % (what, specs[i]["alg"], alg), attempt, *a, **kw)
        mon.saw("altered: with key from recipient", what, specs[i]["alg"], alg)

    good()
    pb, u, ct, ws = arr
    for _ in range(2):
        bad("ciphertext", [pb, u, G.variant(rng, ct), ws])
        bad("external data", arr, G.variant(rng, aad))
        v = G.variant(rng, pb)
        if p or not empty_map(v):
            bad("protected header", [v, u, ct, ws])
    if aad:
        bad("external data omitted", arr, b"")
        bad("sealed without external data", [pb, u, R.seal(alg, cek, nonce, R.enc_aad("Enc", pb, b""), pl), ws])
    else:
        bad("sealed with external data", [pb, u, R.seal(alg, cek, nonce, R.enc_aad("Enc", pb, b"x"), pl), ws])
    bad("protected header added to", [C.enc({**p, -70130: 0}), u, ct, ws])
    if p:
        k = rng.choice(list(p))
        bad("parameter moved out of the protected header", [R.hdr_bytes({a: b for a, b in p.items() if a != k}), {**u, k: p[k]}, ct, ws])
    n2 = bytes([nonce[0] ^ 1]) + nonce[1:]
    bad("nonce", [R.hdr_bytes({**p, 5: n2}) if 5 in p else pb, {**u, 5: n2} if 5 in u else u, ct, ws])
    bad("context of another kind", [pb, u, R.seal(alg, cek, nonce, R.enc_aad("Enc0", pb, aad), pl), ws])
    bad("context of a recipient", [pb, u, R.seal(alg, cek, nonce, C.enc(["Enc_Recipient", pb, aad]), pl), ws])
    bad("protected header of the recipient", [pb, u, R.seal(alg, cek, nonce, R.enc_aad("Enc", ws[i][0] or b"\xa0", aad), pl), ws])
    bad("payload replaced", arr, change=lambda d: setattr(d, "payload", G.variant(rng, ct)))
    bad("protected header updated", arr, change=lambda d: d.phdr_update({-70131: b"new"}))
    good()
