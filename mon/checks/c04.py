"""C04 no altered MACed message verifies: the unaltered message is observed to verify, each alteration must not."""
import random

from .. import cborref as C, coseref as R, gen as G, kit as K, rcpt as P
from .c02 import empty_map

PROP = "C04"
RULE = ("a case takes one valid message (made by pycose or by the reference) and alters authenticated data; non-trivial: the "
        "unaltered message was observed to verify and at least one alteration was judged")
REQUIRED = {"originals verified": 100, "altered: payload": 100, "altered: phdr": 100, "altered: aad": 100, "altered: tag": 300,
            "altered: tag byte": 300, "altered: tag length": 300, "altered: key": 100, "altered: alg": 100, "altered: kind": 100,
            "altered: transplant": 100, "restored and verified": 100, "altered: with key from recipient": 500, "altered: long": 200, "altered: zeros trimmed": 20}
ASSUMPTIONS = ["HMAC keys that are zero-padded to the same block are the same HMAC key and are not counted as an alteration; "
               "AES-CBC-MAC zero-pads its input, and the structure's own length encoding makes that unambiguous"]


def cases(tier, rng):
    for alg in R.MAC:
        yield {"do": "tags", "alg": alg, "s": rng.getrandbits(48)}
    for rep in range({"quick": 2, "thorough": 25}[tier]):
        for alg in R.MAC:
            for kind in ("Mac0", "Mac"):
                yield {"do": "long", "alg": alg, "kind": kind, "s": rng.getrandbits(48)}
    for rep in range({"quick": 500, "thorough": 6000}[tier]):
        for alg in R.MAC:
            yield {"do": "mix", "alg": alg, "kind": ["Mac0", "Mac"][rep % 2], "place": rng.choice("ppu"), "s": rng.getrandbits(48)}
    for rep in range({"quick": 16, "thorough": 300}[tier]):
        for ralg in P.WRAP + P.DIRECT_KA:
            yield {"do": "recipients", "ralg": ralg, "alg": rng.choice(P.MACS), "s": rng.getrandbits(48)}


class Msg:
    def __init__(self, rng, kind, alg, place="p", long=None):
        self.kind, self.alg = kind, alg
        self.key = G.mac_key(alg, rng)
        self.p, self.u = G.buckets(rng, alg, place, rng.choice([0, 1, 2]))
        self.payload, self.aad = G.payload(rng, 0.01), G.aad(rng)
        self.params = {a: b for a, b in {2: G.kid(rng), 3: alg, 4: [9, 10]}.items() if rng.random() < 0.5}
        if long == "payload":
            self.payload = rng.randbytes(rng.choice(G.LONG))
        elif long == "aad":
            self.aad = rng.randbytes(rng.choice(G.LONG))
        elif long == "phdr":
            self.p[-70125] = rng.randbytes(rng.choice(G.LONG[:2]))
        self.pb = R.hdr_bytes(self.p)
        self.rec = [[b"", {1: -6, 4: b"our-secret"}, b""]] if kind == "Mac" else []
        if rng.random() < 0.5:
            self.tag = R.mac(alg, self.key[-1], self.tbm())
        else:
            kw = {"recipients": [K.DirectEncryption(uhdr={1: -6, 4: b"our-secret"})]} if kind == "Mac" else {}
            m = K.MSG[kind](phdr=K.spell(rng, self.p), uhdr=K.spell(rng, self.u), payload=self.payload, external_aad=self.aad,
                            key=K.key(rng, self.key), **kw)
            arr = C.dec(m.encode()).value
            self.pb, self.tag = arr[0], arr[3]

    def tbm(self, kind=None):
        return R.tbm(kind or self.kind, self.pb, self.aad, self.payload)

    def wire(self, **alt):
        g = lambda n: alt[n] if n in alt else getattr(self, n)
        arr = [g("pb"), g("u"), g("payload"), g("tag")]
        if g("kind") == "Mac":
            arr.append([[b"", {1: -6, 4: b"our-secret"}, b""]])
        return R.tagged(g("kind"), arr)

    def cose_key(self, rng, k):
        """A key with the same parameters (key id and so on) whatever its value."""
        return K.key(rng, {1: 4, -1: k}, None, {a: b for a, b in self.params.items() if a != 3} if rng.random() < 0.2 else self.params)

    def verify(self, rng, data, aad=None, key=None):
        d = K.CoseMessage.decode(data)
        d.external_aad = self.aad if aad is None else aad
        d.key = key if key is not None else self.cose_key(rng, self.key[-1])
        return d.verify_tag()


def original(mon, rng, m):
    r = mon.must("verification of the unaltered message", m.verify, rng, m.wire())
    mon.check(r is True, "unaltered message does not verify", m.kind, m.alg, r)
    mon.saw("originals verified", m.kind, m.alg)


def refuse(mon, rng, m, what, data, **kw):
    mon.never_true("%s (%s, alg %d)" % (what, m.kind, m.alg), m.verify, rng, data, **kw)
    mon.saw("altered: " + what.split("/")[0], m.kind, m.alg, what)


def run(case, mon):
    rng = random.Random(case["s"])
    if case["do"] == "recipients":
        return recipients(mon, rng, case)
    if case["do"] == "tags":
        for at in (0, -1):
            m = Msg(rng, rng.choice(["Mac0", "Mac"]), case["alg"])
            for _ in range(1500):
                if m.tag[at] == 0:
                    break
                m.payload = rng.randbytes(9)
                m.tag = R.mac(m.alg, m.key[-1], m.tbm())
            original(mon, rng, m)
            for t in G.trimmed(m.tag):
                refuse(mon, rng, m, "zeros trimmed", m.wire(tag=t))
        for kind in ("Mac0", "Mac"):
            m = Msg(rng, kind, case["alg"])
            original(mon, rng, m)
            for i in range(len(m.tag)):
                for mask in (1, 0x80, 0xff, rng.randrange(1, 256)):
                    t = bytearray(m.tag)
                    t[i] ^= mask
                    refuse(mon, rng, m, "tag byte/%d" % i, m.wire(tag=bytes(t)))
                refuse(mon, rng, m, "tag length/first %d" % i, m.wire(tag=m.tag[:i]))
                refuse(mon, rng, m, "tag length/last %d" % i, m.wire(tag=m.tag[len(m.tag) - i:]))
            full = R.mac({4: 5, 14: 25, 15: 26}.get(m.alg, m.alg), m.key[-1], m.tbm())
            for n in range(1, 40):
                if len(full) > len(m.tag) and n <= len(full) - len(m.tag):
                    refuse(mon, rng, m, "tag length/untruncated", m.wire(tag=full[:len(m.tag) + n]))
                refuse(mon, rng, m, "tag length/extended", m.wire(tag=m.tag + rng.choice([bytes(n), rng.randbytes(n)])))
            for t in (None, [], "", m.tag.hex(), 0, True, False, [m.tag], {}, m.tag.decode("latin-1")):
                refuse(mon, rng, m, "tag/other type", m.wire(tag=t))
            if len(full) > len(m.tag):
                refuse(mon, rng, m, "tag/wrong end", m.wire(tag=full[-len(m.tag):]))
        return
    if case["do"] == "long":
        for what in ("payload", "aad", "phdr"):
            m = Msg(rng, case["kind"], case["alg"], "p", what)
            original(mon, rng, m)
            if what == "phdr":
                for v in G.tails(rng, m.p[-70125]):
                    refuse(mon, rng, m, "long/phdr", m.wire(pb=C.enc({**m.p, -70125: v})))
            for v in G.tails(rng, getattr(m, "payload" if what == "payload" else what)) if what != "phdr" else ():
                refuse(mon, rng, m, "long/" + what, m.wire(**({"payload": v} if what == "payload" else {})), **({"aad": v} if what == "aad" else {}))
            original(mon, rng, m)
        return
    m = Msg(rng, case["kind"], case["alg"], case["place"])
    original(mon, rng, m)
    mix(mon, rng, m)
    original(mon, rng, m)
    objects(mon, rng, m)


def mix(mon, rng, m):
    for _ in range(3):
        refuse(mon, rng, m, "payload", m.wire(payload=G.variant(rng, m.payload)))
    refuse(mon, rng, m, "payload/zero appended", m.wire(payload=m.payload + b"\0"))
    refuse(mon, rng, m, "payload/absent", m.wire(payload=None))
    for _ in range(2):
        v = G.variant(rng, m.pb)
        if m.p or not empty_map(v):
            refuse(mon, rng, m, "phdr/bits", m.wire(pb=v))
    refuse(mon, rng, m, "phdr/added", m.wire(pb=C.enc({**m.p, -70123: 1})))
    v = C.enc_var(m.p, rng, 0.8)
    if m.p and v != m.pb:
        refuse(mon, rng, m, "phdr/same items, other bytes", m.wire(pb=v))
    for _ in range(2):
        refuse(mon, rng, m, "aad", m.wire(), aad=G.variant(rng, m.aad))
    if m.aad:
        refuse(mon, rng, m, "aad/omitted", m.wire(), aad=b"")
        n = rng.randrange(len(m.aad))
        refuse(mon, rng, m, "aad/moved to payload", m.wire(payload=m.aad[n:] + m.payload), aad=m.aad[:n])
    if m.payload:
        n = rng.randrange(1, len(m.payload) + 1)
        refuse(mon, rng, m, "aad/moved from payload", m.wire(payload=m.payload[n:]), aad=m.aad + m.payload[:n])
    if m.aad != m.payload:
        refuse(mon, rng, m, "aad/swapped", m.wire(payload=m.aad), aad=m.payload)
    for _ in range(4):
        refuse(mon, rng, m, "tag", m.wire(tag=G.variant(rng, m.tag)))
    refuse(mon, rng, m, "tag/empty", m.wire(tag=b""))
    refuse(mon, rng, m, "tag/zero", m.wire(tag=bytes(len(m.tag)))) if any(m.tag) else None
    k = m.key[-1]
    for _ in range(3):
        k2 = bytearray(k)
        k2[rng.randrange(len(k))] ^= rng.randrange(1, 256)
        refuse(mon, rng, m, "key", m.wire(), key=m.cose_key(rng, bytes(k2)))
    for n in (16, 24, 32):
        k2 = k[:n] if n <= len(k) else k + rng.randbytes(n - len(k))
        if k2.rstrip(b"\0") != k.rstrip(b"\0"):
            refuse(mon, rng, m, "key/length", m.wire(), key=m.cose_key(rng, k2))
    o = G.mac_key(m.alg, rng)[-1]
    if o.rstrip(b"\0") != k.rstrip(b"\0"):
        refuse(mon, rng, m, "key/other", m.wire(), key=m.cose_key(rng, o))
    for alg in [a for a in R.MAC if a != m.alg]:
        if 1 in m.u:
            refuse(mon, rng, m, "alg/unprotected", m.wire(u={**m.u, 1: alg}))
        else:
            refuse(mon, rng, m, "alg/protected", m.wire(pb=C.enc({**m.p, 1: alg})))
    if 1 in m.p:
        refuse(mon, rng, m, "alg/both", m.wire(u={**m.u, 1: m.alg}))
    other = "Mac" if m.kind == "Mac0" else "Mac0"
    refuse(mon, rng, m, "kind/other", m.wire(kind=other))
    refuse(mon, rng, m, "kind/other context", m.wire(tag=R.mac(m.alg, k, m.tbm(other))))
    for data in (C.enc(["mac", m.pb, m.aad, m.payload]), C.enc([R.CONTEXT[m.kind], m.pb, m.payload]), m.payload,
                 C.enc([R.CONTEXT[m.kind], m.aad, m.pb, m.payload]), C.enc([R.CONTEXT[m.kind], m.pb, m.payload, m.aad]),
                 C.enc([R.CONTEXT[m.kind], b"", m.aad, m.payload]), C.enc([R.CONTEXT[m.kind], m.pb, b"", m.payload])):
        t = R.mac(m.alg, k, data)
        if t != m.tag:
            refuse(mon, rng, m, "kind/other structure", m.wire(tag=t))
    o = Msg(rng, m.kind, m.alg, "p")
    if o.tbm() != m.tbm():
        refuse(mon, rng, m, "transplant/same key", m.wire(tag=R.mac(m.alg, k, o.tbm())))
        refuse(mon, rng, m, "transplant/other key", m.wire(tag=o.tag))


def objects(mon, rng, m):
    d = K.CoseMessage.decode(m.wire())
    key = K.key(rng, m.key)
    d.external_aad, d.key = m.aad, key

    def good():
        mon.check(mon.must("verify", d.verify_tag) is True, "restored message does not verify", m.kind, m.alg)
        mon.saw("restored and verified", m.kind, m.alg)

    def bad(what):
        mon.never_true("object altered: %s (%s, alg %d)" % (what, m.kind, m.alg), d.verify_tag)
        mon.saw("altered: object", m.kind, m.alg, what)

    good()
    steps = ["payload", "aad", "tag", "key", "reencode"]
    rng.shuffle(steps)
    for st in steps:
        if st == "payload":
            d.payload = G.variant(rng, m.payload)
            bad(st)
            d.payload = None
            bad("payload removed")
            d.payload = m.payload
        elif st == "aad":
            d.external_aad = G.variant(rng, m.aad)
            bad(st)
            d.external_aad = m.aad
        elif st == "tag":
            d.auth_tag = G.variant(rng, m.tag)
            bad(st)
            d.auth_tag = b""
            bad("tag emptied")
            d.auth_tag = m.tag
        elif st == "key":
            d.key = m.cose_key(rng, bytes(x ^ 0x5a for x in m.key[-1]))
            bad(st)
            d.key = key
        else:
            d.encode()
        good()
    if rng.random() < 0.5:
        d.phdr_update({-70124: b"new"})
    else:
        d.phdr = K.spell(rng, {**m.p, -70124: b"new"})
    bad("protected header changed")


def recipients(mon, rng, case):
    """The key comes from a recipient; the recipient is left alone and the message around it altered."""
    alg, ralg = case["alg"], case["ralg"]
    specs = [P.spec(rng, ralg)]
    if ralg in P.WRAP:
        for _ in range(rng.choice([0, 0, 1, 2])):
            specs.append(P.spec(rng, rng.choice(P.WRAP), others=[s["key"] for s in specs]))
        rng.shuffle(specs)
    aad, pl = G.aad(rng), G.payload(rng, 0.003)
    p, u = G.buckets(rng, alg, rng.choice("ppu"), rng.choice([0, 1, 2]))
    if rng.random() < 0.4:
        pb = R.hdr_bytes(p)
        cek = None if ralg in P.DIRECT_KA else rng.randbytes(R.key_bytes(alg))
        wires = []
        for s in specs:
            w, cek = P.ref_build(rng, s, alg, cek)
            wires.append(w)
        arr = [pb, u, pl, R.mac(alg, cek, R.tbm("Mac", pb, aad, pl)), wires]
    else:
        m = K.MacMessage(phdr=K.spell(rng, p), uhdr=K.spell(rng, u), payload=pl, external_aad=aad, recipients=[P.build(mon, rng, s) for s in specs])
        arr = C.dec(mon.must("encode", m.encode)).value
        cek = P.ref_open(specs[0], arr[4][0], alg)
    i = rng.randrange(len(specs))

    def attempt(arr, aad=aad, change=None):
        d = K.CoseMessage.decode(R.tagged("Mac", arr))
        d.external_aad = aad
        r = d.recipients[i]
        P.open_side(mon, rng, specs[i], r)
        d.key = r.compute_cek(K.ALG[alg], "decrypt") if type(r) is K.DirectKeyAgreement else K.SymmetricKey(k=r.decrypt(K.ALG[alg]))
        if change:
            change(d)
        return d.verify_tag()

    def good():
        mon.check(mon.must("verification of the unaltered message (recipient alg %d)" % specs[i]["alg"], attempt, arr) is True,
                  "unaltered message does not verify (recipient alg %d)" % specs[i]["alg"])
        mon.saw("originals verified", "recipient", specs[i]["alg"])

    def bad(what, *a, **kw):
        mon.never_true("%s (recipient alg %d, alg %d)" % (what, specs[i]["alg"], alg), attempt, *a, **kw)
        mon.saw("altered: with key from recipient", what, specs[i]["alg"], alg)

    good()
    pb, u, _, tag, ws = arr
    tagged = lambda *a: [pb, u, pl, R.mac(alg, cek, C.enc(list(a))), ws]
    for _ in range(2):
        bad("payload", [pb, u, G.variant(rng, pl), tag, ws])
        bad("tag", [pb, u, pl, G.variant(rng, tag), ws])
        bad("external data", arr, G.variant(rng, aad))
        v = G.variant(rng, pb)
        if p or not empty_map(v):
            bad("protected header", [v, u, pl, tag, ws])
    if aad:
        bad("external data omitted", arr, b"")
        bad("tag without external data", tagged("MAC", pb, b"", pl))
    else:
        bad("tag with external data", tagged("MAC", pb, b"x", pl))
    if pb:
        bad("tag without protected header", tagged("MAC", b"", aad, pl))
    if pl:
        bad("tag without payload", tagged("MAC", pb, aad, b""))
    bad("context of another kind", tagged("MAC0", pb, aad, pl))
    bad("context of a recipient", tagged("Mac_Recipient", pb, aad, pl))
    bad("protected header of the recipient", tagged("MAC", (ws[i][0] if ws[i][0] != pb else b"") or b"\xa0", aad, pl))
    bad("protected header added to", [C.enc({**p, -70130: 0}), u, pl, tag, ws])
    if p:
        k = rng.choice(list(p))
        bad("parameter moved out of the protected header", [R.hdr_bytes({a: b for a, b in p.items() if a != k}), {**u, k: p[k]}, pl, tag, ws])
    bad("payload replaced", arr, change=lambda d: setattr(d, "payload", G.variant(rng, pl)))
    bad("protected header updated", arr, change=lambda d: d.phdr_update({-70131: b"new"}))
    good()
