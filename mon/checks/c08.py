"""C08 recipients: after every encoding each recipient's key, and no other, opens the message; the reference recovers the keys too."""
import random

from .. import cborref as C, coseref as R, gen as G, kit as K, rcpt as P

PROP = "C08"
RULE = ("a case is one message with a drawn recipient list and an edit history, or one message made by the reference; non-trivial: every "
        "recipient opened it and the recovered keys were compared")
REQUIRED = {"algorithms written as text": 30, "opened by recipient": 500, "refused before it opened": 200, "refused and put right": 100, "refused and put right: ephemeral key": 25, "recipients sharing algorithm and key id": 40, "key recovered by the reference": 400, "mac opened by recipient": 100, "encoded repeatedly": 40,
            "recipient added": 40, "recipients replaced": 20, "preset key": 12, "recipient edited: key": 20, "recipient edited: headers": 15, "recipient edited: local": 10, "fresh keys": 100, "fresh ephemeral keys": 100,
            "refused: wrong key": 200, "refused: other recipient": 60, "refused: foreign recipient": 60, "refused: altered wrapped key": 150,
            "refused: altered ephemeral": 60, "refused after it opened": 200, "direct key agreement": 60, "reference message opened": 100, "different preset keys refused": 8}
BUDGET = {"quick": 240, "thorough": 3000}


def cases(tier, rng):
    for rep in range({"quick": 8, "thorough": 220}[tier]):
        for alg in P.WRAP:                      # every wrapping algorithm alone, with every kind
            for kind in ("Enc", "Mac"):
                for do in ("make", "ref"):
                    yield {"do": do, "kind": kind, "algs": [alg], "s": rng.getrandbits(48)}
        for alg in P.DIRECT_KA:
            for crv in P.CURVES:
                for do in ("make", "ref"):
                    yield {"do": do, "kind": rng.choice(["Enc", "Mac"]), "algs": [alg], "crv": crv, "s": rng.getrandbits(48)}
        for _ in range(24):
            n = rng.choice([2, 2, 3, 4, 6])
            yield {"do": rng.choice(["make", "make", "ref"]), "kind": rng.choice(["Enc", "Enc", "Mac"]),
                   "algs": [rng.choice(P.WRAP) for _ in range(n)], "s": rng.getrandbits(48)}
        for alg in P.WRAP:
            yield {"do": rng.choice(["make", "make", "ref"]), "kind": rng.choice(["Enc", "Mac"]), "kid": rng.randbytes(rng.choice([0, 1, 4])).hex(),
                   "algs": [alg] * rng.choice([2, 2, 3]), "s": rng.getrandbits(48)}
        for alg in R.OAEP:
            yield {"do": "short", "kind": "Enc", "algs": [alg], "s": rng.getrandbits(48)}
    yield {"do": "make", "kind": "Enc", "algs": [-3] * 24 + [-29], "s": rng.getrandbits(48)}


class Run:
    def __init__(self, case, mon):
        self.case, self.mon = case, mon
        self.rng = rng = random.Random(case["s"])
        self.kind = case["kind"]
        self.alg = rng.choice(list(R.AEAD) if self.kind == "Enc" else P.MACS)
        self.nonce = rng.randbytes(R.AEAD[self.alg][3]) if self.kind == "Enc" else None
        self.p, self.u = G.buckets(rng, self.alg, None, rng.choice([0, 1, 3]), None, {5: self.nonce} if self.nonce else None)
        self.pl, self.aad = G.plain(self.alg, rng, 0.003), G.aad(rng)
        self.specs = []
        for a in case["algs"]:
            self.add(a)

    def add(self, a):
        s = P.spec(self.rng, a, self.case.get("crv"), True, [o["key"] for o in self.specs])
        if "kid" in self.case:          # recipients that only their keys tell apart
            for h in (s["p"], s["u"]):
                if self.rng.random() < 0.7:
                    h.pop(3, None), h.pop(10, None), h.pop(35, None)
                h.pop(4, None)
            s["u"][4] = bytes.fromhex(self.case["kid"])
            if any(o["alg"] == a for o in self.specs):
                self.mon.saw("recipients sharing algorithm and key id", a)
        self.specs.append(s)
        return s

    def edit(self, i, r):
        """Changes one thing about recipient i and its specification."""
        rng, s = self.rng, dict(self.specs[i])
        what = rng.choice(["key", "key", "headers", "local"] if s["key"][1] == 2 else ["key", "key", "headers"])
        others = [o["key"] for o in self.specs]
        used = set(s["p"]) | set(s["u"]) | {-1, -2}
        if what == "key":
            if s["key"][1] == 4:
                while s["key"] in others:
                    s["key"] = G.sym_key(R.KW[s["alg"]], rng)
                r.key = K.key(rng, s["key"], None, P.opts(rng, s["alg"], [3, 5]))
            elif s["key"][1] == 3:
                left = [k for b in sorted(G.RSA) if b >= 1536 for k in G.RSA[b] if all(o.get(-1) != k[-1] for o in others)]
                s["key"] = dict(rng.choice(left))
                r.key = K.key(rng, R.public(s["key"]), None, P.opts(rng, s["alg"], [3, 5]))
            else:
                s["key"] = P.ec_different(s["key"][-1], rng, *others, *[o["sender"] for o in self.specs if "sender" in o])
                r.local_attrs = {**r.local_attrs, K.headers.StaticKey: K.key(rng, R.public(s["key"]), None, P.opts(rng, s["alg"], [7, 8]))}
        elif what == "headers":
            which = rng.choice(["p", "u"]) if s["key"][1] == 2 else "u"
            new = G.header(rng, rng.choice([1, 2]), reg=[4, 10, 35, -3] if s["key"][1] != 2 else [4, 10, 35, -3, -21, -22, -24, -25], used=used)
            s[which] = {**s[which], **new}
            (r.phdr_update if which == "p" else r.uhdr_update)(K.spell(rng, new))
        else:
            loc = rng.choice(["pub", "priv"])
            s["local"] = {**s["local"], loc: rng.randbytes(rng.choice([1, 8, 30]))}
            r.local_attrs = {**r.local_attrs, **P._local(s)}
        self.specs[i] = s
        return what

    def judge(self, arr, cek):
        """The reference opens the content with the content key."""
        if self.kind == "Enc":
            return R.open_(self.alg, cek, self.nonce, R.enc_aad("Enc", arr[0], self.aad), arr[2]) == self.pl
        return arr[2] == self.pl and R.mac(self.alg, cek, R.tbm("Mac", arr[0], self.aad, self.pl)) == arr[3]

    def observe(self, data, expect=None):
        """Every recipient opens the message, with pycose and with the reference."""
        mon, rng = self.mon, self.rng
        top = C.dec(data)
        mon.check(top.tag == R.MSG_TAG[self.kind] and len(top.value) == {"Enc": 4, "Mac": 5}[self.kind], "shape", top)
        arr, wires = top.value, top.value[-1]
        mon.check(len(wires) == len(self.specs), "number of recipients on the wire", len(wires), len(self.specs))
        ceks = []
        for i, (s, w) in enumerate(zip(self.specs, wires)):
            P.check_wire(mon, s, w, "recipient %d" % i)
            cek = mon.must("recovery by the reference (recipient %d, alg %d)" % (i, s["alg"]), P.ref_open, s, w, self.alg)
            mon.check(cek is not None and len(cek) == R.key_bytes(self.alg), "content key recovered by recipient %d (alg %d)" % (i, s["alg"]), cek)
            ceks.append(cek)
            mon.saw("key recovered by the reference", s["alg"], self.alg)
        mon.check(len(set(ceks)) == 1, "recipients recover different content keys", [s["alg"] for s in self.specs], ceks)
        mon.check(expect is None or ceks[0] == expect, "content key is not the preset / previous one", ceks[0], expect)
        mon.check(self.judge(arr, ceks[0]), "the content does not open with the recovered key", self.kind, self.alg)
        for i in self.rng.sample(range(len(self.specs)), min(len(self.specs), 8)):
            self.opens(data, i)
        return ceks[0], wires

    def decoded(self, data):
        d = K.decode(self.mon, self.kind, data, self.rng.random() < 0.5)
        d.external_aad = self.aad
        for s, r in zip(self.specs, d.recipients):
            self.mon.check(type(r) is P.cls_of(s["alg"]), "class of the decoded recipient", type(r), s["alg"])
        return d

    def open(self, d, r):
        """What a receiver does; returns the plaintext or the verdict."""
        if self.kind == "Enc":
            return d.decrypt(r)
        if type(r) is K.DirectKeyAgreement:
            d.key = r.compute_cek(K.ALG[self.alg], "decrypt")
        else:
            d.key = K.SymmetricKey(k=r.decrypt(K.ALG[self.alg]))
        return d.verify_tag()

    def opens(self, data, i):
        mon = self.mon
        d = self.decoded(data)
        K.headers_match(mon, d, self.p, self.u, "message")
        if self.rng.random() < 0.4:         # what failed before does not matter once the right key is there
            r, crv = d.recipients[i], self.specs[i]["key"].get(-1)
            for _ in range(self.rng.choice([1, 2])):
                bad = self.rng.choice([None, G.sym_key(16, self.rng) if self.specs[i]["key"][1] != 4 else None, P.ec_different(crv if crv in P.CURVES else 1, self.rng, self.specs[i]["key"]), {**self.specs[i]["key"], 4: [1]},
                                       {**self.specs[i]["key"], 3: -7}])
                def wrong():
                    r.key = None if bad is None else K.key(self.rng, bad)
                    return self.open(d, r)
                (mon.rejects if self.kind == "Enc" else mon.never_true)("opening with %s" % ("no key" if bad is None else "another key"), wrong)
            mon.saw("refused before it opened", self.specs[i]["alg"])
        P.open_side(mon, self.rng, self.specs[i], d.recipients[i])
        for _ in range(self.rng.choice([1, 2])):
            r = mon.must("opening with recipient %d (alg %d)" % (i, self.specs[i]["alg"]), self.open, d, d.recipients[i])
            good = (type(r) is bytes and r == self.pl) if self.kind == "Enc" else r is True
            mon.check(good, "recipient %d (alg %d) does not open the message" % (i, self.specs[i]["alg"]), self.case, r)
            mon.saw("opened by recipient" if self.kind == "Enc" else "mac opened by recipient", self.specs[i]["alg"], self.alg, i, len(self.specs))
        return d

    def refuse(self, what, d, r, setup=None):
        """Opening must raise or, for a tag, give False."""
        if self.rng.random() < 0.5:     # the others' keys are no help
            for o, s in zip(d.recipients, self.specs):
                if o is not r:
                    P.open_side(self.mon, self.rng, s, o)
            self.mon.saw("refused although the other recipients have their keys", len(self.specs))

        def attempt():
            if setup:
                setup()
            return self.open(d, r)
        if self.kind == "Enc":
            self.mon.rejects(what, attempt)
        else:
            self.mon.never_true(what, attempt)
        self.mon.saw("refused: " + what.split(" (")[0], type(r).__name__, self.kind)

    def afterwards(self, data, i):
        """A decoded message that has been opened is refused like any other once its recipient's key, wrapped key or headers change."""
        mon, rng, s = self.mon, self.rng, self.specs[i]
        d = self.decoded(data)
        r = d.recipients[i]

        def good():
            x = mon.must("opening with recipient %d (alg %d)" % (i, s["alg"]), self.open, d, r)
            mon.check((type(x) is bytes and x == self.pl) if self.kind == "Enc" else x is True, "recipient %d (alg %d) does not open the message" % (i, s["alg"]), x)

        def bad(what):
            (mon.rejects if self.kind == "Enc" else mon.never_true)("%s after it opened (alg %d)" % (what, s["alg"]), self.open, d, r)
            mon.saw("refused after it opened", what, s["alg"], self.kind)
        P.open_side(mon, rng, s, r)
        good()
        steps = ["key", "no key"] + (["wrapped key"] if s["alg"] not in P.DIRECT_KA else []) + (["sender", "context"] if s["alg"] in R.ECDH else [])
        for what in rng.sample(steps, min(len(steps), 3)):
            key, w, loc = r.key, r.payload, dict(r.local_attrs)
            if what == "key":
                if s["key"][1] == 4:
                    r.key = K.key(rng, {**s["key"], -1: bytes(x ^ 0x11 for x in s["key"][-1])})
                elif s["key"][1] == 3:
                    r.key = K.key(rng, next(k for k in sum(G.RSA.values(), []) if k[-1] != s["key"][-1]))
                else:
                    r.key = K.key(rng, P.ec_different(s["key"][-1], rng, s["key"]))
            elif what == "no key":
                r.key = None
            elif what == "wrapped key":
                r.payload = G.variant(rng, w)
            elif what == "sender":
                lab = K.HDR[-1 if R.ECDH[s["alg"]][0] == "es" else -2]
                other = R.public(P.ec_different(s["key"][-1], rng, *([s["sender"]] if "sender" in s else [])))
                if K.norm(r.get_attr(lab))[-2] == other[-2]:
                    continue        # the same point, perhaps written in another way
                (r.phdr_update if lab in r.phdr else r.uhdr_update)({lab: other})
            else:
                lab = rng.choice([-20, -21, -22, -24, -25, "pub", "priv"])
                if lab in ("pub", "priv"):
                    r.local_attrs = {**loc, (K.headers.SuppPubOther if lab == "pub" else K.headers.SuppPrivOther): rng.randbytes(9)}
                else:
                    (r.phdr_update if K.HDR[lab] in r.phdr else r.uhdr_update)(K.spell(rng, {lab: rng.randbytes(9)}))
            bad(what)
            r.key, r.payload = key, w
            r.local_attrs.clear()
            r.local_attrs.update(loc)
            if what == "sender" or what == "context" and lab not in ("pub", "priv"):
                return              # a changed protected header cannot be put back as it was
            good()

    def hostile(self, data):
        mon, rng = self.mon, self.rng
        for i in rng.sample(range(len(self.specs)), min(3, len(self.specs))):
            s = self.specs[i]
            alg = s["alg"]
            # keys of the same type that are not this recipient's
            if s["key"][1] == 4:
                k = bytearray(s["key"][-1])
                k[rng.randrange(len(k))] ^= rng.randrange(1, 256)
                bad = [{1: 4, -1: bytes(k)}, G.sym_key(rng.choice([n for n in (16, 24, 32) if n != len(k)]), rng)]
            elif s["key"][1] == 3:
                bad = [next(k for k in sum(G.RSA.values(), []) if k[-1] != s["key"][-1])]
            else:
                crv = s["key"][-1]
                bad = [P.ec_different(crv, rng, s["key"]), G.ec_key(rng.choice([c for c in P.CURVES if c != crv]), rng)]
            for b in bad:
                d = self.decoded(data)
                self.refuse("wrong key (alg %d)" % alg, d, d.recipients[i], lambda: P.open_side(mon, rng, s, d.recipients[i], b))
            d = self.decoded(data)
            d.recipients[i].key = None
            self.refuse("wrong key (none, alg %d)" % alg, d, d.recipients[i])
            for j, o in enumerate(self.specs[:6]):
                if j != i:
                    d = self.decoded(data)
                    self.refuse("other recipient (key of %d for %d)" % (o["alg"], alg), d, d.recipients[i],
                                lambda: P.open_side(mon, rng, s, d.recipients[i], o["key"]))
            if self.kind == "Enc":
                d, d2 = self.decoded(data), self.decoded(data)
                P.open_side(mon, rng, s, d2.recipients[i])
                self.refuse("foreign recipient (alg %d)" % alg, d, d2.recipients[i])
                self.refuse("foreign recipient (none)", d, None)
                for o in rng.sample([[d2.recipients[i]], (d2.recipients[i],), i, str(i), d2.recipients[i].key, d2, P.build(mon, rng, s), b"", object()], 3):
                    self.refuse("foreign recipient (not one at all)", self.decoded(data), o)
            self.afterwards(data, i)
            arr = C.dec(data).value
            w = arr[-1][i]

            def with_wire(new):
                a = list(arr)
                a[-1] = list(arr[-1])
                a[-1][i] = new
                return R.tagged(self.kind, a)

            def altered(what, new):
                def attempt():
                    d = self.decoded(with_wire(new))
                    P.open_side(mon, rng, s, d.recipients[i])
                    return self.open(d, d.recipients[i])
                (mon.rejects if self.kind == "Enc" else mon.never_true)("%s (alg %d)" % (what, alg), attempt)
                mon.saw("refused: " + what, alg, self.kind)

            if alg not in P.DIRECT_KA:
                for _ in range(3):
                    altered("altered wrapped key", [w[0], w[1], G.variant(rng, w[2])])
                altered("altered wrapped key", [w[0], w[1], b""])
                altered("altered wrapped key", [w[0], w[1], w[2][:-8]])
                if len(arr[-1]) > 1:
                    o = arr[-1][(i + 1) % len(arr[-1])]
                    if o[2] != w[2]:
                        altered("altered wrapped key", [w[0], w[1], o[2]])
            if alg in R.ECDH and -1 in w[1]:
                e = w[1][-1]
                crv = e[-1]
                flip = bytearray(e[-2])
                flip[rng.randrange(len(flip))] ^= rng.randrange(1, 256)
                other = P.ec_different(crv, rng, s["key"])
                while other[-2] == e[-2]:
                    other = P.ec_different(crv, rng, s["key"])
                x2, y2 = bytearray(e[-2]), bytearray(e[-3] if type(e[-3]) is bytes else b"\1")
                y2[rng.randrange(len(y2))] ^= rng.randrange(1, 256)
                for new in ({**e, -2: bytes(flip)}, R.public(other), {**e, -2: e[-2][:-1]}, {k: v for k, v in e.items() if k != -2},
                            R.public(G.ec_key(rng.choice([c for c in P.CURVES if c != crv]), rng)), {**e, -2: bytes(len(flip))}):
                    altered("altered ephemeral", [w[0], {**w[1], -1: new}, w[2]])
                if R.DOMAIN[crv][0] - int.from_bytes(e[-3], "big") != int.from_bytes(bytes(y2), "big") if type(e[-3]) is bytes else False:
                    altered("altered ephemeral", [w[0], {**w[1], -1: {**e, -3: bytes(y2)}}, w[2]])
                altered("altered ephemeral", [w[0], {k: v for k, v in w[1].items() if k != -1}, w[2]])


def mishap(t, mon, rng, msg, recs):
    """Something is missing or wrong when the message is encoded; it is refused as often as one tries, and works once that is put right."""
    i = rng.randrange(len(recs))
    r, s = recs[i], t.specs[i]
    key = r.key
    todo = []

    def fault(name, spoil, repair):
        todo.append((name, spoil, repair))

    def putting(o, attr, new):
        old = []
        return lambda: (old.append(getattr(o, attr)), setattr(o, attr, new)), lambda: setattr(o, attr, old[-1])

    def header(o, where, drop=(), add=None):
        """Replaces a header map by one without some labels and with others; puts the map back as it was before."""
        old = []

        def spoil():
            old[:] = [dict(getattr(o, where))]
            setattr(o, where, {**{k: v for k, v in old[0].items() if k not in [K.HDR[x] for x in drop]}, **K.spell(rng, add or {})})
        return spoil, lambda: setattr(o, where, old[0])
    es = s["alg"] in R.ECDH and R.ECDH[s["alg"]][0] == "es"
    if s["alg"] in R.ECDH:
        stat = r.local_attrs[K.headers.StaticKey]
        fault("no receiver key", lambda: r.local_attrs.pop(K.headers.StaticKey), lambda: r.local_attrs.update({K.headers.StaticKey: stat}))
        other = K.key(rng, R.public(G.ec_key(rng.choice([c for c in P.CURVES if c != s["key"][-1]]), rng)))
        if "sender" in s:
            fault("receiver key of another curve", lambda: r.local_attrs.update({K.headers.StaticKey: other}), lambda: r.local_attrs.update({K.headers.StaticKey: stat}))
        if es and s["eph"] is None:
            if key is None:
                e = {-1: R.public(G.ec_key(s["key"][-1], rng))}
                fault("ephemeral key of unknown origin", *header(r, rng.choice(["phdr", "uhdr"]), add=e))
        elif es:
            fault("ephemeral key not in the header", *header(r, "phdr" if -1 in s["p"] else "uhdr", [-1]))
            fault("private ephemeral key missing", *putting(r, "key", None))
        else:
            fault("no sender key", *putting(r, "key", None))
        if "sender" in s:
            for wrong in ({4: [1]}, {3: -7}):
                fault("sender key not for this use", *putting(r, "key", K.key(rng, {**s["sender"], **wrong})))
    else:
        fault("no key", *putting(r, "key", None))
        fault("key of another type", *putting(r, "key", K.key(rng, G.ec_key(1, rng))))
        if s["key"][1] == 4:
            fault("key of another length", *putting(r, "key", K.key(rng, G.sym_key(rng.choice([n for n in (16, 24, 32) if n != len(s["key"][-1])]), rng))))
            fault("key not for this use", *putting(r, "key", K.key(rng, {**s["key"], 4: [4]})))
            fault("protected header in key wrap", *header(r, "phdr", add={4: b"x"}))
    fault("no recipient algorithm", *header(r, "phdr" if 1 in s["p"] else "uhdr", [1]))
    fault("recipient algorithm twice", *header(r, "uhdr" if 1 in s["p"] else "phdr", add={1: s["alg"]}))
    fault("no algorithm", *header(msg, "phdr" if 1 in t.p else "uhdr", [1]))
    fault("algorithm twice", *header(msg, "uhdr" if 1 in t.p else "phdr", add={1: t.alg}))
    if t.kind == "Enc":
        fault("no IV", *header(msg, "phdr" if 5 in t.p else "uhdr", [5]))
        fault("IV twice", *header(msg, "uhdr" if 5 in t.p else "phdr", add={5: b"x"}))
    else:
        fault("no payload", *putting(msg, "payload", None))
    de = K.DirectEncryption(uhdr={1: -6})
    fault("direct encryption among them", lambda: msg.recipients.append(de), lambda: msg.recipients.remove(de))
    dka = P.build(mon, rng, P.spec(rng, rng.choice(P.DIRECT_KA)))
    fault("direct key agreement among them", lambda: msg.recipients.insert(0, dka), lambda: msg.recipients.remove(dka))
    own = [f for f in todo if "ephemeral" in f[0]]
    pick = rng.sample(todo, rng.choice([1, 1, 2]))
    if own and rng.random() < 0.6:
        pick[0] = rng.choice(own)
    for name, spoil, repair in pick:
        if name == "ephemeral key of unknown origin" and r.key is not None:
            continue            # the attempt before has made the ephemeral key already
        spoil()
        mon.rejects("encoding with %s (recipient algorithm %d)" % (name, s["alg"]), msg.encode)
        repair()
        mon.saw("refused and put right", name, s["alg"], t.kind)
        if "ephemeral" in name:
            mon.saw("refused and put right: ephemeral key", name, s["alg"])


def ephemeral(run, wires):
    for s, w in zip(run.specs, wires):
        if s["alg"] in R.ECDH and R.ECDH[s["alg"]][0] == "es" and s["eph"] is None:
            yield w[1][-1][-2].hex()


def run(case, mon):
    t = Run(case, mon)
    rng = t.rng
    if case["do"] == "short":
        return short(t, mon, rng)
    if case["do"] == "ref":
        return reference(t)
    if case["algs"][0] in P.DIRECT_KA:
        mon.saw("direct key agreement")
    preset = None
    if case["algs"][0] not in P.DIRECT_KA and rng.random() < 0.2:
        preset = rng.randbytes(R.key_bytes(t.alg))
        mon.saw("preset key", len(case["algs"]))
    which = set(rng.sample(range(len(t.specs)), rng.randint(1, len(t.specs)))) if preset else ()
    recs = [P.build(mon, rng, s, preset if i in which else None) for i, s in enumerate(t.specs)]
    kw = dict(phdr=K.spell(rng, t.p), uhdr=K.spell(rng, t.u), payload=t.pl, external_aad=t.aad)
    how = rng.randrange(3)
    if how == 0:
        msg = mon.must("constructor", K.MSG[t.kind], recipients=recs, **kw)
    else:
        msg = mon.must("constructor", K.MSG[t.kind], **kw)
        if how == 1:
            msg.recipients = recs
        else:
            for r in recs:
                msg.recipients.append(r)
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 2])):
            mishap(t, mon, rng, msg, recs)
    data = K.encode(mon, t.kind, msg, rng)
    cek, wires = t.observe(data, preset)
    for r, s in zip(recs, t.specs):
        if s["alg"] not in P.DIRECT_KA:
            k = mon.must("asking a recipient for the content key", r.compute_cek, K.ALG[t.alg], "encrypt")
            mon.check(k.k == cek and type(r.payload) is bytes and r.payload == cek, "a recipient of the sender has another content key (alg %d)" % s["alg"], k.k, cek)
            mon.saw("content key of the sender's recipient", s["alg"])
    t.hostile(data)
    fresh = [] if preset else [cek.hex()]
    eph = list(ephemeral(t, wires))
    mon.check(len(eph) == len(set(eph)), "two recipients share an ephemeral key", eph)
    if rng.random() < 0.5:
        data = K.encode(mon, t.kind, msg, rng)
        cek2, w2 = t.observe(data, None if case["algs"][0] in P.DIRECT_KA else cek)
        mon.saw("encoded repeatedly", len(t.specs))
    for _ in range(rng.choice([0, 1, 1, 2])):
        # existing recipients get another key, other headers or other local information
        what = [t.edit(i, recs[i]) for i in rng.sample(range(len(recs)), rng.choice([1, 1, min(2, len(recs))]))]
        if rng.random() < 0.3:
            t.pl = G.plain(t.alg, rng, 0.003)
            msg.payload = kw["payload"] = t.pl
        _, we = t.observe(K.encode(mon, t.kind, msg, rng), None if case["algs"][0] in P.DIRECT_KA else cek)
        eph += [e for e in ephemeral(t, we) if e not in eph]
        for w in what:
            mon.saw("recipient edited: " + w)
    if case["algs"][0] not in P.DIRECT_KA:
        if rng.random() < 0.5:
            s = t.add(rng.choice(P.WRAP))
            r = P.build(mon, rng, s, rng.choice([None, cek]))
            if rng.random() < 0.5:
                msg.recipients.append(r)
            else:
                msg.recipients = msg.recipients + [r]
            _, w3 = t.observe(K.encode(mon, t.kind, msg, rng), cek)
            eph += [e for e in ephemeral(t, w3) if e not in eph]
            mon.saw("recipient added", s["alg"])
        if rng.random() < 0.5:
            t.specs = []
            for _ in range(rng.choice([1, 2, 3])):
                t.add(rng.choice(P.WRAP))
            msg.recipients = [P.build(mon, rng, s) for s in t.specs]
            old = cek
            cek, w4 = t.observe(K.encode(mon, t.kind, msg, rng))
            mon.check(cek != old, "replacing all recipients kept the content key", cek)
            fresh.append(cek.hex())
            eph += list(ephemeral(t, w4))
            mon.saw("recipients replaced")
        if rng.random() < 0.15 or len(t.specs) > 1 and rng.random() < 0.5:
            t.specs = t.specs[:1]
            t.add(rng.choice(P.WRAP))
            n = R.key_bytes(t.alg)
            msg.recipients = [P.build(mon, rng, s, rng.randbytes(n)) for s in t.specs]
            mon.rejects("recipients with different preset keys", msg.encode)
            mon.saw("different preset keys refused")
    else:
        # a second message to the same receiver has other keys
        if rng.random() < 0.7:
            msg = K.MSG[t.kind](recipients=[P.build(mon, rng, t.specs[0])], **kw)
            cek2, w5 = t.observe(K.encode(mon, t.kind, msg, rng))
            e2 = list(ephemeral(t, w5))
            if e2:
                mon.check(cek2 != cek and e2 != eph, "two messages share the ephemeral key", e2)
                eph += e2
            else:
                fresh = []
        if "sender" in t.specs[0]:
            fresh = []
    for f in fresh:
        mon.keep("ceks", f)
        mon.saw("fresh keys")
    for e in eph:
        mon.keep("eph", e)
        mon.saw("fresh ephemeral keys")


def short(t, mon, rng):
    """RSA ciphertexts are as long as the modulus, whatever their leading bytes."""
    s = t.specs[0]
    s["key"] = dict(rng.choice(G.RSA[1536]))
    cek = rng.randbytes(rng.choice([16, 24, 32]))
    r = P.build(mon, rng, s, cek)
    n = len(s["key"][-1])
    for i in range(700):
        w = mon.must("encrypt", r.encrypt, K.ALG[t.alg])
        mon.check(len(w) == n, "length of an RSA ciphertext", len(w), n)
        if w[0] == 0:
            break
    for _ in range(3000):
        v = R.oaep_enc(s["alg"], s["key"], cek)
        if v[0] == 0:
            break
    for c in (w, v):
        mon.check(R.oaep_dec(s["alg"], s["key"], c) == cek, "the reference does not recover a wrapped key", s["alg"])
        wire = [C.enc({1: t.alg}), {5: bytes(12)}, bytes(20), [[b"", s["u"], c]]]
        d = mon.must("decode", K.CoseMessage.decode, R.tagged("Enc", wire)).recipients[0]
        P.open_side(mon, rng, s, d)
        mon.check(mon.must("unwrapping", d.decrypt, K.ALG[t.alg]) == cek, "a wrapped key with a leading zero byte is not recovered", s["alg"])
        if c[0] == 0:
            mon.saw("wrapped keys with a leading zero byte")


def reference(t):
    mon, rng = t.mon, t.rng
    cek = None if t.case["algs"][0] in P.DIRECT_KA else rng.randbytes(R.key_bytes(t.alg))
    wires = []
    var = rng.random() < 0.6
    for s in t.specs:
        w, k = P.ref_build(rng, s, t.alg, cek, var)
        wires.append(w)
        cek = k
    pb = (C.enc_var(t.p, rng) if var else C.enc(t.p)) if t.p else b""
    if t.kind == "Enc":
        arr = [pb, t.u, R.seal(t.alg, cek, t.nonce, R.enc_aad("Enc", pb, t.aad), t.pl), wires]
    else:
        arr = [pb, t.u, t.pl, R.mac(t.alg, cek, R.tbm("Mac", pb, t.aad, t.pl)), wires]
    x = C.Tag(R.MSG_TAG[t.kind], arr)
    data = C.enc_var(x, rng, 0.3) if var else C.enc(x)
    for i in range(len(t.specs)):
        t.opens(data, i)
    mon.saw("reference message opened", t.kind, tuple(t.case["algs"]))
    t.hostile(C.enc(x))


def finish(mon):
    for name in ("ceks", "eph"):
        v = mon.bag.get(name, [])
        mon.check(len(v) == len(set(v)), "%s are repeated between messages" % {"ceks": "content keys", "eph": "ephemeral keys"}[name],
                  [x for x in v if v.count(x) > 1][:3])
