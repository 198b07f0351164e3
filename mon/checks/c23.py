"""C23 rules of the recipient classes: a conforming structure is accepted with the right classes, then one rule is broken at one place
(any depth) and every entry point of decoding, building, encrypting and decrypting has to refuse it."""
import random

from .. import cborref as C, coseref as R, gen as G, kit as K, rcpt as P

PROP = "C23"
RULE = ("a case is one conforming recipient structure (drawn classes, depth, side by side) with all rule violations that apply to it; "
        "non-trivial: the conforming one was accepted with the right classes and at least one violation was refused")
WRAPPING = P.WRAP
DKA = P.DIRECT_KA
DIRECT = [-6, -10, -13]
ALL = DIRECT + DKA + WRAPPING
FOREIGN = [a for a in (1, 3, 10, 24, -7, -8, -37, -257, 5, 4, 15, -16, -44) if a in K.ALG]          # algorithms that are no recipient algorithms
RULES = ("ciphertext in direct encryption", "nested in direct encryption", "protected header in direct encryption", "mixed with direct encryption",
         "not alone: direct key agreement", "nested in direct key agreement", "no ephemeral key", "protected header in key wrap",
         "no wrapped key", "no algorithm", "no recipient algorithm")
REQUIRED = {"conforming decoded": 700, "conforming built": 300, "classes compared": 2500, "nested classes compared": 400,
            **{"decoding refused: " + r: 60 for r in RULES},
            **{"building refused: " + r: 20 for r in RULES if r not in ("ciphertext in direct encryption", "no wrapped key")},
            "nested violation refused": 500, "use refused: mixed": 100, "no ciphertext emitted": 40, "building nested refused": 60,
            "opened next to violations": 60}


def cases(tier, rng):
    for rep in range({"quick": 240, "thorough": 3000}[tier]):
        for alg in ALL:
            yield {"do": "wire", "alg": alg, "depth": rng.choice([0, 0, 1, 1, 2]), "kind": rng.choice(["Enc", "Mac"]), "s": rng.getrandbits(48)}
            if rep % 2 == 0:
                yield {"do": "build", "alg": alg, "kind": rng.choice(["Enc", "Mac"]), "s": rng.getrandbits(48)}
            if rep % 3 == 0:
                yield {"do": "use", "alg": alg, "kind": "Enc", "s": rng.getrandbits(48)}


def run(case, mon):
    {"wire": wire, "build": build, "use": use}[case["do"]](case, mon, random.Random(case["s"]))


def cls_of(alg):
    return K.DirectEncryption if alg in DIRECT else P.cls_of(alg)


# ---------------------------------------------------------------------------------------------------------- wire form
class Row:
    """A recipient on the wire, before serialisation."""

    def __init__(self, rng, alg):
        self.alg = alg
        extra = G.header(rng, rng.choice([0, 0, 1, 3]), reg=[3, 4, 10, 35, -3])
        self.p, self.u, self.nested = {}, {}, []
        if alg == -6 or alg in R.KW or alg in R.OAEP:
            self.u = {1: alg, **extra}
        else:
            (self.p if rng.random() < 0.7 else self.u)[1] = alg
            for k, v in extra.items():
                (self.p if rng.random() < 0.4 else self.u)[k] = v
        if alg in R.ECDH:
            for lab in (-20, -21, -22, -24):
                if rng.random() < 0.2:
                    (self.p if rng.random() < 0.5 else self.u)[lab] = rng.randbytes(8)
            lab = -1 if R.ECDH[alg][0] == "es" else -2
            if lab == -1 or rng.random() < 0.7:
                (self.p if rng.random() < 0.3 else self.u)[lab] = R.public(G.ec_key(rng.choice(P.CURVES), rng))
        self.u = G.shuffled(rng, self.u)
        self.ct = b"" if alg in DIRECT or alg in DKA else rng.randbytes(rng.choice([24, 32, 40]) if alg not in R.OAEP else 128)

    def copy(self):
        r = Row.__new__(Row)
        r.alg, r.p, r.u, r.ct, r.nested = self.alg, dict(self.p), dict(self.u), self.ct, [x.copy() for x in self.nested]
        return r

    def wire(self, rng):
        w = [C.enc_var(self.p, rng, 0.3) if self.p else b"", self.u, self.ct]
        if self.nested:
            w.append([x.wire(rng) for x in self.nested])
        return w


def peers(rng, alg, limit=3):
    """Recipients that may stand next to one with this algorithm."""
    if alg in DKA:
        return []
    pool = DIRECT if alg in DIRECT else WRAPPING
    return [Row(rng, rng.choice(pool)) for _ in range(G.layers(rng, range(limit)))]


def conforming(rng, alg, depth):
    """(rows, path): recipients of a message; path leads to the list and index of the recipient under observation."""
    rows = [Row(rng, alg)] + peers(rng, alg)
    rng.shuffle(rows)
    path = [next(i for i, r in enumerate(rows) if r.alg == alg)]
    for _ in range(depth):
        outer = Row(rng, rng.choice(list(R.KW) + [a for a in WRAPPING if a in R.ECDH]))
        outer.nested = rows
        rows = [outer] + [Row(rng, rng.choice(WRAPPING)) for _ in range(rng.randrange(2))]
        rng.shuffle(rows)
        path = [next(i for i, r in enumerate(rows) if r is outer)] + path
    return rows, path


def at(rows, path):
    for i in path[:-1]:
        rows = rows[i].nested
    return rows, rows[path[-1]]


def message(rng, kind, rows):
    p, u = G.buckets(rng, 1 if kind == "Enc" else 5, n=rng.choice([0, 1, 2]))
    if kind == "Enc":
        u[5] = rng.randbytes(12)
    arr = [C.enc(p) if p else b"", u, b"some ciphertext or payload"]
    if kind == "Mac":
        arr.append(rng.randbytes(32))
    arr.append([r.wire(rng) for r in rows])
    x = C.Tag(R.MSG_TAG[kind], arr)
    return C.enc(x) if rng.random() < 0.5 else C.enc_var(x, rng, 0.2)


def compare(mon, rows, objs, depth=0):
    mon.check(len(rows) == len(objs), "number of recipients", len(objs), len(rows))
    for r, o in zip(rows, objs):
        mon.check(type(o) is cls_of(r.alg), "class of the decoded recipient", type(o).__name__, r.alg)
        K.headers_match(mon, o, r.p, r.u, "recipient")
        mon.check(o.payload == r.ct, "third element of the recipient", o.payload, r.ct)
        mon.saw("nested classes compared" if depth else "classes compared", r.alg, depth)
        compare(mon, r.nested, o.recipients, depth + 1)


def violations(rng, row, siblings):
    """(rule, change(list, index, row)) for every rule that applies to this recipient."""
    out = []

    def v(rule, change):
        assert rule in RULES, rule
        out.append((rule, change))

    def put(other):
        def change(rows, i, r):
            rows.insert(rng.choice([i, i + 1, len(rows), 0]), other)
        return change

    a = row.alg
    inner = lambda: Row(rng, rng.choice(ALL))
    if a in DIRECT:
        v("ciphertext in direct encryption", lambda rows, i, r: setattr(r, "ct", rng.choice([b"\0", rng.randbytes(24), b"x" * 16])))
        v("ciphertext in direct encryption", lambda rows, i, r: setattr(r, "ct", None) if rng.random() < 0.3 else setattr(r, "ct", rng.randbytes(rng.randint(1, 40))))
        for x in (inner(), Row(rng, rng.choice(DIRECT))):
            v("nested in direct encryption", lambda rows, i, r, x=x: r.nested.append(x))
        if a == -6:
            v("protected header in direct encryption", lambda rows, i, r: r.p.update({rng.choice([4, 99, "x"]): rng.randbytes(3)}))
            v("protected header in direct encryption", lambda rows, i, r: (r.p.update({1: -6}), r.u.pop(1)))
            v("protected header in direct encryption", lambda rows, i, r: r.p.update({1: -6}))
        for other in (Row(rng, rng.choice(WRAPPING)), Row(rng, rng.choice(DKA)), Row(rng, rng.choice(list(R.KW)))):
            v("mixed with direct encryption", put(other))
    elif a in DKA:
        for other in (Row(rng, a), Row(rng, rng.choice(WRAPPING)), Row(rng, rng.choice(DKA))):
            v("not alone: direct key agreement", put(other))
        v("mixed with direct encryption", put(Row(rng, rng.choice(DIRECT))))
        for x in (inner(), Row(rng, a)):
            v("nested in direct key agreement", lambda rows, i, r, x=x: r.nested.append(x))
        if R.ECDH[a][0] == "es":
            v("no ephemeral key", lambda rows, i, r: (r.p.pop(-1, None), r.u.pop(-1, None)))
            v("no ephemeral key", lambda rows, i, r: r.u.update({-2: {**(r.p.pop(-1, None) or r.u.pop(-1))}}))
    else:
        if a in R.KW:
            v("protected header in key wrap", lambda rows, i, r: r.p.update({rng.choice([4, 99, "x"]): rng.randbytes(3)}))
            v("protected header in key wrap", lambda rows, i, r: (r.p.update({1: a}), r.u.pop(1)))
        for empty in (b"", None):
            v("no wrapped key", lambda rows, i, r, e=empty: setattr(r, "ct", e))
        v("mixed with direct encryption", put(Row(rng, rng.choice(DIRECT))))
        v("not alone: direct key agreement", put(Row(rng, rng.choice(DKA))))
    v("no algorithm", lambda rows, i, r: (r.p.pop(1, None), r.u.pop(1, None)))
    for f in rng.sample(FOREIGN, 2) + [rng.choice([-11, -12, -9999, 300, 2, "nonsense", "Direct "])]:
        v("no recipient algorithm", lambda rows, i, r, f=f: (r.p if 1 in r.p else r.u).update({1: f}))
    return out


def wire(case, mon, rng):
    rows, path = conforming(rng, case["alg"], case["depth"])
    kind = case["kind"]
    d = K.decode(mon, kind, message(rng, kind, rows), rng.random() < 0.5)
    compare(mon, rows, d.recipients)
    mon.saw("conforming decoded", case["alg"], case["depth"], kind)
    for rule, change in violations(rng, at(rows, path)[1], None):
        new = [r.copy() for r in rows]
        lst, r = at(new, path)
        change(lst, path[-1], r)
        data = message(rng, kind, new)
        for cls in (K.CoseMessage, K.MSG[kind]):
            mon.rejects("%s (algorithm %d, depth %d): decoding as %s" % (rule, case["alg"], case["depth"], cls.__name__), cls.decode, data)
        mon.saw("decoding refused: " + rule, case["alg"], case["depth"], kind)
        if case["depth"]:
            mon.saw("nested violation refused", rule, case["depth"])


# ------------------------------------------------------------------------------------------------------------ building
class Obj:
    """What is needed to build a recipient object, possibly a wrong one."""

    def __init__(self, mon, rng, alg, cek):
        self.mon, self.rng, self.alg, self.cek = mon, rng, alg, cek
        self.cls = cls_of(alg)
        self.p, self.u, self.nested, self.payload = {}, {}, [], None
        self.eph = rng.random() < 0.5
        if alg in DIRECT:
            self.spec = None
            extra = G.header(rng, rng.choice([0, 1]), reg=[3, 4, 10, -3])
            self.u = {1: alg, **extra}
            if alg != -6 and rng.random() < 0.5:
                self.p, self.u = {1: alg}, extra
        else:
            self.spec = P.spec(rng, alg)
            self.p, self.u = dict(self.spec["p"]), dict(self.spec["u"])

    def make(self):
        mon, rng, s = self.mon, self.rng, self.spec
        kw = {"payload": self.payload} if self.payload is not None else {}
        if self.nested:
            kw["recipients"] = [x.make() for x in self.nested]
        if rng.random() < 0.5:
            r = self.cls(phdr=K.spell(rng, self.p), uhdr=K.spell(rng, self.u), **kw)
        else:
            r = self.cls(**kw)
            r.phdr, r.uhdr = K.spell(rng, self.p), K.spell(rng, self.u)
        if s is None:
            return r
        if s["key"][1] == 4:
            r.key = K.key(rng, s["key"])
        elif s["key"][1] == 3:
            r.key = K.key(rng, R.public(s["key"]))
        else:
            if "sender" in s:
                r.key = K.key(rng, s["sender"])
            r.local_attrs = {K.headers.StaticKey: K.key(rng, R.public(s["key"]))}
        return r


def objs(mon, rng, alg, cek):
    out = [Obj(mon, rng, alg, cek)]
    if alg in DKA:
        return out
    pool = DIRECT if alg in DIRECT else WRAPPING
    for _ in range(rng.choice([0, 0, 1, 2])):
        out.append(Obj(mon, rng, rng.choice(pool), cek))
    return out


def entry_points(rng, kind, msg, whole=True):
    """Every way to produce something from the message; whole: the rule is one about the list of recipients."""
    if kind == "Enc":
        out = [("encode()", msg.encode), ("encode(encrypt=False)", lambda: msg.encode(encrypt=False)), ("encode(tag=False)", lambda: msg.encode(tag=False))]
        return out + ([("encrypt()", msg.encrypt)] if whole else [])
    out = [("encode()", msg.encode), ("encode(mac=False)", lambda: msg.encode(mac=False)), ("encode(tag=False)", lambda: msg.encode(tag=False))]
    return out + ([("compute_tag()", msg.compute_tag)] if whole else [])


def content_key(rng, kind):
    return {1: 4, -1: rng.randbytes(16 if kind == "Enc" else 32)}


def fresh(mon, rng, kind, os):
    rec = [o.make() for o in os]
    p, u = ({1: 1}, {5: rng.randbytes(12)}) if kind == "Enc" else ({1: 5}, {})
    kw = {}
    if os and os[0].alg in DIRECT or not os or rng.random() < 0.3:
        kw["key"] = K.key(rng, content_key(rng, kind))
    m = K.MSG[kind](phdr=p, uhdr=u, payload=b"the payload of the message", **kw)
    how = rng.randrange(3)
    if how == 0:
        m.recipients = rec
    elif how == 1:
        for r in rec:
            m.recipients.append(r)
    else:
        m = K.MSG[kind](phdr=p, uhdr=u, payload=b"the payload of the message", recipients=rec, **kw)
    return m


def build(case, mon, rng):
    alg, kind = case["alg"], case["kind"]
    cek = rng.randbytes(16 if kind == "Enc" else 32)

    def start():
        return objs(mon, rng, alg, cek)

    def new(a):
        return Obj(mon, rng, a, cek)
    # conforming
    os = start()
    nest = os[0].alg in R.KW or os[0].alg in WRAPPING and os[0].alg in R.ECDH
    if nest and rng.random() < 0.5:
        x = new(rng.choice([-6, -6] + list(DKA) + list(WRAPPING)))
        if x.alg in WRAPPING:
            x.payload = cek
        os[0].nested = [x]
    m = fresh(mon, rng, kind, os)
    if alg in DIRECT and rng.random() < 0.5:
        m.recipients[0].payload = b"left over payload"
    data = K.encode(mon, kind, m, rng)
    d = K.decode(mon, kind, data, rng.random() < 0.5)
    rows = C.dec(data).value[-1]
    mon.check(len(d.recipients) == len(os) == len(rows), "number of recipients", len(rows), len(os))
    for o, r, w in zip(os, d.recipients, rows):
        mon.check(type(r) is o.cls, "class of a recipient after transport", type(r), o.alg)
        mon.check(len(w) == 3 + bool(o.nested), "elements of the recipient structure", w)
        if o.alg in DIRECT or o.alg in DKA:
            mon.check(w[2] == b"", "direct recipient carries a ciphertext", w)
            mon.saw("no ciphertext emitted", o.alg)
        else:
            mon.check(type(w[2]) is bytes and len(w[2]) >= 24, "no wrapped key on the wire", w)
        if o.alg in R.KW or o.alg == -6:
            mon.check(w[0] == b"", "protected header on the wire", w)
        if o.alg in R.ECDH and R.ECDH[o.alg][0] == "es":
            mon.check(isinstance(r.get_attr(K.headers.EphemeralKey), K.CoseKey), "no ephemeral key on the wire", w)
        for x, y in zip(o.nested, r.recipients):
            mon.check(type(y) is x.cls, "class of a nested recipient after transport", type(y), x.alg)
            mon.saw("nested classes compared", x.alg)
        mon.saw("classes compared", o.alg, len(os))
    mon.saw("conforming built", alg, kind)

    def refused(rule, os, whole=False):
        m = fresh(mon, rng, kind, os)
        for name, f in entry_points(rng, kind, m, whole):
            mon.rejects("%s (algorithm %d): %s" % (rule, alg, name), f)
        mon.saw("building refused: " + rule, alg, kind)

    def broken(rule, change, whole=False):
        os = start()
        change(os[0])
        if alg in WRAPPING:
            for o in os:
                o.payload = cek
        refused(rule, os, whole)
        if alg not in DKA and not whole or alg in DKA and rule != "not alone: direct key agreement":
            # the same, nested in a key wrap recipient
            os = start()[:1]
            change(os[0])
            if alg in WRAPPING:
                os[0].payload = cek
            outer = new(rng.choice(list(R.KW)))
            outer.payload, outer.nested = cek, os
            m = fresh(mon, rng, kind, [outer])
            for name, f in entry_points(rng, kind, m, False):
                mon.rejects("%s (algorithm %d, nested): %s" % (rule, alg, name), f)
            mon.saw("building nested refused", rule, alg)

    def mixed(rule, others):
        for a in others:
            # wrapping recipients carry a preset key, so that nothing but the rule stands in the way
            os = start() + [new(a)]
            for o in os:
                if o.alg in WRAPPING:
                    o.payload = cek
            rng.shuffle(os)
            refused(rule, os, True)
            outer = new(rng.choice([x for x in WRAPPING if x in R.KW]))
            outer.payload = cek
            outer.nested = os
            m = fresh(mon, rng, kind, [outer])
            for name, f in entry_points(rng, kind, m, False):
                mon.rejects("%s (algorithms %s, nested): %s" % (rule, [o.alg for o in os], name), f)
            mon.saw("building nested refused", rule, alg)

    def inner(o, a):
        x = new(a)
        if a in WRAPPING:
            x.payload = cek
        o.nested = [x]
    if alg in DIRECT:
        broken("nested in direct encryption", lambda o: inner(o, rng.choice(ALL)))
        if alg == -6:
            broken("protected header in direct encryption", lambda o: o.p.update({rng.choice([4, 99, "x"]): b"v"}))
            broken("protected header in direct encryption", lambda o: (o.p.update({1: -6}), o.u.pop(1)))
        mixed("mixed with direct encryption", [rng.choice(WRAPPING), rng.choice(list(R.KW)), rng.choice(DKA)])
    elif alg in DKA:
        mixed("not alone: direct key agreement", [alg, rng.choice(DKA), rng.choice(WRAPPING)])
        mixed("mixed with direct encryption", [rng.choice(DIRECT)])
        broken("nested in direct key agreement", lambda o: inner(o, rng.choice(ALL)))
        if R.ECDH[alg][0] == "es":
            def noeph(o):
                o.spec["sender"] = o.spec.get("sender") or P.ec_different(o.spec["key"][-1], rng, o.spec["key"])
                o.p.pop(-1, None)
                o.u.pop(-1, None)
            broken("no ephemeral key", noeph)
    else:
        if alg in R.KW:
            broken("protected header in key wrap", lambda o: o.p.update({rng.choice([4, 99, "x"]): b"v"}))
            broken("protected header in key wrap", lambda o: (o.p.update({1: alg}), o.u.pop(1)))
        mixed("mixed with direct encryption", [rng.choice(DIRECT)])
        mixed("not alone: direct key agreement", [rng.choice(DKA)])
    broken("no algorithm", lambda o: (o.p.pop(1, None), o.u.pop(1, None)))
    other = rng.choice([a for a in ALL if cls_of(a) is not cls_of(alg)])
    for a in rng.sample(FOREIGN, 2) + [other]:
        broken("no recipient algorithm", lambda o, a=a: (o.p if 1 in o.p else o.u).update({1: a}))


# ------------------------------------------------------------------------------------------ use of a decoded message
def use(case, mon, rng):
    """A good message is decoded and opened; with a recipient of a forbidden kind next to the good one it is not."""
    alg = case["alg"]
    nonce, pl = rng.randbytes(12), b"plaintext of the message" + rng.randbytes(4)
    cek = rng.randbytes(16)
    if alg in DIRECT:
        s = None
        row = [b"", {1: alg}, b""]
    else:
        s = P.spec(rng, alg)
        row, k = P.ref_build(rng, s, 1, None if alg in DKA else cek)
        cek = k
    pb = C.enc({1: 1})
    data = C.enc(C.Tag(96, [pb, {5: nonce}, R.seal(1, cek, nonce, R.enc_aad("Enc", pb, b""), pl), [row]]))

    def opened():
        d = K.decode(mon, "Enc", data)
        if s is None:
            d.key = K.key(rng, {1: 4, -1: cek})
        else:
            P.open_side(mon, rng, s, d.recipients[0])
        return d
    d = opened()
    mon.check(mon.must("decrypt", d.decrypt, d.recipients[0]) == pl, "the conforming message does not open")
    mon.saw("opened next to violations", alg)
    others = (WRAPPING + DKA if alg in DIRECT else ALL if alg in DKA else DIRECT + DKA)
    for a in rng.sample(others, 3):
        d = opened()
        r = d.recipients[0]
        o = Obj(mon, rng, a, cek).make()
        if rng.random() < 0.5:
            d.recipients.insert(rng.choice([0, 1]), o)
        else:
            d.recipients = rng.choice([[r, o], [o, r]])
        mon.rejects("decrypt() with recipients %d and %d side by side" % (alg, a), d.decrypt, r)
        mon.saw("use refused: mixed", alg, a)
