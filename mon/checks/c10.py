"""C10 protected header bytes: a decoded message is driven through a random history of reads, verifications, unprotected changes and
re-encodings; a monitor holds the transmitted bytes of every layer and compares them with what is shown, emitted and authenticated.
Deliberate changes of a protected header switch that layer's monitor to the new content; messages that were built rather than decoded are
changed in every way (their header maps in place, too) between encodings."""
import random

from .. import cborref as C, coseref as R, gen as G, kit as K, rcpt as P

PROP = "C10"
RULE = ("a case is one reference-made message with protected headers in arbitrary encodings and a history of operations on its decoded "
        "form, or one built message with its edits; non-trivial: the bytes were compared after at least one operation and authenticated by at least one verdict")
REQUIRED = {"re-encoded with key agreement": 10, "bytes compared after decoding": 400, "bytes compared after an operation": 1500, "bytes compared on the wire": 400,
            "non-canonical bytes": 200, "verified over the transmitted bytes": 300, "re-made over the transmitted bytes": 150,
            "replaced": 60, "updated": 60, "new content on the wire": 60, "new content authenticated": 60, "old result refused": 40,
            "refused update kept the bytes": 60, "signers": 60, "recipients": 60, "algorithm as text": 15, "emptied": 15,
            "empty map encodings": 30, "built message judged": 500, "built message edited: item": 60, "built message edited: delete": 20,
            "built message edited: swap": 20, "built message edited: update": 40, "built message edited: assign": 40}
ALGS = {"Sign1": R.SIG, "Sign": R.SIG, "Mac0": R.MAC, "Mac": R.MAC, "Enc0": R.AEAD, "Enc": R.AEAD}


def cases(tier, rng):
    for rep in range({"quick": 220, "thorough": 8000}[tier]):
        for kind in ALGS:
            yield {"kind": kind, "alg": rng.choice(list(ALGS[kind])), "s": rng.getrandbits(48)}
            if rep % 3 == 0:
                yield {"do": "built", "kind": kind, "alg": rng.choice(list(ALGS[kind])), "s": rng.getrandbits(48)}


class Layer:
    """One header owner: the bytes it must keep, or (once changed) the content it must show."""

    def __init__(self, p, u, wire):
        self.p, self.u, self.wire = dict(p), dict(u), wire


def phdr_bytes(mon, rng, p):
    if not p:
        b = rng.choice([b"", b"", b"\xa0", b"\xbf\xff", b"\xb8\x00"])
        if b:
            mon.saw("empty map encodings", b)
        return b
    q = dict(p)
    if 1 in q and q[1] in K.ALG and rng.random() < 0.08:
        q = {k: (K.case_of(rng, K.ALG[v].fullname) if k == 1 else v) for k, v in q.items()}
        mon.saw("algorithm as text", p[1])
    b = C.enc_var(q, rng, rng.choice([0.2, 0.6, 0.95]))
    if b != C.enc(p):
        mon.saw("non-canonical bytes")
    return b


def auth(layer):
    return b"" if not layer.p else layer.wire


class Session:
    def __init__(self, case, mon, rng):
        self.case, self.mon, self.rng = case, mon, rng
        self.kind, self.alg = case["kind"], case["alg"]
        kind, alg = self.kind, self.alg
        self.nonce = G.nonce(alg, rng) if kind in ("Enc0", "Enc") else None
        extra = {5: self.nonce} if self.nonce is not None else {}
        p, u = G.buckets(rng, None if kind == "Sign" else alg, None, rng.choice([0, 1, 2, None]),
                         *(({}, extra) if rng.random() < 0.5 else (extra, {})))
        self.body = Layer(p, u, phdr_bytes(mon, rng, p))
        self.pl = G.plain(alg, rng, 0) if kind in ("Enc0", "Enc") else G.payload(rng, 0)
        self.aad = G.aad(rng)
        self.subs = []
        if kind == "Sign":
            for _ in range(G.layers(rng)):
                a = rng.choice(list(R.SIG))
                sp, su = G.buckets(rng, a, None, rng.choice([0, 1, 2]))
                s = Layer(sp, su, phdr_bytes(mon, rng, sp))
                s.alg, s.km, s.aad = a, G.sig_key(a, rng), G.aad(rng)
                s.sig = R.sign(a, s.km, R.tbs(auth(self.body), auth(s), s.aad, self.pl))
                s.third = s.sig
                self.subs.append(s)
        else:
            self.km = G.sig_key(alg, rng) if kind == "Sign1" else G.mac_key(alg, rng) if kind in ("Mac0", "Mac") else G.aead_key(alg, rng)
        self.agreed = None
        if kind in ("Enc", "Mac"):
            if kind == "Enc" and rng.random() < 0.4:
                a = rng.choice(P.DIRECT_KA)
                s = P.spec(rng, a, None, True)
                wire, cek = P.ref_build(rng, s, alg, None, True)
                self.km = {1: 4, -1: cek}
                e = wire[1].get(-1)
                if e and isinstance(e[-3], bool):
                    wire[1][-1] = {**e, -3: next(y for y in R.solve_y(e[-1], int.from_bytes(e[-2], "big")) if y & 1 == e[-3]).to_bytes(len(e[-2]), "big")}
                r = Layer(C.dec(wire[0]) if wire[0] else {}, wire[1], wire[0])
                self.agreed = s
                self.subs.append(r)
            else:
                for _ in range(G.layers(rng)):
                    a = rng.choice([-6, -10, -13])
                    rp, ru = G.buckets(rng, a, "u" if a == -6 else None, rng.choice([0, 1, 2]))
                    if a == -6:
                        ru, rp = {**rp, **ru}, {}
                    r = Layer(rp, ru, b"" if a == -6 else phdr_bytes(mon, rng, rp))
                    self.subs.append(r)
            for r in self.subs:
                r.third = b""
        self.result()
        arr = [self.body.wire, self.body.u, self.shown]
        if kind in ("Sign1", "Mac0", "Mac"):
            arr.append(self.res)
        if self.subs:
            arr.append([[s.wire, s.u, s.third] for s in self.subs])
        self.d = K.decode(mon, kind, C.enc(C.Tag(R.MSG_TAG[kind], arr)), rng.random() < 0.5)
        self.compare("bytes compared after decoding")
        mon.saw("signers" if kind == "Sign" else "recipients" if self.subs else "single layer")

    def result(self):
        """The reference's signature, tag or ciphertext over the current bytes."""
        b, k = auth(self.body), self.kind
        self.shown, self.res = self.pl, None
        if k == "Sign1":
            self.res = R.sign(self.alg, self.km, R.tbs1(b, self.aad, self.pl))
        elif k in ("Mac0", "Mac"):
            self.res = R.mac(self.alg, self.km[-1], R.tbm(k, b, self.aad, self.pl))
        elif k in ("Enc0", "Enc"):
            self.shown = R.seal(self.alg, self.km[-1], self.nonce, R.enc_aad(k, b, self.aad), self.pl)

    def objects(self):
        d = self.d
        yield self.body, d
        for layer, o in zip(self.subs, d.signers if self.kind == "Sign" else d.recipients if self.subs else ()):
            yield layer, o

    def compare(self, what):
        objs = list(self.objects())
        self.mon.check(len(objs) == 1 + len(self.subs), "number of layers", len(objs))
        for layer, o in objs:
            got = self.mon.must("phdr_encoded", lambda: o.phdr_encoded)
            self.mon.check(type(got) is bytes and got == layer.wire, "phdr_encoded differs from the transmitted bytes (%s)" % what, got, layer.wire)
            K.headers_match(self.mon, o, layer.p, layer.u, what)
            self.mon.saw(what, self.kind, len(layer.p), len(layer.wire))

    def wire(self, data, tag=True):
        """Compares the bytes of an encoded message; returns its array."""
        arr = C.dec(data).value
        rows = [(self.body, arr)] + list(zip(self.subs, arr[-1] if self.subs else ()))
        self.mon.check(not self.subs or len(arr[-1]) == len(self.subs), "number of layers on the wire", len(arr[-1]))
        for layer, row in rows:
            self.mon.check(row[0] == layer.wire, "the encoded message carries other protected header bytes", row[0], layer.wire)
            self.mon.check(C.same(row[1], layer.u), "unprotected header on the wire", row[1], layer.u)
            self.mon.saw("bytes compared on the wire", self.kind)
        return arr

    def keys(self, private):
        d, rng = self.d, self.rng
        if self.kind == "Sign":
            for s, o in zip(self.subs, d.signers):
                o.key, o.external_aad = K.key(rng, s.km if private else R.public(s.km)), s.aad
            return
        d.external_aad = self.aad
        if self.agreed:
            P.open_side(self.mon, rng, self.agreed, d.recipients[0])
            return
        d.key = K.key(rng, self.km if private or self.km[1] == 4 else R.public(self.km))

    def verdicts(self):
        d = self.d
        if self.kind == "Sign1":
            return [d.verify_signature]
        if self.kind == "Sign":
            return [s.verify_signature for s in d.signers]
        if self.kind in ("Mac0", "Mac"):
            return [d.verify_tag]
        return [lambda: d.decrypt(*(d.recipients[:1] if self.kind == "Enc" else ())) == self.pl]

    # -- operations ------------------------------------------------------------------------------------------------
    def op_read(self):
        for layer, o in self.objects():
            for _ in range(self.rng.choice([1, 2])):
                dict(o.phdr), o.phdr_encoded, o.uhdr_encoded, str(o)
                o.get_attr(K.headers.KID), o.get_attr(K.headers.ContentType, 0)

    def op_verify(self):
        self.keys(False)
        for v in self.verdicts():
            self.mon.check(self.mon.must("verification", v) is True, "the decoded message does not verify", self.case)
            self.mon.saw("verified over the transmitted bytes", self.kind)

    def op_uhdr(self):
        layer, o = self.rng.choice(list(self.objects()))
        new = G.header(self.rng, self.rng.choice([1, 2]), reg=[3, 4], used=set(layer.p) | set(layer.u))
        if self.rng.random() < 0.5:
            o.uhdr_update(K.spell(self.rng, new))
            layer.u.update(new)
        else:
            layer.u = G.shuffled(self.rng, {**layer.u, **new})
            o.uhdr = K.spell(self.rng, layer.u)

    def op_refused(self):
        for layer, o in self.objects():
            bad = self.rng.choice([{4: 5}, {2: []}, {3: -1}, {10: "x"}, {5: 7}, {6: None}, {9: "x"}])
            if self.rng.random() < 0.5:
                self.mon.rejects("ill-typed protected update", o.phdr_update, bad)
            else:
                def assign():
                    o.phdr = bad
                self.mon.rejects("ill-typed protected assignment", assign)
            for no in (None, [1], b"", "x"):
                self.mon.rejects("protected update with a non-map", o.phdr_update, no)
            self.mon.saw("refused update kept the bytes", self.kind)

    def op_recode(self):
        """Encode without new cryptography (where the API offers it) and decode again."""
        kind, d = self.kind, self.d
        if kind == "Sign1":
            d.signature = self.res
            data = K.encode(self.mon, kind, d, self.rng, sign=False)
        elif kind in ("Enc0", "Enc"):
            if self.agreed:         # encoding a key agreement recipient wants both keys present
                self.keys(False)
                d.recipients[0].local_attrs = {K.headers.StaticKey: K.key(self.rng, R.public(self.agreed["key"]))}
            data = K.encode(self.mon, kind, d, self.rng, encrypt=False)
        else:
            return self.op_remake()
        arr = self.wire(data)
        if self.agreed:
            self.mon.saw("re-encoded with key agreement")
        self.mon.check(arr[2] == self.shown, "payload on the wire")
        self.d = K.decode(self.mon, kind, data, self.rng.random() < 0.5)

    def op_remake(self, count="re-made over the transmitted bytes"):
        """Sign, tag or encrypt again: the reference accepts the result over the bytes on the wire."""
        kind, d, mon = self.kind, self.d, self.mon
        if self.agreed:
            return
        self.keys(True)
        if kind in ("Enc0", "Enc"):
            d.payload = self.pl
        arr = self.wire(K.encode(mon, kind, d, self.rng, True))
        self.judge(arr, count)
        self.d = K.decode(mon, kind, C.enc(C.Tag(R.MSG_TAG[kind], arr)))

    def judge(self, arr, count):
        kind, mon = self.kind, self.mon
        b = auth(self.body)
        if kind == "Sign1":
            ok = R.verify(self.alg, self.km, R.tbs1(b, self.aad, self.pl), arr[3])
            self.res = arr[3]
        elif kind == "Sign":
            ok = all(R.verify(s.alg, s.km, R.tbs(b, auth(s), s.aad, self.pl), row[2]) for s, row in zip(self.subs, arr[3]))
            for s, row in zip(self.subs, arr[3]):
                s.third = row[2]
        elif kind in ("Mac0", "Mac"):
            ok = arr[3] == R.mac(self.alg, self.km[-1], R.tbm(kind, b, self.aad, self.pl))
        else:
            ok = R.open_(self.alg, self.km[-1], self.nonce, R.enc_aad(kind, b, self.aad), arr[2]) == self.pl
            self.shown = arr[2]
        mon.check(ok, "what %s authenticates is not the protected header on the wire" % kind, self.case)
        mon.saw(count, kind)

    def change(self):
        """Replace or update one layer's protected header: everything after shows exactly the new content."""
        mon, rng = self.mon, self.rng
        objs = list(self.objects())
        if self.agreed:
            objs = objs[:1]
        layer, o = rng.choice([(a, b) for a, b in objs if a.u.get(1) != -6])
        keep = {k: v for k, v in layer.p.items() if k in (1, 5)}
        new = G.header(rng, rng.choice([1, 2, 4]), reg=[3, 4, 10], used=set(layer.u) | {1, 5})
        old = dict(layer.p)
        if rng.random() < 0.5:
            o.phdr_update(K.spell(rng, new))
            layer.p.update(new)
            mon.saw("updated", self.kind)
        else:
            if rng.random() < 0.25 and not keep:
                new = {}
                mon.saw("emptied")
            layer.p = G.shuffled(rng, {**keep, **new})
            o.phdr = K.spell(rng, layer.p)
            mon.saw("replaced", self.kind)
        got = mon.must("phdr_encoded", lambda: o.phdr_encoded)
        mon.check(type(got) is bytes, "phdr_encoded", got)
        if layer.p:
            mon.check(C.same(C.dec(got), layer.p), "protected header bytes do not show the new content", C.dec(got), layer.p)
        else:
            mon.check(got == b"", "emptied protected header", got)
        layer.wire = got
        # with the new content, what was made over the old one is no longer accepted
        authenticated = layer is self.body or self.kind == "Sign"
        if authenticated and not C.same(old, layer.p):
            self.keys(False)
            if self.kind == "Sign1":
                self.d.signature = self.res
            if self.kind == "Sign":
                for s, x in zip(self.subs, self.d.signers):
                    x.signature = s.third
            if self.kind in ("Enc0", "Enc"):
                self.d.payload = self.shown
            vs = self.verdicts()
            i = [a for a, _ in objs].index(layer)
            if self.kind == "Sign" and i > 0:
                vs = [vs[i - 1]]
            for v in vs:
                mon.never_true("what was authenticated before the protected header changed", v)
                mon.saw("old result refused", self.kind)
        self.compare("bytes compared after an operation")
        mon.saw("new content on the wire")
        if not self.agreed:
            self.op_remake("new content authenticated")
            self.compare("bytes compared after decoding")


def built(case, mon, rng):
    """A message that was built, not decoded: whatever way its header maps change between encodings, each encoding shows and authenticates
    their present content."""
    kind, alg = case["kind"], case["alg"]
    nonce = G.nonce(alg, rng) if kind in ("Enc0", "Enc") else None
    extra = {5: nonce} if nonce is not None else {}
    pl = G.plain(alg, rng, 0) if nonce is not None else G.payload(rng, 0)
    aad = G.aad(rng)
    layers = []

    def layer(obj, p, u, **kw):
        x = Layer(p, u, None)
        x.obj = obj
        x.__dict__.update(kw)
        layers.append(x)
        return x
    p, u = G.buckets(rng, None if kind == "Sign" else alg, None, rng.choice([0, 1, 2]), *(({}, extra) if rng.random() < 0.5 else (extra, {})))
    msg = mon.must("constructor", K.MSG[kind], phdr=K.spell(rng, p), uhdr=K.spell(rng, u), payload=pl)
    layer(msg, p, u)
    msg.external_aad = aad
    km = None
    if kind == "Sign":
        for _ in range(rng.choice([1, 2])):
            a = rng.choice(list(R.SIG))
            k = G.sig_key(a, rng)
            sp, su = G.buckets(rng, a, None, rng.choice([0, 1]))
            o = K.CoseSignature(phdr=K.spell(rng, sp), uhdr=K.spell(rng, su), key=K.key(rng, k))
            msg.signers.append(o)
            layer(o, sp, su, alg=a, km=k)
    else:
        km = G.sig_key(alg, rng) if kind == "Sign1" else G.mac_key(alg, rng) if kind in ("Mac0", "Mac") else G.aead_key(alg, rng)
        msg.key = K.key(rng, km)
        if kind in ("Mac", "Enc"):
            a = rng.choice([-10, -13])
            rp, ru = G.buckets(rng, a, None, rng.choice([0, 1]))
            o = K.DirectEncryption(phdr=K.spell(rng, rp), uhdr=K.spell(rng, ru))
            msg.recipients = [o]
            layer(o, rp, ru)
    for step in range(rng.choice([2, 3, 5])):
        arr = C.dec(K.encode(mon, kind, msg, rng)).value
        if rng.random() < 0.3:
            arr = C.dec(K.encode(mon, kind, msg, rng)).value
        rows = [arr] + (arr[-1] if len(layers) > 1 else [])
        mon.check(len(rows) == len(layers), "number of layers on the wire", len(rows))
        for x, row in zip(layers, rows):
            mon.check(row[0] == b"" if not x.p else row[0] and C.same(C.dec(row[0]), x.p), "the encoded message does not carry the present protected header", row[0], x.p)
            mon.check(C.same(row[1], x.u), "the encoded message does not carry the present unprotected header", row[1], x.u)
            mon.check(x.obj.phdr_encoded == row[0], "phdr_encoded is not what was encoded")
            x.wire = row[0]
        b = auth(layers[0])
        if kind == "Sign1":
            ok = R.verify(alg, km, R.tbs1(b, aad, pl), arr[3])
        elif kind == "Sign":
            ok = all(R.verify(x.alg, x.km, R.tbs(b, auth(x), b"", pl), row[2]) for x, row in zip(layers[1:], rows[1:]))
        elif kind in ("Mac0", "Mac"):
            ok = arr[3] == R.mac(alg, km[-1], R.tbm(kind, b, aad, pl))
        else:
            ok = R.open_(alg, km[-1], nonce, R.enc_aad(kind, b, aad), arr[2]) == pl
        mon.check(ok, "what %s authenticates is not its present protected header" % kind, case)
        mon.saw("built message judged", kind, step)
        for _ in range(rng.choice([1, 1, 2])):
            edit(mon, rng, rng.choice(layers))


def edit(mon, rng, x):
    """One change of a header map of a built object, through the map itself or the setters."""
    which = rng.choice("ppu")
    mine, other = (x.p, x.u) if which == "p" else (x.u, x.p)
    get = (lambda: x.obj.phdr) if which == "p" else (lambda: x.obj.uhdr)
    new = G.header(rng, rng.choice([1, 2]), reg=[3, 4, 10], used=set(other) | {1, 5})
    free = [k for k in mine if k not in (1, 5)]
    cls = lambda k: K.HDR.get(k, k) if isinstance(k, int) else k
    plain = {k: v for k, v in new.items() if k not in (-1, -2)}
    how = rng.choice(["item", "item", "dict.update", "delete", "swap", "update", "assign"])
    if how in ("item", "dict.update") and plain:
        if how == "item":
            for k, v in plain.items():
                get()[cls(k)] = K.copy(v)
        else:
            get().update({cls(k): K.copy(v) for k, v in plain.items()})
        mine.update(plain)
    elif how == "delete" and free:
        k = rng.choice(free)
        get().pop(cls(k))
        del mine[k]
    elif how == "swap" and free:            # same size, one value changed
        k = rng.choice(free)
        if k in (-1, -2):
            return
        v = {3: 77, 4: b"swapped", 10: b"swapped", 2: [1, 2, "x"]}.get(k, b"swapped")
        get()[cls(k)] = v
        mine[k] = v
    elif how == "update":
        (x.obj.phdr_update if which == "p" else x.obj.uhdr_update)(K.spell(rng, new))
        mine.update(new)
    else:
        kept = {k: v for k, v in mine.items() if k in (1, 5)}
        kept.update(new)
        setattr(x.obj, "phdr" if which == "p" else "uhdr", K.spell(rng, kept))
        mine.clear()
        mine.update(kept)
        how = "assign"
    mon.saw("built message edited: " + how)


def run(case, mon):
    rng = random.Random(case["s"])
    if case.get("do") == "built":
        return built(case, mon, rng)
    s = Session(case, mon, rng)
    for step in range(rng.choice([2, 3, 5])):
        rng.choice([s.op_read, s.op_verify, s.op_verify, s.op_uhdr, s.op_refused, s.op_recode, s.op_recode, s.op_remake])()
        s.compare("bytes compared after an operation")
    s.op_verify()
    s.compare("bytes compared after an operation")
    for _ in range(rng.choice([0, 1, 2])):
        s.change()
        if s.agreed:
            return
        rng.choice([s.op_read, s.op_verify, s.op_recode])()
        s.compare("bytes compared after an operation")


