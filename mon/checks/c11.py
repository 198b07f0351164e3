"""C11 headers: (a) maps spelled with classes, integers and names are built, transported and compared at every layer; (b) in strict
mode one unregistered label is planted in one bucket of one layer and has to be refused; (c) ill-typed values are planted likewise,
in both modes, at decoding, construction, assignment and update."""
import random

import cbor2

from .. import cborref as C, coseref as R, gen as G, kit as K

PROP = "C11"
RULE = ("a case is one message with header maps in all its layers, transported (a) or with one planted defect in one bucket of one layer "
        "(b, c); non-trivial: every layer was compared after transport, or the planted defect was judged next to its accepted original")
LAYERS = ("body", "signer", "recipient", "nested")
REQUIRED = {"header maps compared": 800, "names": 150, "integers": 150, "classes": 150, "mixed": 100, "embedded keys": 60,
            "algorithm as text on the wire": 40, "strict: original accepted": 150, "wire with unknown label accepted leniently": 100,
            **{"unknown label refused: " + x: 30 for x in LAYERS}, "unknown label refused: construction": 60,
            **{"ill-typed refused: %s" % x: 100 for x in LAYERS}, "ill-typed refused at construction": 60,
            "ill-typed refused at assignment": 60, "ill-typed refused at update": 60, "recipient classes": 80, "get_attr": 200}
KINDS = ("Sign1", "Sign", "Mac0", "Mac", "Enc0", "Enc")
RCPT = [-6, -10, -13] + list(R.KW) + list(R.OAEP) + list(R.ECDH)
WRAPPING = list(R.KW) + list(R.OAEP) + [a for a in R.ECDH if R.ECDH[a][2] is not None]
SIG, MACA, AEAD = list(R.SIG), list(R.MAC), list(R.AEAD)
# every label except the algorithm, keys and IVs
ALLREG = G.SAFE + [0, -20, -21, -22, -23, -24, -25, -26]


def cases(tier, rng):
    for rep in range({"quick": 600, "thorough": 8000}[tier]):
        for kind in KINDS:
            for do in ("transport", "strict", "typed", "typed"):
                yield {"do": do, "kind": kind, "s": rng.getrandbits(48)}
        for a in RCPT:
            if rep % 3 == 0:
                yield {"do": "recipient", "alg": a, "s": rng.getrandbits(48)}


def run(case, mon):
    {"transport": transport, "strict": strict, "typed": typed, "recipient": recipient}[case["do"]](case, mon, random.Random(case["s"]))


def values(rng, n, used, reg=ALLREG):
    h = G.header(rng, n, reg=reg, used=used)
    if rng.random() < 0.2:
        h[G.custom_int(rng)] = C.Tag(rng.choice([4711, 100000, 2 ** 40]), rng.choice([b"x", [1, "y"], 5]))
        h = {k: v for k, v in h.items() if k not in used}
    return h


def maps(rng, alg, used=(), ivs=False, n=None):
    """(protected, unprotected) with registered and custom labels, the algorithm in either bucket (None: nowhere)."""
    p, u = {}, {}
    if alg is not None:
        (p if rng.random() < 0.6 else u)[1] = alg
    if ivs:
        for lab in (5, 6):
            if rng.random() < 0.3:
                (p if rng.random() < 0.5 else u)[lab] = rng.randbytes(rng.choice([0, 1, 7, 12, 13]))
    for lab in (-1, -2):
        if rng.random() < 0.12 and lab not in used:
            (p if rng.random() < 0.5 else u)[lab] = embedded(rng)
    p.update(values(rng, n, set(p) | set(u) | set(used)))
    u.update(values(rng, n, set(p) | set(u) | set(used)))
    return G.shuffled(rng, p), G.shuffled(rng, u)


def embedded(rng):
    k = rng.choice([lambda: G.ec_key(rng.choice([1, 2, 3, 8]), rng), lambda: G.okp_key(rng.choice([4, 5, 6, 7]), rng)])()
    k = R.public(k)
    if rng.random() < 0.3:
        k[2] = G.kid(rng)
    if rng.random() < 0.2:
        k[4] = [7, 8] if k[1] == 2 else [1, 2]
    if rng.random() < 0.2:
        k[3] = rng.choice([-25, -27, -29])
    if rng.random() < 0.2:
        k[5] = rng.randbytes(rng.choice([1, 8]))
    for lab in ([-70001], ["app"], [-70002, "text"], [])[rng.randrange(4)]:
        k[lab] = rng.choice([1, b"x", "y", [1, [2]], {"a": 1}, None])
    return k


def spelled(mon, rng, h):
    """A spelling of a header map; embedded keys as maps or key objects, CBOR tags as cbor2's."""
    how = rng.choice(["class", "int", "name", None])
    mon.saw({"class": "classes", "int": "integers", "name": "names", None: "mixed"}[how])
    out = {}
    for k, v in K.spell(rng, h, how).items():
        i = getattr(k, "identifier", k)
        i = i if not isinstance(i, str) else next((x for x in K.HDR if K.HDR[x].fullname == i.upper()), i)
        if i in (-1, -2) and isinstance(v, dict):
            if rng.random() < 0.4:
                v = K.key(rng, v)
            elif rng.random() < 0.5:
                v = {(K.KPARAM[v[1]][a] if a in K.KPARAM[v[1]] else a): K.keyval(a, b, "cls", v[1]) for a, b in v.items()}
            mon.saw("embedded keys")
        out[k] = tags(v)
    return out


def tags(v):
    return cbor2.CBORTag(v.tag, v.value) if isinstance(v, C.Tag) else v


def put(mon, rng, obj, p, u):
    """Assignment and update in pieces."""
    for which, h in (("phdr", p), ("uhdr", u)):
        items = list(h.items())
        cut = rng.choice([0, len(items), rng.randrange(len(items) + 1)])
        old = K.stale(rng, items[cut:])
        if old:
            mon.saw("updates that replace a parameter")
        setattr(obj, which, spelled(mon, rng, {**old, **dict(items[:cut])}))
        for part in (items[cut:],) if rng.random() < 0.5 else [[x] for x in items[cut:]]:
            getattr(obj, which + "_update")(spelled(mon, rng, dict(part)))


def lookups(mon, rng, obj, p, u):
    both = set(p) & set(u)
    for lab in list(K.HDR):
        if lab in both:
            continue
        got = mon.must("get_attr", obj.get_attr, K.HDR[lab], "dflt")
        want = p.get(lab, u.get(lab, "dflt"))
        mon.check(C.same(K.norm(got), want), "get_attr(%s)" % K.HDR[lab].fullname, got, want)
        mon.saw("get_attr")


# ------------------------------------------------------------------------------------------------------- (a) transport
def transport(case, mon, rng):
    kind = case["kind"]
    enc = kind in ("Enc0", "Enc")
    alg = rng.choice({"Sign1": SIG, "Sign": SIG, "Mac0": MACA, "Mac": MACA}.get(kind, AEAD))
    text = rng.random() < 0.2
    used = (1, 5, 6) if enc else ()
    p, u = maps(rng, alg if kind != "Sign" or rng.random() < 0.3 else None, used, not enc)
    if enc:
        (p if rng.random() < 0.5 else u)[5] = rng.randbytes(R.AEAD[alg][3])
        if rng.random() < 0.2:
            (p if rng.random() < 0.5 else u)[6] = rng.randbytes(3)
    subs = []
    kw = {}
    if kind == "Sign":
        for _ in range(G.layers(rng)):
            a = rng.choice(SIG)
            subs.append((a, *maps(rng, a, (), True)))
    elif kind in ("Mac", "Enc"):
        for _ in range(G.layers(rng, (1, 2))):
            a = rng.choice([-6, -10, -13])
            sp, su = maps(rng, a)
            if a == -6:
                sp, su = {}, {**sp, **su}
            subs.append((a, sp, su))

    def make(cls, p, u, **kw):
        # keyword arguments beyond the named ones carry the flags
        if rng.random() < 0.5:
            return mon.must("constructor", cls, phdr=spelled(mon, rng, p), uhdr=spelled(mon, rng, u), **kw)
        o = mon.must("constructor", cls, **kw)
        mon.must("header assignment", put, mon, rng, o, p, u)
        return o
    flag = {"alg_tstr_encoding": True} if text else {}
    objs = []
    for a, sp, su in subs:
        if kind == "Sign":
            objs.append(make(K.CoseSignature, sp, su, key=K.key(rng, G.sig_key(a, rng)), **flag))
        else:
            objs.append(make(K.DirectEncryption, sp, su, **flag))
    if kind == "Sign":
        kw["signers"] = objs
    else:
        if subs:
            kw["recipients"] = objs
        km = G.sig_key(alg, rng) if kind == "Sign1" else G.mac_key(alg, rng) if kind in ("Mac0", "Mac") else G.aead_key(alg, rng)
        kw["key"] = K.key(rng, km)
    msg = make(K.MSG[kind], p, u, payload=b"payload", **kw, **flag)
    K.headers_match(mon, msg, p, u, "before encoding")
    lookups(mon, rng, msg, p, u)
    for o, (a, sp, su) in zip(objs, subs):
        K.headers_match(mon, o, sp, su, "layer before encoding")
    data = K.encode(mon, kind, msg, rng)
    arr = C.dec(data).value
    if not text:
        mon.check(C.same(C.dec(arr[0]) if arr[0] else {}, p), "protected header on the wire", arr[0], p)
        mon.check(C.same(arr[1], u), "unprotected header on the wire", arr[1], u)
    elif 1 in p or 1 in u:
        got = (C.dec(arr[0]) if 1 in p else arr[1])[1]
        mon.check(type(got) is str and got.upper() == K.ALG[alg].fullname.upper(), "algorithm encoded as text", got)
        mon.saw("algorithm as text on the wire")
    for strict in (False, True):
        unknown = any(k not in K.HDR for h in (p, u, *[x for s in subs for x in s[1:]]) for k in h)
        if strict and unknown:
            mon.rejects("strict decoding of unknown labels", K.CoseMessage.decode, data, allow_unknown_attributes=False)
            continue
        d = K.decode(mon, kind, data, rng.random() < 0.5, **({"allow_unknown_attributes": not strict} if strict or rng.random() < 0.5 else {}))
        K.headers_match(mon, d, p, u, "after transport")
        lookups(mon, rng, d, p, u)
        layers = d.signers if kind == "Sign" else d.recipients if subs else []
        mon.check(len(layers) == len(subs), "number of layers", len(layers))
        for o, (a, sp, su) in zip(layers, subs):
            K.headers_match(mon, o, sp, su, "layer after transport")


def recipient(case, mon, rng):
    """Every recipient class: building with all spellings, and decoding from the wire."""
    from ..rcpt import cls_of
    alg = case["alg"]
    cls = K.DirectEncryption if alg in (-6, -10, -13) else cls_of(alg)
    p, u = wire_maps(rng, alg)
    o = mon.must("constructor", cls)
    mon.must("header assignment", put, mon, rng, o, p, u)
    K.headers_match(mon, o, p, u, "recipient")
    o = mon.must("constructor", cls, phdr=spelled(mon, rng, p), uhdr=spelled(mon, rng, u))
    K.headers_match(mon, o, p, u, "recipient")
    lookups(mon, rng, o, p, u)
    row = [C.enc_var(p, rng) if p else b"", u, b"" if cls in (K.DirectEncryption, K.DirectKeyAgreement) else rng.randbytes(24)]
    d = K.decode(mon, "Enc", C.enc_var(C.Tag(96, [b"", {}, b"x" * 20, [row]]), rng))
    mon.check(type(d.recipients[0]) is cls, "recipient class", type(d.recipients[0]))
    K.headers_match(mon, d.recipients[0], p, u, "recipient after transport")
    lookups(mon, rng, d.recipients[0], p, u)
    mon.saw("recipient classes", alg)


# ---------------------------------------------------------------------------------------------- wire-level layer builder
def wire_maps(rng, alg, n=None):
    p, u = maps(rng, alg, (-1, -2) if alg in R.ECDH else (), n=n)
    if alg in R.ECDH:
        (p if rng.random() < 0.3 else u)[-1 if R.ECDH[alg][0] == "es" else -2] = R.public(G.ec_key(rng.choice([1, 2, 3]), rng))
    if alg in R.KW or alg == -6:
        p, u = {}, {**p, **u}
    return p, u


def side_by_side(rng):
    """Algorithms of recipients that may stand side by side."""
    n = G.layers(rng)
    pool = RCPT if n == 1 else WRAPPING if rng.random() < 0.85 else [-6, -10, -13]
    return [rng.choice(pool) for _ in range(n)]


class Wire:
    """A message on the wire as nested layers; plant() puts one label into one bucket of one of them."""

    def __init__(self, rng, kind, layer, registered=True):
        self.kind = kind
        n = rng.choice([0, 1, 2])
        fix = (lambda h: {k: v for k, v in h.items() if k in K.HDR}) if registered else (lambda h: h)
        mk = lambda p, u: [fix(p), fix(u)]
        self.body = mk(*maps(rng, None if kind == "Sign" else rng.choice({"Sign1": SIG, "Mac0": MACA, "Mac": MACA}.get(kind, AEAD)), (), True, n))
        self.subs, self.nested = [], None
        if kind == "Sign":
            for _ in range(G.layers(rng)):
                self.subs.append((mk(*maps(rng, rng.choice(SIG), (), True, n)), b"sig", None))
        elif kind in ("Mac", "Enc"):
            for a in side_by_side(rng):
                self.subs.append(self.rec(rng, mk, a, n, None))
            if layer == "nested":
                inner = self.rec(rng, mk, rng.choice(RCPT), n, None)
                self.nested = inner
                if rng.random() < 0.3:
                    inner = self.rec(rng, mk, rng.choice(list(R.KW)), n, [inner])
                if len(self.subs) > 1 and not self.subs[0][1]:
                    self.subs = self.subs[:1]           # direct encryption stands next to nothing else
                self.subs[rng.randrange(len(self.subs))] = self.rec(rng, mk, rng.choice(list(R.KW) + [-29, -32]), n, [inner])
        if layer == "body":
            self.target = self.body
        elif layer == "nested":
            self.target = self.nested[0]
        else:
            self.target = rng.choice(self.subs)[0]

    def rec(self, rng, mk, a, n, inner):
        direct = a in (-6, -10, -13) or (a in R.ECDH and R.ECDH[a][2] is None)
        p, u = mk(*wire_maps(rng, a, n))
        return ([p, u], b"" if direct else b"k" * 24, inner)

    def row(self, s):
        (p, u), third, inner = s
        r = [self.pb(p), u, third]
        if inner:
            r.append([self.row(x) for x in inner])
        return r

    def pb(self, p):
        return C.enc_var(p, self.rng, 0.3) if p else b""

    def encode(self, rng):
        self.rng = rng
        arr = [self.pb(self.body[0]), self.body[1], b"ciphertext or payload"]
        if self.kind in ("Sign1", "Mac0", "Mac"):
            arr.append(b"signature or tag")
        if self.subs:
            arr.append([self.row(s) for s in self.subs])
        return C.enc_var(C.Tag(R.MSG_TAG[self.kind], arr), rng, 0.2)

    def match(self, mon, d):
        K.headers_match(mon, d, *self.body, "body")
        todo = list(zip(d.signers if self.kind == "Sign" else d.recipients if self.subs else [], self.subs))
        mon.check(len(todo) == len(self.subs), "number of layers")
        for o, s in todo:
            K.headers_match(mon, o, *s[0], "layer")
            if s[2]:
                mon.check(len(o.recipients) == len(s[2]), "nested recipients", len(o.recipients))
                todo += list(zip(o.recipients, s[2]))


def bucket_of(rng, w, layer):
    """0 protected, 1 unprotected; classes that fix an empty protected header only offer the unprotected one."""
    p, u = w.target
    a = p.get(1, u.get(1))
    return 1 if layer in ("recipient", "nested") and (a in R.KW or a == -6) else rng.randrange(2)


def layers_of(kind):
    return {"Sign": ["body", "signer"], "Mac": ["body", "recipient", "nested"], "Enc": ["body", "recipient", "nested"]}.get(kind, ["body"])


# ----------------------------------------------------------------------------------------------------------- (b) strict
def unknown_label(rng):
    while True:
        r = rng.random()
        if r < 0.45:
            k = G.custom_int(rng)
        elif r < 0.85:
            k = rng.choice(["", "x", "alg2", "al", "ALGO", "kid ", "KID-CONTEXT", "1", "-1", "supp_pub_other", "SUPP_PRIV_OTHER", "iv0"]) if rng.random() < 0.6 else G.custom_label(rng)
        else:
            k = rng.choice([b"kid", b"", -998, -999, 257, 11, 12])
        if not (isinstance(k, str) and k.upper() in NAMES) and k not in K.HDR:
            return k


NAMES = {c.fullname.upper() for c in K.HDR.values()}


def strict(case, mon, rng):
    kind = case["kind"]
    for layer in layers_of(kind):
        w = Wire(rng, kind, layer)
        d = K.decode(mon, kind, w.encode(rng), rng.random() < 0.5, allow_unknown_attributes=False)
        w.match(mon, d)
        mon.saw("strict: original accepted", kind, layer)
        b = bucket_of(rng, w, layer)
        lab = unknown_label(rng)
        text = rng.random() < 0.2       # nor are the names of parameters labels on the wire
        if text:
            lab = rng.choice([str, str.lower])(rng.choice(sorted(NAMES)))
            mon.saw("names of parameters as text labels")
        w.target[b] = G.shuffled(rng, {**w.target[b], lab: G.value(rng)})
        data = w.encode(rng)
        cls = rng.choice([K.CoseMessage, K.MSG[kind]])
        mon.rejects("strict decoding with label %r in the %s %s header" % (lab, layer, ("protected", "unprotected")[b]),
                    cls.decode, data, allow_unknown_attributes=False)
        mon.saw("unknown label refused: " + layer, kind, b, type(lab).__name__)
        if not isinstance(lab, bytes):
            d = K.decode(mon, kind, data, rng.random() < 0.5, **({"allow_unknown_attributes": True} if rng.random() < 0.5 else {}))
            w.match(mon, d)
            mon.saw("wire with unknown label accepted leniently", kind, layer)
        if text:
            continue
        # construction
        cls = K.MSG[kind] if layer == "body" else K.CoseSignature if layer == "signer" else rng.choice([K.DirectEncryption, K.KeyWrap, K.DirectKeyAgreement, K.KeyAgreementWithKeyWrap])
        mon.rejects("strict construction with label %r" % (lab,), cls, **{("phdr", "uhdr")[b]: {lab: 1}, "allow_unknown_attributes": False})
        mon.must("strict construction", cls, **{("phdr", "uhdr")[b]: spelled(mon, rng, {4: b"k", 3: 0}), "allow_unknown_attributes": False})
        mon.saw("unknown label refused: construction", cls.__name__, b)


# ------------------------------------------------------------------------------------------------------------ (c) typed
def bad_value(rng):
    """(label, ill-typed value in reference form)"""
    lab = rng.choice([1, 4, 10, 5, 6, 3, 2, -1, -2])
    if lab == 1:
        v = rng.choice([0, -9, 8, 27, 100, -1000, -65536, 2 ** 40, -2 ** 70, "", "A128GC", "ES-256", "HS257", "unknown", b"ES256", b"\x01", 1.5, None, {}, {1: 1}, [], [-7], [1, 5], ["ES256"], [[-7]], True, False])
    elif lab in (4, 10, 5, 6):
        v = rng.choice([0, 7, -1, "kid", "", [b"kid"], [], {}, {1: b"kid"}, 1.5, True, None, [1, 2]])
    elif lab == 3:
        v = rng.choice([-1, -2, -2 ** 64, -2 ** 70, b"text/plain", b"", [0], ["text/plain"], {}, 0.0, 1.5, None, True, False])
    elif lab == 2:
        v = rng.choice([[], 1, "alg", b"x", None, {}, {1: 2}, [b"x"], [1, b"x"], [[1]], [1, None], [1.5], [1, {}], [True], [1, False], ["x", True]])
    else:
        good = R.public(G.ec_key(1, rng))
        v = rng.choice([
            None, 5, b"key", "key", [], [good], {}, {1: 2}, {**good, 1: 77}, {k: x for k, x in good.items() if k != 1},
            {k: x for k, x in good.items() if k != -1}, {k: x for k, x in good.items() if k not in (-2, -3)}, {**good, -1: 6},
            {**good, -1: 99}, {**good, -2: 5}, {**good, -2: "x"}, {1: 4, -1: b"short"}, {1: 4}, {1: 1, -1: 1, -2: bytes(32)},
            {**good, 3: -9999}, {**good, 3: [-7]}, {**good, 3: []}, {**good, 2: 5}, {**good, 2: "kid"}, {**good, 5: [b"iv"]}, {**good, 4: 7}, {**good, 4: [999]}, {**good, 1: b"EC2"}, {1: 1, -1: 4}])
    return lab, v



def typed(case, mon, rng):
    kind = case["kind"]
    for layer in layers_of(kind):
        for _ in range(3):
            w = Wire(rng, kind, layer, rng.random() < 0.6)
            lab, v = bad_value(rng)
            b = bucket_of(rng, w, layer)
            old = w.target
            bucket = {k: x for k, x in old[b].items()}
            # replace a legal value of this label, or plant it alone
            if lab in old[1 - b]:
                old[1 - b] = {k: x for k, x in old[1 - b].items() if k != lab}
            old[b] = G.shuffled(rng, {**bucket, lab: v})
            data = w.encode(rng)
            for mode in (True, False):
                mon.rejects("decoding with %s=%r in the %s %s header (unknown attributes %s)" % (
                    K.HDR[lab].fullname, v, layer, ("protected", "unprotected")[b], "allowed" if mode else "disallowed"),
                    rng.choice([K.CoseMessage, K.MSG[kind]]).decode, data, allow_unknown_attributes=mode)
            mon.saw("ill-typed refused: " + layer, kind, b, lab, type(v).__name__)
        # building
        cls = K.MSG[kind] if layer == "body" else K.CoseSignature if layer == "signer" else rng.choice([K.DirectEncryption, K.KeyWrap, K.DirectKeyAgreement, K.KeyAgreementWithKeyWrap])
        lab, v = bad_value(rng)
        which = rng.choice(["phdr", "uhdr"])
        bad = K.spell(rng, {lab: v}, "int" if lab == 1 else None) if not isinstance(v, dict) else {K.spelled(rng, K.HDR, lab): v}
        what = "%s with %s=%r" % (cls.__name__, K.HDR[lab].fullname, v)
        mon.rejects("constructing " + what, cls, **{which: bad}, **rng.choice([{}, {"allow_unknown_attributes": rng.random() < 0.5}]))
        mon.saw("ill-typed refused at construction", cls.__name__, lab, which)
        p, u = maps(rng, None, (lab,), False, 1)
        o = mon.must("constructor", cls, phdr=spelled(mon, rng, p), uhdr=spelled(mon, rng, u))
        mon.rejects("assigning " + what, setattr, o, which, bad)
        mon.saw("ill-typed refused at assignment", cls.__name__, lab, which)
        K.headers_match(mon, o, p, u, "after a refused assignment")
        mon.rejects("updating " + what, getattr(o, which + "_update"), bad)
        mon.saw("ill-typed refused at update", cls.__name__, lab, which)
        K.headers_match(mon, o, p, u, "after a refused update")
