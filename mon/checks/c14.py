"""C14 COSE_Key: keys of every type are built in every spelling and from every encoding, encoded, decoded and compared with their map;
invalid maps are planted next to the accepted original."""
import base64
import random

from .. import cborref as C, coseref as R, gen as G, kit as K

PROP = "C14"
RULE = ("a case is one key map taken through all spellings and several encodings, or one valid key map with planted defects; non-trivial: "
        "its encoding was compared with the map, or the original was accepted and a defect judged")
FORMS = ("dict", "cls", "names", "mixed", "cbor", "var", "wire names", "ctor")
VARIANTS = {2: ("public", "private", "x only", "d only", "sign", "d+x", "d+y", "d+sign"), 1: ("public", "private", "d only"),
            3: ("public", "private", "multi-prime", "multi-prime, all labels"), 4: ("symmetric",)}
BAD = ("type missing", "type unknown", "type contradictory", "curve missing", "curve of another family", "curve unknown", "material missing",
       "material ill-typed", "symmetric length", "RSA incomplete")
REQUIRED = {"maps compared": 2000, **{"form: " + f: 150 for f in FORMS}, **{"refused: " + b: 100 for b in BAD},
            **{"variant: %d %s" % (t, v): 15 for t in VARIANTS for v in VARIANTS[t]}, "leading zero": 60, "parameters read": 2000, "text forms": 900}
CLASSES = {1: K.OKPKey, 2: K.EC2Key, 3: K.RSAKey, 4: K.SymmetricKey}
FIELD = {1: {-1: "crv", -2: "x", -4: "d"}, 2: {-1: "crv", -2: "x", -3: "y", -4: "d"},
         3: {-1: "n", -2: "e", -3: "d", -4: "p", -5: "q", -6: "dp", -7: "dq", -8: "qinv", -9: "other", -10: "r_i", -11: "d_i", -12: "t_i"}, 4: {-1: "k"}}
COMMON = {1: "kty", 2: "kid", 3: "alg", 4: "key_ops", 5: "base_iv"}


def cases(tier, rng):
    for rep in range({"quick": 180, "thorough": 4000}[tier]):
        yield {"do": "text", "s": rng.getrandbits(48)}
        for kty in VARIANTS:
            for v in VARIANTS[kty]:
                yield {"do": "roundtrip", "kty": kty, "variant": v, "s": rng.getrandbits(48)}
                if rep % 2:
                    yield {"do": "invalid", "kty": kty, "variant": v, "s": rng.getrandbits(48)}


def material(rng, kty, variant):
    """(map as given, map the key must show; None for a Y that may be either of the two)"""
    if kty == 4:
        k = G.sym_key(rng.choice([16, 24, 32]), rng)
        return k, k
    if kty == 1:
        k = G.okp_key(rng.choice([4, 5, 6, 7]), rng)
        k = R.public(k) if variant == "public" else {a: b for a, b in k.items() if variant == "private" or a != -2}
        return k, k
    if kty == 3:
        k = dict(G.rsa_key(rng))
        if rng.random() < 0.3:          # the map is a map, whatever the numbers: leading zeros, odd lengths
            for lab in list(k):
                if lab != 1:
                    k[lab] = G.blob(rng, rng.choice([1, 3, 64, 65, 128, 256]))
        if variant == "public":
            k = R.public(k)
        if variant.startswith("multi-prime"):
            k[-9] = [{-10: rng.randbytes(64), -11: rng.randbytes(64), -12: b"\x00" + rng.randbytes(63)} for _ in range(rng.choice([1, 1, 2, 3]))]
        if variant == "multi-prime, all labels":
            k.update({lab: G.blob(rng, rng.choice([1, 63, 64])) for lab in (-10, -11, -12)})
        return k, k
    k = G.ec_key(rng.choice([1, 2, 3, 8]), rng)
    full = dict(k)
    odd = bool(k[-3][-1] & 1)
    drop = {"public": [-4], "private": [], "x only": [-3, -4], "d only": [-2, -3], "sign": [-4], "d+x": [-3], "d+y": [-2], "d+sign": []}[variant]
    k = {a: b for a, b in k.items() if a not in drop}
    if variant in ("sign", "d+sign"):
        k[-3] = odd
    if variant in ("public", "x only", "sign"):
        del full[-4]
    if variant == "x only":
        full[-3] = None
    return k, full


def optional(rng, kty):
    out = {}
    if rng.random() < 0.5:
        out[2] = G.kid(rng)
    if rng.random() < 0.5:
        out[3] = rng.choice(list(K.ALG))
    if rng.random() < 0.5:
        out[4] = rng.sample(list(K.OPS), rng.choice([1, 1, 2, 5, 10]))
    if rng.random() < 0.4:
        out[5] = G.blob(rng, rng.choice([0, 1, 8, 12, 13]))
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        lab = G.custom_label(rng)
        if not (isinstance(lab, int) and (lab in K.KPARAM[kty] or -12 <= lab <= 5)) and lab not in out:
            out[lab] = G.value(rng)
    if kty == 1 and rng.random() < 0.15:
        out[-3] = rng.randbytes(4)      # no parameter of this key type
    if kty == 4 and rng.random() < 0.2:
        out[rng.choice([-2, -3, -4])] = rng.randbytes(4)
    return out


def names(rng, m, kty, how):
    """Spelling with classes, integers and names: one kind or mixed. Names may be in any letter case."""
    out = {}
    for k, v in m.items():
        h = rng.choice(["int", "cls", "names"]) if how == "mixed" else how
        lab = k
        if isinstance(k, int) and k in K.KPARAM[kty] and h != "int":
            c = K.KPARAM[kty][k]
            lab = c if h == "cls" else K.case_of(rng, c.fullname)
        hv = rng.choice(["int", "cls", "names"]) if how == "mixed" else how
        if k == 4 and how == "mixed":
            v = [K.keyval(k, x, rng.choice(["int", "cls", "names"]), kty) for x in v]
        else:
            v = K.keyval(k, K.copy(v), hv, kty)
            if isinstance(v, str) and isinstance(k, int) and (k in (1, 3, 4) or k == -1 and kty in (1, 2)):
                v = K.case_of(rng, v)
        out[lab] = v
    return out


def wire(m):
    """Reference form of a spelled map: what is left are integers, names and values."""
    return {(k.identifier if isinstance(k, type) else k): ([x.identifier if isinstance(x, type) else x for x in v] if isinstance(v, list) else
            v.identifier if isinstance(v, type) else v) for k, v in m.items()}


def make(mon, rng, m, kty, form):
    cls = CLASSES[kty]
    what = "key of type %d built from %s" % (kty, form)
    frm = rng.choice([K.CoseKey.from_dict, cls.from_dict])
    if form == "dict":
        return mon.must(what, frm, dict(m))
    if form in ("cls", "names", "mixed"):
        d = names(rng, m, kty, form)
        return mon.must(what, frm, d)
    if form == "wire names":
        return mon.must(what, K.CoseKey.decode, C.enc(wire(names(rng, m, kty, rng.choice(["names", "mixed"])))))
    if form in ("cbor", "var"):
        dec = rng.choice([K.CoseKey.decode, cls.decode])
        return mon.must(what, dec, C.enc(G.shuffled(rng, m)) if form == "cbor" else C.enc_var(m, rng, rng.choice([0.2, 0.5, 1.0])))
    f = FIELD[kty]
    opt = names(rng, {k: v for k, v in m.items() if k not in f and k != 1}, kty, rng.choice(["int", "cls", "names", "mixed"]))
    if rng.random() < 0.3:
        opt[rng.choice([1, K.keyparam.KpKty, "KTY"])] = K.KTY[kty]
    args = {f[k]: K.keyval(k, v, rng.choice(["int", "cls", "names"]), kty) for k, v in m.items() if k in f}
    return mon.must(what, cls, optional_params=opt, **args)


def expected(got, want):
    """The expectation with a free Y filled in from either solution."""
    if want.get(-3, 0) is not None or 1 not in want or want[1] != 2:
        return want
    n = R.CURVES[want[-1]][2]
    ys = [y.to_bytes(n, "big") for y in R.solve_y(want[-1], int.from_bytes(want[-2], "big"))]
    return {**want, -3: got.get(-3) if got.get(-3) in ys else ys[0]}


def compare(mon, key, want, what):
    kty = want[1]
    mon.check(type(key) is CLASSES[kty], what + ": class", type(key))
    data = mon.must(what + ": encode", key.encode)
    mon.check(type(data) is bytes, what + ": encode() returned", data)
    try:
        got = C.dec(data)
    except C.CBORError as e:
        mon.check(False, what + ": encoding is not well-formed CBOR", e, data)
    mon.check(isinstance(got, dict), what + ": encoding is not a map", got)
    want = expected(got, want)
    mon.check(C.same(got, want), what + ": encoded map", got, want)
    mon.check(C.same(K.norm(key), want), what + ": parameters", K.norm(key), want)
    mon.saw("maps compared", kty)
    return want


def read(mon, rng, key, want, what):
    kty = want[1]
    for k, v in want.items():
        shown = [key[k]]
        if isinstance(k, int) and k in K.KPARAM[kty]:
            c = K.KPARAM[kty][k]
            shown += [key[c], key[K.case_of(rng, c.fullname)]]
            mon.check(c in key and c.fullname in key, what + ": parameter not found by class or name", k)
        a = COMMON.get(k) or FIELD[kty].get(k)
        if isinstance(k, int) and a:
            shown.append(getattr(key, a))
        for s in shown:
            mon.check(C.same(K.norm(s), v), what + ": parameter %r reads" % (k,), s, v)
        mon.check(k in key, what + ": parameter not found", k)
        mon.saw("parameters read")
    mon.check(len(key) == len(want), what + ": number of parameters", len(key), len(want))
    for k, a, d in ((2, "kid", b""), (3, "alg", None), (4, "key_ops", []), (5, "base_iv", b"")):
        if k not in want:
            mon.check(getattr(key, a) == d and k not in key, what + ": absent parameter reads", a, getattr(key, a))
    for k, a in FIELD[kty].items():
        if k not in want:
            mon.check(getattr(key, a) in (b"", []) and k not in key, what + ": absent parameter reads", a, getattr(key, a))


def roundtrip(case, mon, rng):
    kty = case["kty"]
    given, want = material(rng, kty, case["variant"])
    opt = optional(rng, kty)
    m, want = G.shuffled(rng, {**given, **opt}), {**want, **opt}
    mon.saw("variant: %d %s" % (kty, case["variant"]))
    if any(isinstance(v, bytes) and v[:1] == b"\0" for k, v in m.items() if isinstance(k, int) and k < 0):
        mon.saw("leading zero")
    for form in FORMS:
        what = "%s key (type %d) as %s" % (case["variant"], kty, form)
        key = make(mon, rng, m, kty, form)
        w = compare(mon, key, want, what)
        mon.saw("form: " + form, kty, case["variant"])
        if form in ("dict", "var"):
            read(mon, rng, key, w, what)
        for data in (key.encode(), C.enc_var(w, rng)):
            again = mon.must(what + " decoded again", rng.choice([K.CoseKey.decode, CLASSES[kty].decode]), data)
            compare(mon, again, w, what + " decoded again")
        mon.check(key == mon.must(what + " decoded", K.CoseKey.decode, key.encode()), what + ": not equal to its decoded encoding", key)
        copy = mon.must(what + " copied", K.CoseKey.from_dict, dict(key))
        compare(mon, copy, w, what + " copied")


def drop(m, *labs):
    return {k: v for k, v in m.items() if k not in labs}


def misspelled(rng, table, i):
    """Texts that are almost a registered name"""
    n = table[i].fullname
    known = {c.fullname.upper() for c in table.values()}
    out = [" " + n, n + " ", n + "\n", "\t" + n.lower(), n + "\0", n[:-1], n[1:], n + n[-1], n.replace("_", "-"), n.replace("_", ""), n.replace("_", " "),
           n.replace("-", "_"), n.replace("-", ""), str(i), hex(i), n + "s", '"%s"' % n, "KTY_" + n]
    return rng.sample([t for t in out if t.upper() not in known], 3)


def defects(rng, m, kty):
    """(kind, map) pairs"""
    out = [("type missing", drop(m, 1))]
    out += [("type unknown", {**m, 1: t}) for t in (0, 5, 99, -1, "EC3", b"\x02", None, [2], 2.5, *misspelled(rng, K.KTY, kty))]
    own = {1: (4, 5, 6, 7), 2: (1, 2, 3, 8)}
    if kty in own:
        out += [("curve missing", drop(m, -1)), ("curve missing", {**m, -1: None})]
        out += [("curve of another family", {**m, -1: c}) for c in own[3 - kty]]
        out += [("curve unknown", {**m, -1: c}) for c in (0, 9, 99, -1, "P_257", b"\x01", 1.5, *misspelled(rng, K.CRV, m[-1]))]
        out.append(("material missing", drop(m, -2, -3, -4)))
        out.append(("material missing", {**drop(m, -2, -3, -4), -2: b"", -4: b""}))
        for lab in (-2, -4):
            if lab in m:
                out += [("material ill-typed", {**m, lab: v}) for v in (5, m[lab].hex(), [m[lab]], 1.5)]
    for lab in (2, 5):
        out += [("%s ill-typed" % ("key id", "base IV")[lab == 5], {**m, lab: v}) for v in ("kid", 5, None, [b"kid"], {}, True, 1.5)]
    out += [("algorithm unknown", {**m, 3: v}) for v in (0, 9999, "ES257", "", [], [m.get(3, 1)], [1, 5], True, None, b"ES256", 1.5, {}, *misspelled(rng, K.ALG, rng.choice(list(K.ALG))))]
    out += [("operations unknown", {**m, 4: [v]}) for v in misspelled(rng, K.OPS, rng.choice(list(K.OPS)))]
    out += [("operations unknown", {**m, 4: v}) for v in (3, "SIGN", "", b"", [0], [99], ["nope"], [True], [None], [1.0], [b"x"], {1: 2}, None, True)]
    if kty == 2:
        if -3 in m:
            out += [("material ill-typed", {**m, -3: v}) for v in (5, 1, "y", [b"y"], 1.5, {1: 2})]
        if -3 in m and -4 not in m:
            out.append(("material missing", drop(m, -2)))
    if kty == 4:
        out += [("material missing", drop(m, -1)), ("material missing", {**m, -1: b""})]
        out += [("symmetric length", {**m, -1: G.blob(rng, n)}) for n in
                (1, 8, 15, 17, 23, 25, 31, 33, 48, 64, rng.choice([x for x in range(1, 300) if x not in (16, 24, 32)]))]
        out += [("material ill-typed", {**m, -1: v}) for v in (5, "k" * 16, "k" * 32, [m[-1]], [1] * 16, {1: 2}, True)]
    if kty == 3:
        for lab in (-1, -2):
            out += [("material missing", drop(m, lab)), ("material missing", {**m, lab: b""})]
            out += [("material ill-typed", {**m, lab: v}) for v in (5, m[lab].hex(), [m[lab]])]
        priv = [l for l in range(-8, -2) if l in m]
        if priv:
            for lab in priv:
                out += [("material ill-typed", {**m, lab: v}) for v in (5, m[lab].hex(), [m[lab]])]
                out += [("RSA incomplete", drop(m, lab)), ("RSA incomplete", {**m, lab: b""})]
            for _ in range(6):
                out.append(("RSA incomplete", drop(m, *rng.sample(priv, rng.randint(1, len(priv) - 1)))))
            if -9 in m:
                out.append(("RSA incomplete", drop(m, *priv)))
            if -10 in m:
                out += [("RSA incomplete", drop(m, lab)) for lab in (-9, -10, -11, -12)]
                out.append(("RSA incomplete", drop(m, *rng.sample([-10, -11, -12], 2))))
            else:
                out.append(("RSA incomplete", {**m, rng.choice([-10, -11, -12]): rng.randbytes(9)}))
        else:
            for lab in range(-8, -2):
                out.append(("RSA incomplete", {**m, lab: rng.randbytes(64)}))
            out.append(("RSA incomplete", {**m, -9: [{-10: b"r", -11: b"d", -12: b"t"}]}))
    return out


def invalid(case, mon, rng):
    kty = case["kty"]
    given, _ = material(rng, kty, case["variant"])
    m = G.shuffled(rng, {**given, **optional(rng, kty)})
    m = drop(m, *[k for k in m if isinstance(k, int) and k in (-3,) and kty == 1])
    mon.must("valid key map", K.CoseKey.from_dict, dict(m))
    mon.must("valid key map decoded", K.CoseKey.decode, C.enc(m))
    cls = CLASSES[kty]
    for kind, bad in defects(rng, m, kty):
        what = "key map (type %d, %s), %s: %s" % (kty, case["variant"], kind, {k: bad.get(k, "-") for k in set(m) | set(bad) if not C.same({0: m.get(k, "-")}, {0: bad.get(k, "-")})})
        mon.rejects(what, K.CoseKey.from_dict, dict(bad))
        mon.rejects(what + ", encoded", K.CoseKey.decode, C.enc(bad))
        if kind not in ("type missing",):
            mon.rejects(what + ", class method", cls.from_dict, dict(bad))
        mon.saw("refused: " + kind, kty, case["variant"])
        f = FIELD[kty]
        opt = {k: v for k, v in bad.items() if k not in f}
        if kind.split()[0] in ("key", "base", "algorithm", "operations"):
            mon.rejects(what + ", optional parameters", cls, **{f[k]: v for k, v in m.items() if k in f}, optional_params={k: v for k, v in opt.items() if k != 1})
            if kty in (1, 2):
                mon.rejects(what + ", generated", cls.generate_key, m[-1], opt)
            elif kty == 4:
                mon.rejects(what + ", generated", cls.generate_key, len(m[-1]), opt)
        elif not kind.startswith("type"):
            mon.rejects(what + ", constructor", cls, **{**({"crv": None} if kty in (1, 2) else {"k": b""} if kty == 4 else {}),
                                                        **{f[k]: v for k, v in bad.items() if k in f}})
    for other in VARIANTS:
        if other == kty:
            continue
        what = "key map of type %d with type" % kty
        mon.rejects("%s %d: %s" % (what, other, "class method"), cls.from_dict, {**m, 1: K.keyval(1, other, rng.choice(["int", "cls"]), kty)})
        mon.rejects("%s %d: constructor" % (what, other), cls, **{FIELD[kty][k]: v for k, v in m.items() if k in FIELD[kty]},
                    optional_params={rng.choice([1, K.keyparam.KpKty, "KTY", "kty"]): K.keyval(1, other, rng.choice(["int", "cls", "names"]), kty)})
        mon.rejects("key map of type %d given to the class of type %d" % (kty, other), CLASSES[other].from_dict, dict(m))
        mon.saw("refused: type contradictory", kty, other)


def text(case, mon, rng):
    """Key bytes as BASE64 text, in either alphabet, padded or not."""
    for n in (0, 1, 2, 3, 16, 24, 31, 32, 33, 66, rng.randrange(1, 600)):
        b = G.blob(rng, n)
        cls = rng.choice(list(CLASSES.values()) + [K.CoseKey])
        std = base64.b64encode(b).decode()
        mon.eq(mon.must("base64encode", cls.base64encode, b), std, "key bytes as text")
        for t in {std, std.rstrip("="), base64.urlsafe_b64encode(b).decode(), base64.urlsafe_b64encode(b).decode().rstrip("=")}:
            mon.eq(mon.must("base64decode", cls.base64decode, t), b, "key bytes from the text %s" % t)
            mon.saw("text forms", n, t.endswith("="), "-" in t or "_" in t)


def run(case, mon):
    {"roundtrip": roundtrip, "invalid": invalid, "text": text}[case["do"]](case, mon, random.Random(case["s"]))
