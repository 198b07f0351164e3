"""C15 edit histories of keys: random sequences of attribute assignments, deletions and dictionary operations, legal and illegal, judged
after every step against a map that the monitor keeps."""
import random

from .. import cborref as C, coseref as R, gen as G, kit as K
from . import c14

PROP = "C15"
RULE = ("a case is one edit history of a key; non-trivial: at least one edit was accepted and at least one refused, and the whole key was "
        "compared with the model after every edit")
ACC = ("attribute assigned", "item assigned", "item deleted", "updated", "popped", "setdefault")
REF = ("attribute refused: kty", "attribute refused: alg", "attribute refused: kid", "attribute refused: key_ops", "attribute refused: base_iv",
       "attribute refused: crv", "attribute refused: k", "attribute refused: material", "item assignment refused", "deletion refused",
       "emptying refused", "absent item refused")
REQUIRED = {"states compared": 8000, **{a: 400 for a in ACC}, "popped": 100, "setdefault": 100, "updated": 100, **{r: 40 for r in REF},
            "essential deletion attempted": 300, "private part deleted": 30, "refused list with legal prefix": 40, "reloaded": 300}
LEGAL_OPS = {1: [1, 2, 7, 8], 2: [1, 2, 7, 8], 3: [1, 2, 3, 4, 5, 6], 4: [3, 4, 5, 6, 9, 10]}
ILLEGAL_OPS = {1: [3, 4, 5, 6, 9, 10], 2: [3, 4, 5, 6, 9, 10], 3: [9, 10], 4: [1, 2, 7, 8]}
OWN_CRV = {1: [4, 5, 6, 7], 2: [1, 2, 3, 8]}
ATTR = {t: {**c14.COMMON, **c14.FIELD[t]} for t in c14.FIELD}


def cases(tier, rng):
    for rep in range({"quick": 400, "thorough": 8000}[tier]):
        for kty in c14.VARIANTS:
            for v in c14.VARIANTS[kty]:
                yield {"kty": kty, "variant": v, "n": rng.choice([10, 20, 40]), "s": rng.getrandbits(48)}


def legal(rng, kty, lab):
    """(value as a user may write it, reference form)"""
    how = rng.choice(["class", "int", "name"])
    if lab == 1:
        return K.spelled(rng, K.KTY, kty, how), kty
    if lab == 3:
        a = rng.choice(list(K.ALG))
        return K.spelled(rng, K.ALG, a, how), a
    if lab == 4:
        ops = rng.sample(LEGAL_OPS[kty], rng.choice([0, 1, 1, 2, 4]))
        return [K.OPS[o] if how == "class" else o if how == "int" else K.OPS[o].fullname for o in ops], ops
    if lab == 2:
        v = G.kid(rng)
    elif lab == 5:
        v = G.blob(rng, rng.choice([0, 7, 12, 13]))
    elif lab == -1 and kty in OWN_CRV:
        c = rng.choice(OWN_CRV[kty])
        return K.spelled(rng, K.CRV, c, how), c
    elif kty == 4 and lab == -1:
        v = G.blob(rng, rng.choice([16, 24, 32]))
    elif kty == 3 and lab == -9:
        v = [{-10: rng.randbytes(9), -11: rng.randbytes(9), -12: rng.randbytes(9)}]
    else:
        v = G.blob(rng, rng.choice([1, 31, 32, 48, 66, 128]))
    return v, v


def illegal(rng, kty, lab):
    if lab == 1:
        o = rng.choice([t for t in (1, 2, 3, 4) if t != kty])
        return rng.choice([o, K.KTY[o], K.KTY[o].fullname, 0, 5, 99, -7, "FOO", None, [kty], [K.KTY[kty]], b"\x02", 2.5])
    if lab == 3:
        return rng.choice([99, -999, 10 ** 9, "NOPE", "ES257", None, b"ES256", [-7], [K.ALG[-7]], 1.5, {}, K.CRV[1].fullname])
    if lab == 4:
        bad = rng.choice(ILLEGAL_OPS[kty])
        bad = rng.choice([bad, K.OPS[bad], K.OPS[bad].fullname, 0, 11, 99, "NOPE", None, b"\x01", True, False, 1.0, [], {}, ""])
        good = [K.OPS[o] for o in LEGAL_OPS[kty]]
        if rng.random() < 0.25:
            return rng.choice([None, 5, "NOPE", tuple(good[:1]), {"x": 1}, 1.5, b"\x01", K.OPS[LEGAL_OPS[kty][0]]])
        n = rng.choice([0, 1, 2])
        return good[:n] + [bad] + good[n:][:rng.choice([0, 1])]
    if lab in (2, 5):
        return rng.choice(["text", 5, None, bytearray(b"x"), [b"x"], 1.5, {}, True])
    if lab == -1 and kty in OWN_CRV:
        o = rng.choice(OWN_CRV[3 - kty])
        return rng.choice([o, K.CRV[o], K.CRV[o].fullname, 0, 9, 99, "NOPE", None, [OWN_CRV[kty][0]], b"\x01", 1.5])
    if kty == 4 and lab == -1:
        return rng.choice([b"", bytes(15), bytes(17), bytes(23), bytes(25), bytes(31), bytes(33), bytes(64), bytes(rng.randrange(34, 300)),
                           "k" * 16, "k" * 32, 5, None, bytearray(16), bytearray(32), [0] * 16, {i: 0 for i in range(16)}, (0,) * 24])
    if kty == 3 and lab == -9:
        return rng.choice([b"x", "x", 5, None, {}, ()])
    return rng.choice(["text", 5, None, bytearray(b"x" * 32), [b"x"], 1.5, {}, True, False])


def alive(kty, m):
    if m.get(1) != kty:
        return False
    if kty in OWN_CRV:
        return m.get(-1) in OWN_CRV[kty] and (-2 in m or -4 in m)
    if kty == 3:
        return -1 in m and -2 in m
    return -1 in m and len(m[-1]) in (16, 24, 32)


class State:
    def __init__(self, mon, rng, kty, variant):
        self.mon, self.rng, self.kty = mon, rng, kty
        given, _ = c14.material(rng, kty, variant)
        opt = c14.optional(rng, kty)
        opt = {k: ([o for o in v if o in LEGAL_OPS[kty]] or [LEGAL_OPS[kty][0]]) if k == 4 else v for k, v in opt.items()}
        self.key = K.key(rng, {**given, **opt}, rng.choice(["dict", "cls", "names", "cbor"]))
        self.m = K.norm(self.key)
        self.history = []
        self.pristine = True        # key material as constructed

    def compare(self, what):
        mon, key = self.mon, self.key
        w = "%s after %s" % (what, self.history[-8:])
        got = K.norm(key)
        mon.check(C.same(got, self.m), w + ": key shows", got, self.m)
        data = mon.must(w + ": encode", key.encode)
        enc = C.dec(data)
        mon.check(C.same(enc, self.m), w + ": encoded key", enc, self.m)
        mon.check(alive(self.kty, enc), w + ": key lost its type, curve or material", enc)
        mon.check(type(key) is c14.CLASSES[self.kty], w + ": class")
        for lab, a in ATTR[self.kty].items():
            v = getattr(key, a)
            if lab in self.m:
                mon.check(C.same(K.norm(v), self.m[lab]), "%s: attribute %s reads" % (w, a), v, self.m[lab])
                mon.check(C.same(K.norm(key[lab]), self.m[lab]), "%s: item %d reads" % (w, lab), key[lab])
            else:
                mon.check(v in (b"", [], None) and lab not in key, "%s: deleted %s reads" % (w, a), v)
        mon.check(len(key) == len(self.m) and set(K.norm(list(key))) == set(self.m), w + ": labels")
        for lab in self.m:
            k = self.label(lab)
            mon.check(k in key and C.same(K.norm(key.get(k, "none")), self.m[lab]), "%s: label %r" % (w, lab))
        mon.saw("states compared", self.kty, self.history[-1] if self.history else "")

    def label(self, lab, exact=False):
        """A spelling of the label; text labels as they are."""
        if isinstance(lab, int) and lab in K.KPARAM[self.kty]:
            return K.spelled(self.rng, K.KPARAM[self.kty], lab)
        return lab

    def refuse(self, note, what, fn, *a, tag=None):
        self.history.append(note)
        self.mon.rejects("%s [%s]" % (what, self.history[-8:]), fn, *a)
        self.compare(what + " was refused, and")
        self.mon.saw(tag)

    def accept(self, note, what, fn, *a, tag=None):
        self.history.append(note)
        r = self.mon.must("%s [%s]" % (what, self.history[-8:]), fn, *a)
        self.mon.saw(tag)
        return r

    def store(self, lab, ref):
        if lab == 4 and not ref:
            self.m.pop(4, None)
        else:
            self.m[lab] = ref
        if isinstance(lab, int) and lab < 0 and lab in K.KPARAM[self.kty]:
            self.pristine = False

    def pick(self):
        labs = list(ATTR[self.kty])
        return self.rng.choice(labs + [1, 2, 3, 4, 5])

    # -- edits --------------------------------------------------------------------------------------------------------
    def assign_attr(self):
        lab = self.pick()
        if lab < 0 and self.rng.random() < 0.6 and not (self.kty in OWN_CRV and lab == -1):
            lab = self.rng.choice([1, 2, 3, 4, 5])
        v, ref = legal(self.rng, self.kty, lab)
        a = ATTR[self.kty][lab]
        self.accept("%s=" % a, "%s = %r" % (a, v), setattr, self.key, a, v, tag="attribute assigned")
        self.store(lab, ref)
        self.compare("assigning %s" % a)

    def bad_attr(self):
        lab = self.pick()
        if self.kty in OWN_CRV and self.rng.random() < 0.2:
            lab = -1
        v = illegal(self.rng, self.kty, lab)
        a = ATTR[self.kty][lab]
        tag = "attribute refused: " + (a if lab > 0 or a in ("crv", "k") else "material")
        if lab == 4 and isinstance(v, list) and len(v) > 1:
            self.mon.saw("refused list with legal prefix")
        self.refuse("%s!" % a, "%s = %r" % (a, v), setattr, self.key, a, v, tag=tag)

    def assign_item(self):
        if self.rng.random() < 0.4:
            lab = self.custom()
            v = ref = self.value()
        else:
            lab = self.rng.choice([1, 2, 3, 4, 5, -1])
            v, ref = legal(self.rng, self.kty, lab)
        k = self.label(lab)
        self.accept("[%r]=" % (lab,), "key[%r] = %r" % (k, v), self.key.__setitem__, k, v, tag="item assigned")
        self.store(lab, ref)
        self.compare("assigning an item")

    def bad_item(self):
        lab = self.pick()
        v = illegal(self.rng, self.kty, lab)
        k = self.label(lab)
        self.refuse("[%r]!" % (lab,), "key[%r] = %r" % (k, v), self.key.__setitem__, k, v, tag="item assignment refused")

    def value(self):
        return self.rng.choice([None, False, 0, b"", "", [], {}]) if self.rng.random() < 0.25 else G.value(self.rng)

    def custom(self):
        while True:
            lab = G.custom_label(self.rng)
            if not (isinstance(lab, int) and -12 <= lab <= 5):
                return lab

    def delete(self):
        rng, m = self.rng, self.m
        r = rng.random()
        lab = rng.choice(list(m)) if r < 0.5 else rng.choice(list(ATTR[self.kty])) if r < 0.9 else self.custom()
        k = self.label(lab)
        via = rng.choice(["del", "del", "pop", "pop default"])
        fn = {"del": lambda: self.key.__delitem__(k), "pop": lambda: self.key.pop(k), "pop default": lambda: self.key.pop(k, "none")}[via]
        what = "%s key[%r]" % (via, k)
        note = "-[%r]" % (lab,)
        material = isinstance(lab, int) and lab < 0 and lab in K.KPARAM[self.kty]
        if lab not in m:
            if via == "pop default":
                r = self.accept(note, what, fn, tag="popped")
                self.mon.check(r == "none", what + ": default not returned", r)
                return self.compare(what)
            return self.refuse(note, what, fn, tag="absent item refused")
        rest = {a: b for a, b in m.items() if a != lab}
        if not alive(self.kty, rest):
            self.mon.saw("essential deletion attempted", self.kty, lab)
            return self.refuse(note, what, fn, tag="deletion refused")
        was = m[lab]
        if not material or (lab == -4 and -2 in m and (self.kty == 1 or -3 in m) and self.kty != 3) or (self.kty == 1 and lab == -2 and -4 in m):
            r = self.accept(note, what, fn, tag="item deleted")
            if via != "del":
                self.mon.check(C.same(K.norm(r), was), what + ": popped value", r, was)
                self.mon.saw("popped")
            del m[lab]
            if material:
                self.mon.saw("private part deleted")
            return self.compare(what)
        # the remaining material deletions may be refused, but then nothing may have changed
        self.history.append(note)
        try:
            fn()
        except Exception as e:
            self.mon.saw("deletion declined", type(e).__name__)
            return self.compare(what + " was declined, and")
        self.pristine = False
        self.mon.saw("item deleted")
        gone = set(m) - set(K.norm(list(self.key)))
        self.mon.check(lab in gone and gone <= ({-2, -3} if self.kty == 2 and lab in (-2, -3) else {lab}), what + ": removed", gone)
        for g in gone:
            del m[g]
        self.compare(what)

    def empty(self):
        fn = self.rng.choice([self.key.clear, self.key.popitem])
        self.refuse("clear", "emptying the key", fn, tag="emptying refused")

    def update(self):
        labs = self.rng.sample([2, 3, 4, 5], self.rng.choice([1, 2, 4])) + [self.custom()]
        new, refs = {}, {}
        for lab in labs:
            v, ref = legal(self.rng, self.kty, lab) if lab in (2, 3, 4, 5) else (self.value(),) * 2
            new[self.label(lab)] = v
            refs[lab] = ref
        self.accept("update", "update(%r)" % (new,), self.key.update, new, tag="updated")
        for lab, ref in refs.items():
            self.store(lab, ref)
        self.compare("update")

    def setdefault(self):
        lab = self.rng.choice([1, 2, 3, 5, -1, self.custom()])
        v, ref = legal(self.rng, self.kty, lab) if isinstance(lab, int) and lab in ATTR[self.kty] else (self.value(),) * 2
        k = self.label(lab)
        self.accept("setdefault", "setdefault(%r, %r)" % (k, v), self.key.setdefault, k, v, tag="setdefault")
        if lab not in self.m:
            self.store(lab, ref)
        self.compare("setdefault")

    def reload(self):
        """What was accepted is what a decoder of the encoding sees; only with the material it was constructed with."""
        if not self.pristine:
            return
        key = self.mon.must("decoding the edited key %s" % self.history[-8:], K.CoseKey.decode, self.key.encode())
        got = K.norm(key)
        want = {**{k: v for k, v in got.items() if self.kty == 2 and k in (-2, -3) and k not in self.m}, **self.m}
        self.mon.check(C.same(got, want), "edited and decoded key", got, want, self.history[-8:])
        self.mon.saw("reloaded")


EDITS = [(State.assign_attr, 22), (State.bad_attr, 26), (State.assign_item, 14), (State.bad_item, 10), (State.delete, 26), (State.empty, 2),
         (State.update, 4), (State.setdefault, 4), (State.reload, 4)]


def run(case, mon):
    rng = random.Random(case["s"])
    st = State(mon, rng, case["kty"], case["variant"])
    st.compare("construction")
    for _ in range(case["n"]):
        rng.choices([e for e, _ in EDITS], [w for _, w in EDITS])[0](st)
    st.reload()
