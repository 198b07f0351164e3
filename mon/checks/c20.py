"""C20 purity, repeatability and isolation.  Snapshot monitors compare everything the caller supplied before and after each operation;
programs working on messages and keys of their own, and on shared keys, record their results alone, interleaved step by step, under a
line-level scheduler that hands the interpreter from thread to thread inside pycose, and in free-running threads."""
import os
import random
import sys
import threading


import cbor2
import pycose

from .. import cborref as C, coseref as R, gen as G, kit as K
from ..core import Violation, short

H = K.headers
PROP = "C20"
RULE = ("a case is one batch of operations with snapshots, one isolation scenario, or one set of programs run alone and together; "
        "non-trivial: a snapshot was compared, an outcome was repeated, or a schedule with at least one switch was executed")
REQUIRED = {"arguments unchanged": 6000, "keys unchanged": 1500, "outcome repeated": 1000, "assigned map independent": 1200,
            "default values independent": 300, "caller's object independent": 800, "programs run alone": 350,
            "interleaved runs": 30, "scheduled runs": 60, "switches inside pycose": 8000, "free-running runs": 30, "programs agreed": 350,
            "decoded twice independent": 150, "refused without trace": 2500, "worked once put right": 2500,
            "message headers unchanged": 1500, "certificate operations repeated": 400, "chains verified twice": 30, "chains refused twice": 90, "embedded keys": 150}


def cases(tier, rng):
    n = {"quick": 130, "thorough": 2500}[tier]
    for rep in range(n):
        for kind in K.MSG:
            yield {"do": "pure", "kind": kind, "s": rng.getrandbits(48)}
            yield {"do": "failures", "kind": kind, "s": rng.getrandbits(48)}
        yield {"do": "keys", "s": rng.getrandbits(48)}
        yield {"do": "isolation", "s": rng.getrandbits(48)}
        for how in ("steps", "lines", "lines", "threads"):
            yield {"do": "together", "how": how, "s": rng.getrandbits(48)}
        if rep % 2 == 0:
            yield {"do": "certificates", "s": rng.getrandbits(48)}


def run(case, mon):
    {"pure": pure, "failures": failures, "keys": keys, "isolation": isolation, "together": together, "certificates": certificates}[case["do"]](case, mon, random.Random(case["s"]))


# ------------------------------------------------------------------------------------------------------- snapshots
def snap(x, d=0):
    """A value that changes whenever the caller could notice a change of x."""
    if d > 30:
        return "deep"
    if isinstance(x, K.CoseKey):
        return ("key", type(x).__name__, snap(dict(x), d + 1))
    if isinstance(x, dict):
        return ("dict", [(snap(k, d + 1), snap(v, d + 1)) for k, v in x.items()])
    if isinstance(x, (list, tuple, set)):
        return (type(x).__name__, [snap(v, d + 1) for v in x])
    if isinstance(x, type):
        return x
    if isinstance(x, (bytes, bytearray)):
        return (type(x).__name__, bytes(x))
    if isinstance(x, cbor2.CBORTag):
        return ("tag", x.tag, snap(x.value, d + 1))
    if x is None or isinstance(x, (bool, int, float, str)):
        return (type(x).__name__, repr(x))
    return ("obj", type(x).__name__)


class Guard:
    """Snapshots of the objects the caller keeps; compared after every operation."""

    def __init__(self, mon, **objs):
        self.mon, self.objs = mon, dict(objs)
        self.shots = {k: snap(v) for k, v in objs.items()}

    def add(self, name, obj):
        self.objs[name] = obj
        self.shots[name] = snap(obj)
        return obj

    def after(self, what):
        for k, v in self.objs.items():
            now = snap(v)
            if now != self.shots[k]:
                raise Violation("%s changed %s: %s -> %s" % (what, k, short(self.shots[k]), short(now)))
            self.mon.saw("keys unchanged" if isinstance(v, K.CoseKey) else "arguments unchanged")
        self.mon.saw("operations snapshot", what)

    def do(self, what, fn, *a, **kw):
        r = self.mon.must(what, fn, *a, **kw)
        self.after(what)
        return r

    def may(self, what, fn, *a, **kw):
        """The operation may also fail; even then nothing may change."""
        try:
            r = fn(*a, **kw)
        except Exception as e:
            if type(e).__name__ == "Watchdog":
                raise
            r = e
        self.after(what)
        return r


def embed(rng, h):
    """The header as written by the caller; embedded keys as maps or as key objects."""
    out = K.spell(rng, h)
    for k, v in out.items():
        if isinstance(v, dict) and v.get(1) in (1, 2) and -1 in v and rng.random() < 0.6:
            out[k] = K.key(rng, v)
    return out


# ---------------------------------------------------------------------------------------------------- one message
SIGS = [-7, -35, -8, -37, -257]


def make(rng, kind):
    """Everything needed for a message: headers, payload, key map, the recipients' or signers' specification."""
    d = {"kind": kind, "payload": G.payload(rng, 0), "aad": G.aad(rng)}
    if kind == "Sign1":
        d["alg"] = rng.choice(SIGS)
        d["key"] = G.sig_key(d["alg"], rng)
    elif kind == "Sign":
        d["alg"] = None
        d["signers"] = [(a, G.sig_key(a, rng), G.aad(rng)) for a in rng.choices(SIGS, k=G.layers(rng))]
    elif kind in ("Mac0", "Mac"):
        d["alg"] = rng.choice([4, 5, 6, 7, 14, 15, 25, 26])
        d["key"] = G.mac_key(d["alg"], rng)
    else:
        d["alg"] = rng.choice(list(R.AEAD))
        d["key"] = G.aead_key(d["alg"], rng)
        d["payload"] = d["payload"][:60000]
    extra = {}
    if kind in ("Enc0", "Enc"):
        n = G.nonce(d["alg"], rng)
        if rng.random() < 0.7:
            extra[5] = n
        else:
            d["key"] = {**d["key"], 5: n}
            extra[6] = n[len(n) - rng.randrange(1, len(n) + 1):]
    put = rng.random() < 0.5
    if rng.random() < 0.5:
        k = R.public(rng.choice([G.ec_key(rng.choice([1, 2, 3]), rng), G.okp_key(4, rng)]))
        extra[rng.choice([-1, -2])] = {**k, **rng.choice([{}, {4: []}, {4: [7]}, {4: [8], 2: b"embedded"}, {3: -25, 4: [7, 8], -70001: [1]}])}
    d["p"], d["u"] = G.buckets(rng, d["alg"], n=rng.choice([0, 1, 2]), extra_p=extra if put else {}, extra_u={} if put else extra)
    return d


DETERMINISTIC = {-8, -257}


def produce(mon, rng, d, g=None, key=None):
    """Builds and encodes the message under the guard; returns (object, wire)."""
    kind = d["kind"]
    do = g.do if g else mon.must
    keep = g.add if g else (lambda n, o: o)
    p, u = keep("protected header", embed(rng, d["p"])), keep("unprotected header", embed(rng, d["u"]))
    cls = K.MSG[kind]
    kw = {"payload": d["payload"]}
    if kind != "Sign":
        kw["external_aad"] = d["aad"]
        kw["key"] = keep("key", key or K.key(rng, d["key"]))
    if kind in ("Mac", "Enc"):
        r = K.DirectEncryption(uhdr=keep("recipient header", {H.Algorithm: K.ALG[-6], H.KID: b"k"}))
        kw["recipients"] = keep("recipients", [r])
    if kind == "Sign":
        ss = []
        for i, (a, k, aad) in enumerate(d["signers"]):
            ss.append(K.CoseSignature(phdr=keep("signer header %d" % i, {H.Algorithm: K.ALG[a], 70000 + i: [1, {2: b"x"}]}),
                                      external_aad=aad, key=keep("signer key %d" % i, K.key(rng, k))))
        kw["signers"] = keep("signers", ss)
    if rng.random() < 0.5:
        m = do(kind + " constructor", cls, phdr=p, uhdr=u, **kw)
    else:
        m = do(kind + " constructor", cls, **kw)
        do("phdr setter", setattr, m, "phdr", p)
        do("uhdr setter", setattr, m, "uhdr", u)
    keep("state phdr", m.phdr), keep("state uhdr", m.uhdr)
    wire = do(kind + ".encode", m.encode)
    return m, wire


def det(d):
    if d["kind"] == "Sign1":
        return d["alg"] in DETERMINISTIC
    if d["kind"] == "Sign":
        return all(a in DETERMINISTIC for a, _, _ in d["signers"])
    return True


def unsigned(d, wire):
    """The wire form without its randomised parts."""
    a = C.dec(wire).value
    if d["kind"] == "Sign1" and not det(d):
        a = a[:3]
    if d["kind"] == "Sign" and not det(d):
        a = a[:3] + [[s[:2] for s in a[3]]]
    return C.enc(a)


def check_of(kind, m):
    """The receiving operations of a decoded message, as functions."""
    if kind == "Sign1":
        return [lambda: m.verify_signature()]
    if kind == "Sign":
        return [lambda s=s: s.verify_signature() for s in m.signers]
    if kind in ("Mac0", "Mac"):
        return [lambda: m.verify_tag()]
    if kind == "Enc0":
        return [lambda: m.decrypt()]
    return [lambda: m.decrypt(m.recipients[0])]


def equip(rng, d, m, g=None, key=None):
    keep = g.add if g else (lambda n, o: o)
    if d["kind"] == "Sign":
        for i, (s, (a, k, aad)) in enumerate(zip(m.signers, d["signers"])):
            s.key = keep("verification key %d" % i, K.key(rng, R.public(k)))
            s.external_aad = aad
    else:
        m.key = keep("receiver key", key or K.key(rng, R.public(d["key"]) if d["kind"] == "Sign1" else d["key"]))
        m.external_aad = d["aad"]


def pure(case, mon, rng):
    d = make(rng, case["kind"])
    kind = d["kind"]
    g = Guard(mon)
    m, wire = produce(mon, rng, d, g)
    if any(isinstance(v, K.CoseKey) for h in (m.phdr, m.uhdr) for v in h.values()):
        mon.saw("embedded keys", kind)
    for i in range(2):
        again = g.do(kind + ".encode again", m.encode)
        mon.check(unsigned(d, again) == unsigned(d, wire), kind + ": encoding again gives another message", again, wire)
        mon.saw("outcome repeated", kind, "encode")
    if det(d):
        m2, wire2 = produce(mon, rng, d)
        mon.check(C.dec(wire2).value[2:] == C.dec(wire).value[2:] or not order_same(d, wire, wire2), kind + ": the same message built again differs", wire, wire2)
        mon.saw("outcome repeated", kind, "rebuild")
    g.may(kind + " repr", repr, m)
    data = g.add("received bytes", bytes(wire))
    r = g.do(kind + ".decode", rng.choice([K.CoseMessage, K.MSG[kind]]).decode, data)
    equip(rng, d, r, g)
    g.add("state decoded", [r.phdr, r.uhdr])
    g.add("state parts", [(x.phdr, x.uhdr) for x in getattr(r, "signers", []) + getattr(r, "recipients", [])])
    lst = g.add("default", [1, 2])
    g.do("get_attr", r.get_attr, H.KIDContext, lst)
    wants = None
    for i in range(3):
        res = [g.do(kind + " receiving operation", f) for f in check_of(kind, r)]
        want = d["payload"] if kind in ("Enc0", "Enc") else True
        mon.check(all(x == want and type(x) is type(want) for x in res), kind + ": receiving operation number %d" % (i + 1), res)
        if wants is not None:
            mon.check(res == wants, kind + ": repeated operation differs", res, wants)
            mon.saw("outcome repeated", kind, "receive")
        wants = res
        # an unsuccessful operation in between has no effect on the next one
        if i == 0:
            target = r.signers[0] if kind == "Sign" else r
            old = target.external_aad
            target.external_aad = old + b"x"
            bad = g.may(kind + " failing operation", check_of(kind, r)[0])
            mon.check(bad is not True and bad != want, kind + ": altered external data accepted", bad)
            target.external_aad = old
            key = target.key
            target.key = None
            g.may(kind + " operation without key", check_of(kind, r)[0])
            target.key = key
    g.may(kind + " repr", repr, r)
    if kind in ("Mac0", "Enc0", "Sign1"):
        opt = {"Mac0": "mac", "Enc0": "encrypt", "Sign1": "sign"}[kind]
        if kind != "Mac0":
            same = g.do(kind + " re-encoded", r.encode, **{opt: False})
            mon.eq(same, wire, kind + ": re-encoding the decoded message")
            mon.saw("outcome repeated", kind, "re-encode")
    # the caller's headers are its own
    for n in [n for n in g.objs if n.startswith("state")]:
        g.mon.saw("message headers unchanged", kind)
        del g.objs[n]
    own = [o for n, o in g.objs.items() if "header" in n]
    before = [norm_or(o) for o in (m.phdr, m.uhdr)]
    m.phdr_update({H.Algorithm: K.ALG[5]})
    m.uhdr_update({"added": 1})
    for h in (m.phdr, m.uhdr):
        h["direct"] = 1
    for o in own:
        mon.check("added" not in o and "direct" not in o, kind + ": changing the message changes the caller's header", o)
        mon.saw("caller's object independent")
    g.after("updating the message")


# -------------------------------------------------------------------------------------------------- refused operations
def whole(m):
    """Everything of a message that a caller can see and an operation could have changed."""
    parts = [m] + list(getattr(m, "signers", [])) + list(getattr(m, "recipients", []))
    return snap([[x.phdr, x.uhdr, x.payload, x.external_aad, x.key, x.phdr_encoded, getattr(x, "signature", None), getattr(x, "auth_tag", None),
                  dict(x.local_attrs)] for x in parts])


def refused(mon, m, what, spoil, call, repair):
    """The operation is refused while something is wrong, changes nothing by that, and is refused again."""
    spoil()
    before = whole(m)
    for i in range(2):
        try:
            r = call()
        except Exception as e:
            if type(e).__name__ == "Watchdog":
                raise
            mon.rejections[type(e).__name__] += 1
        else:
            mon.check(r is False, what + ": not refused", r)
        mon.check(whole(m) == before, what + ": the refused operation changed the message", before, whole(m))
        mon.saw("refused without trace", what)
    repair()


def putting(o, attr, new):
    old = getattr(o, attr)
    return lambda: setattr(o, attr, new), lambda: setattr(o, attr, old)


def bucket(o, where, drop=(), add=None):
    old = dict(getattr(o, where))
    new = {**{k: v for k, v in old.items() if k not in [K.HDR[x] for x in drop]}, **(add or {})}
    return lambda: setattr(o, where, new), lambda: setattr(o, where, old)


def other_key(rng, m):
    """A key of another type."""
    return K.key(rng, rng.choice([x for x in (G.ec_key(1, rng), G.okp_key(6, rng), G.sym_key(16, rng), dict(G.rsa_key(rng))) if x[1] != m[1]]))


def faults(rng, d, m, sending):
    """(name, spoil, repair) of things that make the cryptographic operation of the message impossible."""
    kind = d["kind"]
    out = []
    if kind == "Sign":
        i = rng.randrange(len(d["signers"]))
        t, (alg, key, _) = m.signers[i], d["signers"][i]
        opp, where = 1 if sending else 2, "phdr"
    else:
        t, alg, key = m, d["alg"], d["key"]
        opp = {"Sign1": (1, 2), "Mac0": (9, 10), "Mac": (9, 10), "Enc0": (3, 4), "Enc": (3, 4)}[kind][not sending]
        where = "phdr" if 1 in d["p"] else "uhdr"
    other = "uhdr" if where == "phdr" else "phdr"
    wrong = {**key, 4: [({1, 2, 3, 4, 5, 6, 7, 8, 9, 10} - {opp}).pop() if key[1] in (1, 2, 3) else {3: 4, 4: 3, 9: 10, 10: 9}[opp]]}
    if key[1] in (1, 2, 3):
        wrong[4] = [3 - opp]
    if not sending and kind in ("Sign1", "Sign"):
        wrong = R.public(wrong)
    foreign = {"Sign1": [5, 1, -3], "Sign": [5, 1, -3], "Mac0": [-7, 3, -3, -10], "Mac": [-7, 3, -3, -10], "Enc0": [-8, 5, -5], "Enc": [-8, 5, -5]}[kind]
    out.append(("no key",) + putting(t, "key", None))
    out.append(("key of another type",) + putting(t, "key", other_key(rng, key)))
    out.append(("key not for this use",) + putting(t, "key", K.key(rng, wrong)))
    out.append(("key of another algorithm",) + putting(t, "key", K.key(rng, {**(R.public(key) if key[1] != 4 and not sending else key), 3: rng.choice([x for x in (SIGS if key[1] != 4 else (1, 3, 10, 4, 5, 7, 14)) if x != alg])})))
    out.append(("algorithm twice",) + bucket(t, other, add={1: alg}))
    if sending or where == "uhdr":
        out.append(("no algorithm",) + bucket(t, where, [1]))
        out.append(("algorithm of another kind",) + bucket(t, where, add={1: rng.choice(foreign)}))
    if kind not in ("Sign",) or sending:
        out.append(("no payload",) + putting(m, "payload", None))
    if kind in ("Enc0", "Enc"):
        p = 5 if 5 in d["p"] or 5 in d["u"] else 6
        b = "phdr" if p in d["p"] else "uhdr"
        if sending or b == "uhdr":
            out.append(("no IV",) + bucket(t, b, [p]))
        if sending or b == "phdr":
            out.append(("IV twice",) + bucket(t, "uhdr" if b == "phdr" else "phdr", add={p: b"x"}))
        if p == 6:
            if sending or b == "uhdr":
                out.append(("partial IV too long",) + bucket(t, b, add={6: b"x" * (len(key[5]) + rng.choice([1, 2, 15]))}))
            out.append(("no base IV",) + putting(t, "key", K.key(rng, {k: v for k, v in key.items() if k != 5})))
        else:
            if sending or b == "uhdr":
                out.append(("IV of another length",) + bucket(t, b, add={5: b"x" * 5}))
    if sending and kind in ("Enc", "Mac"):
        out.append(("no recipients",) + putting(m, "recipients", []))
        kw = K.KeyWrap(uhdr={1: -3})
        kw.key = K.SymmetricKey(k=bytes(16))
        out.append(("recipients that do not go together",) + putting(m, "recipients", list(m.recipients) + [kw]))
    if not sending:
        for x in (m,) if kind in ("Enc0", "Enc") else (t,):
            if kind not in ("Enc0", "Enc") or len(m.payload) > 1:
                attr = {"Sign1": "signature", "Sign": "signature", "Mac0": "auth_tag", "Mac": "auth_tag", "Enc0": "payload", "Enc": "payload"}[kind]
                if not hasattr(x, attr):
                    continue
                v = getattr(x, attr)
                if attr != "auth_tag":          # the tag cannot be assigned
                    out.append(("altered " + attr,) + putting(x, attr, bytes([v[0] ^ 1]) + v[1:]))
        out.append(("other external data",) + putting(t, "external_aad", t.external_aad + b"x"))
    return out


def setters(rng, m):
    """Assignments and updates the message refuses, each with the name of what it would set."""
    bad = [{"alg": "nope"}, {4: b"other", "ALG": "nope"}, {70000: 1, "Alg": 12345}, {K.HDR[4]: b"other", 1: 99}, None, 5, [1], "x", b"x", [(1, -7)]]
    for target in [m] + list(getattr(m, "signers", [])):
        for v in rng.sample(bad, 3):
            yield "phdr", lambda t=target, v=v: setattr(t, "phdr", v)
            yield "uhdr", lambda t=target, v=v: setattr(t, "uhdr", v)
            yield "phdr_update", lambda t=target, v=v: t.phdr_update(v)
            yield "uhdr_update", lambda t=target, v=v: t.uhdr_update(v)
        for v in ("x", 5, [b"x"], {1: b"x"}):
            yield "payload", lambda t=target, v=v: setattr(t, "payload", v)
            yield "external_aad", lambda t=target, v=v: setattr(t, "external_aad", v)
            yield "key", lambda t=target, v=v: setattr(t, "key", v)


def failures(case, mon, rng):
    """Whatever is refused leaves the message, its keys and the outcome of later operations as they were."""
    d = make(rng, case["kind"])
    kind = d["kind"]
    m, wire = produce(mon, rng, d)
    want = unsigned(d, wire)

    def assignments(o):
        calls = list(setters(rng, o))
        for name, call in rng.sample(calls, min(len(calls), 12)):
            before = whole(o)
            mon.rejects("%s: assigning a wrong %s" % (kind, name), call)
            mon.check(whole(o) == before, "%s: the refused assignment of %s changed the message" % (kind, name), before, whole(o))
            mon.saw("refused without trace", kind, name)
    todo = faults(rng, d, m, True)
    keys = [m.key] + [s.key for s in getattr(m, "signers", [])]
    for name, spoil, repair in rng.sample(todo, min(len(todo), 4)):
        keys_before = snap(keys)
        refused(mon, m, "%s.encode with %s" % (kind, name), spoil, m.encode, repair)
        mon.check(snap(keys) == keys_before, "%s.encode with %s changed a key" % (kind, name))
        again = mon.must("%s.encode after it was refused (%s)" % (kind, name), m.encode)
        mon.check(unsigned(d, again) == want, "%s: after a refusal (%s) the message is encoded in another way" % (kind, name), again, wire)
        mon.saw("worked once put right", kind, name, "encode")
    assignments(m)
    mon.check(unsigned(d, mon.must(kind + ".encode after refused assignments", m.encode)) == want, kind + ": encoded in another way after refused assignments")
    r = mon.must(kind + ".decode", K.CoseMessage.decode, wire)
    equip(rng, d, r)
    good = d["payload"] if kind in ("Enc0", "Enc") else True
    ops = check_of(kind, r)
    if rng.random() < 0.5:
        mon.check([mon.must(kind + " receiving", f) for f in ops] == [good] * len(ops), kind + ": receiving")
    todo = faults(rng, d, r, False)
    for name, spoil, repair in rng.sample(todo, min(len(todo), 4)):
        hit = ops

        def call():
            # with several signers only one of them is spoilt
            res = []
            for f in hit:
                try:
                    res.append(f())
                except Exception as e:
                    if type(e).__name__ == "Watchdog":
                        raise
                    mon.rejections[type(e).__name__] += 1
                    res.append(e)
            bad = [x for x in res if x is not True and x != good or type(x) is not type(good)]
            return False if bad else res
        refused(mon, r, "%s receiving with %s" % (kind, name), spoil, call, repair)
        res = [mon.must("%s receiving after it was refused (%s)" % (kind, name), f) for f in ops]
        mon.check(res == [good] * len(ops), "%s: after a refusal (%s) the outcome is another" % (kind, name), res)
        mon.saw("worked once put right", kind, name, "receive")
    assignments(r)
    res = [mon.must(kind + " receiving after refused assignments", f) for f in ops]
    mon.check(res == [good] * len(ops), kind + ": another outcome after refused assignments", res)
    # decoding that is refused does not influence decoding afterwards
    before = whole(r)
    for junk in (wire[:-1], wire + b"\x00", b"", rng.randbytes(8), wire.replace(wire[2:4], b"\xff\xff", 1)):
        try:
            K.CoseMessage.decode(junk)
        except Exception as e:
            if type(e).__name__ == "Watchdog":
                raise
            mon.rejections[type(e).__name__] += 1
    r2 = mon.must(kind + ".decode after refused ones", K.CoseMessage.decode, wire)
    equip(rng, d, r2)
    mon.check([f() for f in check_of(kind, r2)] == [good] * len(ops) and whole(r) == before, kind + ": decoding is influenced by an earlier refusal")


def order_same(d, w1, w2):
    """Header maps are written in the order given, which the spelled constructors keep; a different order signs other bytes."""
    a, b = C.dec(w1).value, C.dec(w2).value
    if a[0] != b[0]:
        return False
    return True


def norm_or(h):
    try:
        return K.norm(h)
    except Violation:
        return None


# ----------------------------------------------------------------------------------------------------- certificates
def outcome(fn, *a, **kw):
    try:
        return "done", snap(fn(*a, **kw))
    except Exception as e:
        if type(e).__name__ == "Watchdog":
            raise
        return "refused", type(e).__name__


def certificates(case, mon, rng):
    """Containers, thumbprints and verification leave the caller's certificates, lists and usage sets alone and repeat their outcomes."""
    from pycose.extensions.x509 import X5Bag, X5Chain, X5T, X5U
    from .c25 import Hierarchy, Trust
    h = Hierarchy(rng, rng.choice([0, 1, 2]))
    real = h.chain()
    junk = [rng.randbytes(rng.choice([0, 3, 60])) for _ in range(rng.choice([1, 2, 4]))]
    usage = {"digital_signature"}
    with Trust() as t:
        for certs, roots in ((real, [h.root.der()]), (real, []), (real[::-1] + junk, [h.root.der()]), (junk, [h.root.der()])):
            t.roots = roots
            g = Guard(mon, certificates=certs, usage=usage, roots=roots)
            x, b = g.do("X5Chain", X5Chain, certs), g.do("X5Bag", X5Bag, certs)
            shown = snap(x.encode()), snap(b.encode())
            first = None
            for k in range(3):
                o = outcome(x.verify_chain, usage)[0]
                g.after("verify_chain")
                mon.check(first in (None, o), "verifying a chain again", first, o)
                first = o
                o = outcome(X5Chain, certs, verify=True)[0]
                g.after("construction with verification")
                mon.check(o == first, "verification at construction and later differ", o, first)
                mon.check((snap(g.do("X5Chain.encode", x.encode)), snap(g.do("X5Bag.encode", b.encode))) == shown, "certificates after verification")
                mon.saw("certificate operations repeated", first)
            mon.check(first == ("done" if certs is real and roots else "refused"), "verification", first, len(certs))
            mon.saw("chains verified twice" if first == "done" else "chains refused twice", len(certs))
            # what one container does shows in no other
            y = X5Chain(list(certs))
            outcome(y.verify_chain, {"key_agreement"})
            mon.check(snap(y.encode()) == shown[0] == snap(x.encode()), "certificates after the verification of an equal chain")
            a = rng.choice([-16, -15, -43, -44, -18, -17])
            if a in K.ALG:
                c = bytearray(certs[0]) if rng.random() < 0.3 else certs[0]
                g.add("certificate", c)
                th = g.may("X5T.from_certificate", X5T.from_certificate, K.ALG[a], c)
                if isinstance(th, X5T):
                    item = g.add("thumbprint item", th.encode())
                    th2 = g.do("X5T.decode", X5T.decode, item)
                    mon.check(g.do("comparison", th.__eq__, th2) is True, "thumbprint decoded from its item")
                    for k in range(2):
                        mon.check([g.do("matches", th2.matches, q) for q in certs] == [q == certs[0] for q in certs], "matches repeated", k)
                    mon.check(snap(g.do("X5T.encode", th2.encode)) == snap(item), "thumbprint after comparisons")
                    mon.saw("certificate operations repeated", a)


# ------------------------------------------------------------------------------------------------------------- keys
def keys(case, mon, rng):
    for m in (G.ec_key(rng.choice([1, 2, 3, 8]), rng), G.okp_key(rng.choice([4, 5, 6, 7]), rng), dict(G.rsa_key(rng)), G.sym_key(rng.choice([16, 24, 32]), rng)):
        kty = m[1]
        m = {**m, 2: b"kid", 4: rng.choice([[], [1, 2], [3, 4, 5, 6]]) if kty != 3 else [1, 2], -70001: [1, [2]]}
        if not m[4]:
            del m[4]
        forms = [dict(m), {K.KPARAM[kty].get(k, k): K.keyval(k, v, "cls", kty) for k, v in m.items()},
                 {(K.case_of(rng, K.KPARAM[kty][k].fullname) if k in K.KPARAM[kty] else k): K.keyval(k, v, "names", kty) for k, v in m.items()}]
        if 4 not in m:
            forms.append({**m, 4: []})
        for f in forms:
            g = Guard(mon, dictionary=f)
            k1 = g.do("from_dict", K.CoseKey.from_dict, f)
            k2 = g.do("from_dict", K.KEYCLS[kty].from_dict, f)
            mon.check(C.same(K.norm(k1), K.norm(k2)) and k1.encode() == k2.encode(), "importing a key again differs", k1, k2)
            mon.saw("outcome repeated", "key", kty)
            e1 = g.do("key.encode", k1.encode)
            mon.eq(g.do("key.encode", k1.encode), e1, "encoding a key again")
            g.may("key repr", repr, k1)
            # edits of one key
            k1.kid = b"other"
            k1.key_ops = [rng.choice([1, 2, 7, 8])] if kty in (1, 2) else [3, 4]
            k1[-70002] = b"mine"
            g.after("editing a key")
            mon.check(k2.kid == b"kid" and -70002 not in k2, "editing one key changes another one built from the same dictionary", k2)
            mon.eq(k2.encode(), e1, "encoding of the other key")
            mon.saw("caller's object independent", "key")
            # edits of the dictionary
            f2 = dict(f)
            k3 = K.CoseKey.from_dict(f2)
            for lab in list(f2):
                f2[lab] = 0
            f2.clear()
            mon.eq(k3.encode(), e1, "key after changing the dictionary it was made from")
            mon.saw("assigned map independent", "key")
        ops = [K.OPS[3], K.OPS[4]] if kty in (3, 4) else [K.OPS[1], K.OPS[2]]
        g = Guard(mon, ops=ops)
        k = K.CoseKey.from_dict(dict(m))
        g.do("key_ops setter", setattr, k, "key_ops", ops)
        ops.append("junk")
        mon.check(len(k.key_ops) == 2, "key_ops follow the caller's list", k.key_ops)
        g2 = Guard(mon, key=k)
        got = k.key_ops
        enc = g2.do("key.encode", k.encode)
        # verification helper and lookups
        g2.may("key.verify", k.verify, K.KEYCLS[kty], K.ALG[5], [K.OPS[9]])
        g2.may("key lookup", k.get, 4)
        g2.may("key lookup", lambda: (k.alg, k.kid, k.kty, k.base_iv, list(k), len(k), "KTY" in k, -70001 in k))
        mon.eq(k.encode(), enc, "encoding after lookups")
        # optional parameters of constructors and generators
        for opt in ({K.KP[2]: b"o", K.KP[4]: []}, {2: b"o", 4: [3] if kty == 4 else [1]}, {"kid": b"o"}, {}):
            g3 = Guard(mon, optional=opt)
            made = [g3.may("constructor with optional parameters", ctor, kty, m, opt) for _ in range(2)]
            if kty != 3:
                g3.may("generate_key with optional parameters", K.KEYCLS[kty].generate_key, {1: K.CRV[6], 2: K.CRV[1], 4: 16}[kty], opt)
            if all(isinstance(x, K.CoseKey) for x in made):
                made[0][-70003] = 1
                made[0].kid = b"zz"
                g3.after("editing a key")
                mon.check(-70003 not in made[1] and made[1].kid == b"o" or not opt, "keys with the same optional parameters share state", made[1])
                mon.saw("default values independent", "optional")
        # the same bytes decoded again
        a, b = K.CoseKey.decode(e1), K.CoseKey.decode(e1)
        scramble(a)
        for c in (b, K.CoseKey.decode(e1)):
            mon.check(c.encode() == e1 and -70009 not in c, "keys decoded from the same bytes share state", c)
        mon.saw("decoded twice independent", "key", kty)
        # defaults
        a, b = ctor(kty, m, None), ctor(kty, m, None)
        a[-70003] = 1
        a.kid = b"zz"
        a.key_ops = [3] if kty == 4 else [1]
        mon.check(-70003 not in b and b.kid == b"" and b.key_ops == [], "keys made without optional parameters share state", b)
        if kty == 4:
            c = K.SymmetricKey.generate_key(16)
        elif kty == 3:
            c = ctor(kty, m, None)
        else:
            c = K.KEYCLS[kty].generate_key(K.CRV[{1: 6, 2: 1}[kty]])
        mon.check(-70003 not in c and c.kid == b"" and c.key_ops == [], "a generated key has parameters of another one", c)
        mon.saw("default values independent", "key", kty)
    # PEM import
    for form in pems(rng):
        pem, imp = form
        for opt in ({K.KP[2]: b"pem", K.KP[4]: [K.OPS[1]]}, {}, None):
            g = Guard(mon, optional=opt, pem=pem)
            a, b = g.do("PEM import", imp, pem, opt), g.do("PEM import", imp, pem, opt)
            e = b.encode()
            mon.eq(a.encode(), e, "importing again")
            scramble(a)
            a.key_ops = [2]
            g.after("editing an imported key")
            for c in (b, imp(pem, opt)):
                mon.eq(c.encode(), e, "imported keys share state: encoding after editing the other one")
            mon.saw("default values independent", "pem")


def pems(rng):
    """(PEM text, import function) pairs"""
    from cryptography.hazmat.primitives import serialization as S
    from cryptography.hazmat.primitives.asymmetric import ec, ed25519
    key = rng.choice([lambda: ec.generate_private_key(rng.choice([ec.SECP256R1, ec.SECP384R1])()), ed25519.Ed25519PrivateKey.generate,
                      lambda: R._rsa(G.rsa_key(rng), True)])()
    pem = key.private_bytes(S.Encoding.PEM, S.PrivateFormat.PKCS8, S.NoEncryption()).decode()
    yield pem, lambda p, o: K.CoseKey.from_pem_private_key(p, None, o)
    pem = key.public_key().public_bytes(S.Encoding.PEM, S.PublicFormat.SubjectPublicKeyInfo).decode()
    yield pem, lambda p, o: K.CoseKey.from_pem_public_key(p, o)


def ctor(kty, m, opt):
    kw = {} if opt is None else {"optional_params": opt}
    if kty == 2:
        return K.EC2Key(crv=K.CRV[m[-1]], x=m[-2], y=m[-3], d=m[-4], **kw)
    if kty == 1:
        return K.OKPKey(crv=K.CRV[m[-1]], x=m[-2], d=m[-4], **kw)
    if kty == 3:
        return K.RSAKey(n=m[-1], e=m[-2], d=m[-3], p=m[-4], q=m[-5], dp=m[-6], dq=m[-7], qinv=m[-8], **kw)
    return K.SymmetricKey(k=m[-1], **kw)


# -------------------------------------------------------------------------------------------------------- isolation
def scramble(x):
    """Changes every mutable part of the caller's object."""
    if isinstance(x, K.CoseKey):
        for v in list(x.values()):
            scramble(v)
        x[-70009] = 1
        x.kid = b"scrambled"
        return
    if isinstance(x, dict):
        for v in list(x.values()):
            scramble(v)
        x["scrambled"] = 1
        for k in list(x):
            if not isinstance(x[k], (dict, list)):
                x[k] = "scrambled"
    elif isinstance(x, list):
        for v in x:
            scramble(v)
        x.append("scrambled")
    elif isinstance(x, cbor2.CBORTag):
        scramble(x.value)


def tagged(x):
    """CBOR tags as cbor2 has them; new lists and maps."""
    if isinstance(x, C.Tag):
        return cbor2.CBORTag(x.tag, tagged(x.value))
    if isinstance(x, dict):
        return {k: tagged(v) for k, v in x.items()}
    return [tagged(v) for v in x] if isinstance(x, list) else x


def isolation(case, mon, rng):
    layers = [lambda **k: K.Sign1Message(**k), lambda **k: K.SignMessage(**k), lambda **k: K.Mac0Message(**k), lambda **k: K.MacMessage(**k),
              lambda **k: K.Enc0Message(**k), lambda **k: K.EncMessage(**k), lambda **k: K.CoseSignature(**k), lambda **k: K.DirectEncryption(**k),
              lambda **k: K.KeyWrap(**k), lambda **k: K.DirectKeyAgreement(**k), lambda **k: K.KeyAgreementWithKeyWrap(**k)]
    for mk in layers:
        for which in ("phdr", "uhdr"):
            h = {**G.header(rng, 3), 70000: [1, [2, {3: [4]}]], "t": {"a": [1]}, 1: -7, 70002: C.Tag(rng.choice([4711, 2 ** 32 + 5, 2 ** 64 - 1]), [1, {2: [3]}]), 70003: [C.Tag(4712, {1: [C.Tag(4713, [1])]})]}
            if rng.random() < 0.3:
                h[-1] = R.public(G.ec_key(1, rng))
            a, b = mk(), mk()
            caller = tagged(K.spell(rng, h))
            setattr(a, which, caller)
            setattr(b, which, caller)
            want = K.norm(getattr(a, which))
            mon.check(C.same(want, h), "assigned header differs", want, h)
            scramble(caller)
            mon.check(C.same(K.norm(getattr(a, which)), want), "an assigned header map follows the caller's object", K.norm(getattr(a, which)), want)
            if which == "phdr":
                mon.check(C.same(C.dec(a.phdr_encoded), h), "the encoded protected header follows the caller's object", a.phdr_encoded)
            mon.saw("assigned map independent", which, type(a).__name__)
            # changing one message does not change the other
            getattr(a, which + "_update")({4: b"a only", 70001: [1]})
            getattr(a, which)["x"] = 1
            mon.check(C.same(K.norm(getattr(b, which)), want), "two messages share an assigned header map", K.norm(getattr(b, which)), want)
            mon.saw("assigned map independent", which, "two")
            # constructor and update: later changes of the caller's map itself
            caller = tagged(K.spell(rng, h))
            c = mk(**{which: caller})
            e = mk()
            getattr(e, which + "_update")(caller)
            caller["new"] = 1
            for k in list(caller):
                caller[k] = "gone"
            mon.check(C.same(K.norm(getattr(c, which)), h), "a header map given to the constructor follows the caller's map", getattr(c, which))
            mon.check(C.same(K.norm(getattr(e, which)), h), "an updated header map follows the caller's map", getattr(e, which))
            caller = tagged(K.spell(rng, h))
            c = mk(**{which: caller})
            getattr(c, which + "_update")({70005: 1})
            getattr(c, which)[70006] = 1
            mon.check(70005 not in caller and 70006 not in caller and len(caller) == len(h), "the caller's header map follows the message", caller)
            mon.saw("caller's object independent", which)
        # defaults are not shared between objects
        a = mk()
        a.uhdr_update({70000: 1})
        a.phdr_update({70001: 1})
        a.uhdr["x"] = a.phdr["y"] = 1
        a.local_attrs = {H.StaticKey: 1}
        for attr, x in (("recipients", K.DirectEncryption(uhdr={1: -6})), ("signers", K.CoseSignature())):
            if hasattr(a, attr):
                getattr(a, attr).append(x)
        b = mk()
        mon.check(b.phdr == {} and b.uhdr == {} and b.local_attrs == {} and b.external_aad == b"" and b.key is None, "a new object is not empty", b.phdr, b.uhdr, b.local_attrs)
        for attr in ("recipients", "signers"):
            mon.check(not hasattr(b, attr) or getattr(b, attr) == [], "a new object has %s" % attr)
        b.phdr = {}
        b.uhdr = {}
        b.uhdr_update({70003: 1})
        mon.check(70003 not in mk().uhdr, "a new object is not empty")
        mon.saw("default values independent", type(a).__name__)
    # the caller's lists
    rs = [K.DirectEncryption(uhdr={1: -6})]
    a, b = K.EncMessage(recipients=rs), K.EncMessage()
    b.recipients = rs
    a.recipients.append(K.DirectEncryption(uhdr={1: -6}))
    mon.check(len(rs) == 1 and len(b.recipients) == 1, "lists of recipients are shared between messages", len(rs), len(b.recipients))
    mon.saw("caller's object independent", "recipients")
    # the same bytes decoded twice
    for kind in K.MSG:
        d = make(rng, kind)
        if rng.random() < 0.7:
            d["p"].update({70021: [1, {"a": [2]}], 70022: {1: {2: 3}}})
            d["u"].update({70023: [[1]]})
            d[rng.choice("pu")][2] = [70021]
        _, wire = produce(mon, rng, d)
        a, b = K.CoseMessage.decode(wire), K.CoseMessage.decode(wire)
        before = snap([b.phdr, b.uhdr])
        a.uhdr_update({70000: 1})
        a.phdr_update({70001: 1})
        a.payload = b"changed"
        for sub in getattr(a, "signers", []) + getattr(a, "recipients", []):
            sub.uhdr["x"] = 1
        mon.check(snap([b.phdr, b.uhdr]) == before and all("x" not in s.uhdr for s in getattr(b, "signers", []) + getattr(b, "recipients", [])),
                  kind + ": two decoded messages share state")
        before = snap(state(b))
        for h in state(a):
            for v in list(h.values()):
                scramble(v)
        mon.check(snap(state(b)) == before, kind + ": two decoded messages share values of their headers", state(b))
        c = K.CoseMessage.decode(wire)
        mon.check(snap(state(c)) == before, kind + ": editing a decoded message changes what is decoded afterwards", state(c))
        equip(rng, d, b)
        mon.check(check_of(kind, b)[0]() in (True, d["payload"]), kind + ": changing one decoded message changes another")
        mon.saw("decoded twice independent", kind)


def state(m):
    """All header maps of a message."""
    return [m.phdr, m.uhdr] + [h for x in getattr(m, "signers", []) + getattr(m, "recipients", []) for h in state(x)]


# --------------------------------------------------------------------------------------------------------- programs
class Shared:
    """Keys that all programs of a case use."""

    def __init__(self, rng):
        self.maps = {"ec": G.ec_key(1, rng), "ec2": G.ec_key(1, rng), "okp": G.okp_key(6, rng), "rsa": dict(G.rsa_key(rng)),
                     "sym": {**G.sym_key(16, rng), 5: rng.randbytes(12)}, "sym32": G.sym_key(32, rng)}
        self.keys = {k: K.key(rng, v) for k, v in self.maps.items()}
        self.pub = {k: K.key(rng, R.public(self.maps[k])) for k in ("ec", "ec2", "okp", "rsa")}


def attempt(fn):
    try:
        return fn()
    except Exception as e:
        if type(e).__name__ == "Watchdog":
            raise
        return "raises " + type(e).__name__


def p_sign1(rng, sh):
    alg, who = rng.choice([(-7, "ec"), (-8, "okp"), (-257, "rsa"), (-38, "rsa")])
    aad, payload = G.aad(rng), G.payload(rng, 0)
    p, u = G.buckets(rng, alg, n=1)
    m = K.Sign1Message(phdr=K.spell(rng, p), payload=payload, external_aad=aad)
    yield None
    m.uhdr = K.spell(rng, u)
    m.key = sh.keys[who]
    yield repr(sorted(map(repr, K.norm(m.uhdr))))
    w = m.encode()
    a = C.dec(w).value
    yield a[:3], R.verify(alg, sh.maps[who], R.tbs1(a[0], aad, payload), a[3])
    r = K.CoseMessage.decode(w)
    r.key = sh.pub[who]
    yield K.norm(r.phdr), K.norm(r.uhdr), r.payload
    yield attempt(r.verify_signature)
    r.external_aad = aad
    yield attempt(r.verify_signature)
    r.payload = None
    yield attempt(r.verify_signature)
    yield attempt(lambda: r.verify_signature(payload))


def p_sign(rng, sh):
    payload = G.payload(rng, 0)
    p = G.header(rng, 1)
    m = K.SignMessage(phdr=K.spell(rng, p), payload=payload)
    algs = rng.sample([(-7, "ec"), (-8, "okp"), (-257, "rsa"), (-37, "rsa"), (-7, "ec2")], rng.choice([1, 2, 3]))
    for alg, who in algs:
        m.signers.append(K.CoseSignature(phdr={H.Algorithm: K.ALG[alg]}, uhdr={H.KID: who.encode()}, key=sh.keys[who]))
        yield len(m.signers)
    w = m.encode()
    a = C.dec(w).value
    yield a[:3], [(s[:2], R.verify(alg, sh.maps[who], R.tbs(a[0], s[0], b"", payload), s[2])) for s, (alg, who) in zip(a[3], algs)]
    r = K.SignMessage.decode(w)
    for s, (alg, who) in zip(r.signers, algs):
        s.key = sh.pub[who]
        yield attempt(s.verify_signature)
    r.payload = payload + b"x"
    yield [attempt(s.verify_signature) for s in r.signers]
    yield len(repr(r)) > 10


def p_mac0(rng, sh):
    alg, who = rng.choice([(5, "sym32"), (4, "sym"), (14, "sym"), (26, "sym32"), (6, "sym32"), (7, "sym")])
    payload, aad = G.payload(rng, 0), G.aad(rng)
    p, u = G.buckets(rng, alg, n=1)
    m = K.Mac0Message(phdr=K.spell(rng, p), uhdr=K.spell(rng, u), payload=payload, external_aad=aad, key=sh.keys[who])
    yield m.encode()
    w = m.encode()
    yield w
    r = K.CoseMessage.decode(w)
    r.key = sh.keys["sym" if who == "sym32" else "sym32"]
    r.external_aad = aad
    yield attempt(r.verify_tag) is not True
    r.key = sh.keys[who]
    yield attempt(r.verify_tag)
    yield K.norm(r.phdr), K.norm(r.uhdr), r.auth_tag


def p_enc0(rng, sh):
    alg, who, n = rng.choice([(1, "sym", 12), (3, "sym32", 12), (10, "sym", 13), (33, "sym32", 7)])
    payload, aad = G.payload(rng, 0), G.aad(rng)
    partial = who == "sym" and alg == 1
    p, u = G.buckets(rng, alg, n=1, extra_u={6: rng.randbytes(rng.choice([1, 3, 12]))} if partial else {5: rng.randbytes(n)})
    m = K.Enc0Message(phdr=K.spell(rng, p), uhdr=K.spell(rng, u), payload=payload, external_aad=aad)
    yield None
    m.key = sh.keys[who]
    w = m.encode()
    yield w
    r = K.Enc0Message.decode(w)
    yield attempt(r.decrypt)
    r.key = sh.keys[who]
    yield attempt(r.decrypt)
    r.external_aad = aad
    yield attempt(r.decrypt)
    yield r.encode(encrypt=False) == w


def p_recipients(rng, sh):
    kind = rng.choice(["Enc", "Mac"])
    alg = 1 if kind == "Enc" else 5
    payload = G.payload(rng, 0)
    mode = rng.choice(["direct", "kw", "es", "ss", "direct-es"])
    H_ = {H.Algorithm: K.ALG[alg]}
    m = K.MSG[kind](phdr=H_, uhdr={H.IV: rng.randbytes(12)} if kind == "Enc" else {}, payload=payload)
    if mode == "direct":
        m.recipients = [K.DirectEncryption(uhdr={H.Algorithm: K.ALG[-6]})]
        m.key = sh.keys["sym" if alg == 1 else "sym32"]
    elif mode == "kw":
        m.recipients = [K.KeyWrap(uhdr={H.Algorithm: K.ALG[-3]}), K.KeyWrap(uhdr={H.Algorithm: K.ALG[-5]})]
        m.recipients[0].key = sh.keys["sym"]
        m.recipients[1].key = sh.keys["sym32"]
    else:
        a = {"es": -29, "ss": -32, "direct-es": -25}[mode]
        cls = K.DirectKeyAgreement if mode == "direct-es" else K.KeyAgreementWithKeyWrap
        r = cls(phdr={H.Algorithm: K.ALG[a], H.PartyUID: rng.randbytes(3)})
        r.local_attrs = {H.StaticKey: sh.pub["ec"]}
        if mode == "ss":
            r.key = sh.keys["ec2"]
            r.uhdr = {H.StaticKey: dict(sh.pub["ec2"])}
        m.recipients = [r]
    yield mode
    w = m.encode()
    yield C.dec(w).value[:2], len(w)
    r = K.CoseMessage.decode(w)
    yield type(r).__name__, [type(x).__name__ for x in r.recipients], K.norm(r.phdr)
    if mode == "direct":
        r.key = sh.keys["sym" if alg == 1 else "sym32"]
    elif mode == "kw":
        r.recipients[0].key = sh.keys["sym"]
        r.recipients[1].key = sh.keys["sym32"]
    else:
        r.recipients[0].key = sh.keys["ec"]
    for x in r.recipients:
        if kind == "Enc":
            yield attempt(lambda: r.decrypt(x))
        elif mode == "direct":
            yield attempt(r.verify_tag)
        else:
            cek = attempt(lambda: x.compute_cek(K.ALG[alg], "decrypt"))
            yield type(cek).__name__
            if isinstance(cek, K.CoseKey):
                r.key = K.SymmetricKey(k=cek.k)
                yield attempt(r.verify_tag)


def p_keys(rng, sh):
    who = rng.choice(["ec", "okp", "rsa", "sym"])
    m = sh.maps[who]
    k = K.key(rng, m)
    yield k.encode()
    k.kid = rng.randbytes(4)
    k.key_ops = [1, 2] if who != "sym" else [3, 4]
    yield k.encode()
    k2 = K.CoseKey.decode(k.encode())
    k2.alg = {"ec": -7, "okp": "EDDSA", "rsa": -257, "sym": K.ALG[1]}[who]
    yield K.norm(k), K.norm(k2)
    del k2[K.KP[4]]
    k2["custom"] = [1]
    yield K.norm(k2), "custom" in k
    yield attempt(lambda: k2.__delitem__(K.KP[1]))
    yield K.norm(sh.keys[who]), sh.keys[who].encode()
    yield type(K.KEYCLS[m[1]].generate_key(*{"ec": ("P_256",), "okp": (6,), "sym": (16,), "rsa": (1024,)}[who])).__name__ if who != "rsa" else None


def p_lookup(rng, sh):
    for _ in range(6):
        i = rng.choice(list(K.ALG))
        yield K.algorithms.CoseAlgorithm.from_id(i).__name__, K.algorithms.CoseAlgorithm.from_id(K.case_of(rng, K.ALG[i].fullname)).__name__
        j = rng.choice(list(K.HDR))
        yield K.CoseHeaderAttribute.from_id(j).__name__, attempt(lambda: K.CoseHeaderAttribute.from_id(9999)), K.CoseHeaderAttribute.from_id("zzz", True)
    data = rng.randbytes(100)
    for a in (-16, -15, -43):
        yield K.ALG[a].compute_hash(data).hex()
    strict = C.enc(C.Tag(18, [C.enc({1: -7, 77777: 1}), {}, b"x", b"s"]))
    yield attempt(lambda: K.CoseMessage.decode(strict, allow_unknown_attributes=False)), K.norm(K.CoseMessage.decode(strict).phdr)
    yield attempt(lambda: K.CoseMessage.decode(rng.randbytes(10)))
    yield attempt(lambda: K.EncMessage.decode(strict))


PROGRAMS = [p_sign1, p_sign, p_mac0, p_enc0, p_recipients, p_keys, p_lookup]


def alone(prog, seed, sh, out):
    rng = random.Random(seed)
    for r in prog(rng, sh):
        out.append(repr(r))


def together(case, mon, rng):
    sh = Shared(rng)
    n = rng.choice([2, 2, 3, 4, 6])
    progs = [(rng.choice(PROGRAMS), rng.getrandbits(40)) for _ in range(n)]
    if rng.random() < 0.3:
        progs = [progs[0]] * 2 + progs[2:]          # the same program twice
    before = snap([sh.keys, sh.pub])
    want = []
    for prog, seed in progs:
        out = []
        mon.must(prog.__name__ + " alone", alone, prog, seed, sh, out)
        want.append(out)
        mon.saw("programs run alone", prog.__name__)
    mon.check(snap([sh.keys, sh.pub]) == before, "the programs changed shared keys", sh.keys)
    got = {"steps": steps, "lines": scheduled, "threads": free}[case["how"]](mon, rng, sh, progs)
    for i, (prog, seed) in enumerate(progs):
        g = got[i]
        mon.check(g == want[i], "%s run together with %s (%s) gives another result than alone" % (
            prog.__name__, [p.__name__ for j, (p, _) in enumerate(progs) if j != i], case["how"]),
            [(a, b) for a, b in zip(g, want[i]) if a != b][:2] or (len(g), len(want[i]), g[-1:]))
        mon.saw("programs agreed", prog.__name__, case["how"])
    mon.check(snap([sh.keys, sh.pub]) == before, "the programs changed shared keys", sh.keys)
    # afterwards everything is as before
    prog, seed = progs[0]
    out = []
    mon.must(prog.__name__ + " once more", alone, prog, seed, sh, out)
    mon.check(out == want[0], prog.__name__ + " gives another result afterwards", [(a, b) for a, b in zip(out, want[0]) if a != b][:2])


def steps(mon, rng, sh, progs):
    live = {i: prog(random.Random(seed), sh) for i, (prog, seed) in enumerate(progs)}
    out = [[] for _ in progs]
    order = []
    while live:
        i = rng.choice(list(live))
        order.append(i)
        try:
            out[i].append(repr(next(live[i])))
        except StopIteration:
            del live[i]
        except Exception as e:
            out[i].append("raised %s: %s" % (type(e).__name__, e))
            del live[i]
    mon.saw("interleaved runs", tuple(order))
    return out


class Scheduler:
    """Only the thread holding the token runs; at a line of pycose the token may be handed to another one, as the seed decides."""
    TOOL = 4

    def __init__(self, rng, n, p):
        self.rng, self.p = rng, p
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.live = set(range(n))
        self.ident = {}
        self.trace = []
        self.prefix = os.path.dirname(os.path.realpath(pycose.__file__)) + os.sep
        self.on = False

    def line(self, code, line):
        if not code.co_filename.startswith(self.prefix):
            return sys.monitoring.DISABLE
        me = self.ident.get(threading.get_ident())
        if me is None or not self.on or self.rng.random() >= self.p:
            return
        self.switch(me)

    def switch(self, me):
        others = [i for i in self.live if i != me]
        if not others:
            return
        nxt = self.rng.choice(others)
        self.trace.append((me, nxt))
        self.go[nxt].release()
        self.go[me].acquire()

    def leave(self, me):
        self.live.discard(me)
        if self.live:
            self.go[self.rng.choice(sorted(self.live))].release()

    def run(self, bodies):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "pycose-sched")
        m.register_callback(self.TOOL, m.events.LINE, self.line)

        def thread(i):
            self.ident[threading.get_ident()] = i
            self.go[i].acquire()
            try:
                bodies[i]()
            finally:
                self.leave(i)
        ts = [threading.Thread(target=thread, args=(i,), daemon=True) for i in range(len(bodies))]
        for t in ts:
            t.start()
        m.set_events(self.TOOL, m.events.LINE)
        m.restart_events()
        self.on = True
        try:
            self.go[self.rng.randrange(len(bodies))].release()
            for t in ts:
                t.join(60)
                if t.is_alive():
                    raise Violation("threads sharing keys do not terminate")
        finally:
            self.on = False
            m.set_events(self.TOOL, 0)
            m.free_tool_id(self.TOOL)
        return self.trace


def body(prog, seed, sh, out):
    def f():
        try:
            alone(prog, seed, sh, out)
        except Exception as e:
            out.append("raised %s: %s" % (type(e).__name__, e))
    return f


def scheduled(mon, rng, sh, progs):
    out = [[] for _ in progs]
    s = Scheduler(random.Random(rng.getrandbits(40)), len(progs), rng.choice([0.02, 0.1, 0.3, 0.9]))
    trace = s.run([body(p, seed, sh, o) for (p, seed), o in zip(progs, out)])
    mon.saw("scheduled runs", tuple(trace[:400]))
    mon.counters["switches inside pycose"] += len(trace)
    return out


def free(mon, rng, sh, progs):
    out = [[] for _ in progs]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        start = threading.Barrier(len(progs))

        def f(b):
            start.wait()
            b()
        ts = [threading.Thread(target=f, args=(body(p, seed, sh, o),), daemon=True) for (p, seed), o in zip(progs, out)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
            if t.is_alive():
                raise Violation("threads sharing keys do not terminate")
    finally:
        sys.setswitchinterval(old)
    mon.saw("free-running runs", len(progs))
    return out
