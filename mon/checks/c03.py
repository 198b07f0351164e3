"""C03 MACed messages: encode, transport, decode, verify; monitors content, tag length, verdict and re-encoding."""
import random

from .. import cborref as C, coseref as R, gen as G, kit as K

PROP = "C03"
RULE = ("a case draws key, headers, payload, external data, recipients and a re-encode history for one algorithm and kind; "
        "non-trivial: at least one tag was produced by the real code and verified after decoding")
REQUIRED = {"algorithms written as text": 30, "mac0 verified": 150, "mac verified": 80, "re-encoded": 150, "tag lengths compared": 200, "empty payload": 8,
            "block boundary payload": 20, "algorithm unprotected": 20, "direct recipients": 80, "headers changed before encoding": 20,
            **{"edited and encoded again: " + w: 20 for w in ("payload", "phdr", "uhdr", "aad", "key", "alg")}}


def cases(tier, rng):
    n = {"quick": 900, "thorough": 8000}[tier]
    for alg in R.MAC:                      # every structure length modulo the block size
        for size in range(0, 34):
            yield {"kind": "Mac0", "alg": alg, "size": size, "s": rng.getrandbits(48)}
    for rep in range(n):
        for alg in R.MAC:
            for kind in ("Mac0", "Mac0", "Mac"):
                yield {"kind": kind, "alg": alg, "s": rng.getrandbits(48)}


def mac_params(rng, alg, create):
    p = {}
    if rng.random() < 0.3:
        p[3] = alg
    if rng.random() < 0.3:
        p[4] = [9, 10] if rng.random() < 0.5 else ([9] if create else [10])
    if rng.random() < 0.2:
        p[2] = G.kid(rng)
    return p


def direct_recipients(rng):
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3, 25])):
        u = {1: -6, **G.header(rng, rng.choice([0, 1, 1, 3]), used=(1,))}
        out.append(G.shuffled(rng, u))
    return out


def make_direct(mon, rng, specs):
    out = []
    for u in specs:
        if rng.random() < 0.7:
            out.append(mon.must("DirectEncryption()", K.DirectEncryption, uhdr=K.spell(rng, u)))
        else:
            r = mon.must("DirectEncryption()", K.DirectEncryption)
            K.build_headers(mon, rng, r, {}, u)
            out.append(r)
    return out


def check_direct(mon, d, specs):
    mon.check(len(d.recipients) == len(specs), "number of recipients after transport", len(d.recipients), len(specs))
    for i, (r, u) in enumerate(zip(d.recipients, specs)):
        mon.check(type(r) is K.DirectEncryption, "recipient %d has the wrong class" % i, type(r))
        K.headers_match(mon, r, {}, u, "recipient %d" % i)
        mon.check(r.payload == b"", "direct recipient carries a ciphertext", r.payload)
    mon.saw("direct recipients", len(specs))


def run(case, mon):
    rng = random.Random(case["s"])
    kind, alg = case["kind"], case["alg"]
    km = G.mac_key(alg, rng)
    p, u = G.buckets(rng, alg)
    pl = G.blob(rng, case["size"]) if "size" in case else G.payload(rng)
    aad = G.aad(rng)
    key = mon.must("key", K.key, rng, km, None, mac_params(rng, alg, True))
    rec = direct_recipients(rng) if kind == "Mac" else None
    kw = {"recipients": make_direct(mon, rng, rec)} if rec and rng.random() < 0.6 else {}
    if rng.random() < 0.6:
        msg = mon.must("constructor", K.MSG[kind], phdr=K.spell(rng, p), uhdr=K.spell(rng, u), payload=pl, external_aad=aad, key=key, **kw)
    else:
        p0, u0 = G.buckets(rng, rng.choice(list(R.MAC)))
        msg = mon.must("constructor", K.MSG[kind], phdr=K.spell(rng, p0), uhdr=K.spell(rng, u0), payload=b"other", **kw)
        if rng.random() < 0.5 and (kw or not rec):
            a0 = p0.get(1, u0.get(1))
            msg.key = K.key(rng, G.mac_key(a0, rng))
            mon.must("encode", msg.encode)
        mon.must("header assignment", K.build_headers, mon, rng, msg, p, u)
        msg.payload, msg.external_aad, msg.key = pl, aad, key
        mon.saw("headers changed before encoding")
    if rec and not kw:
        msg.recipients = make_direct(mon, rng, rec)
    K.text_algs(mon, rng, msg, *(msg.recipients if rec else []))
    data = K.encode(mon, kind, msg, rng)
    if rng.random() < 0.3:
        t1 = C.dec(data).value[3]
        data = K.encode(mon, kind, msg, rng)
        mon.check(C.dec(data).value[3] == t1, "encoding twice gives different tags")
    mon.check(msg.payload == pl and msg.external_aad == aad, "encode changed payload or external data")
    vkey = mon.must("key", K.key, rng, km, None, mac_params(rng, alg, False))
    want = R.MAC[alg][2]
    tag0 = None
    for hop in range(rng.choice([1, 2, 3])):
        arr = C.dec(data)
        mon.check(arr.tag == R.MSG_TAG[kind] and len(arr.value) == (5 if rec else 4), "shape of the encoded message", arr.tag, len(arr.value))
        tag = arr.value[3]
        mon.check(type(tag) is bytes and len(tag) == want, "tag length of algorithm %d" % alg, tag, want)
        mon.saw("tag lengths compared", alg, len(pl) % 16)
        tag0 = tag0 or tag
        mon.check(tag == tag0, "re-encoding the decoded message changed the tag", tag, tag0)
        d = K.decode(mon, kind, data, rng.random() < 0.5)
        mon.eq(d.payload, pl, "payload after transport")
        mon.eq(d.auth_tag, tag, "tag after transport")
        K.headers_match(mon, d, p, u, "after transport")
        if rec:
            check_direct(mon, d, rec)
        d.external_aad, d.key = aad, vkey
        for _ in range(rng.choice([1, 2])):
            r = mon.must("verify_tag", d.verify_tag)
            mon.check(r is True, "valid %s does not verify" % kind, case, r)
            mon.saw("mac0 verified" if kind == "Mac0" else "mac verified", alg, len(pl), len(p), len(u), hop, 1 in u)
        d.key = K.key(rng, km, None, mac_params(rng, alg, True))
        new = G.header(rng, used=set(p) | {1})
        u = {**u, **new}
        d.uhdr_update(K.spell(rng, new))
        data = K.encode(mon, kind, d, rng)
        mon.saw("re-encoded")
    for _ in range(rng.choice([0, 0, 1, 3])):
        edited(mon, rng, kind, msg, rec)
    if not pl:
        mon.saw("empty payload")
    if len(pl) % 16 in (0, 1, 15):
        mon.saw("block boundary payload")
    if 1 in u:
        mon.saw("algorithm unprotected")


def edited(mon, rng, kind, msg, rec):
    """One or several parts of an encoded message change: the next encoding carries the tag of what it contains."""
    p, u = K.norm(msg.phdr), K.norm(msg.uhdr)
    alg = p.get(1, u.get(1))
    what = rng.sample(["payload", "phdr", "uhdr", "aad", "key", "alg"], rng.choice([1, 1, 1, 2, 3]))
    for w in what:
        if w == "payload":
            msg.payload = G.variant(rng, msg.payload)
        elif w == "aad":
            msg.external_aad = G.variant(rng, msg.external_aad)
        elif w == "key":
            msg.key = K.key(rng, G.mac_key(alg, rng), None, mac_params(rng, alg, True))
        elif w == "alg":
            same = [a for a in R.MAC if R.MAC[a][0] == R.MAC[alg][0] and a != alg and (R.MAC[a][0] == "hmac" or R.MAC[a][1] == R.MAC[alg][1])]
            alg = rng.choice(same)
            k = dict(K.norm(msg.key))
            k.pop(3, None)
            msg.key = K.key(rng, k, "dict")
            (msg.phdr_update if 1 in p else msg.uhdr_update)(K.spell(rng, {1: alg}))
        else:
            other = u if w == "phdr" else p
            h = {k: v for k, v in K.norm(getattr(msg, w)).items()}
            new = G.header(rng, rng.choice([1, 1, 2]), used=set(other) | {1})
            if rng.random() < 0.5:
                getattr(msg, w + "_update")(K.spell(rng, new))
                h.update(new)
            else:
                h = {**{k: v for k, v in h.items() if k == 1}, **new}
                setattr(msg, w, K.spell(rng, h))
            mon.check(C.same(K.norm(getattr(msg, w)), h), "edited header map", w)
    p, u = K.norm(msg.phdr), K.norm(msg.uhdr)
    arr = C.dec(K.encode(mon, kind, msg, rng)).value
    mon.check(C.same(K.wired(C.dec(arr[0])) if arr[0] else {}, p) and C.same(K.wired(arr[1]), u), "headers of an edited message", what)
    k = K.norm(msg.key)[-1]
    mon.check(arr[3] == R.mac(alg, k, R.tbm(kind, arr[0], msg.external_aad, msg.payload)), "tag of an edited message (%s)" % ", ".join(what), alg)
    d = K.decode(mon, kind, R.tagged(kind, arr))
    d.external_aad, d.key = msg.external_aad, K.key(rng, {1: 4, -1: k})
    mon.check(mon.must("verify_tag", d.verify_tag) is True, "an edited message does not verify (%s)" % ", ".join(what), alg)
    for w in what:
        mon.saw("edited and encoded again: " + w, alg, kind)
