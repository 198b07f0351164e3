"""C07 both directions against the reference: what pycose emits is parsed and judged by the reference alone, what the reference
produces in any valid CBOR encoding is judged by pycose."""
import random

from .. import cborref as C, coseref as R, gen as G, kit as K
from .c03 import check_direct, direct_recipients, make_direct

PROP = "C07"
RULE = ("a case is one message of one kind, algorithm and direction; non-trivial: the other implementation judged its signature, tag or "
        "ciphertext, not only its shape")
REQUIRED = {"emitted judged by the reference": 400, "reference message judged": 400, "array shapes checked": 400,
            "empty protected header": 60, "non-canonical encodings": 150, "several signers": 30, "recipients": 60,
            "a0 protected header": 10, "nil payload": 10, "text labels like names of parameters": 30}
ALGS = {"Sign1": R.SIG, "Sign": R.SIG, "Mac0": R.MAC, "Mac": R.MAC, "Enc0": R.AEAD, "Enc": R.AEAD}
SHAPE = {"Sign1": 4, "Sign": 4, "Mac0": 4, "Mac": 5, "Enc0": 3, "Enc": 4}


def cases(tier, rng):
    for rep in range({"quick": 36, "thorough": 500}[tier]):
        for kind, algs in ALGS.items():
            for alg in algs:
                for do in ("emit", "accept"):
                    yield {"do": do, "kind": kind, "alg": alg, "place": "ppu"[rep % 3], "s": rng.getrandbits(48)}


def run(case, mon):
    rng = random.Random(case["s"])
    (emit if case["do"] == "emit" else accept)(case, mon, rng, case["kind"], case["alg"])


def km_for(kind, alg, rng):
    if kind in ("Sign1", "Sign"):
        return G.sig_key(alg, rng)
    return G.mac_key(alg, rng) if kind in ("Mac0", "Mac") else G.aead_key(alg, rng)


def headers(rng, kind, alg, place):
    n = rng.choice([0, 0, 1, None])
    extra = {}, {}
    nonce = None
    if kind in ("Enc0", "Enc"):
        nonce = G.nonce(alg, rng)
        extra = ({5: nonce}, {}) if rng.random() < 0.4 and place == "p" else ({}, {5: nonce})
    p, u = G.buckets(rng, None if kind == "Sign" else alg, place, n, *extra)
    return p, u, nonce


def bucket(mon, arr, p, u, what):
    mon.check(type(arr[0]) is bytes, what + ": protected header is not a byte string", arr[0])
    if not p:
        mon.check(arr[0] == b"", what + ": empty protected header is not a zero-length string", arr[0])
        mon.saw("empty protected header")
    else:
        mon.check(C.same(C.dec(arr[0]), p), what + ": protected header", C.dec(arr[0]), p)
    mon.check(C.same(arr[1], u), what + ": unprotected header", arr[1], u)


def emit(case, mon, rng, kind, alg):
    km = km_for(kind, alg, rng)
    p, u, nonce = headers(rng, kind, alg, case["place"])
    pl, aad = G.payload(rng), G.aad(rng)
    if kind in ("Enc0", "Enc") and R.AEAD[alg][3] == 13:
        pl = pl[:65535]
    kw = dict(phdr=K.spell(rng, p), uhdr=K.spell(rng, u), payload=pl)
    signers = []
    if kind == "Sign":
        for a in [alg] + [rng.choice(list(R.SIG)) for _ in range(rng.choice([0, 0, 1, 3]))]:
            signers.append((a, km if a == alg and not signers else G.sig_key(a, rng), *G.buckets(rng, a, case["place"], rng.choice([0, 0, None])), G.aad(rng)))
        rng.shuffle(signers)
        kw["signers"] = [mon.must("CoseSignature", K.CoseSignature, phdr=K.spell(rng, sp), uhdr=K.spell(rng, su), external_aad=sa,
                                  key=K.key(rng, sk)) for a, sk, sp, su, sa in signers]
    else:
        kw.update(external_aad=aad, key=K.key(rng, km))
    rec = None
    if kind in ("Mac", "Enc"):
        rec = direct_recipients(rng)
        kw["recipients"] = make_direct(mon, rng, rec)
    msg = mon.must("constructor", K.MSG[kind], **kw)
    data = mon.must("encode", msg.encode)
    untagged = C.dec(mon.must("encode", msg.encode, tag=False))
    top = C.dec(data)
    mon.check(isinstance(top, C.Tag) and top.tag == R.MSG_TAG[kind], "message tag", top)
    arr = top.value
    mon.check(type(arr) is list and len(arr) == SHAPE[kind], "array shape of %s" % kind, arr)
    mon.check(type(untagged) is list and len(untagged) == SHAPE[kind] and C.same(untagged[:2], arr[:2]), "untagged form", untagged)
    bucket(mon, arr, p, u, kind)
    mon.saw("array shapes checked", kind)
    if kind not in ("Enc0", "Enc"):
        mon.check(type(arr[2]) is bytes and arr[2] == pl, "payload on the wire", arr[2])
    ok = None
    if kind == "Sign1":
        ok = type(arr[3]) is bytes and R.verify(alg, km, R.tbs1(arr[0], aad, pl), arr[3])
    elif kind == "Sign":
        mon.check(type(arr[3]) is list and len(arr[3]) == len(signers), "signer list", arr[3])
        for i, (s, (a, sk, sp, su, sa)) in enumerate(zip(arr[3], signers)):
            mon.check(type(s) is list and len(s) == 3 and type(s[2]) is bytes, "signer structure", s)
            bucket(mon, s, sp, su, "signer %d" % i)
            mon.check(R.verify(a, sk, R.tbs(arr[0], s[0], sa, pl), s[2]), "signature of signer %d (alg %d) is not accepted" % (i, a), case)
        ok = True
        if len(signers) > 1:
            mon.saw("several signers", len(signers))
    elif kind in ("Mac0", "Mac"):
        ok = C.same(arr[3], R.mac(alg, km[-1], R.tbm(kind, arr[0], aad, pl)))
    else:
        ok = type(arr[2]) is bytes and R.open_(alg, km[-1], nonce, R.enc_aad(kind, arr[0], aad), arr[2]) == pl
    mon.check(ok, "%s with algorithm %d is not accepted by the reference" % (kind, alg), case)
    if rec:
        mon.check(len(arr[-1]) == len(rec), "recipient list", arr[-1])
        for r, ru in zip(arr[-1], rec):
            mon.check(type(r) is list and len(r) == 3 and r[0] == b"" and r[2] == b"", "direct recipient structure", r)
            mon.check(C.same(r[1], ru), "recipient header", r[1], ru)
        mon.saw("recipients", len(rec))
    mon.saw("emitted judged by the reference", kind, alg, case["place"], len(pl), len(p), len(u))


def protected(rng, mon, p, var):
    if not p:
        if rng.random() < 0.25:
            mon.saw("a0 protected header")
            return b"\xa0"
        return b""
    return C.enc_var(p, rng, 0.5) if var else C.enc(p)


def accept(case, mon, rng, kind, alg):
    km = km_for(kind, alg, rng)
    p, u, nonce = headers(rng, kind, alg, case["place"])
    pl, aad = G.payload(rng), G.aad(rng)
    if kind in ("Enc0", "Enc") and R.AEAD[alg][3] == 13:
        pl = pl[:65535]
    text = rng.random() < 0.25
    if text:
        G.textual(rng, p, u)
        mon.saw("text labels like names of parameters")
    var = rng.random() < 0.7
    pb = protected(rng, mon, p, var)
    ab = R.auth_phdr(pb)
    arr = [pb, u, pl]
    nil = kind in ("Sign1", "Sign") and rng.random() < 0.15
    signers, rec = [], None
    if kind == "Sign1":
        arr.append(R.sign(alg, km, R.tbs1(ab, aad, pl)))
    elif kind == "Sign":
        arr.append([])
        for a in [alg] + [rng.choice(list(R.SIG)) for _ in range(rng.choice([0, 0, 1, 3]))]:
            sk = G.sig_key(a, rng)
            sp, su = G.buckets(rng, a, case["place"], rng.choice([0, 0, None]))
            if text:
                G.textual(rng, sp, su)
            sb, sa = protected(rng, mon, sp, var), G.aad(rng)
            arr[3].append([sb, su, R.sign(a, sk, R.tbs(ab, R.auth_phdr(sb), sa, pl))])
            signers.append((a, sk, sp, su, sa))
        if len(signers) > 1:
            mon.saw("several signers", len(signers))
    elif kind in ("Mac0", "Mac"):
        arr.append(R.mac(alg, km[-1], R.tbm(kind, ab, aad, pl)))
    else:
        arr[2] = R.seal(alg, km[-1], nonce, R.enc_aad(kind, ab, aad), pl)
    ct = arr[2]
    if nil:
        arr[2] = None
        mon.saw("nil payload")
    if kind in ("Mac", "Enc"):
        rec = direct_recipients(rng)
        if text:
            G.textual(rng, *rec)
        arr.append([[b"" if rng.random() < 0.8 else b"\xa0", ru, b""] for ru in rec])
        mon.saw("recipients", len(rec))
    x = C.Tag(R.MSG_TAG[kind], arr)
    data = C.enc_var(x, rng, rng.choice([0.1, 0.4, 0.9])) if var else C.enc(x)
    if data != C.enc(x):
        mon.saw("non-canonical encodings")
    d = K.decode(mon, kind, data, rng.random() < 0.5)
    K.headers_match(mon, d, p, u, kind)
    if nil:
        mon.check(d.payload is None, "nil payload decodes to", d.payload)
    else:
        mon.eq(d.payload, ct, "payload")
    k = mon.must("key", K.key, rng, R.public(km) if kind in ("Sign1", "Sign") and rng.random() < 0.8 else km)
    args = (pl,) if nil else ()
    if kind == "Sign1":
        d.key, d.external_aad = k, aad
        r = mon.must("verify_signature", d.verify_signature, *args)
    elif kind == "Sign":
        mon.check(len(d.signers) == len(signers), "number of signers", len(d.signers))
        for i, (a, sk, sp, su, sa) in enumerate(signers):
            s = d.signers[i]
            K.headers_match(mon, s, sp, su, "signer %d" % i)
            s.key, s.external_aad = mon.must("key", K.key, rng, R.public(sk)), sa
            r = mon.must("verify_signature", s.verify_signature, *args)
            mon.check(r is True, "signature made by the reference is refused (signer %d, alg %d)" % (i, a), case)
    else:
        if rec:
            mon.check(len(d.recipients) == len(rec), "recipients", len(d.recipients))
            check_direct(mon, d, rec)
        d.key, d.external_aad = k, aad
        if kind in ("Mac0", "Mac"):
            r = mon.must("verify_tag", d.verify_tag)
        else:
            r = mon.must("decrypt", d.decrypt, *(d.recipients[:1] if rec else ()))
            mon.check(type(r) is bytes and r == pl, "decrypts to something else", r, pl)
            r = True
    mon.check(r is True, "%s made by the reference is refused (alg %d)" % (kind, alg), case, r)
    mon.saw("reference message judged", kind, alg, case["place"], len(pl), len(p), len(u), var)
