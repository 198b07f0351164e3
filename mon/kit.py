"""pycose-facing helpers shared by the checks: spelling of labels, construction of keys, normal form of what comes back."""
from copy import deepcopy
import pickle

import cbor2

from pycose import algorithms, headers
from pycose.headers import CoseHeaderAttribute
from pycose.keys import CoseKey, EC2Key, OKPKey, RSAKey, SymmetricKey
from pycose.keys import keyparam, keyops, keytype, curves
from pycose.messages import (CoseMessage, Enc0Message, EncMessage, Mac0Message, MacMessage, Sign1Message, SignMessage)
from pycose.messages.recipient import (CoseRecipient, DirectEncryption, DirectKeyAgreement, KeyAgreementWithKeyWrap, KeyWrap)
from pycose.messages.signer import CoseSignature

from . import cborref as C
from . import coseref as R
from . import gen as G
from .core import Violation

MSG = {"Sign1": Sign1Message, "Sign": SignMessage, "Mac0": Mac0Message, "Mac": MacMessage, "Enc0": Enc0Message, "Enc": EncMessage}
KEYCLS = {1: OKPKey, 2: EC2Key, 3: RSAKey, 4: SymmetricKey}


def _table(root):
    """identifier -> class, by walking the subclasses (not the registry under test)."""
    out = {}
    todo = [root]
    while todo:
        c = todo.pop()
        todo += c.__subclasses__()
        i = c.__dict__.get("identifier")
        if isinstance(i, int):
            out[i] = c
    return out


ALG = _table(algorithms.CoseAlgorithm)
HDR = {k: v for k, v in _table(CoseHeaderAttribute).items() if v.__name__ not in ("SuppPubOther", "SuppPrivOther")}
KTY = _table(keytype.KTY)
OPS = _table(keyops.KeyOps)
CRV = _table(curves.CoseCurve)
KP = _table(keyparam.KeyParam)
KPARAM = {1: {**KP, **_table(keyparam.OKPKeyParam)}, 2: {**KP, **_table(keyparam.EC2KeyParam)},
          3: {**KP, **_table(keyparam.RSAKeyParam)}, 4: {**KP, **_table(keyparam.SymmetricKeyParam)}}


def case_of(rng, name):
    return rng.choice([name, name.lower(), name.upper(), name.capitalize(), "".join(rng.choice([c.lower(), c.upper()]) for c in name)])


def spelled(rng, table, i, how=None):
    how = how or rng.choice(["class", "class", "int", "name"])
    if how == "int" or i not in table:
        return i
    return table[i] if how == "class" else case_of(rng, table[i].fullname)


def spell(rng, hdr, how=None):
    """Header map in reference form -> as a pycose user may write it."""
    out = {}
    for k, v in hdr.items():
        lab = spelled(rng, HDR, k, how) if isinstance(k, int) else k
        if k == 1:
            v = spelled(rng, ALG, v, how)
        elif isinstance(v, dict) and k in (-1, -2):
            v = v if rng.random() < 0.5 else dict(v)
        out[lab] = copy(v)
    return out


def copy(v):
    if isinstance(v, list):
        return [copy(x) for x in v]
    if isinstance(v, dict):
        return {k: copy(x) for k, x in v.items()}
    return v


def norm(x):
    """What pycose holds -> reference form; raises Violation on anything that is not a plain CBOR item."""
    if isinstance(x, type):
        i = getattr(x, "identifier", None)
        if type(i) is not int:
            raise Violation("a class without identifier where a value was expected: %r" % (x,))
        return i
    if isinstance(x, CoseKey):
        return {norm(k): norm(v) for k, v in x.items()}
    if isinstance(x, dict):
        return {norm(k): norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, cbor2.CBORTag):
        return C.Tag(x.tag, norm(x.value))
    if x is None or isinstance(x, (bool, int, float, str, bytes)):
        return x
    raise Violation("unexpected object in a header or key: %r" % (x,))


def key(rng, m, form=None, params=None):
    """A pycose key from an integer-labelled map, built in one of the ways the API offers."""
    m = {**m, **(params or {})}
    kty = m[1]
    form = form or rng.choice(["dict", "dict", "cls", "names", "cbor", "ctor", "iter", "copy"])
    if form == "dict":
        return CoseKey.from_dict(dict(m))
    if form == "cls":
        return CoseKey.from_dict({KPARAM[kty].get(k, k): keyval(k, v, "cls", kty) for k, v in m.items()})
    if form == "names":
        return CoseKey.from_dict({(case_of(rng, KPARAM[kty][k].fullname) if k in KPARAM[kty] else k): keyval(k, v, "names", kty) for k, v in m.items()})
    if form == "cbor":
        return CoseKey.decode(C.enc(m))
    if form == "copy":
        k = CoseKey.from_dict(dict(m))
        return deepcopy(k) if rng.random() < 0.5 else pickle.loads(pickle.dumps(k))
    if form == "iter":
        return CoseKey.from_dict(dict(CoseKey.from_dict(dict(m))))
    opt = {KPARAM[kty].get(k, k): keyval(k, v, "cls", kty) for k, v in m.items() if not isinstance(k, int) or k >= 0 or k < -12}
    opt.pop(keyparam.KpKty, None)
    if kty == 2:
        if form == "opt":
            for k in (-2, -3, -4):
                if k in m and rng.random() < 0.7:
                    opt[rng.choice([k, KPARAM[2][k], case_of(rng, KPARAM[2][k].fullname)])] = m[k]
                    m = {a: v for a, v in m.items() if a != k}
        return EC2Key(crv=CRV[m[-1]], x=m.get(-2, b""), y=m.get(-3, b""), d=m.get(-4, b""), optional_params=opt)
    if kty == 1:
        return OKPKey(crv=CRV[m[-1]], x=m.get(-2, b""), d=m.get(-4, b""), optional_params=opt)
    if kty == 3:
        return RSAKey(n=m[-1], e=m[-2], d=m.get(-3, b""), p=m.get(-4, b""), q=m.get(-5, b""), dp=m.get(-6, b""),
                      dq=m.get(-7, b""), qinv=m.get(-8, b""), optional_params=opt)
    return SymmetricKey(k=m[-1], optional_params=opt)


def keyval(k, v, how, kty):
    t = {1: KTY, 3: ALG, 4: OPS}.get(k)
    if k == -1 and kty in (1, 2):
        t = CRV
    if t is None or how == "int":
        return v
    f = (lambda c: c) if how == "cls" else (lambda c: c.fullname)
    return [f(t[i]) for i in v] if isinstance(v, list) else f(t[v])


def headers_match(mon, obj, p, u, what):
    gp, gu = norm(obj.phdr), norm(obj.uhdr)
    mon.check(C.same(gp, p), what + ": protected header differs", gp, p)
    mon.check(C.same(gu, u), what + ": unprotected header differs", gu, u)
    mon.saw("header maps compared")


def decode(mon, kind, data, via=None, **kw):
    """Decode through the generic or the specific class; the type is monitored."""
    cls = MSG[kind] if via else CoseMessage
    m = mon.must("%s.decode" % cls.__name__, cls.decode, data, **kw)
    mon.check(type(m) is MSG[kind], "decoded message has the wrong type", type(m), kind)
    return m


def encode(mon, kind, msg, rng=None, tag=None, **kw):
    """Encode with or without tag; the untagged form gets its tag from the harness."""
    tag = tag if tag is not None else (rng.random() < 0.8 if rng else True)
    data = mon.must("%s.encode" % kind, msg.encode, tag=tag, **kw)
    mon.check(type(data) is bytes, "encode() did not return bytes", type(data))
    return data if tag else C.head(6, R.MSG_TAG[kind]) + data


def text_algs(mon, rng, *objs):
    """Sometimes algorithms are written as names on the wire."""
    if rng.random() < 0.1:
        for o in objs:
            o.alg_tstr_encoding = True
        mon.saw("algorithms written as text")


def wired(h):
    """A header map from the wire with the algorithm as its identifier."""
    if isinstance(h, dict) and type(h.get(1)) is str:
        return {**h, 1: next((i for i, a in ALG.items() if a.fullname.upper() == h[1].upper()), h[1])}
    return h


def stale(rng, items):
    """Earlier values of some parameters, to be replaced by an update."""
    out = {}
    for k, v in items:
        if rng.random() < 0.25:
            if k == 1:
                out[k] = rng.choice([-7, -8, 1, 3, 5, 10, -6])
            elif k in G.SAFE:
                out[k] = G.registered(rng, k)
            elif k in (5, 6):
                out[k] = rng.randbytes(rng.choice([1, 12]))
            elif k not in (-1, -2):
                out[k] = G.value(rng)
    return out


def build_headers(mon, rng, obj, p, u):
    """Bring obj to the header maps p, u by assignment and updates."""
    for which, h in (("phdr", p), ("uhdr", u)):
        how = rng.randrange(3)
        items = list(h.items())
        if how == 0:
            setattr(obj, which, spell(rng, h))
        elif how == 1:
            setattr(obj, which, {})
            for k, v in items:
                getattr(obj, which + "_update")(spell(rng, {k: v}))
        else:
            cut = rng.randrange(len(items) + 1)
            setattr(obj, which, spell(rng, {**stale(rng, items[cut:]), **dict(items[:cut])}))
            getattr(obj, which + "_update")(spell(rng, dict(items[cut:])))
