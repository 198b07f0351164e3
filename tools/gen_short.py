"""Searches deterministic signatures with leading (or trailing) zero bytes in a component; writes mon/data/short.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get("PYCOSE_REPO", "/repo"))
from mon import coseref as R, gen as G, cborref as C
import hashlib
from ecdsa import NIST256p, NIST384p, NIST521p, SigningKey

out = {}
for alg, curve, h, crv in ((-7, NIST256p, hashlib.sha256, 1), (-35, NIST384p, hashlib.sha384, 2), (-36, NIST521p, hashlib.sha512, 3)):
    n = R.CURVES[crv][2]
    need = 2 if crv == 3 else 1
    d = 0x1234567 + crv
    sk = SigningKey.from_secret_exponent(d, curve)
    found = {"r": [], "s": [], "r2": []}
    i = 0
    while len(found["r"]) < 3 or len(found["s"]) < 3:
        pl = b"short %d" % i
        i += 1
        s = sk.sign_deterministic(R.tbs1(C.enc({1: alg}), b"", pl), hashfunc=h)
        if not any(s[:need]):
            found["r"].append(pl.decode())
        if not any(s[n:n + need]):
            found["s"].append(pl.decode())
    out[str(alg)] = {"d": d, "payloads": found["r"][:4] + found["s"][:4]}
    print(alg, i, out[str(alg)])
for alg in (-257, -258, -259, -65535):
    for ki in range(2):
        bits = sorted(G.RSA)[1] if len(G.RSA) > 1 else sorted(G.RSA)[0]
        key = G.RSA[bits][ki % len(G.RSA[bits])]
        got, i = [], 0
        while len(got) < 2:
            pl = b"short %d" % i
            i += 1
            if R.sign(alg, key, R.tbs1(C.enc({1: alg}), b"", pl))[0] == 0:
                got.append(pl.decode())
        out.setdefault(str(alg), []).append([bits, ki % len(G.RSA[bits]), got])
for crv, d in ((6, bytes(range(32))), (7, bytes(range(57)))):
    key = R.okp_key(crv, d)
    half = len(d)
    got, i = [], 0
    want = [lambda s: s[0] == 0, lambda s: s[half] == 0, lambda s: s[half - 1] == 0 and crv == 6, lambda s: s[half - 2] == 0]
    for w in want:
        for i in range(1500):
            pl = b"short %d" % i
            if w(R.sign(-8, key, R.tbs1(C.enc({1: -8}), b"", pl))):
                got.append(pl.decode())
                break
    out.setdefault("-8", []).append([crv, d.hex(), got])
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mon", "data", "short.json"), "w"), indent=0)
