#!/usr/bin/env python3
"""Writes mon/data/keys.json: static RSA keys and EC/OKP private values whose public or private value has a leading zero byte."""
import json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from cryptography.hazmat.primitives.asymmetric import rsa
from mon import coseref as R
rng = random.Random(20260)
out = {"rsa": {}, "ec": {}, "okp": {}}
def b(x): return x.to_bytes((x.bit_length() + 7) // 8, "big").hex()
for bits, e, n in ((1088, 65537, 2), (1536, 65537, 3), (2048, 65537, 3), (2049, 65537, 1), (1541, 3, 1), (3072, 3, 1)):
    for i in range(n):
        k = rsa.generate_private_key(e, bits).private_numbers()
        out["rsa"].setdefault(str(bits), []).append(
            {"-1": b(k.public_numbers.n), "-2": b(k.public_numbers.e), "-3": b(k.d), "-4": b(k.p), "-5": b(k.q),
             "-6": b(k.dmp1), "-7": b(k.dmq1), "-8": b(k.iqmp)})
for crv in (1, 2, 3, 8):
    n, order = R.CURVES[crv][2], R.DOMAIN[crv][3]
    z = 1 if crv != 3 else 2
    got = {"x0": [], "y0": [], "d0": [], "y_even": [], "y_odd": []}
    while any(len(v) < 3 for v in got.values()):
        d = rng.randrange(1, order)
        x, y = R.ec_public(crv, d)
        if x.to_bytes(n, "big")[:z] == bytes(z): got["x0"].append(hex(d))
        if y.to_bytes(n, "big")[:z] == bytes(z): got["y0"].append(hex(d))
        if d.to_bytes(n, "big")[:z] == bytes(z): got["d0"].append(hex(d))
        got["y_odd" if y & 1 else "y_even"].append(hex(d))
    out["ec"][str(crv)] = {k: v[:3] for k, v in got.items()}
for crv in (4, 5, 6, 7):
    n = R.CURVES[crv][2]
    got = {"x0": [], "d0": []}
    while any(len(v) < 2 for v in got.values()):
        d = rng.randbytes(n)
        if R.okp_key(crv, d)[-2][0] == 0: got["x0"].append(d.hex())
        if d[0] == 0: got["d0"].append(d.hex())
    out["okp"][str(crv)] = {k: v[:2] for k, v in got.items()}
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mon", "data", "keys.json")
json.dump(out, open(p, "w"), indent=0)
print(os.path.getsize(p))
