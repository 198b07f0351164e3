"""Seeded generators of reference-form values (no pycose): headers with integer/text labels, keys as integer-labelled maps."""
import json
import math
import os

from . import coseref as R

_D = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "data", "keys.json")))
RSA = {int(b): [{**{1: 3}, **{int(k): bytes.fromhex(v) for k, v in key.items()}} for key in keys]
       for b, keys in _D["rsa"].items()}
EC_SPECIAL = {int(c): {k: [int(d, 16) for d in v] for k, v in g.items()} for c, g in _D["ec"].items()}
OKP_SPECIAL = {int(c): {k: [bytes.fromhex(d) for d in v] for k, v in g.items()} for c, g in _D["okp"].items()}

SIZES = [0, 1, 2, 7, 8, 15, 16, 17, 22, 23, 24, 25, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257,
         511, 1000, 4095, 4096]
BIG = [65535, 65536, 65537, 70001]
HUGE = [131072 + 5, 1 << 20, (1 << 20) + 3]


def size(rng, big=0.02):
    r = rng.random()
    if r < big:
        return rng.choice(BIG if r > big / 20 else HUGE)
    if r < 0.66:
        return rng.choice(SIZES)
    if r < 0.7:         # structures around it reach a power of two
        return max(0, 2 ** rng.choice([6, 7, 8, 9, 10, 12]) - rng.randrange(70))
    return rng.randrange(0, 600)


def blob(rng, n):
    r = rng.random()
    if r < 0.08:
        return bytes(n)
    if r < 0.14:
        return b"\xff" * n
    if r < 0.2:
        return b"\x00" * min(n, 3) + rng.randbytes(max(0, n - 3))
    return rng.randbytes(n)


def payload(rng, big=0.02):
    return blob(rng, size(rng, big))


def plain(alg, rng, big=0.02):
    """A plaintext the algorithm can encrypt: a 13-byte CCM nonce leaves two bytes for the length."""
    p = payload(rng, big)
    return p[:65535] if alg in R.AEAD and R.AEAD[alg][3] == 13 else p


def aad(rng):
    return b"" if rng.random() < 0.4 else blob(rng, size(rng, 0.01))


def kid(rng):
    if rng.random() < 0.4:
        return rng.choice([b"11", b"our-secret"])       # key ids do not identify keys
    return blob(rng, rng.choice([0, 1, 2, 11, 16, 23, 24, 32, 255, 256]))


# --------------------------------------------------------------------------------------------------------------- keys
def ec_scalar(crv, rng):
    order = R.DOMAIN[crv][3]
    r = rng.random()
    if r < 0.45:
        g = EC_SPECIAL[crv]
        return rng.choice(g[rng.choice(sorted(g))])
    if r < 0.52:
        return rng.choice([1, 2, 3, 255, 256, order - 1, order - 2])
    return rng.randrange(1, order)


def ec_key(crv, rng):
    return R.ec_key(crv, ec_scalar(crv, rng))


def okp_key(crv, rng):
    if rng.random() < 0.4:
        g = OKP_SPECIAL[crv]
        d = rng.choice(g[rng.choice(sorted(g))])
    else:
        d = rng.randbytes(R.CURVES[crv][2])
    return R.okp_key(crv, d)


def rsa_key(rng, least=1088):
    sizes = [b for b in sorted(RSA) if b >= least]
    k = rng.choice(RSA[sizes[0] if rng.random() < 0.85 else rng.choice(sizes)])
    return rsa_exponent(k, rng) if rng.random() < 0.15 and -9 not in k else k


def rsa_exponent(k, rng):
    """The same modulus with another public exponent (of any usual or unusual length)."""
    p, q = int.from_bytes(k[-4], "big"), int.from_bytes(k[-5], "big")
    b = lambda n: n.to_bytes((n.bit_length() + 7) // 8, "big")
    for _ in range(50):
        e = rng.choice([3, 17, 257, 65539, 2 ** 24 + 43, 2 ** 32 + 15, rng.getrandbits(40) | 1, rng.getrandbits(63) | 1, rng.getrandbits(16) | 0x8001])
        if e > 2 and b(e) != k[-2] and math.gcd(e, (p - 1) * (q - 1)) == 1:
            d = pow(e, -1, (p - 1) * (q - 1) // (math.gcd(p - 1, q - 1) if e & 2 else 1))     # either is right; always the same for one e
            return {**k, -2: b(e), -3: b(d), -6: b(d % (p - 1)), -7: b(d % (q - 1))}
    return k


def sym_key(n, rng):
    return {1: 4, -1: blob(rng, n)}


def sig_key(alg, rng):
    spec = R.SIG[alg]
    if spec[0] == "ecdsa":
        return ec_key(spec[1], rng)
    if spec[0] == "eddsa":
        return okp_key(rng.choice([6, 7]), rng)
    return dict(rsa_key(rng))


def mac_key(alg, rng, n=None):
    spec = R.MAC[alg]
    return sym_key(n or (spec[1] if spec[0] == "cbcmac" else rng.choice([16, 24, 32])), rng)


def aead_key(alg, rng):
    return sym_key(R.AEAD[alg][1], rng)


def nonce(alg, rng):
    m, _, _, n = R.AEAD[alg]
    if m == "gcm" and rng.random() < 0.1:
        n = rng.choice([8, 13, 16, 26])      # GCM accepts other lengths, and pycose documentation uses 26 bytes
    return blob(rng, n)


# ------------------------------------------------------------------------------------------------------------- headers
NAMES = ["alg", "ALG", "kid", "IV", "ES256", "A128GCM", "EdDSA", "EC2", "SYMMETRIC", "SIGN", "P_256", "Algorithm", "KpKid", "content_type"]


def text(rng, n=None):
    if n is None and rng.random() < 0.15:
        return rng.choice(NAMES)        # only names of something elsewhere
    n = rng.choice([0, 1, 5, 23, 24, 60, 256]) if n is None else n
    # with texts that a Unicode normalisation or a trimming would change
    alphabet = "abz09 _-\u00e9\u20ac\U0001f511" if rng.random() < 0.7 else "ae\u0301\u212b\ufb01\u00a0\u1e9e\t\n\0\x7f\u202e\ufeff\u00c5A\u030a"
    return "".join(rng.choice(alphabet) for _ in range(n))


def integer(rng):
    return rng.choice([0, 1, 23, 24, 255, 256, 65535, 65536, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1, -1, -24, -25, -256,
                       -257, -65536, -65537, -2 ** 32, -2 ** 64, rng.randrange(-10 ** 6, 10 ** 6), 2 ** 70, -2 ** 80])


def value(rng, depth=2):
    k = rng.randrange(10 if depth > 0 else 7)
    if k == 0:
        return integer(rng)
    if k == 1:
        return rng.randbytes(rng.choice([0, 1, 23, 24, 40, 256]))
    if k == 2:
        return text(rng)
    if k == 3:
        return rng.choice([True, False, None])
    if k == 4:
        return rng.choice([0.0, 1.5, -2.25, 1e300, 3.141592653589793, float("inf")])
    if k in (5, 6):
        return rng.randrange(0, 1000)
    if k == 7:
        return [value(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 3, 24]))]
    if k == 8:
        return {(rng.randrange(-40, 1000) if rng.random() < 0.5 else "k%d" % i): value(rng, depth - 1)
                for i in range(rng.choice([0, 1, 2, 5, 24]))}
    return {rng.randbytes(3): value(rng, depth - 1), "": value(rng, depth - 1)}


HDR_IDS = [0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 32, 33, 34, 35, -1, -2, -3, -20, -21, -22, -23, -24, -25, -26]


def custom_int(rng):
    while True:
        k = rng.choice([integer(rng), rng.randrange(-70000, 70000), rng.choice([8, 11, 12, 15, 31, 36, 255, 256, 258, -4, -19, -27, -65537])])
        if k not in HDR_IDS and -2 ** 64 <= k < 2 ** 64:
            return k


def custom_label(rng):
    r = rng.random()
    if r < 0.6:
        return custom_int(rng)
    if r < 0.75:
        return rng.choice(["my_label", "camelCase", "Under_Score_1", "alg_", "kid2", "crv", "iss", "es256", "keyOps", "UPPER", "_", "x5t"])
    return rng.choice(["x-", "my ", "\u20ac", "Zz/"]) + text(rng, rng.choice([0, 1, 4, 22, 40]))


def textual(rng, *maps):
    """Adds text labels spelled like the names of header parameters: on the wire these are labels like any other text."""
    for h in maps:
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 2, 4])):
                n = rng.choice(["ALG", "CRITICAL", "CRIT", "CONTENT_TYPE", "KID", "IV", "PARTIAL_IV", "COUNTER_SIGN", "KID_CONTEXT", "EPHEMERAL_KEY",
                                "STATIC_KEY", "SALT", "X5_CHAIN", "X5_T", "PARTY_U_NONCE", "SUPP_PUB_OTHER"])
                h[rng.choice([n, n, n.lower(), n.capitalize()])] = rng.choice([value(rng), rng.randbytes(12), rng.choice([-7, -8, -37, 1, 3, 5, 10, 24, -3, -6]),
                                                                              "ES256", "A128GCM"])


def registered(rng, label):
    """A legal value for a registered header parameter that has no effect on the cryptography."""
    if label == 2:
        return [rng.choice([1, 4, "x-crit", -70000, 100]) for _ in range(rng.choice([1, 1, 2, 5]))]
    if label == 3:
        return rng.choice([0, 1, 42, 65535, 70000, "text/plain", "application/cose; cose-type=\"cose-sign\"", ""])
    if label in (4, 10):
        return kid(rng)
    if label == 9:
        return rng.randbytes(64)
    if label == 7:
        return [rng.randbytes(3), {4: rng.randbytes(2)}, rng.randbytes(64)]
    if label in (32, 33):
        return rng.choice([rng.randbytes(300), [rng.randbytes(40), rng.randbytes(256)]])
    if label == 34:
        return [rng.choice([-16, -15, -44]), rng.randbytes(32)]
    if label == 35:
        return "https://example.org/" + text(rng, 5)
    if label == -3:
        return kid(rng)
    return rng.randbytes(rng.choice([0, 1, 16, 32, 64]))


SAFE = [2, 3, 4, 7, 9, 10, 32, 33, 34, 35, -3]


def header(rng, n=None, reg=SAFE, used=()):
    """A header map without algorithm, IVs and keys."""
    out = {}
    n = rng.choice([0, 0, 1, 1, 2, 3, 5, rng.choice([22, 24, 30])]) if n is None else n
    for _ in range(n):
        if rng.random() < 0.55 and reg:
            k = rng.choice(reg)
            v = registered(rng, k)
        else:
            k, v = custom_label(rng), value(rng)
        if k not in used and k not in out:
            out[k] = v
    return out


def buckets(rng, alg, place=None, n=None, extra_p=None, extra_u=None):
    """Protected and unprotected maps sharing no label, algorithm in the given bucket."""
    place = place or rng.choice(["p", "p", "u"])
    must_p, must_u = dict(extra_p or {}), dict(extra_u or {})
    if alg is not None:
        (must_p if place == "p" else must_u)[1] = alg
    used = set(must_p) | set(must_u)
    p = header(rng, n, used=used)
    u = header(rng, n, used=used | set(p))
    return shuffled(rng, {**must_p, **p}), shuffled(rng, {**must_u, **u})


def shuffled(rng, d):
    items = list(d.items())
    rng.shuffle(items)
    return dict(items)


def number(rng):
    """An integer, often where its encoding changes length or sign."""
    n = rng.choice([0, 1, 23, 24, 255, 256, 65535, 65536, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1, rng.getrandbits(rng.randrange(1, 64))])
    return n if rng.random() < 0.7 else -1 - n


def layers(rng, usual=(1, 2, 3)):
    """How many signers or recipients stand side by side: a few, sometimes many."""
    return rng.choice(usual) if rng.random() < 0.88 else rng.choice([4, 5, 6, 7, 8, 9, 12])


def variant(rng, b):
    """A byte string different from b: flip, truncation, extension, prefix, emptied, swapped halves, replaced."""
    for _ in range(50):
        k = rng.randrange(8)
        if k <= 2 and b:
            i = rng.randrange(len(b) * 8)
            if rng.random() < 0.4:          # at either end or near a block boundary
                i = 8 * rng.choice([0, len(b) - 1, len(b) - 1, min(len(b) - 1, 1 << rng.randrange(3, 18))]) + i % 8
            r = b[:i // 8] + bytes([b[i // 8] ^ 1 << i % 8]) + b[i // 8 + 1:]
        elif k == 3 and b:
            r = b[:rng.randrange(len(b))]
        elif k == 4:
            r = b + rng.choice([b"\x00", rng.randbytes(rng.randrange(1, 17))])
        elif k == 5:
            r = rng.choice([b"\x00", b"\x01", rng.randbytes(3)]) + b
        elif k == 6:
            r = b[len(b) // 2:] + b[:len(b) // 2]
        else:
            r = rng.choice([b"", rng.randbytes(len(b)), bytes(len(b))])
        if r != b:
            return r
    return b + b"\x01"


def tails(rng, b):
    """A long byte string altered in one place: first, last, next to last byte, at 2^n boundaries, cut or extended by a byte."""
    at = {0, len(b) - 1, len(b) - 2, len(b) // 2} | {1 << n for n in (8, 12, 14, 15, 16, 17, 20)}
    for i in sorted(i for i in at if 0 <= i < len(b)):
        yield b[:i] + bytes([b[i] ^ 1 << rng.randrange(8)]) + b[i + 1:]
    yield b[:-1]
    yield b + b"\0"
    yield b[1:]


LONG = [65536 + 300, 70001, 131072 + 5, (1 << 20) + 3]


def trimmed(b, *cuts):
    """The forms of a byte string without its zero bytes: at both ends and, for values in two halves, at the ends of the halves."""
    out = [b.lstrip(b"\0"), b.rstrip(b"\0"), b.strip(b"\0")]
    for n in cuts:
        l, r = b[:n], b[n:]
        out += [l.lstrip(b"\0") + r, l + r.lstrip(b"\0"), l.lstrip(b"\0") + r.lstrip(b"\0"), l.rstrip(b"\0") + r, l + r.rstrip(b"\0")]
    if b[:1] == b"\0":
        out += [b[1:], b[1:] + b"\0"]
    if b[-1:] == b"\0":
        out += [b[:-1], b"\0" + b[:-1]]
    return sorted(set(out) - {b})
