"""Independent reference implementation of the parts of RFC 8152 / 8230 / 8812 / 9053 that pycose implements.

Imports nothing from pycose, cbor2, ecdsa or attr.  Structures come from cborref; HMAC, HKDF, AES-KW, CBC-MAC, GHASH-free
AEAD and point arithmetic checks are built here on hashlib/hmac and the AES/EC/RSA primitives of the `cryptography` package,
with every algorithm parameter taken from the tables below, which restate the IANA registries.

A key is a map with integer labels, as it appears in a COSE_Key.
"""
import hashlib
import hmac

from cryptography.exceptions import InvalidSignature, InvalidTag
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, ed25519, ed448, padding, rsa, utils as asn
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
from cryptography.hazmat.primitives.ciphers.aead import AESCCM, AESGCM

from .cborref import Raw, Tag, enc

# ------------------------------------------------------------------------------------------------------- IANA tables
SIG = {
    -7: ("ecdsa", 1, "sha256"), -35: ("ecdsa", 2, "sha384"), -36: ("ecdsa", 3, "sha512"), -8: ("eddsa",),
    -37: ("pss", "sha256"), -38: ("pss", "sha384"), -39: ("pss", "sha512"),
    -257: ("pkcs1", "sha256"), -258: ("pkcs1", "sha384"), -259: ("pkcs1", "sha512"), -65535: ("pkcs1", "sha1"),
}
MAC = {
    4: ("hmac", "sha256", 8), 5: ("hmac", "sha256", 32), 6: ("hmac", "sha384", 48), 7: ("hmac", "sha512", 64),
    14: ("cbcmac", 16, 8), 15: ("cbcmac", 32, 8), 25: ("cbcmac", 16, 16), 26: ("cbcmac", 32, 16),
}
# id: (mode, key bytes, tag bytes, nonce bytes)
AEAD = {
    1: ("gcm", 16, 16, 12), 2: ("gcm", 24, 16, 12), 3: ("gcm", 32, 16, 12),
    10: ("ccm", 16, 8, 13), 11: ("ccm", 32, 8, 13), 12: ("ccm", 16, 8, 7), 13: ("ccm", 32, 8, 7),
    30: ("ccm", 16, 16, 13), 31: ("ccm", 32, 16, 13), 32: ("ccm", 16, 16, 7), 33: ("ccm", 32, 16, 7),
}
KW = {-3: 16, -4: 24, -5: 32}
OAEP = {-40: "sha1", -41: "sha256", -42: "sha512"}
# id: (es/ss, hash, wrapping algorithm or None)
ECDH = {
    -25: ("es", "sha256", None), -26: ("es", "sha512", None), -27: ("ss", "sha256", None), -28: ("ss", "sha512", None),
    -29: ("es", "sha256", -3), -30: ("es", "sha256", -4), -31: ("es", "sha256", -5),
    -32: ("ss", "sha256", -3), -33: ("ss", "sha256", -4), -34: ("ss", "sha256", -5),
}
HASHES = {-14: ("sha1", None, None), -15: ("sha256", 8, None), -16: ("sha256", None, None), -17: ("sha512", 32, None),
          -18: ("shake_128", None, 32), -43: ("sha384", None, None), -44: ("sha512", None, None), -45: ("shake_256", None, 64)}

# curve id: (name, kind, coordinate bytes)
CURVES = {1: ("P256", "EC2", 32), 2: ("P384", "EC2", 48), 3: ("P521", "EC2", 66), 4: ("X25519", "OKP", 32),
          5: ("X448", "OKP", 56), 6: ("Ed25519", "OKP", 32), 7: ("Ed448", "OKP", 57), 8: ("secp256k1", "EC2", 32)}
_EC = {1: ec.SECP256R1, 2: ec.SECP384R1, 3: ec.SECP521R1, 8: ec.SECP256K1}
_P192 = None
# id: p, a, b, order
DOMAIN = {
    1: (2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1, -3,
        0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
        0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551),
    2: (2 ** 384 - 2 ** 128 - 2 ** 96 + 2 ** 32 - 1, -3,
        0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef,
        0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973),
    3: (2 ** 521 - 1, -3,
        0x0051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00,
        (2 ** 521 - 2 ** 260) + 0xa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409),
    8: (2 ** 256 - 2 ** 32 - 977, 0, 7, 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141),
}
_H = {"sha1": hashes.SHA1, "sha256": hashes.SHA256, "sha384": hashes.SHA384, "sha512": hashes.SHA512}

MSG_TAG = {"Sign1": 18, "Sign": 98, "Mac0": 17, "Mac": 97, "Enc0": 16, "Enc": 96}
CONTEXT = {"Sign1": "Signature1", "Sign": "Signature", "Mac0": "MAC0", "Mac": "MAC", "Enc0": "Encrypt0", "Enc": "Encrypt"}


def on_curve(crv, x, y):
    p, a, b, _ = DOMAIN[crv]
    return 0 <= x < p and 0 <= y < p and (y * y - x * x * x - a * x - b) % p == 0


def solve_y(crv, x):
    """The two Y for x, or None when x is not on the curve (all four primes are 3 mod 4)."""
    p, a, b, _ = DOMAIN[crv]
    r = (x * x * x + a * x + b) % p
    y = pow(r, (p + 1) // 4, p)
    return (y, (-y) % p) if y * y % p == r else None


def ec_public(crv, d):
    n = ec.derive_private_key(d, _EC[crv]()).public_key().public_numbers()
    return n.x, n.y


def ec_key(crv, d):
    """COSE map of the private EC2 key with scalar d."""
    x, y = ec_public(crv, d)
    n = CURVES[crv][2]
    return {1: 2, -1: crv, -2: x.to_bytes(n, "big"), -3: y.to_bytes(n, "big"), -4: d.to_bytes(n, "big")}


def okp_key(crv, d):
    from cryptography.hazmat.primitives.asymmetric import x25519, x448
    cls = {4: x25519.X25519PrivateKey, 5: x448.X448PrivateKey, 6: ed25519.Ed25519PrivateKey, 7: ed448.Ed448PrivateKey}[crv]
    return {1: 1, -1: crv, -2: cls.from_private_bytes(d).public_key().public_bytes_raw(), -4: d}


_PRIVATE = {1: (-4,), 2: (-4,), 3: (-3, -4, -5, -6, -7, -8, -9, -10, -11, -12), 4: ()}


def public(key):
    return {k: v for k, v in key.items() if not (isinstance(k, int) and k in _PRIVATE[key[1]])}


# -------------------------------------------------------------------------------------------------------- primitives
def digest(alg, data):
    name, trunc, xof = HASHES[alg]
    h = hashlib.new(name, data)
    d = h.digest(xof) if xof else h.digest()
    return d[:trunc] if trunc else d


_RSA_CACHE = {}


def _rsa(key, private):
    ck = (key[-1], key[-2], private and key.get(-3))
    if ck in _RSA_CACHE:
        return _RSA_CACHE[ck]
    i = lambda b: int.from_bytes(b, "big")
    pub = rsa.RSAPublicNumbers(i(key[-2]), i(key[-1]))
    if not private:
        r = pub.public_key()
    else:
        r = rsa.RSAPrivateNumbers(i(key[-4]), i(key[-5]), i(key[-3]), i(key[-6]), i(key[-7]), i(key[-8]), pub).private_key()
    _RSA_CACHE[ck] = r
    return r


def _rsa_pad(spec):
    h = _H[spec[1]]
    if spec[0] == "pss":
        return padding.PSS(padding.MGF1(h()), h.digest_size), h()
    return padding.PKCS1v15(), h()


def sign(alg, key, data):
    spec = SIG[alg]
    if spec[0] == "ecdsa":
        assert key[-1] == spec[1]
        sk = ec.derive_private_key(int.from_bytes(key[-4], "big"), _EC[spec[1]]())
        r, s = asn.decode_dss_signature(sk.sign(data, ec.ECDSA(_H[spec[2]]())))
        n = CURVES[spec[1]][2]
        return r.to_bytes(n, "big") + s.to_bytes(n, "big")
    if spec[0] == "eddsa":
        cls = {6: ed25519.Ed25519PrivateKey, 7: ed448.Ed448PrivateKey}[key[-1]]
        return cls.from_private_bytes(key[-4]).sign(data)
    pad, h = _rsa_pad(spec)
    return _rsa(key, True).sign(data, pad, h)


def verify(alg, key, data, sig):
    spec = SIG[alg]
    try:
        if spec[0] == "ecdsa":
            n = CURVES[spec[1]][2]
            if key[-1] != spec[1] or len(sig) != 2 * n:
                return False
            pk = ec.EllipticCurvePublicNumbers(int.from_bytes(key[-2], "big"), int.from_bytes(key[-3], "big"),
                                               _EC[spec[1]]()).public_key()
            der = asn.encode_dss_signature(int.from_bytes(sig[:n], "big"), int.from_bytes(sig[n:], "big"))
            pk.verify(der, data, ec.ECDSA(_H[spec[2]]()))
        elif spec[0] == "eddsa":
            cls = {6: ed25519.Ed25519PublicKey, 7: ed448.Ed448PublicKey}[key[-1]]
            cls.from_public_bytes(key[-2]).verify(sig, data)
        else:
            pad, h = _rsa_pad(spec)
            if len(sig) != (_rsa(key, False).key_size + 7) // 8:
                return False
            _rsa(key, False).verify(sig, data, pad, h)
        return True
    except InvalidSignature:
        return False


def mac(alg, k, data):
    spec = MAC[alg]
    if spec[0] == "hmac":
        return hmac.new(k, data, spec[1]).digest()[:spec[2]]
    if len(k) != spec[1]:
        raise ValueError("key length")
    data += bytes(-len(data) % 16)
    e = Cipher(algorithms.AES(k), modes.ECB()).encryptor()
    c = bytes(16)
    for i in range(0, len(data), 16):
        c = e.update(bytes(a ^ b for a, b in zip(c, data[i:i + 16])))
    return c[:spec[2]]


def seal(alg, k, nonce, aad, pt):
    m, kl, tl, _ = AEAD[alg]
    assert len(k) == kl
    return AESGCM(k).encrypt(nonce, pt, aad) if m == "gcm" else AESCCM(k, tl).encrypt(nonce, pt, aad)


def open_(alg, k, nonce, aad, ct):
    """Plaintext or None."""
    m, kl, tl, _ = AEAD[alg]
    try:
        return AESGCM(k).decrypt(nonce, ct, aad) if m == "gcm" else AESCCM(k, tl).decrypt(nonce, ct, aad)
    except InvalidTag:
        return None


def wrap(kek, key):
    """RFC 3394 over AES-ECB."""
    e = Cipher(algorithms.AES(kek), modes.ECB()).encryptor()
    a, r = b"\xa6" * 8, [key[i:i + 8] for i in range(0, len(key), 8)]
    n = len(r)
    for j in range(6):
        for i in range(n):
            b = e.update(a + r[i])
            a = (int.from_bytes(b[:8], "big") ^ (n * j + i + 1)).to_bytes(8, "big")
            r[i] = b[8:]
    return a + b"".join(r)


def unwrap(kek, data):
    if len(data) % 8 or len(data) < 24:
        return None
    e = Cipher(algorithms.AES(kek), modes.ECB()).decryptor()
    a, r = data[:8], [data[i:i + 8] for i in range(8, len(data), 8)]
    n = len(r)
    for j in reversed(range(6)):
        for i in reversed(range(n)):
            b = e.update((int.from_bytes(a, "big") ^ (n * j + i + 1)).to_bytes(8, "big") + r[i])
            a, r[i] = b[:8], b[8:]
    return b"".join(r) if a == b"\xa6" * 8 else None


def _oaep(alg):
    h = _H[OAEP[alg]]
    return padding.OAEP(padding.MGF1(h()), h(), None)


def oaep_enc(alg, key, data):
    return _rsa(key, False).encrypt(data, _oaep(alg))


def oaep_dec(alg, key, data):
    return _rsa(key, True).decrypt(data, _oaep(alg))


def ecdh(priv, pub):
    """Shared secret: X coordinate of d*Q."""
    crv = priv[-1]
    assert crv == pub[-1]
    x = int.from_bytes(pub[-2], "big")
    y = pub.get(-3)
    y = solve_y(crv, x)[0] if y is None or isinstance(y, bool) else int.from_bytes(y, "big")      # the X of dQ needs no sign
    q = ec.EllipticCurvePublicNumbers(x, y, _EC[crv]()).public_key()
    return ec.derive_private_key(int.from_bytes(priv[-4], "big"), _EC[crv]()).exchange(ec.ECDH(), q)


def hkdf(name, salt, ikm, info, length):
    size = hashlib.new(name).digest_size
    prk = hmac.new(salt if salt else bytes(size), ikm, name).digest()
    out, t, i = b"", b"", 1
    while len(out) < length:
        t = hmac.new(prk, t + info + bytes([i]), name).digest()
        out += t
        i += 1
    return out[:length]


def kdf_context(alg, key_bytes, protected, u=(None, None, None), v=(None, None, None), pub_other=None, priv_other=None):
    pubinfo = [key_bytes * 8, protected]
    if pub_other is not None:
        pubinfo.append(pub_other)
    ctx = [alg, list(u), list(v), pubinfo]
    if priv_other is not None:
        ctx.append(priv_other)
    return enc(ctx)


def key_bytes(alg):
    """Key length in bytes of a content algorithm or a key wrap algorithm."""
    if alg in AEAD:
        return AEAD[alg][1]
    if alg in KW:
        return KW[alg]
    spec = MAC[alg]
    return spec[1] if spec[0] == "cbcmac" else {"sha256": 32, "sha384": 48, "sha512": 64}[spec[1]]


def derive(ecdh_alg, priv, pub, target, protected, salt=None, **ctx):
    """Key from an ECDH recipient: the content key, or the KEK when the algorithm wraps."""
    _, h, kw = ECDH[ecdh_alg]
    a = kw if kw is not None else target
    n = key_bytes(a)
    return hkdf(h, salt, ecdh(priv, pub), kdf_context(a, n, protected, **ctx), n)


# -------------------------------------------------------------------------------------------------------- structures
def hdr_bytes(h):
    """Protected header map to its canonical bstr content."""
    return h if isinstance(h, bytes) else (enc(h) if h else b"")


def auth_phdr(p):
    """What is authenticated for the wire content p: an empty map counts as empty (RFC 8152 section 3, 4.4)."""
    return b"" if p in (b"", b"\xa0") else p


def tbs1(p, aad, payload):
    return enc(["Signature1", p, aad, payload])


def tbs(body_p, sign_p, aad, payload):
    return enc(["Signature", body_p, sign_p, aad, payload])


def tbm(kind, p, aad, payload):
    return enc([CONTEXT[kind], p, aad, payload])


def enc_aad(kind, p, aad):
    return enc([CONTEXT[kind], p, aad])


def tagged(kind, array):
    return enc(Tag(MSG_TAG[kind], array))
