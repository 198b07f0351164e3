"""C18 registries: the IANA registries, transcribed here, against every way of looking an attribute up, against what names and identifiers
turn into on the wire, and against the registries' contents before, during and after arbitrary use."""
import random
import string

from .. import cborref as C, coseref as R, gen as G, kit as K
from pycose import algorithms, headers, utils
from pycose.keys import curves, keyops, keyparam, keytype

PROP = "C18"
RULE = ("a case looks attributes of one registry up in all ways, or uses the library at random and compares the registries with their "
        "contents at import; non-trivial: lookups were compared with the IANA tables, unknown attributes were refused or passed through, "
        "or a snapshot was compared after use")
REQUIRED = {"lookups by identifier": 4000, "lookups by name": 8000, "lookups by class": 4000, "unknown refused": 6000, "unknown passed through": 4000,
            "wire labels compared": 1500, "registries compared after use": 300, "registries walked": 300, "constants compared": 500,
            "lists with an unknown attribute refused": 3000, "lists looked up": 2000}

# --- registry: (registry class, module, {identifier: (class, name used by pycose, name in the IANA registry)})
_alg = {
    -65535: ("RsaPkcs1Sha1", "RS1", "RS1"), -259: ("RsaPkcs1Sha512", "RS512", "RS512"), -258: ("RsaPkcs1Sha384", "RS384", "RS384"),
    -257: ("RsaPkcs1Sha256", "RS256", "RS256"), -45: ("Shake256", "SHAKE-256", "SHAKE256"), -44: ("Sha512", "SHA-512", "SHA-512"),
    -43: ("Sha384", "SHA-384", "SHA-384"), -42: ("RsaesOaepSha512", "RSAES_OAEP_SHA_512", "RSAES-OAEP w/ SHA-512"),
    -41: ("RsaesOaepSha256", "RSAES_OAEP_SHA_256", "RSAES-OAEP w/ SHA-256"),
    -40: ("RsaesOaepSha1", "RSAES_OAEP_SHA_1", "RSAES-OAEP w/ RFC 8017 default parameters"), -39: ("Ps512", "PS512", "PS512"),
    -38: ("Ps384", "PS384", "PS384"), -37: ("Ps256", "PS256", "PS256"), -36: ("Es512", "ES512", "ES512"), -35: ("Es384", "ES384", "ES384"),
    -34: ("EcdhSsA256KW", "ECDH_SS_A256KW", "ECDH-SS + A256KW"), -33: ("EcdhSsA192KW", "ECDH_SS_A192KW", "ECDH-SS + A192KW"),
    -32: ("EcdhSsA128KW", "ECDH_SS_A128KW", "ECDH-SS + A128KW"), -31: ("EcdhEsA256KW", "ECDH_ES_A256KW", "ECDH-ES + A256KW"),
    -30: ("EcdhEsA192KW", "ECDH_ES_A192KW", "ECDH-ES + A192KW"), -29: ("EcdhEsA128KW", "ECDH_ES_A128KW", "ECDH-ES + A128KW"),
    -28: ("EcdhSsHKDF512", "ECDH_SS_HKDF_512", "ECDH-SS + HKDF-512"), -27: ("EcdhSsHKDF256", "ECDH_SS_HKDF_256", "ECDH-SS + HKDF-256"),
    -26: ("EcdhEsHKDF512", "ECDH_ES_HKDF_512", "ECDH-ES + HKDF-512"), -25: ("EcdhEsHKDF256", "ECDH_ES_HKDF_256", "ECDH-ES + HKDF-256"),
    -18: ("Shake128", "SHAKE-128", "SHAKE128"), -17: ("Sha512Trunc256", "SHA-512/256", "SHA-512/256"), -16: ("Sha256", "SHA-256", "SHA-256"),
    -15: ("Sha256Trunc64", "SHA-256/64", "SHA-256/64"), -14: ("Sha1", "SHA-1", "SHA-1"),
    -13: ("DirectHKDFAES256", "DIRECT_HKDF_AES_256", "direct+HKDF-AES-256"), -12: ("DirectHKDFAES128", "DIRECT_HKDF_AES_128", "direct+HKDF-AES-128"),
    -11: ("DirecHKDFSHA512", "DIRECT_HKDF_SHA_512", "direct+HKDF-SHA-512"), -10: ("DirectHKDFSHA256", "DIRECT_HKDF_SHA_256", "direct+HKDF-SHA-256"),
    -8: ("EdDSA", "EDDSA", "EdDSA"), -7: ("Es256", "ES256", "ES256"), -6: ("Direct", "DIRECT", "direct"), -5: ("A256KW", "A256KW", "A256KW"),
    -4: ("A192KW", "A192KW", "A192KW"), -3: ("A128KW", "A128KW", "A128KW"), 1: ("A128GCM", "A128GCM", "A128GCM"), 2: ("A192GCM", "A192GCM", "A192GCM"),
    3: ("A256GCM", "A256GCM", "A256GCM"), 4: ("HMAC25664", "HMAC_256_64", "HMAC 256/64"), 5: ("HMAC256", "HMAC_256", "HMAC 256/256"),
    6: ("HMAC384", "HMAC_384", "HMAC 384/384"), 7: ("HMAC512", "HMAC_512", "HMAC 512/512"),
    10: ("AESCCM1664128", "AES_CCM_16_64_128", "AES-CCM-16-64-128"), 11: ("AESCCM1664256", "AES_CCM_16_64_256", "AES-CCM-16-64-256"),
    12: ("AESCCM6464128", "AES_CCM_64_64_128", "AES-CCM-64-64-128"), 13: ("AESCCM6464256", "AES_CCM_64_64_256", "AES-CCM-64-64-256"),
    14: ("AESMAC12864", "AES_MAC_128_64", "AES-MAC 128/64"), 15: ("AESMAC25664", "AES_MAC_256_64", "AES-MAC 256/64"),
    25: ("AESMAC128128", "AES_MAC_128_128", "AES-MAC 128/128"), 26: ("AESMAC256128", "AES_MAC_256_128", "AES-MAC 256/128"),
    30: ("AESCCM16128128", "AES_CCM_16_128_128", "AES-CCM-16-128-128"), 31: ("AESCCM16128256", "AES_CCM_16_128_256", "AES-CCM-16-128-256"),
    32: ("AESCCM64128128", "AES_CCM_64_128_128", "AES-CCM-64-128-128"), 33: ("AESCCM64128256", "AES_CCM_64_128_256", "AES-CCM-64-128-256"),
}
_hdr = {
    0: ("Reserved", "RESERVED", "Reserved"), 1: ("Algorithm", "ALG", "alg"), 2: ("Critical", "CRITICAL", "crit"),
    3: ("ContentType", "CONTENT_TYPE", "content type"), 4: ("KID", "KID", "kid"), 5: ("IV", "IV", "IV"), 6: ("PartialIV", "PARTIAL_IV", "Partial IV"),
    7: ("CounterSignature", "COUNTER_SIGN", "counter signature"), 9: ("CounterSignature0", "COUNTER_SIGN0", "CounterSignature0"),
    10: ("KIDContext", "KID_CONTEXT", "kid context"), 32: ("X5bag", "X5_BAG", "x5bag"), 33: ("X5chain", "X5_CHAIN", "x5chain"),
    34: ("X5t", "X5_T", "x5t"), 35: ("X5u", "X5_U", "x5u"), -1: ("EphemeralKey", "EPHEMERAL_KEY", "ephemeral key"),
    -2: ("StaticKey", "STATIC_KEY", "static key"), -3: ("StaticKeyID", "STATIC_KEY_ID", "static key id"), -20: ("Salt", "SALT", "salt"),
    -21: ("PartyUID", "PARTY_U_ID", "PartyU identity"), -22: ("PartyUNonce", "PARTY_U_NONCE", "PartyU nonce"),
    -23: ("PartyUOther", "PARTY_U_OTHER", "PartyU other"), -24: ("PartyVID", "PARTY_V_ID", "PartyV identity"),
    -25: ("PartyVNonce", "PARTY_V_NONCE", "PartyV nonce"), -26: ("PartyVOther", "PARTY_V_OTHER", "PartyV other"),
}
_common = {1: ("KpKty", "KTY", "kty"), 2: ("KpKid", "KID", "kid"), 3: ("KpAlg", "ALG", "alg"), 4: ("KpKeyOps", "KEY_OPS", "key_ops"),
           5: ("KpBaseIV", "BASE_IV", "Base IV")}
_rsa = {-1: ("RSAKpN", "N", "n"), -2: ("RSAKpE", "E", "e"), -3: ("RSAKpD", "D", "d"), -4: ("RSAKpP", "P", "p"), -5: ("RSAKpQ", "Q", "q"),
        -6: ("RSAKpDP", "DP", "dP"), -7: ("RSAKpDQ", "DQ", "dQ"), -8: ("RSAKpQInv", "QINV", "qInv"), -9: ("RSAKpOther", "OTHER", "other"),
        -10: ("RSAKpRi", "R_I", "r_i"), -11: ("RSAKpDi", "D_I", "d_i"), -12: ("RSAKpTi", "T_I", "t_i")}
REG = {
    "alg": (algorithms.CoseAlgorithm, algorithms, _alg),
    "header": (headers.CoseHeaderAttribute, headers, _hdr),
    "key": (keyparam.KeyParam, keyparam, _common),
    "EC2 key": (keyparam.EC2KeyParam, keyparam, {**_common, -1: ("EC2KpCurve", "CURVE", "crv"), -2: ("EC2KpX", "X", "x"), -3: ("EC2KpY", "Y", "y"),
                                                 -4: ("EC2KpD", "D", "d")}),
    "OKP key": (keyparam.OKPKeyParam, keyparam, {**_common, -1: ("OKPKpCurve", "CURVE", "crv"), -2: ("OKPKpX", "X", "x"), -4: ("OKPKpD", "D", "d")}),
    "RSA key": (keyparam.RSAKeyParam, keyparam, {**_common, **_rsa}),
    "symmetric key": (keyparam.SymmetricKeyParam, keyparam, {**_common, -1: ("SymKpK", "K", "k")}),
    "key op": (keyops.KeyOps, keyops, {1: ("SignOp", "SIGN", "sign"), 2: ("VerifyOp", "VERIFY", "verify"), 3: ("EncryptOp", "ENCRYPT", "encrypt"),
                                       4: ("DecryptOp", "DECRYPT", "decrypt"), 5: ("WrapOp", "WRAP", "wrap key"), 6: ("UnwrapOp", "UNWRAP", "unwrap key"),
                                       7: ("DeriveKeyOp", "DERIVE_KEY", "derive key"), 8: ("DeriveBitsOp", "DERIVE_BITS", "derive bits"),
                                       9: ("MacCreateOp", "MAC_CREATE", "MAC create"), 10: ("MacVerifyOp", "MAC_VERIFY", "MAC verify")}),
    "key type": (keytype.KTY, keytype, {0: ("KtyReserved", "RESERVED", "Reserved"), 1: ("KtyOKP", "OKP", "OKP"), 2: ("KtyEC2", "EC2", "EC2"),
                                        3: ("KtyRSA", "RSA", "RSA"), 4: ("KtySymmetric", "SYMMETRIC", "Symmetric")}),
    "curve": (curves.CoseCurve, curves, {0: ("Reserved", "RESERVED", "Reserved"), 1: ("P256", "P_256", "P-256"), 2: ("P384", "P_384", "P-384"),
                                         3: ("P521", "P_521", "P-521"), 4: ("X25519", "X25519", "X25519"), 5: ("X448", "X448", "X448"),
                                         6: ("Ed25519", "ED25519", "Ed25519"), 7: ("Ed448", "ED448", "Ed448"), 8: ("SECP256K1", "SECP256K1", "secp256k1")}),
}
# identifiers of the IANA registries pycose does not support at this commit: free to appear, but only for what they stand for
NOT_SUPPORTED = {"alg": [-9, -19, -46, -47, -48, -49, -260, -65534, 0, 8, 9, 16, 24, 27, 29, 34, 255], "header": [8, 11, 12, 13, 14, 15, 31, 36, 258],
                 "key type": [5, 6, 7], "curve": [9, 256, 257, 258]}


def snapshot():
    """What the registries hold: entries by identity, and what the entries say about themselves."""
    out = {}
    for name, (reg, _, _) in REG.items():
        d = reg.get_registered_classes()
        out[name] = [(k, v) for k, v in sorted(d.items(), key=lambda kv: repr(kv[0]))]
        for c in set(d.values()):
            out[name, c.__name__] = {a: getattr(c, a) for a in ("identifier", "fullname", "curve_obj", "size", "key_type") if hasattr(c, a)}
    return out


FIRST = snapshot()


def unchanged(mon, what):
    now = snapshot()
    for k in FIRST:
        mon.check(k in now, "registry lost %r %s" % (k, what))
        mon.check(now[k] == FIRST[k], "registry %r changed %s" % (k, what), [e for e in now[k] if e not in FIRST[k]], [e for e in FIRST[k] if e not in now[k]])
    mon.check(len(now) == len(FIRST), "registries grew " + what)
    mon.saw("registries compared after use")


def cases(tier, rng):
    n = {"quick": 600, "thorough": 6000}[tier]
    for rep in range(n):
        for r in REG:
            yield {"do": "lookup", "reg": r, "s": rng.getrandbits(48)}
            yield {"do": "unknown", "reg": r, "s": rng.getrandbits(48)}
        yield {"do": "constants", "s": rng.getrandbits(48)}
        for i in range(3):
            yield {"do": "wire", "s": rng.getrandbits(48)}
            yield {"do": "use", "s": rng.getrandbits(48)}


def run(case, mon):
    {"lookup": lookup, "unknown": unknown, "wire": wire, "use": use, "constants": constants}[case["do"]](case, mon, random.Random(case["s"]))


def casing(rng, name):
    return rng.choice([name.lower(), name.upper(), name.title(), name.capitalize(), name.swapcase(), "".join(rng.choice([c.lower(), c.upper()]) for c in name)])


def lookup(case, mon, rng):
    reg, module, table = REG[case["reg"]]
    what = "registry " + case["reg"]
    items = list(table.items())
    rng.shuffle(items)
    for i, (cls, name, _) in items:
        want = getattr(module, cls, None)
        mon.check(isinstance(want, type), what + ": %s is not exported" % cls)
        mon.check(type(want.identifier) is int and want.identifier == i, what + ": %s has another identifier than IANA assigned" % cls, want.identifier, i)
        mon.check(want.fullname == name, what + ": %s has another name" % cls, want.fullname)
        allow = rng.random() < 0.5
        mon.check(mon.must("from_id", reg.from_id, i, allow) is want, what + ": looking up %d" % i, cls)
        mon.saw("lookups by identifier", case["reg"], i)
        for spelled in {name, casing(rng, name), casing(rng, name)}:
            mon.check(mon.must("from_id", reg.from_id, spelled, allow) is want, what + ": looking up %r" % spelled, cls)
            mon.saw("lookups by name", case["reg"], i, spelled)
        mon.check(mon.must("from_id", reg.from_id, want, allow) is want, what + ": looking up the class %s" % cls)
        mon.saw("lookups by class", case["reg"], i)
        if rng.random() < 0.2:
            pick = [rng.choice([k, v[1], casing(rng, v[1]), getattr(module, v[0])]) for k, v in rng.choices(items, k=rng.choice([0, 1, 2, 3, 5, 8]))]
            got = mon.must("from_id of a list", reg.from_id, pick)
            mon.check(isinstance(got, list) and len(got) == len(pick) and all(g is reg.from_id(p) for g, p in zip(got, pick)), what + ": list of attributes", pick, got)
            mon.saw("lists looked up", case["reg"], len(pick))
    # the registry holds each attribute under its identifier and its name and nothing else twice
    d = reg.get_registered_classes()
    for k, v in d.items():
        mon.check(k == v.identifier if isinstance(k, int) else k == v.fullname.upper(), what + ": an attribute is filed under a foreign key", k, v)
        if v.identifier in table:
            mon.check(v.__name__ == table[v.identifier][0], what + ": identifier %d belongs to %s" % (v.identifier, table[v.identifier][0]), v)
        else:
            mon.check(v.identifier not in range(-256, 256) or v.identifier in NOT_SUPPORTED.get(case["reg"], ()), what + ": identifier not assigned by IANA", v)
    for name in {v[1] for v in table.values()}:
        mon.check(name in d, what + ": name missing", name)
    mon.check(len({id(v) for v in d.values()}) * 2 == len(d), what + ": attributes share identifiers or names", len(d))
    mon.saw("registries walked", case["reg"])
    unchanged(mon, "by looking attributes up")


def strange(rng, table):
    """Values that are nobody's identifier or name."""
    names = {v[1].upper() for v in table.values()}
    n = rng.choice(sorted(names))
    taken = set(table)
    out = []
    for _ in range(4):
        out.append(rng.choice([rng.randrange(-70000, 70000), rng.randrange(-50, 50), rng.choice(sorted(taken)) + rng.choice([-1, 1, 256, -256, 65536, 2 ** 32, -2 ** 32]),
                               -rng.choice(sorted(taken)), 2 ** 64, -2 ** 64 - 1]))
        out.append(rng.choice([n + " ", " " + n, n + "0", n[:-1], n[1:], n.replace("_", "-"), n.replace("_", ""), n.replace("-", "_"), n + "\0", "", n * 2,
                               "".join(rng.choice(string.ascii_letters) for _ in range(rng.randrange(1, 12))), str(rng.choice(sorted(taken))), "Kp" + n]))
    out += [True, False, rng.choice([1.5, None, n.encode(), b"", (1,), frozenset(), object(), 3.25])]
    i = rng.choice(sorted(taken))       # equal to an identifier, and still not one
    out += rng.sample([float(i), float(i), str(i), (i,), bytes([i % 256]), "%d.0" % i, hex(i)], 3)
    return [o for o in out if not (type(o) is int and o in taken) and not (isinstance(o, str) and o.upper() in names)]


def unknown(case, mon, rng):
    reg, module, table = REG[case["reg"]]
    d = reg.get_registered_classes()
    table = {**table, **{v.identifier: (v.__name__, v.fullname, "") for v in d.values()}}
    for v in strange(rng, table):
        mon.rejects("looking up %r in registry %s" % (v, case["reg"]), reg.from_id, v)
        mon.rejects("looking up %r in registry %s" % (v, case["reg"]), reg.from_id, v, False)
        mon.saw("unknown refused", case["reg"], type(v).__name__, v if isinstance(v, (int, str)) else "")
        got = mon.must("looking up %r in registry %s, unknown allowed" % (v, case["reg"]), reg.from_id, v, True)
        mon.check(got is v, "an unknown attribute is not passed through unchanged", case["reg"], v, got)
        mon.saw("unknown passed through", case["reg"], type(v).__name__, v if isinstance(v, (int, str)) else "")
        if not isinstance(v, list):     # nor is it known in the company of those that are
            known = [rng.choice([k, e[1], casing(rng, e[1])]) for k, e in rng.choices(list(table.items()), k=rng.choice([0, 1, 2, 3, 5]))]
            known.insert(rng.randrange(len(known) + 1), v)
            mon.rejects("looking up the list %r in registry %s" % (known, case["reg"]), reg.from_id, known)
            mon.saw("lists with an unknown attribute refused", case["reg"], len(known))
        # having been let through does not make it known
        mon.rejects("looking up %r in registry %s after it was let through" % (v, case["reg"]), reg.from_id, v)
    unchanged(mon, "by unknown lookups")


def constants(case, mon, rng):
    """What the attributes stand for, where they say so."""
    for i, (name, kind, size) in R.CURVES.items():
        c = K.CRV[i]
        mon.check(c.size == size, "coordinate size of curve %s" % name, c.size)
        mon.check(c.key_type is (keytype.KtyEC2 if kind == "EC2" else keytype.KtyOKP), "key type of curve %s" % name, c.key_type)
        mon.saw("constants compared", "curve", i)
    for a, key, tag in [(a, s[1], s[2] if s[0] == "ccm" else None) for a, s in R.AEAD.items()] + [(a, n, None) for a, n in R.KW.items()] + \
            [(a, None, s[2]) for a, s in R.MAC.items()]:
        for method, want in (("get_key_length", key), ("get_tag_length", tag), ("get_digest_length", tag)):
            f = getattr(K.ALG[a], method, None)
            if want is not None and f is not None:
                mon.check(f() == want, "%s of algorithm %d" % (method, a), f(), want)
                mon.saw("constants compared", method, a)
    for a, s in R.ECDH.items():
        f = getattr(K.ALG[a], "get_key_wrap_func", None)
        if s[2] is not None and f is not None:
            mon.check(f().identifier == s[2], "key wrap algorithm of algorithm %d" % a, f())
            mon.saw("constants compared", "ecdh", a)
    for kind, cls in K.MSG.items():
        mon.check(cls(payload=b"").cbor_tag == R.MSG_TAG[kind], "CBOR tag of %s" % kind)
        mon.saw("constants compared", "tag", kind)


def wire(case, mon, rng):
    """Names, classes and identifiers become the IANA identifiers on the wire, and come back as the classes."""
    # headers
    labels = [k for k in G.SAFE + [-20, -21, -22, -23, -24, -25, -26, 5, 6] if k not in (7,)]
    ids = rng.sample(labels, rng.randrange(1, 8))
    alg = rng.choice([-7, -8, 1, 5, 14, -3, -25, -6, -38, 33])
    h = {1: alg, **{i: (bytes([i & 255]) * 3 if i in (5, 6) else G.registered(rng, i)) for i in ids}}
    spelled = {}
    for i, v in h.items():
        how = rng.choice(["int", "class", "name"])
        _, _, t = REG["header"]
        lab = i if how == "int" else getattr(headers, t[i][0]) if how == "class" else casing(rng, t[i][1])
        if i == 1:
            v = rng.choice([v, getattr(algorithms, _alg[v][0]), casing(rng, _alg[v][1])])
        spelled[lab] = v
    m = mon.must("message", K.Enc0Message, phdr=spelled if rng.random() < 0.5 else {}, uhdr=None, payload=b"x")
    if not m.phdr:
        if rng.random() < 0.5:
            m.uhdr = spelled
        else:
            m.uhdr_update(spelled)
    data = mon.must("encode", m.encode, encrypt=False)
    top = C.dec(data).value
    got = {**(C.dec(top[0]) if top[0] else {}), **top[1]}
    mon.check(C.same(got, h), "header labels on the wire", got, h)
    d = K.CoseMessage.decode(data)
    both = {**d.phdr, **d.uhdr}
    mon.check(set(both) == {getattr(headers, _hdr[i][0]) for i in h}, "header labels after transport", set(both), h)
    mon.check(both[headers.Algorithm] is getattr(algorithms, _alg[alg][0]), "algorithm after transport", both)
    for i in h:
        mon.saw("wire labels compared", "header", i)
    # keys
    for kty, m in ((2, G.ec_key(rng.choice([1, 2, 3, 8]), rng)), (1, G.okp_key(rng.choice([4, 5, 6, 7]), rng)), (3, dict(G.rsa_key(rng))), (4, G.sym_key(32, rng))):
        m = {**m, 2: b"kid", 3: rng.choice(sorted(_alg)), 5: b"iv"}
        m[4] = rng.sample([1, 2] if kty < 4 else [3, 4, 5, 6, 9, 10], 2)
        table = REG[{1: "OKP key", 2: "EC2 key", 3: "RSA key", 4: "symmetric key"}[kty]][2]
        sp = {}
        for k, v in m.items():
            how = rng.choice(["int", "class", "name"])
            lab = k if how == "int" else getattr(keyparam, table[k][0]) if how == "class" else casing(rng, table[k][1])
            if k == 1:
                v = rng.choice([v, K.KTY[v], casing(rng, REG["key type"][2][v][1])])
            elif k == 3:
                v = rng.choice([v, getattr(algorithms, _alg[v][0]), casing(rng, _alg[v][1])])
            elif k == 4:
                v = [rng.choice([o, K.OPS[o]]) for o in v]
            elif k == -1 and kty in (1, 2):
                v = rng.choice([v, K.CRV[v], casing(rng, REG["curve"][2][v][1])])
            sp[lab] = v
        key = mon.must("key", K.CoseKey.from_dict, sp)
        got = C.dec(mon.must("key.encode", key.encode))
        mon.check(C.same(got, m), "key labels on the wire", got, m)
        mon.check(type(key) is K.KEYCLS[kty] and set(key) == {getattr(keyparam, table[k][0]) for k in m}, "key labels", set(key))
        mon.check(key.kty is K.KTY[kty] and key.alg is K.ALG[m[3]] and key.key_ops == [K.OPS[o] for o in m[4]], "key values", key.store)
        for k in m:
            a = rng.choice([k, getattr(keyparam, table[k][0]), casing(rng, table[k][1])])
            mon.check(C.same(K.norm(key[a]), m[k]) and a in key, "key lookup by %r" % (a,), key.store)
            mon.saw("wire labels compared", "key", kty, k)
    unchanged(mon, "by encoding and decoding")


def use(case, mon, rng):
    """Everything a program may do with labels the registries do not know, including what fails."""
    def attempt(f, *a, **kw):
        try:
            return f(*a, **kw)
        except Exception:
            mon.counters["failing uses"] += 1
    for _ in range(12):
        k = rng.randrange(10)
        if k == 0:
            h = {G.custom_label(rng): G.value(rng) for _ in range(4)}
            m = mon.must("message", K.Sign1Message, phdr=h, uhdr={G.custom_label(rng): 1}, payload=b"x")
            m.key = K.key(rng, G.ec_key(1, rng))
            m.uhdr_update({"alg": "es256"})
            mon.must("decode", K.CoseMessage.decode, mon.must("encode", m.encode))
        elif k == 1:
            attempt(K.Enc0Message, phdr={G.custom_label(rng): 1}, payload=b"", allow_unknown_attributes=False)
            data = R.tagged("Enc0", [C.enc({G.custom_int(rng): 1}), {G.custom_label(rng): 2}, b"c"])
            attempt(K.CoseMessage.decode, data, allow_unknown_attributes=False)
            attempt(K.CoseMessage.decode, data)
        elif k == 2:
            m = {**rng.choice([G.sym_key(16, rng), G.ec_key(1, rng), G.okp_key(6, rng)]), rng.choice([-70000, 99, "x-own", -13, 6]): 1}
            key = mon.must("key", K.CoseKey.from_dict, m)
            mon.must("key.encode", key.encode)
            key["my own"] = 5
            key[4711] = b"x"
            del key["my own"]
        elif k == 3:
            reg = rng.choice(list(REG.values()))[0]
            attempt(reg.from_id, rng.choice(["nope", 12345, -12345, None, 1.5, [1, 2, "nope"], ["nope"]]), rng.random() < 0.5)
        elif k == 4:
            attempt(K.CoseKey.from_dict, {1: rng.choice([0, 5, 99, "nope"]), -1: b"x"})
            attempt(K.CoseKey.from_dict, {1: 2, -1: rng.choice([4, 99, "nope"]), -2: b"x", -3: b"y"})
            attempt(K.CoseKey.from_dict, {1: 4, -1: bytes(16), 3: rng.choice([99, "nope", [1, 2]])})
            attempt(K.CoseKey.from_dict, {1: 4, -1: bytes(16), 4: rng.choice([[99], ["nope"], [1]])})
        elif k == 5:
            attempt(K.CoseMessage.decode, rng.randbytes(rng.randrange(40)))
            attempt(K.CoseMessage.decode, R.tagged("Sign1", [C.enc({1: rng.choice([99, "nope", -7])}), {}, b"", b""]))
        elif k == 6:
            key = K.key(rng, G.ec_key(1, rng))
            m = K.Sign1Message(phdr={1: -7}, payload=b"x", key=key)
            mon.must("encode", m.encode)
            mon.must("verify", m.verify_signature)
        elif k == 7:
            key = K.key(rng, G.sym_key(16, rng))
            for a in (99, "nope", -99):
                attempt(key.__getitem__, a)
                attempt(key.__delitem__, a)
            attempt(setattr, key, "alg", "nope")
            attempt(setattr, key, "key_ops", ["nope", 77])
        elif k == 8:
            m = K.Enc0Message(phdr={1: 1}, payload=b"")
            attempt(m.get_attr, K.headers.IV)
            attempt(m.phdr_update, {"nope": 1, 5: 3})
            attempt(m.uhdr_update, {4: "text"})
            m.phdr = {G.custom_label(rng): 1}
        else:
            r = repr(K.key(rng, G.okp_key(6, rng))) + repr(K.Enc0Message(phdr={1: 1, "x-y": 2}, payload=b""))
            mon.check("nope" not in r, "")
        mon.saw("uses", k)
    unchanged(mon, "by use")
    lookup({"reg": rng.choice(list(REG))}, mon, rng)
