"""C25 certificate chains: generated hierarchies under a trust store of the harness; conforming chains must verify, chains with one planted
defect at one position must raise, however verification is requested; histories change the trust store and the clock in between."""
import datetime
import random
import time

import oscrypto.trust_list
from asn1crypto import x509 as ax
from cryptography import x509
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ec, rsa
from cryptography.x509.oid import NameOID, ObjectIdentifier

from pycose.extensions.x509 import X5Chain

from .. import gen as G, kit as K
from ..core import Violation

PROP = "C25"
RULE = ("a case is one generated hierarchy (0..3 intermediates, EC or RSA) verified in every way, or the same with one planted defect; "
        "non-trivial: the conforming chain was accepted and the defective one refused")
DEFECTS = ("missing", "wrong key", "wrong name", "expired", "not yet valid", "not a CA", "no basic constraints", "no certificate signing", "path length",
           "tampered content", "tampered signature", "untrusted root", "impostor root", "empty trust store", "key usage", "self-signed", "issued by a leaf",
           "critical extension", "copied signature")
REQUIRED = {"accepted at construction": 120, "accepted later": 300, "accepted: one certificate": 40, "accepted: list": 120,
            "unverified construction": 300, "repeated verification": 100, "trust withdrawn": 30, "trust granted": 30, "chain unchanged": 300,
            "refused at construction": 300, "refused later": 600, "key usage judged": 400, "no certificate": 10, "not a certificate": 30,
            **{"refused: " + d: 12 for d in DEFECTS}}
BUDGET = {"quick": 240, "thorough": 3000}
RSA_KEYS = [k for k in sum(G.RSA.values(), []) if len(k[-1]) >= 256]
USAGES = ["digital_signature", "non_repudiation", "key_encipherment", "data_encipherment", "key_agreement"]


def cases(tier, rng):
    n = {"quick": 14, "thorough": 700}[tier]
    for rep in range(n):
        for depth in (0, 1, 2, 3):
            yield {"do": "good", "depth": depth, "s": rng.getrandbits(48)}
            yield {"do": "usage", "depth": depth, "s": rng.getrandbits(48)}
            yield {"do": "trust", "depth": depth, "s": rng.getrandbits(48)}
            for d in DEFECTS:
                if applicable(d, depth):
                    yield {"do": "bad", "defect": d, "depth": depth, "s": rng.getrandbits(48)}
        yield {"do": "junk", "s": rng.getrandbits(48)}
    for _ in range({"quick": 2, "thorough": 12}[tier]):
        yield {"do": "clock", "depth": rng.choice([1, 2]), "s": rng.getrandbits(48)}


def applicable(d, depth):
    if d in ("missing", "not a CA", "no basic constraints", "no certificate signing", "issued by a leaf"):
        return depth >= 1
    if d == "path length":
        return depth >= 2
    return True


# --------------------------------------------------------------------------------------------------------- certificates
def new_key(rng, what):
    if what == "rsa":
        k = rng.choice(RSA_KEYS)
        i = lambda n: int.from_bytes(k[n], "big")
        return rsa.RSAPrivateNumbers(i(-4), i(-5), i(-3), i(-6), i(-7), i(-8), rsa.RSAPublicNumbers(i(-2), i(-1))).private_key()
    return ec.derive_private_key(rng.randrange(1, 2 ** 250), {"p256": ec.SECP256R1, "p384": ec.SECP384R1, "p521": ec.SECP521R1}[what]())


def name(s):
    return x509.Name([x509.NameAttribute(NameOID.ORGANIZATION_NAME, "monitors"), x509.NameAttribute(NameOID.COMMON_NAME, s)])


class Cert:
    """The description of one certificate; der() issues it."""

    def __init__(self, rng, cn, ca, kind):
        self.rng, self.cn, self.ca, self.key = rng, cn, ca, new_key(rng, kind)
        self.constraints, self.pathlen = True, None
        self.usage = {"key_cert_sign"} if ca else {"digital_signature"}
        if rng.random() < 0.3:
            self.usage |= {"digital_signature"}
        if ca and rng.random() < 0.5:
            self.usage |= {"crl_sign"}
        if ca and rng.random() < 0.15:
            self.usage = None                           # no key usage extension: every usage permitted
        self.start, self.end = -rng.uniform(0.5, 300), rng.uniform(0.5, 300)
        self.serial = rng.getrandbits(100) + 1
        self.ids = rng.random() < 0.6
        self.issuer = None
        self.issuer_cn = None
        self.signing_key = None
        self.extra = None

    def der(self):
        iss = self.issuer or self
        now = datetime.datetime.now(datetime.timezone.utc)
        b = x509.CertificateBuilder().subject_name(name(self.cn)).issuer_name(name(self.issuer_cn or iss.cn)).public_key(self.key.public_key())
        b = b.serial_number(self.serial).not_valid_before(now + datetime.timedelta(days=self.start)).not_valid_after(now + datetime.timedelta(days=self.end))
        if self.constraints and (self.ca or self.rng.random() < 0.5):
            b = b.add_extension(x509.BasicConstraints(self.ca, self.pathlen if self.ca else None), True)
        if self.usage is not None:
            f = {u: u in self.usage for u in ("digital_signature", "key_encipherment", "data_encipherment", "key_agreement", "key_cert_sign", "crl_sign")}
            b = b.add_extension(x509.KeyUsage(content_commitment="non_repudiation" in self.usage, encipher_only=False, decipher_only=False, **f), True)
        if self.ids:
            b = b.add_extension(x509.SubjectKeyIdentifier.from_public_key(self.key.public_key()), False)
            if iss.ids and self.issuer_cn is None and self.signing_key is None:
                b = b.add_extension(x509.AuthorityKeyIdentifier.from_issuer_public_key(iss.key.public_key()), False)
        if self.extra:
            b = b.add_extension(x509.UnrecognizedExtension(ObjectIdentifier(self.extra[0]), b"\x05\x00"), self.extra[1])
        return b.sign(self.signing_key or iss.key, self.rng.choice([hashes.SHA256(), hashes.SHA384()])).public_bytes(serialization.Encoding.DER)


class Hierarchy:
    def __init__(self, rng, depth):
        self.rng = rng
        kinds = [rng.choice(["p256", "p256", "p384", "p521", "rsa"]) for _ in range(depth + 2)]
        tag = "%08x" % rng.getrandbits(32)
        self.root = Cert(rng, "root " + tag, True, kinds[0])
        self.cas = []                                   # from the root downwards
        above = self.root
        for k in range(depth):
            c = Cert(rng, "intermediate %d %s" % (k, tag), True, kinds[k + 1])
            c.issuer = above
            if rng.random() < 0.3:
                c.pathlen = depth - k - 1 + rng.choice([0, 1])
            self.cas.append(c)
            above = c
        self.leaf = Cert(rng, "leaf " + tag, False, kinds[-1])
        self.leaf.issuer = above

    def chain(self):
        """[leaf, issuing intermediate, ...]"""
        return [self.leaf.der()] + [c.der() for c in reversed(self.cas)]


class Trust:
    """The trust store that certificate validation asks for."""

    def __init__(self):
        self.roots = []

    def __enter__(self):
        t = oscrypto.trust_list         # below get_list(), so that it does not matter how that is imported
        self.saved = t.extract_from_system, t._in_memory_up_to_date
        t.extract_from_system = lambda *a, **kw: [(r, set(), set()) for r in self.roots]
        t._in_memory_up_to_date = lambda *a: False
        return self

    def __exit__(self, *a):
        oscrypto.trust_list.extract_from_system, oscrypto.trust_list._in_memory_up_to_date = self.saved
        oscrypto.trust_list.clear_cache()


def noise_roots(rng):
    out = []
    for k in range(rng.choice([0, 1, 3])):
        out.append(Cert(rng, "another root %d %08x" % (k, rng.getrandbits(32)), True, "p256").der())
    return out


def store(rng, *roots):
    out = list(roots) + noise_roots(rng)
    rng.shuffle(out)
    return out


def spellings(rng, chain):
    """The ways a chain may be handed over."""
    return [chain, chain[0]] if len(chain) == 1 else [chain]


# --------------------------------------------------------------------------------------------------------------- monitors
def accepted(mon, rng, chain, usage=("digital_signature",), what=""):
    for given in spellings(rng, chain):
        one = not isinstance(given, list)
        if "digital_signature" in usage:
            x = mon.must("verification at construction%s" % what, X5Chain, given if one else list(given), verify=True)
            mon.saw("accepted at construction", len(chain), one)
        x = mon.must("construction without verification", X5Chain, given if one else list(given))
        mon.saw("unverified construction")
        for k in range(rng.choice([1, 1, 2])):
            mon.must("verify_chain of %d certificate(s)%s" % (len(chain), what), x.verify_chain, set(usage))
            mon.saw("accepted later", len(chain), tuple(sorted(usage)))
            if k:
                mon.saw("repeated verification")
        mon.saw("accepted: one certificate" if one else "accepted: list", len(chain))
        unchanged(mon, x, chain)


def unchanged(mon, x, chain):
    e = x.encode()
    mon.check(e == (chain[0] if len(chain) == 1 else chain), "the chain changed")
    mon.saw("chain unchanged")


def refused(mon, rng, chain, what, usage=("digital_signature",)):
    for given in spellings(rng, chain):
        one = not isinstance(given, list)
        if set(usage) == {"digital_signature"}:
            mon.rejects("verification at construction: " + what, X5Chain, given if one else list(given), verify=True)
            mon.saw("refused at construction", what, len(chain), one)
        x = mon.must("construction without verification", X5Chain, given if one else list(given), **({"verify": False} if rng.random() < 0.5 else {}))
        mon.saw("unverified construction")
        for k in range(rng.choice([1, 2])):
            mon.rejects("verify_chain: " + what, x.verify_chain, set(usage))
            mon.saw("refused later", what, len(chain), one)
        unchanged(mon, x, chain)
        return x


# -------------------------------------------------------------------------------------------------------------------- cases
def run(case, mon):
    {"good": good, "usage": usage, "trust": trust, "bad": bad, "junk": junk, "clock": clock}[case["do"]](case, mon, random.Random(case["s"]))


def good(case, mon, rng):
    h = Hierarchy(rng, case["depth"])
    with Trust() as t:
        root = h.root.der()
        t.roots = store(rng, root)
        chain = h.chain()
        accepted(mon, rng, chain)
        # the root may travel along
        accepted(mon, rng, chain + [root], what=" (with the root)")
        # the trust anchor may be the intermediate or the certificate itself
        if h.cas and rng.random() < 0.5:
            t.roots = store(rng, chain[1])
            accepted(mon, rng, chain[:1], what=" (trusted intermediate)")


def usage(case, mon, rng):
    """The first certificate permits some usages; sets of required ones are judged."""
    h = Hierarchy(rng, case["depth"])
    h.leaf.usage = set(rng.sample(USAGES, rng.randint(1, 4)))
    with Trust() as t:
        t.roots = store(rng, h.root.der())
        chain = h.chain()
        for _ in range(8):
            want = set(rng.sample(USAGES, rng.choice([1, 1, 2, 3])))
            if rng.random() < 0.4:
                want = set(rng.sample(sorted(h.leaf.usage), rng.randint(1, len(h.leaf.usage))))
            if rng.random() < 0.1:
                want |= {rng.choice(["key_cert_sign", "crl_sign"])}
            if want <= h.leaf.usage:
                accepted(mon, rng, chain, tuple(want))
            else:
                refused(mon, rng, chain, "key usage (has %s, needs %s)" % (sorted(h.leaf.usage), sorted(want)), tuple(want))
            mon.saw("key usage judged", tuple(sorted(want)), tuple(sorted(h.leaf.usage)))
        if "digital_signature" not in h.leaf.usage:
            mon.rejects("verification at construction of a certificate for %s" % sorted(h.leaf.usage), X5Chain, list(chain), verify=True)
        else:
            mon.must("verification at construction", X5Chain, list(chain), verify=True)
        # several requirements one after another on one object
        x = X5Chain(list(chain))
        for u in rng.sample(USAGES, 5):
            if u in h.leaf.usage:
                mon.must("verify_chain({%s})" % u, x.verify_chain, {u})
            else:
                mon.rejects("verify_chain({%s}) of a certificate for %s" % (u, sorted(h.leaf.usage)), x.verify_chain, {u})
            mon.saw("key usage judged", u, tuple(sorted(h.leaf.usage)))


def trust(case, mon, rng):
    """The trust store changes while chain objects live on."""
    h, g = Hierarchy(rng, case["depth"]), Hierarchy(rng, rng.randrange(3))
    with Trust() as t:
        root, other = h.root.der(), g.root.der()
        chain, chain2 = h.chain(), g.chain()
        x, y = X5Chain(list(chain)), X5Chain(list(chain2))
        state = {root: False, other: False}
        for _ in range(8):
            r = rng.choice([root, other])
            state[r] = not state[r]
            t.roots = [k for k in state if state[k]] + noise_roots(rng)[:1]
            for obj, ch, k in ((x, chain, root), (y, chain2, other)):
                if state[k]:
                    mon.must("verify_chain under a trusted root", obj.verify_chain, {"digital_signature"})
                    mon.must("verification at construction", X5Chain, list(ch), verify=True)
                    mon.saw("trust granted", case["depth"])
                else:
                    mon.rejects("verify_chain after the root left the trust store", obj.verify_chain, {"digital_signature"})
                    mon.rejects("construction after the root left the trust store", X5Chain, list(ch), verify=True)
                    mon.saw("trust withdrawn", case["depth"])
        # the intermediates of one chain are of no use to another
        if case["depth"]:
            t.roots = [root, other]
            mon.must("verify_chain", x.verify_chain, {"digital_signature"})
            mon.rejects("chain without its intermediates, after they were seen elsewhere", X5Chain(chain[:1]).verify_chain, {"digital_signature"})
            mon.rejects("chain with the intermediates of another", X5Chain(chain[:1] + chain2[1:]).verify_chain, {"digital_signature"})


def sections(der):
    """(start, end) of the signed part and of the signature of a certificate."""
    c = ax.Certificate.load(der)
    tbs = c["tbs_certificate"].dump()
    sig = c["signature_value"].native if isinstance(c["signature_value"].native, bytes) else c["signature_value"].contents[1:]
    i = der.index(tbs)
    j = der.rindex(sig)
    return (i, i + len(tbs)), (j, j + len(sig))


def flip(rng, der, a, b):
    x = bytearray(der)
    x[rng.randrange(a, b)] ^= 1 << rng.randrange(8)
    return bytes(x)


def copied(der, other):
    c = ax.Certificate.load(der)
    c["signature_value"] = ax.Certificate.load(other)["signature_value"]
    return c.dump(force=True)


def bad(case, mon, rng):
    h = Hierarchy(rng, case["depth"])
    d = case["defect"]
    with Trust() as t:
        t.roots = store(rng, h.root.der())
        accepted(mon, rng, h.chain())
        below = h.cas + [h.leaf]                         # everything but the root
        where = rng.randrange(len(below))
        chain = None
        if d == "missing":
            chain = h.chain()
            del chain[rng.randrange(1, len(chain))]
        elif d == "wrong key":                           # signed by a key that is not the issuer's
            c = below[where]
            c.signing_key = new_key(rng, rng.choice(["p256", "p384"]))
        elif d == "wrong name":
            below[where].issuer_cn = "somebody else"
        elif d == "expired":
            c = below[where]
            c.end = -rng.choice([0.001, 0.5, 40])
            c.start = c.end - rng.choice([1, 400])
        elif d == "not yet valid":
            c = below[where]
            c.start = rng.choice([0.01, 0.5, 40])
            c.end = c.start + rng.choice([1, 400])
        elif d == "not a CA":
            c = rng.choice(h.cas)
            c.ca, c.pathlen = False, None
            c.rng = _Always(rng)
        elif d == "no basic constraints":
            rng.choice(h.cas).constraints = False
        elif d == "no certificate signing":
            rng.choice(h.cas).usage = rng.choice([{"digital_signature"}, {"crl_sign", "digital_signature"}, {"key_agreement"}])
        elif d == "path length":
            k = rng.randrange(len(h.cas) - 1)
            h.cas[k].pathlen = rng.randrange(len(h.cas) - k - 1)
        elif d.startswith("tampered"):
            chain = h.chain()
            k = rng.randrange(len(chain))
            for _ in range(6):
                a = sections(chain[k])[d == "tampered signature"]
                bent = flip(rng, chain[k], *a)
                refused(mon, rng, chain[:k] + [bent] + chain[k + 1:], d)
            mon.saw("refused: " + d, case["depth"], k)
            return
        elif d == "copied signature":                    # a forgery with the signature value of a trusted certificate
            target = h.root.der() if rng.random() < 0.6 else t.roots[rng.randrange(len(t.roots))]
            same = dict(serial=h.root.serial, start=h.root.start, end=h.root.end) if rng.random() < 0.5 else {}
            cn = h.root.cn if rng.random() < 0.6 else "forged"              # it may say it is the root
            evil = Cert(rng, cn, False, "p256")
            if rng.random() < 0.5 or not h.cas:
                evil.__dict__.update(same)
                chain = [copied(evil.der(), target)]
            else:
                ca = Cert(rng, cn if cn != "forged" else "forged authority", True, "p256")
                ca.__dict__.update(same)
                evil.issuer, evil.cn = ca, "forged"
                chain = [evil.der(), copied(ca.der(), target)] + h.chain()[1:]
        elif d == "untrusted root":
            t.roots = noise_roots(rng) or [Cert(rng, "yet another root", True, "p256").der()]
            if rng.random() < 0.5:
                chain = h.chain() + [h.root.der()]       # sending the root along does not make it trusted
        elif d == "impostor root":                       # same name, other key
            imp = Cert(rng, h.root.cn, True, "p256")
            t.roots = store(rng, imp.der())
            if rng.random() < 0.5:
                chain = h.chain() + [h.root.der()]
        elif d == "empty trust store":
            t.roots = []
        elif d == "key usage":
            h.leaf.usage = set(rng.sample(USAGES[1:], rng.randint(1, 3)))
        elif d == "self-signed":
            h.leaf.issuer = None
            chain = [h.leaf.der()] + [c.der() for c in reversed(h.cas)]
        elif d == "issued by a leaf":                    # an end-entity certificate in the place of the issuing intermediate
            e = Cert(rng, "an end entity", False, "p256")
            e.issuer = h.leaf.issuer
            h.leaf.issuer = e
            chain = [h.leaf.der(), e.der()] + [c.der() for c in reversed(h.cas)]
        elif d == "critical extension":
            below[where].extra = ("1.3.6.1.4.1.55555.%d" % rng.randint(1, 99), True)
        refused(mon, rng, chain or h.chain(), d)
        mon.saw("refused: " + d, case["depth"], where)


class _Always:
    """A generator whose optional parts are always present."""

    def __init__(self, rng):
        self.rng = rng

    def random(self):
        return 0.0

    def __getattr__(self, n):
        return getattr(self.rng, n)


def junk(case, mon, rng):
    with Trust() as t:
        h = Hierarchy(rng, 1)
        t.roots = store(rng, h.root.der())
        chain = h.chain()
        mon.rejects("verification of an empty chain", X5Chain([]).verify_chain, {"digital_signature"})
        mon.rejects("verification of an empty chain at construction", X5Chain, [], verify=True)
        mon.saw("no certificate")
        for b in (rng.randbytes(rng.choice([0, 1, 40, 300])), chain[0][:-1], chain[0][:rng.randrange(len(chain[0]))], h.leaf.key.public_key().public_bytes(
                serialization.Encoding.DER, serialization.PublicFormat.SubjectPublicKeyInfo), None, "text", 5, {"a": 1}):
            for c in ([b], [b] + chain[1:], b):
                mon.rejects("verification of something that is no certificate", lambda c=c: X5Chain(c).verify_chain({"digital_signature"}))
                mon.rejects("verification of something that is no certificate at construction", lambda c=c: X5Chain(c, verify=True))
                mon.saw("not a certificate")
        mon.must("verification", X5Chain(chain).verify_chain, {"digital_signature"})


def clock(case, mon, rng):
    """A certificate expires between two verifications of one object."""
    h = Hierarchy(rng, case["depth"])
    c = rng.choice(h.cas + [h.leaf])
    end = time.time() + 3
    c.end = 3 / 86400.0
    with Trust() as t:
        t.roots = [h.root.der()]
        chain = h.chain()
        x = X5Chain(list(chain))
        try:
            x.verify_chain({"digital_signature"})
        except Exception as e:
            if time.time() < end - 1.5:
                raise Violation("a chain that is still valid was refused: %s" % e)
        time.sleep(max(0, end + 1.5 - time.time()))
        mon.rejects("verification after a certificate of the chain expired", x.verify_chain, {"digital_signature"})
        mon.rejects("verification at construction after a certificate of the chain expired", X5Chain, list(chain), verify=True)
        mon.saw("expired while in use")
