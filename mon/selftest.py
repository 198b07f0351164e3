"""Set-up: the harness and everything it needs is importable, the oracles agree with published vectors."""
import glob
import importlib
import os
import sys

from . import core

sys.path.insert(0, core.REPO)


def main():
    import pycose, cryptography, ecdsa  # noqa: F401
    for f in sorted(glob.glob(os.path.join(core.ROOT, "mon", "checks", "c[0-9]*.py"))):
        m = importlib.import_module("mon.checks." + os.path.basename(f)[:-3])
        assert m.PROP and m.RULE and m.REQUIRED
    from . import cborref
    # RFC 8949 appendix A
    for v, h in [(0, "00"), (23, "17"), (24, "1818"), (1000000, "1a000f4240"), (-1, "20"), (-1000, "3903e7"), (b"", "40"),
                 ([1, [2, 3]], "8201820203"), ({"a": 1}, "a1616101"), ("\u6c34", "63e6b0b4"), (None, "f6"), (False, "f4")]:
        assert cborref.enc(v) == bytes.fromhex(h), (v, h)
        assert cborref.same(cborref.dec(bytes.fromhex(h)), v), (v, h)
    oracles()
    monitors()
    print("selftest: ok")


def oracles():
    from . import coseref as R
    h = bytes.fromhex
    # RFC 3394 section 4.1, 4.6
    assert R.wrap(bytes(range(16)), h("00112233445566778899aabbccddeeff")) == h("1fa68b0a8112b447aef34bd8fb5a7b829d3e862371d2cfe5")
    k = h("00112233445566778899aabbccddeeff000102030405060708090a0b0c0d0e0f")
    w = R.wrap(bytes(range(32)), k)
    assert w == h("28c9f404c4b810f4cbccb35cfb87f8263f5786e2d80ed326cbc7f0e71a99f43bfb988b9b7a02dd21")
    assert R.unwrap(bytes(range(32)), w) == k and R.unwrap(bytes(range(32)), w[:-1] + b"\0") is None
    # RFC 5869 A.1, A.3
    assert R.hkdf("sha256", bytes(range(13)), b"\x0b" * 22, bytes(range(0xf0, 0xfa)), 42) == h(
        "3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865")
    assert R.hkdf("sha256", None, b"\x0b" * 22, b"", 42) == h(
        "8da4e775a563c18f715f802a063c5a31b8a11f5c5ee1879ec3454e5f3c738d2d9d201395faa4b61a96c8")
    # RFC 4231 case 2
    assert R.mac(5, b"Jefe", b"what do ya want for nothing?") == h("5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843")
    assert R.mac(4, b"Jefe", b"what do ya want for nothing?") == h("5bdcc146bf60754e")
    # one block CBC-MAC is AES (FIPS 197 C.1)
    assert R.mac(25, bytes(range(16)), h("00112233445566778899aabbccddeeff")) == h("69c4e0d86a7b0430d8cdb78070b4c55a")
    # GCM test case 4 (without associated data: test case 2)
    assert R.seal(1, bytes(16), bytes(12), b"", bytes(16)) == h("0388dace60b6a392f328c2b971b2fe78ab6e47d42cec13bdf53a67b21257bddf")
    # RFC 8032 7.1 test 1
    ed = R.okp_key(6, h("9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60"))
    assert ed[-2] == h("d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a")
    assert R.sign(-8, ed, b"")[:8] == h("e5564300c360ac72")
    # base points, and both roots
    gx = 0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296
    assert R.ec_public(1, 1)[0] == gx and R.ec_public(1, 1)[1] in R.solve_y(1, gx) and R.on_curve(1, *R.ec_public(1, 7))
    assert not R.on_curve(1, gx, 5)
    # the protected header and structures of RFC 8152 C.2.1
    assert R.tbs1(h("a10126"), b"", b"This is the content.") == h("846a5369676e61747572653143a101264054546869732069732074686520636f6e74656e742e")
    for c, (_, _, _, order) in R.DOMAIN.items():
        assert R.ec_public(c, order - 1)[0] == R.ec_public(c, 1)[0]


def monitors():
    """The monitors report what they are there to report."""
    m = core.Mon("selftest")

    def bad():
        raise ValueError

    def violated(fn, *a):
        try:
            fn(*a)
        except core.Violation:
            return True
        return False

    assert violated(m.must, "", bad) and not violated(m.must, "", int)
    assert violated(m.rejects, "", int) and not violated(m.rejects, "", bad)
    assert violated(m.never_true, "", lambda: True) and violated(m.never_true, "", lambda: None)
    assert not violated(m.never_true, "", lambda: False) and not violated(m.never_true, "", bad)
    assert violated(m.check, 0, "") and not violated(m.check, 1, "") and violated(m.eq, b"a", b"b", "") and violated(m.eq, "a", b"a", "")
    from . import cborref as C
    for a, b in ((1, True), (1, 1.0), (0, False), ("a", b"a"), ([1], [1, 1]), ({1: 2}, {1: 3}), (None, False), (0.0, 0)):
        assert not C.same(a, b) and C.same(a, a), (a, b)


main()
