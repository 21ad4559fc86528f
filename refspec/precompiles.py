"""Reference precompiled contracts.

``lookup(fork, addr)`` gives ``fn(fork, frame) -> output``; failure raises
PrecompileFail (the frame then loses all its gas).  Curve arithmetic is our
own affine/Jacobian code; pairings are decided through registered discrete
logarithms (product of e(aP, bQ) is one iff sum(ab) = 0 mod r) and fall back to
py_ecc's unoptimised pairing for points that were not built by a generator.
"""
import hashlib
from Crypto.Hash import RIPEMD160
from .forks import *
from .prim import k1_recover, R1, BN, Curve


class PrecompileFail(Exception):
    pass


def _use(f, g):
    if f.gas < g:
        raise PrecompileFail("oog")
    f.gas -= g


def _w(n):
    return -(-n // 32)


def _int(b):
    return int.from_bytes(b, "big")


def _pad(b, s, n):
    x = bytes(b[s:s + n]) if s < len(b) else b""
    return x + b"\0" * (n - len(x))


# ------------------------------------------------------------------ 1..4
def ecrecover(k, f):
    _use(f, 3000)
    d = _pad(f.data, 0, 128)
    v, r, s = _int(d[32:64]), _int(d[64:96]), _int(d[96:128])
    if v not in (27, 28):
        return b""
    a = k1_recover(d[:32], v - 27, r, s)
    return b"" if a is None else b"\0" * 12 + a


def sha256(k, f):
    _use(f, 60 + 12 * _w(len(f.data)))
    return hashlib.sha256(f.data).digest()


def ripemd(k, f):
    _use(f, 600 + 120 * _w(len(f.data)))
    return b"\0" * 12 + RIPEMD160.new(f.data).digest()


def identity(k, f):
    _use(f, 15 + 3 * _w(len(f.data)))
    return bytes(f.data)


# ------------------------------------------------------------------ modexp
def modexp_gas(k, bl, el, ml, head):
    """head: integer of the first min(32, el) exponent bytes."""
    x = max(bl, ml)
    if k >= OSAKA:           # EIP-7883
        mult = 16 if x <= 32 else 2 * (-(-x // 8)) ** 2
    elif k >= BERLIN:        # EIP-2565
        mult = (-(-x // 8)) ** 2
    elif x <= 64:            # EIP-198
        mult = x * x
    elif x <= 1024:
        mult = x * x // 4 + 96 * x - 3072
    else:
        mult = x * x // 16 + 480 * x - 199680
    bits = max(head.bit_length() - 1, 0)
    if el > 32:
        bits += (16 if k >= OSAKA else 8) * (el - 32)
    it = max(bits, 1)
    if k >= OSAKA:
        return max(500, mult * it)
    if k >= BERLIN:
        return max(200, mult * it // 3)
    return mult * it // 20


def modexp(k, f):
    d = f.data
    bl, el, ml = (_int(_pad(d, 32 * i, 32)) for i in range(3))
    if k >= OSAKA and max(bl, el, ml) > 1024:
        raise PrecompileFail("length")
    head = _int(_pad(d, 96 + bl, min(32, el)))
    _use(f, modexp_gas(k, bl, el, ml, head))
    if bl == 0 and ml == 0:
        return b""
    b = _int(_pad(d, 96, bl))
    e = _int(_pad(d, 96 + bl, el))
    m = _int(_pad(d, 96 + bl + el, ml))
    if m == 0:
        return b"\0" * ml
    return pow(b, e, m).to_bytes(ml, "big")


# ------------------------------------------------------------------ bn128
def _bn_g1(b):
    x, y = _int(b[:32]), _int(b[32:64])
    if x >= BN.p or y >= BN.p:
        raise PrecompileFail("field")
    if x == 0 and y == 0:
        return None
    if not BN.on((x, y)):
        raise PrecompileFail("curve")
    return (x, y)


def bn_enc(P):
    return b"\0" * 64 if P is None else \
        P[0].to_bytes(32, "big") + P[1].to_bytes(32, "big")


def bn_add(k, f):
    _use(f, 150 if k >= ISTANBUL else 500)
    d = _pad(f.data, 0, 128)
    return bn_enc(BN.add(_bn_g1(d[:64]), _bn_g1(d[64:])))


def bn_mul(k, f):
    _use(f, 6000 if k >= ISTANBUL else 40000)
    d = _pad(f.data, 0, 96)
    P = _bn_g1(d[:64])
    return bn_enc(BN.mul(P, _int(d[64:]) % BN.n))


class F2:
    """Arithmetic in Fp2 = Fp[i]/(i^2+1) on pairs, for a given p."""

    def __init__(self, p):
        self.p = p

    def add(self, a, b):
        return ((a[0] + b[0]) % self.p, (a[1] + b[1]) % self.p)

    def sub(self, a, b):
        return ((a[0] - b[0]) % self.p, (a[1] - b[1]) % self.p)

    def mul(self, a, b):
        return ((a[0] * b[0] - a[1] * b[1]) % self.p,
                (a[0] * b[1] + a[1] * b[0]) % self.p)

    def sc(self, a, n):
        return (a[0] * n % self.p, a[1] * n % self.p)

    def inv(self, a):
        n = pow(a[0] * a[0] + a[1] * a[1], -1, self.p)
        return (a[0] * n % self.p, -a[1] * n % self.p)

    def pow(self, a, e):
        r = (1, 0)
        while e:
            if e & 1:
                r = self.mul(r, a)
            a = self.mul(a, a)
            e >>= 1
        return r

    def sqrt(self, a):
        """Square root in Fp2 with p = 3 mod 4, or None."""
        p = self.p
        if a == (0, 0):
            return a
        a1 = self.pow(a, (p - 3) // 4)
        al = self.mul(self.mul(a1, a1), a)
        x0 = self.mul(a1, a)
        if al == (p - 1, 0):
            x = self.mul((0, 1), x0)
        else:
            b = self.pow(self.add((1, 0), al), (p - 1) // 2)
            x = self.mul(b, x0)
        return x if self.mul(x, x) == a else None


class Curve2:
    """y^2 = x^3 + b over Fp2; affine points, None = infinity."""

    def __init__(self, p, b, n, g):
        self.F, self.p, self.b, self.n, self.g = F2(p), p, b, n, g

    def rhs(self, x):
        F = self.F
        return F.add(F.mul(F.mul(x, x), x), self.b)

    def on(self, P):
        return P is None or self.F.mul(P[1], P[1]) == self.rhs(P[0])

    def neg(self, P):
        return None if P is None else (
            P[0], (-P[1][0] % self.p, -P[1][1] % self.p))

    def add(self, P, Q):
        F = self.F
        if P is None:
            return Q
        if Q is None:
            return P
        if P[0] == Q[0]:
            if F.add(P[1], Q[1]) == (0, 0):
                return None
            m = F.mul(F.sc(F.mul(P[0], P[0]), 3), F.inv(F.sc(P[1], 2)))
        else:
            m = F.mul(F.sub(Q[1], P[1]), F.inv(F.sub(Q[0], P[0])))
        x = F.sub(F.sub(F.mul(m, m), P[0]), Q[0])
        return (x, F.sub(F.mul(m, F.sub(P[0], x)), P[1]))

    def mul(self, P, k):
        R = None
        for bit in bin(k)[2:]:
            R = self.add(R, R)
            if bit == "1":
                R = self.add(R, P)
        return R

    def in_group(self, P):
        return self.mul(P, self.n) is None


BN2 = Curve2(
    BN.p,
    (19485874751759354771024239261021720505790618469301721065564631296452457478373,
     266929791119991161246907387137283842545076965332900288569378510910307636690),
    BN.n,
    ((10857046999023057135944570762232829481370756359578518086990519993285655852781,
      11559732032986387107991004021392285783925812861821192530917403151452391805634),
     (8495653923123431417604973247489272438418190587263600148770280649306958101930,
      4082367875863433681332203403145435568316851327593401208105741076214120093531)))

DLOG = {}    # encoded point -> scalar, filled by generators


def _bn_g2(b):
    x1, x0, y1, y0 = (_int(b[32 * i:32 * i + 32]) for i in range(4))
    if max(x0, x1, y0, y1) >= BN.p:
        raise PrecompileFail("field")
    if not (x0 or x1 or y0 or y1):
        return None
    P = ((x0, x1), (y0, y1))
    if not BN2.on(P):
        raise PrecompileFail("curve")
    return P


def bn_enc2(P):
    if P is None:
        return b"\0" * 128
    (x0, x1), (y0, y1) = P
    return b"".join(v.to_bytes(32, "big") for v in (x1, x0, y1, y0))


def bn_pair(k, f):
    d = f.data
    n = len(d) // 192
    _use(f, 34000 * n + 45000 if k >= ISTANBUL else 80000 * n + 100000)
    if len(d) % 192:
        raise PrecompileFail("length")
    logs, pts = [], []
    for i in range(n):
        e1, e2 = d[192 * i:192 * i + 64], d[192 * i + 64:192 * i + 192]
        P, Q = _bn_g1(e1), _bn_g2(e2)
        q = 0 if Q is None else DLOG.get(("bn2", bytes(e2)))
        p = 0 if P is None else DLOG.get(("bn1", bytes(e1)))
        if q is None and not BN2.in_group(Q):
            raise PrecompileFail("subgroup")
        logs.append((p, q))
        pts.append((P, Q))
    return int(_pair_decide(logs, pts, BN.n, "bn")).to_bytes(32, "big")


def _pair_decide(logs, pts, r, which):
    tot, rest = 0, []
    for (p, q), PQ in zip(logs, pts):
        if p == 0 or q == 0:
            continue
        if p is None or q is None:
            rest.append(PQ)
        tot += (p or 0) * (q or 0)
    if not rest:
        return tot % r == 0
    if which == "bn":
        from py_ecc import bn128 as C
    else:
        from py_ecc import bls12_381 as C
    acc = C.FQ12.one()
    for P, Q in pts:
        if P is None or Q is None:
            continue
        acc = acc * C.pairing((C.FQ2(Q[0]), C.FQ2(Q[1])),
                              (C.FQ(P[0]), C.FQ(P[1])))
    return acc == C.FQ12.one()


# ------------------------------------------------------------------ blake2
_IV = [0x6A09E667F3BCC908, 0xBB67AE8584CAA73B, 0x3C6EF372FE94F82B,
       0xA54FF53A5F1D36F1, 0x510E527FADE682D1, 0x9B05688C2B3E6C1F,
       0x1F83D9ABFB41BD6B, 0x5BE0CD19137E2179]
_SIGMA = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0]]
_M64 = 2**64 - 1


def blake2_f(rounds, h, m, t, final):
    v = list(h) + list(_IV)
    v[12] ^= t[0]
    v[13] ^= t[1]
    if final:
        v[14] ^= _M64

    def ror(x, n):
        return (x >> n | x << (64 - n)) & _M64

    def g(a, b, c, d, x, y):
        v[a] = (v[a] + v[b] + x) & _M64
        v[d] = ror(v[d] ^ v[a], 32)
        v[c] = (v[c] + v[d]) & _M64
        v[b] = ror(v[b] ^ v[c], 24)
        v[a] = (v[a] + v[b] + y) & _M64
        v[d] = ror(v[d] ^ v[a], 16)
        v[c] = (v[c] + v[d]) & _M64
        v[b] = ror(v[b] ^ v[c], 63)

    for i in range(rounds):
        s = _SIGMA[i % 10]
        for j in range(4):
            g(j, 4 + j, 8 + j, 12 + j, m[s[2 * j]], m[s[2 * j + 1]])
        for j in range(4):
            g(j, 4 + (j + 1) % 4, 8 + (j + 2) % 4, 12 + (j + 3) % 4,
              m[s[8 + 2 * j]], m[s[9 + 2 * j]])
    return [h[i] ^ v[i] ^ v[i + 8] for i in range(8)]


def blake2(k, f):
    d = f.data
    if len(d) != 213:
        raise PrecompileFail("length")
    rounds = _int(d[:4])
    _use(f, rounds)
    if d[212] not in (0, 1):
        raise PrecompileFail("flag")
    le = [int.from_bytes(d[4 + 8 * i:12 + 8 * i], "little")
          for i in range(26)]
    out = blake2_f(rounds, le[:8], le[8:24], le[24:26], d[212])
    return b"".join(x.to_bytes(8, "little") for x in out)


# ------------------------------------------------------------------ BLS12-381
_BP = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
BLS_R = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
BLS1 = Curve(
    _BP, 0, 4, BLS_R,
    (0x17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb,
     0x08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1))
BLS2 = Curve2(
    _BP, (4, 4), BLS_R,
    ((0x024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8,
      0x13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e),
     (0x0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801,
      0x0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be)))


def _fp(b):
    v = _int(b)
    if v >= _BP:
        raise PrecompileFail("field")
    return v


def bls_dec1(b):
    x, y = _fp(b[:64]), _fp(b[64:])
    if x == 0 and y == 0:
        return None
    if not BLS1.on((x, y)):
        raise PrecompileFail("curve")
    return (x, y)


def bls_dec2(b):
    x0, x1, y0, y1 = (_fp(b[64 * i:64 * i + 64]) for i in range(4))
    if not (x0 or x1 or y0 or y1):
        return None
    P = ((x0, x1), (y0, y1))
    if not BLS2.on(P):
        raise PrecompileFail("curve")
    return P


def bls_enc1(P):
    return b"\0" * 128 if P is None else \
        P[0].to_bytes(64, "big") + P[1].to_bytes(64, "big")


def bls_enc2(P):
    if P is None:
        return b"\0" * 256
    return b"".join(v.to_bytes(64, "big") for v in P[0] + P[1])


# EIP-2537 discount tables (k = 1..128)
def _tab(runs):
    return [int(x) for x in runs.split()]


DISC1 = _tab("""1000 949 848 797 764 750 738 728 719 712 705 698 692 687 682
677 673 669 665 661 658 654 651 648 645 642 640 637 635 632 630 627 625 623
621 619 617 615 613 611 609 608 606 604 603 601 599 598 596 595 593 592 591
589 588 586 585 584 582 581 580 579 577 576 575 574 573 572 570 569 568 567
566 565 564 563 562 561 560 559 558 557 556 555 554 553 552 551 550 549 548
547 547 546 545 544 543 542 541 540 540 539 538 537 536 536 535 534 533 532
532 531 530 529 528 528 527 526 525 525 524 523 522 522 521 520 520 519""")
DISC2 = _tab("""1000 1000 923 884 855 832 812 796 782 770 759 749 740 732 724
717 711 704 699 693 688 683 679 674 670 666 663 659 655 652 649 646 643 640
637 634 632 629 627 624 622 620 618 615 613 611 609 607 606 604 602 600 598
597 595 593 592 590 589 587 586 584 583 582 580 579 578 576 575 574 573 571
570 569 568 567 566 565 563 562 561 560 559 558 557 556 555 554 553 552 552
551 550 549 548 547 546 545 545 544 543 542 541 541 540 539 538 537 537 536
535 535 534 533 532 532 531 530 530 529 528 528 527 526 526 525 524 524""")


def msm_gas(n, base, table, last):
    return n * base * (table[n - 1] if n <= 128 else last) // 1000


def _grp1(b, P):
    if P is not None and ("bls1", bytes(b)) not in DLOG \
            and BLS1.mul(P, BLS_R) is not None:
        raise PrecompileFail("subgroup")


def _grp2(b, P):
    if P is not None and ("bls2", bytes(b)) not in DLOG \
            and not BLS2.in_group(P):
        raise PrecompileFail("subgroup")


def bls_g1add(k, f):
    if len(f.data) != 256:
        raise PrecompileFail("length")
    _use(f, 375)
    return bls_enc1(BLS1.add(bls_dec1(f.data[:128]), bls_dec1(f.data[128:])))


def bls_g2add(k, f):
    if len(f.data) != 512:
        raise PrecompileFail("length")
    _use(f, 600)
    return bls_enc2(BLS2.add(bls_dec2(f.data[:256]), bls_dec2(f.data[256:])))


def bls_g1msm(k, f):
    d = f.data
    if not d or len(d) % 160:
        raise PrecompileFail("length")
    n = len(d) // 160
    _use(f, msm_gas(n, 12000, DISC1, 519))
    acc = None
    for i in range(n):
        e = d[160 * i:160 * i + 128]
        P = bls_dec1(e)
        _grp1(e, P)
        acc = BLS1.add(acc, BLS1.mul(
            P, _int(d[160 * i + 128:160 * i + 160]) % BLS_R))
    return bls_enc1(acc)


def bls_g2msm(k, f):
    d = f.data
    if not d or len(d) % 288:
        raise PrecompileFail("length")
    n = len(d) // 288
    _use(f, msm_gas(n, 22500, DISC2, 524))
    acc = None
    for i in range(n):
        e = d[288 * i:288 * i + 256]
        P = bls_dec2(e)
        _grp2(e, P)
        acc = BLS2.add(acc, BLS2.mul(
            P, _int(d[288 * i + 256:288 * i + 288]) % BLS_R))
    return bls_enc2(acc)


def bls_pair(k, f):
    d = f.data
    if not d or len(d) % 384:
        raise PrecompileFail("length")
    n = len(d) // 384
    _use(f, 32600 * n + 37700)
    logs, pts = [], []
    for i in range(n):
        e1, e2 = d[384 * i:384 * i + 128], d[384 * i + 128:384 * i + 384]
        P, Q = bls_dec1(e1), bls_dec2(e2)
        _grp1(e1, P)
        _grp2(e2, Q)
        logs.append((0 if P is None else DLOG.get(("bls1", bytes(e1))),
                     0 if Q is None else DLOG.get(("bls2", bytes(e2)))))
        pts.append((P, Q))
    return int(_pair_decide(logs, pts, BLS_R, "bls")).to_bytes(32, "big")


def bls_map1(k, f):
    from py_ecc.bls import hash_to_curve as H
    from py_ecc.optimized_bls12_381 import FQ, normalize
    if len(f.data) != 64:
        raise PrecompileFail("length")
    _use(f, 5500)
    u = _fp(f.data)
    x, y = normalize(H.clear_cofactor_G1(H.map_to_curve_G1(FQ(u))))
    return bls_enc1((int(x), int(y)))


def bls_map2(k, f):
    from py_ecc.bls import hash_to_curve as H
    from py_ecc.optimized_bls12_381 import FQ2, normalize
    if len(f.data) != 128:
        raise PrecompileFail("length")
    _use(f, 23800)
    u = (_fp(f.data[:64]), _fp(f.data[64:]))
    x, y = normalize(H.clear_cofactor_G2(H.map_to_curve_G2(FQ2(u))))
    return bls_enc2((tuple(int(c) for c in x.coeffs),
                     tuple(int(c) for c in y.coeffs)))


# ------------------------------------------------------------------ KZG
# [tau]_1 of the Ethereum ceremony is not needed: a claim is decided by the
# scalars registered for commitment and proof (see gen_kzg in the C12 check).
KZG = {}     # (commitment, proof) -> function(z, y) -> bool


def bls_decompress(b):
    """48-byte compressed G1 point -> point; raises on any invalid form."""
    if not b[0] & 0x80:
        raise PrecompileFail("uncompressed")
    inf, big = b[0] & 0x40, b[0] & 0x20
    x = _int(bytes([b[0] & 0x1F]) + bytes(b[1:]))
    if inf:
        if big or x:
            raise PrecompileFail("infinity")
        return None
    if x >= _BP:
        raise PrecompileFail("field")
    P = BLS1.lift(x, 0)
    if P is None:
        raise PrecompileFail("curve")
    y = max(P[1], _BP - P[1]) if big else min(P[1], _BP - P[1])
    return (x, y)


def bls_compress(P):
    if P is None:
        return b"\xc0" + b"\0" * 47
    x, y = P
    h = bytearray(x.to_bytes(48, "big"))
    h[0] |= 0x80 | (0x20 if y > _BP - y else 0)
    return bytes(h)


def kzg(k, f):
    d = f.data
    if len(d) != 192:
        raise PrecompileFail("length")
    _use(f, 50000)
    com, pr = bytes(d[96:144]), bytes(d[144:192])
    if d[:32] != b"\x01" + hashlib.sha256(com).digest()[1:]:
        raise PrecompileFail("hash")
    z, y = _int(d[32:64]), _int(d[64:96])
    if z >= BLS_R or y >= BLS_R:
        raise PrecompileFail("scalar")
    C, Q = bls_decompress(com), bls_decompress(pr)
    for P in (C, Q):
        if P is not None and ("bls1", bls_enc1(P)) not in DLOG \
                and BLS1.mul(P, BLS_R) is not None:
            raise PrecompileFail("subgroup")
    if not kzg_holds(C, z, y, Q):
        raise PrecompileFail("proof")
    return (4096).to_bytes(32, "big") + BLS_R.to_bytes(32, "big")


def kzg_holds(C, z, y, Q):
    """e(C - y, G2) == e(Q, tau - z), decided without a pairing where we can.

    Every registered point is a*G1 + b*[tau]G1 with known (a, b) (stored as
    ("tau", enc) -> (a, b)).  Equality needs a_C - y + b_C t = (a_Q + b_Q t)
    (t - z) as polynomials in the unknown t; with b_Q = 0 that is
    coefficientwise (t is not a root of a nonzero linear polynomial we know).
    """
    def co(P):
        return (0, 0) if P is None else DLOG.get(("tau", bls_enc1(P)))
    c, q = co(C), co(Q)
    if c is not None and q is not None and q[1] == 0:
        return (c[1] - q[0]) % BLS_R == 0 and \
            (c[0] - y + q[0] * z) % BLS_R == 0
    from py_ecc.optimized_bls12_381 import (FQ, add, multiply, neg, G1, G2,
                                            pairing, FQ12)
    from py_ecc.bls.g2_primitives import signature_to_G2

    def lift(P):
        return (FQ(1), FQ(1), FQ(0)) if P is None else (
            FQ(P[0]), FQ(P[1]), FQ(1))
    tau2 = signature_to_G2(bytes.fromhex(TAU_G2))
    lhs = pairing(G2, add(lift(C), neg(multiply(G1, y))))
    rhs = pairing(add(tau2, neg(multiply(G2, z))), lift(Q))
    return lhs == rhs


TAU_G2 = ("b5bfd7dd8cdeb128843bc287230af38926187075cbfbefa81009a2ce615ac53d"
          "2914e5870cb452d2afaaab24f3499f72185cbfee53492714734429b7b38608e2"
          "3926c911cceceac9a36851477ba4c60b087041de621000edc98edada20c1def2")


# ------------------------------------------------------------------ P-256
def p256(k, f):
    _use(f, 6900)
    d = f.data
    if len(d) != 160:
        return b""
    z, r, s, x, y = (_int(d[32 * i:32 * i + 32]) for i in range(5))
    n, p = R1.n, R1.p
    if not (0 < r < n and 0 < s < n and x < p and y < p):
        return b""
    if not R1.on((x, y)):
        return b""
    si = pow(s, -1, n)
    R = R1.add(R1.mul(R1.g, z * si % n), R1.mul((x, y), r * si % n))
    if R is None or R[0] % n != r:
        return b""
    return (1).to_bytes(32, "big")


_T = {1: (0, ecrecover), 2: (0, sha256), 3: (0, ripemd), 4: (0, identity),
      5: (BYZANTIUM, modexp), 6: (BYZANTIUM, bn_add),
      7: (BYZANTIUM, bn_mul), 8: (BYZANTIUM, bn_pair),
      9: (ISTANBUL, blake2), 10: (CANCUN, kzg),
      11: (PRAGUE, bls_g1add), 12: (PRAGUE, bls_g1msm),
      13: (PRAGUE, bls_g2add), 14: (PRAGUE, bls_g2msm),
      15: (PRAGUE, bls_pair), 16: (PRAGUE, bls_map1),
      17: (PRAGUE, bls_map2), 0x100: (OSAKA, p256)}


def lookup(fork, addr):
    n = int.from_bytes(addr, "big")
    e = _T.get(n)
    if e is None or fork < e[0]:
        return None
    return e[1]


def addresses(fork):
    return [n.to_bytes(20, "big") for n, (first, _) in _T.items()
            if fork >= first]
