"""Primitives of the reference model: Keccak, RLP, elliptic curves, MPT.

Keccak comes from pycryptodome and SHA/RIPEMD from hashlib/pycryptodome
(trusted third-party libraries); everything else here is written from the
definitions.
"""
import functools
from Crypto.Hash import keccak as _k


def keccak(b):
    return _k.new(digest_bits=256, data=bytes(b)).digest()


def keccak512(b):
    return _k.new(digest_bits=512, data=bytes(b)).digest()


# ---------------------------------------------------------------- RLP
def be(n):
    return n.to_bytes((n.bit_length() + 7) // 8, "big")


def rlp(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        x = be(x)
    if isinstance(x, (bytes, bytearray)):
        x = bytes(x)
        if len(x) == 1 and x[0] < 0x80:
            return x
        return _hdr(0x80, len(x)) + x
    body = b"".join(rlp(y) for y in x)
    return _hdr(0xC0, len(body)) + body


def _hdr(base, n):
    if n < 56:
        return bytes([base + n])
    l = be(n)
    return bytes([base + 55 + len(l)]) + l


class RLPError(Exception):
    pass


def unrlp(b):
    """Strict canonical RLP decoding to nested bytes/lists."""
    x, rest = _dec(b)
    if rest:
        raise RLPError("trailing")
    return x


def _take(b, n):
    if len(b) < n:
        raise RLPError("short")
    return b[:n], b[n:]


def _dec(b):
    if not b:
        raise RLPError("empty")
    t = b[0]
    if t < 0x80:
        return b[:1], b[1:]
    islist = t >= 0xC0
    base = 0xC0 if islist else 0x80
    n = t - base
    b = b[1:]
    if n > 55:
        l, b = _take(b, n - 55)
        if l[:1] == b"\0":
            raise RLPError("leading zero")
        n = int.from_bytes(l, "big")
        if n < 56:
            raise RLPError("long form for short")
    body, rest = _take(b, n)
    if not islist:
        if n == 1 and body[0] < 0x80:
            raise RLPError("single byte")
        return body, rest
    out = []
    while body:
        x, body = _dec(body)
        out.append(x)
    return out, rest


# ---------------------------------------------------------------- MPT
EMPTY_ROOT = keccak(b"\x80")


def _nibbles(k):
    out = []
    for c in k:
        out.append(c >> 4)
        out.append(c & 15)
    return tuple(out)


def _hp(nib, leaf):
    flag = 2 if leaf else 0
    if len(nib) % 2:
        nib = (flag + 1,) + tuple(nib)
    else:
        nib = (flag, 0) + tuple(nib)
    return bytes(nib[i] * 16 + nib[i + 1] for i in range(0, len(nib), 2))


def _node(items, d):
    """items: list of (nibbles, value) sharing the first d nibbles, sorted."""
    if not items:
        return b""
    if len(items) == 1:
        k, v = items[0]
        return [_hp(k[d:], True), v]
    a, z = items[0][0], items[-1][0]
    j = d
    while j < len(a) and j < len(z) and a[j] == z[j]:
        j += 1
    if j > d:
        return [_hp(a[d:j], False), _ref(_node(items, j))]
    val = b""
    slots = [[] for _ in range(16)]
    for k, v in items:
        if len(k) == d:
            val = v
        else:
            slots[k[d]].append((k, v))
    return [_ref(_node(s, d + 1)) if s else b"" for s in slots] + [val]


def _ref(n):
    e = rlp(n)
    return n if len(e) < 32 else keccak(e)


def mpt_root(mapping, secured=False):
    """Root of {key bytes: value bytes}; empty values mean absent."""
    items = sorted(
        (_nibbles(keccak(k) if secured else k), v)
        for k, v in mapping.items() if v != b"")
    if not items:
        return EMPTY_ROOT
    return keccak(rlp(_node(items, 0)))


def ordered_root(values):
    return mpt_root({rlp(i): v for i, v in enumerate(values)})


# ---------------------------------------------------------------- curves
class Curve:
    """Short Weierstrass curve over F_p, affine points, None = infinity."""

    def __init__(self, p, a, b, n, g):
        self.p, self.a, self.b, self.n, self.g = p, a, b, n, g

    def on(self, P):
        if P is None:
            return True
        x, y = P
        return (y * y - x * x * x - self.a * x - self.b) % self.p == 0

    def add(self, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        p = self.p
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            m = (3 * P[0] * P[0] + self.a) * pow(2 * P[1], -1, p) % p
        else:
            m = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
        x = (m * m - P[0] - Q[0]) % p
        return (x, (m * (P[0] - x) - P[1]) % p)

    def neg(self, P):
        return None if P is None else (P[0], -P[1] % self.p)

    # Jacobian double-and-add for speed
    def mul(self, P, k):
        if P is None or k == 0:
            return None
        if k < 0:
            return self.mul(self.neg(P), -k)
        p, a = self.p, self.a
        X, Y, Z = 0, 1, 0
        x0, y0 = P
        for bit in bin(k)[2:]:
            if Z:
                if Y == 0:
                    X, Y, Z = 0, 1, 0
                else:
                    YY = Y * Y % p
                    S = 4 * X * YY % p
                    M = (3 * X * X + a * pow(Z, 4, p)) % p
                    X2 = (M * M - 2 * S) % p
                    Y2 = (M * (S - X2) - 8 * YY * YY) % p
                    Z = 2 * Y * Z % p
                    X, Y = X2, Y2
            if bit == "1":
                if Z == 0:
                    X, Y, Z = x0, y0, 1
                else:
                    ZZ = Z * Z % p
                    U = x0 * ZZ % p
                    S = y0 * ZZ * Z % p
                    H = (U - X) % p
                    R = (S - Y) % p
                    if H == 0:
                        if R == 0:
                            q = self.add(P, P)
                            if q is None:
                                X, Y, Z = 0, 1, 0
                            else:
                                X, Y, Z = q[0], q[1], 1
                        else:
                            X, Y, Z = 0, 1, 0
                        continue
                    HH = H * H % p
                    HHH = H * HH % p
                    V = X * HH % p
                    X3 = (R * R - HHH - 2 * V) % p
                    Y = (R * (V - X3) - Y * HHH) % p
                    Z = Z * H % p
                    X = X3
        if Z == 0:
            return None
        zi = pow(Z, -1, p)
        return (X * zi * zi % p, Y * zi * zi * zi % p)

    def lift(self, x, odd):
        """Point with given x and y parity (p = 3 mod 4), or None."""
        p = self.p
        if x >= p:
            return None
        r = (x * x * x + self.a * x + self.b) % p
        y = pow(r, (p + 1) // 4, p)
        if y * y % p != r:
            return None
        if y % 2 != odd:
            y = p - y
        return (x, y % p)


K1 = Curve(2**256 - 2**32 - 977, 0, 7,
           0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141,
           (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
            0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8))
R1 = Curve(0xFFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF,
           -3,
           0x5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B,
           0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551,
           (0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296,
            0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5))
BN = Curve(21888242871839275222246405745257275088696311157297823662689037894645226208583,
           0, 3,
           21888242871839275222246405745257275088548364400416034343698204186575808495617,
           (1, 2))
SECP_N = K1.n
# small r such that r and r + n are both abscissas of curve points: with a
# recovery id of 2 or 3 the library underneath would recover a key from them
WRAP_R = [r for r in range(1, 200)
          if K1.lift(r, 0) and K1.lift(r + SECP_N, 0)]


# Signatures made here: the signer is known by construction.
_SIGNED = {}


@functools.lru_cache(65536)
def k1_recover(h, v, r, s):
    """Address of the secp256k1 signer, or None. v in {0, 1}."""
    if (h, v, r, s) in _SIGNED:
        return _SIGNED[h, v, r, s]
    if not (0 < r < SECP_N and 0 < s < SECP_N and v in (0, 1)):
        return None
    R = K1.lift(r, v)
    if R is None:
        return None
    z = int.from_bytes(h, "big")
    ri = pow(r, -1, SECP_N)
    Q = K1.add(K1.mul(R, s * ri % SECP_N), K1.mul(K1.g, -z * ri % SECP_N))
    if Q is None:
        return None
    return keccak(Q[0].to_bytes(32, "big") + Q[1].to_bytes(32, "big"))[12:]


@functools.lru_cache(4096)
def k1_pub(d):
    return K1.mul(K1.g, d)


@functools.lru_cache(4096)
def k1_addr(d):
    x, y = k1_pub(d)
    return keccak(x.to_bytes(32, "big") + y.to_bytes(32, "big"))[12:]


@functools.lru_cache(4096)
def _kG(k):
    return K1.mul(K1.g, k)


def k1_sign(h, d, k=None):
    """ECDSA with low s: (y_parity, r, s)."""
    z = int.from_bytes(h, "big")
    if k is None:
        # deterministic nonce drawn from a small pool so kG is cached
        k = 1 + int.from_bytes(keccak(h + d.to_bytes(32, "big")), "big") % 61
        k = int.from_bytes(keccak(b"nonce%d" % k), "big") % SECP_N
    R = _kG(k)
    r = R[0] % SECP_N
    s = (z + r * d) * pow(k, -1, SECP_N) % SECP_N
    par = R[1] & 1
    if r == 0 or s == 0:
        return k1_sign(h, d, k + 1)
    if s > SECP_N // 2:
        s = SECP_N - s
        par ^= 1
    if len(_SIGNED) > 200000:
        _SIGNED.clear()
    _SIGNED[h, par, r, s] = k1_addr(d)
    return par, r, s
