import functools, hashlib, random
from lib.pre import *
from lib.pbt import Src
from refspec.precompiles import (
    BN, BN2, BLS1, BLS2, BLS_R, _BP, DLOG, bn_enc, bn_enc2, bls_enc1,
    bls_enc2, bls_compress, bls_decompress)

TAU1 = bytes.fromhex("ad3eb50121139aa34db1d545093ac9374ab7bca2c0f3bf28e27c8d"
                     "cd8fc7cb42d25926fc0c97b336e9f0fb35e5a04c81")


def _scalar(i, n):
    """A pool of scalars: small, near the order, and spread out."""
    if i < 8:
        return i + 1
    if i < 11:
        return n - (i - 7)
    return int.from_bytes(keccak(b"scalar%d" % i), "big") % n


CURVES = dict(bn1=(BN, bn_enc, 32, BN.p), bn2=(BN2, bn_enc2, 32, BN.p),
              bls1=(BLS1, bls_enc1, 64, _BP), bls2=(BLS2, bls_enc2, 64, _BP))


@functools.lru_cache(4096)
def point(which, k):
    """k*G, registered; returns its encoding."""
    C, encf = CURVES[which][:2]
    P = C.mul(C.g, k)
    e = encf(P)
    DLOG[which, e] = k
    if which == "bls1":
        DLOG["tau", e] = (k, 0)
    return e


@functools.lru_cache(512)
def stray(which, i):
    """A point of the curve that need not be in the subgroup."""
    C, encf = CURVES[which][:2]
    if i == 0 and which == "bls1":
        return encf((0, 2))                      # order three
    if i == 1 and which == "bls1":
        return encf((0, C.p - 2))
    j = 0
    while True:
        if which in ("bn1", "bls1"):
            x = int.from_bytes(keccak(b"x%d,%d" % (i, j)) * 2, "big") % C.p
            P = C.lift(x, 0)
        else:
            h = keccak(b"x%d,%d" % (i, j))
            x = (int.from_bytes(h, "big") % C.p, i % 3)
            y = C.F.sqrt(C.rhs(x))
            P = None if y is None else (x, y)
        if P is not None:
            return encf(P)
        j += 1


def sc(s, n):
    return _scalar(s.below(24), n)


def g_point(s, which, bad=25, offgroup=True):
    """Encoding of a point: usually valid."""
    C, encf, w, p = CURVES[which]
    k = s.below(100)
    if k >= bad:
        if s.chance(12):
            return b"\0" * len(encf(C.g))
        return point(which, sc(s, C.n))
    m = s.below(9)
    e = point(which, sc(s, C.n))
    n = len(e) // w
    i = s.below(n)
    v = int.from_bytes(e[i * w:i * w + w], "big")
    if m == 0:                                  # non-canonical coordinate
        v += p
    elif m == 1:
        v = s.pick([p, p - 1, p + 1, 256**w - 1, 0, 1])
    elif m == 2:
        v ^= 1 << s.below(min(8 * w, 384))
    elif m == 3:
        v = (p - v) % p
    elif m == 4 and w == 64:
        v += s.pick([2**384, 2**511, p << 100, 2**400])   # padding bytes
    elif m == 5:
        z = b"\0" * len(e)                      # almost infinity
        return z[:i * w] + s.pick([1, p, p - 1]).to_bytes(w, "big") \
            + z[i * w + w:]
    elif m >= 6 and offgroup:
        return stray(which, s.below(12))
    return e[:i * w] + (v % 256**w).to_bytes(w, "big") + e[i * w + w:]


def any_scalar(s, n):
    return s.pick([0, 1, 2, 3, n - 1, n, n + 1, 2 * n, M256 - 1, sc(s, n),
                   s.below(M256), s.below(2**64)]).to_bytes(32, "big")


def pairs(s, w1, w2, bad):
    """Pairing input; about half the time the product is one."""
    C1, C2 = CURVES[w1][0], CURVES[w2][0]
    r = C1.n
    m = s.pick([0, 1, 1, 2, 2, 2, 3])
    if s.chance(bad):
        return b"".join(g_point(s, w1, 30) + g_point(s, w2, 30)
                        for _ in range(max(1, min(m, 2))))
    out, tot = [], 0
    z1, z2 = b"\0" * len(point(w1, 1)), b"\0" * len(point(w2, 1))
    for i in range(m):
        if s.chance(10):
            out.append(s.pick([(z1, z2), (point(w1, sc(s, r)), z2),
                               (z1, point(w2, sc(s, r)))]))
            continue
        if i == m - 1:
            b = s.pick([1, 2, 3, r - 1])
            a = -tot * pow(b, -1, r) % r
            if s.chance(35):
                a = (a + 1) % r
            if a == 0:
                out.append((z1, point(w2, b)))
                continue
        else:
            a, b = sc(s, r), sc(s, r)
        tot += a * b
        out.append((point(w1, a), point(w2, b)))
    return b"".join(a + b for a, b in s.shuffle(out))


def cut(s, d, unit):
    """Wrong lengths sometimes."""
    k = s.below(16)
    if k == 0:
        return d[:-1]
    if k == 1:
        return d + b"\0"
    if k == 2:
        return d[:len(d) - unit // 2]
    if k == 3:
        return b""
    return d


def bn_call(s):
    k = s.below(2)
    if k == 0:
        d = g_point(s, "bn1", 15) + g_point(s, "bn1", 15)
        if s.chance(15):
            e = point("bn1", sc(s, BN.n))
            d = e + s.pick([e, bn_enc(BN.neg((
                int.from_bytes(e[:32], "big"),
                int.from_bytes(e[32:], "big"))))])
        if s.chance(15):
            d = d[:s.pick([0, 32, 63, 64, 65, 96, 127])]
        elif s.chance(10):
            d += s.bytes(s.pick([1, 32, 64]))
        return 6, d
    d = g_point(s, "bn1", 15) + any_scalar(s, BN.n)
    if s.chance(15):
        d = d[:s.pick([0, 32, 64, 65, 95])]
    elif s.chance(10):
        d += s.bytes(s.pick([1, 32]))
    return 7, d


def bn_pair_call(s):
    return 8, cut(s, pairs(s, "bn1", "bn2", 30), 192)


def bls_add_call(s):
    w, a, u = s.pick([("bls1", 11, 128), ("bls2", 13, 256)])
    d = g_point(s, w, 25) + g_point(s, w, 25)
    if s.chance(20):
        e = point(w, sc(s, BLS_R))
        n = -DLOG[w, e] % BLS_R
        d = e + (e if s.bool() else point(w, n))
    return a, cut(s, d, 2 * u)


def bls_msm_call(s):
    w, a, u = s.pick([("bls1", 12, 160), ("bls1", 12, 160),
                      ("bls2", 14, 288)])
    n = s.pick([1, 1, 2, 2, 3, 4, 6])
    bad = 8 if s.bool() else 0
    d = b"".join(g_point(s, w, bad) + any_scalar(s, BLS_R)
                 for _ in range(n))
    return a, cut(s, d, u)


def bls_msm_gas_call(s):
    """Long MSM inputs: only the price matters (infinities are cheap)."""
    w, a, u = s.pick([("bls1", 12, 128), ("bls2", 14, 256)])
    n = s.pick([1, 2, 3, 64, 127, 128, 129, 130, s.int(1, 140), 200])
    return a, (b"\0" * u + (b"\0" * 31 + b"\1")) * n


class MsmGrid:
    """Every MSM length up to past the end of the discount table, on both
    curves and in both forks (made on demand)."""
    TOP = 132

    def __len__(self):
        return 2 * 2 * self.TOP

    def __getitem__(self, i):
        if i >= len(self):
            raise IndexError
        s = Src(random.Random(i))
        a, u = ((12, 128), (14, 256))[i % 2]
        n = i // 4 + 1
        d = (b"\0" * u + (b"\0" * 31 + b"\1")) * n
        return precompile_case(s, (PRAGUE, OSAKA)[i // 2 % 2], [(a, d)],
                               ample=True)


def bls_pair_call(s):
    return 15, cut(s, pairs(s, "bls1", "bls2", 40), 384)


def defect(s, w1, w2):
    """One pair with exactly one defect: rejected before any pairing."""
    e1 = point(w1, sc(s, CURVES[w1][0].n))
    e2 = point(w2, sc(s, CURVES[w2][0].n))
    z1, z2 = b"\0" * len(e1), b"\0" * len(e2)
    which = s.pick([1, 2, 2])
    e, z, other, zo, name = (e1, z1, e2, z2, w1) if which == 1 else \
        (e2, z2, e1, z1, w2)
    C, encf, w, p = CURVES[name]
    i = s.below(len(e) // w)
    v = int.from_bytes(e[i * w:i * w + w], "big")
    m = s.below(10)
    if m >= 6 and name != "bn1":
        e = stray(name, s.below(12))            # outside the subgroup
    else:
        if m <= 3 and v + p < 256**w:
            v += p                              # the same point, not reduced
        elif m == 4:
            e, v = z, p                         # infinity, not reduced
        elif m == 5 and w == 64:
            v += s.pick([2**384, 2**511, 2**400])
        else:
            v ^= 1 << s.below(128)              # off the curve
        e = e[:i * w] + v.to_bytes(w, "big") + e[i * w + w:]
    if s.chance(40):
        other = zo
    d = e + other if which == 1 else other + e
    if s.chance(20):
        d = z1 + z2 + d
    if s.chance(20):
        d += z1 + z2
    return d


def bn_defect_call(s):
    return 8, defect(s, "bn1", "bn2")


def bls_defect_call(s):
    return 15, defect(s, "bls1", "bls2")


def kzg_defect_call(s):
    return kzg_call(s, True)


def bls_map_call(s):
    def fp():
        v = s.pick([0, 1, 2, _BP - 1, _BP, _BP + 1, 2**384, 2**512 - 1,
                    s.below(_BP), s.below(_BP), s.below(_BP), s.below(2**64)])
        return v.to_bytes(64, "big")
    if s.bool():
        return 16, cut(s, fp(), 64)
    return 17, cut(s, fp() + fp(), 128)


@functools.lru_cache(512)
def tau_comb(a, b):
    """a*G + b*[tau]G, registered."""
    T = bls_decompress(TAU1)
    P = BLS1.add(BLS1.mul(BLS1.g, a % BLS_R) if a % BLS_R else None,
                 BLS1.mul(T, b % BLS_R) if b % BLS_R else None)
    if P is not None:
        e = bls_enc1(P)
        DLOG["tau", e] = (a % BLS_R, b % BLS_R)
        DLOG.setdefault(("bls1", e), None)
    return bls_compress(P)


def kzg_call(s, defect=False):
    a, b = sc(s, BLS_R), sc(s, BLS_R)
    if s.chance(20):
        a = 0
    if s.chance(20):
        b = 0
    z = s.pick([0, 1, sc(s, BLS_R), BLS_R - 1, s.below(BLS_R)])
    y = (a + b * z) % BLS_R
    com, pr = tau_comb(a, b), tau_comb(b, 0)
    k = s.pick([3, 4, 5, 6, 5, 6, 5, 6, 7, 13]) if defect else s.below(14)
    if k == 0:
        y = (y + 1) % BLS_R
    elif k == 1:
        z = (z + 1) % BLS_R
    elif k == 2:
        pr = tau_comb((b + 1) % BLS_R, 0)
    elif k == 3:
        if z + BLS_R < M256:
            z += BLS_R
    elif k == 4:
        if y + BLS_R < M256:
            y += BLS_R
    elif k in (5, 6):
        # another shape of one of the two points
        t = s.pick([0, 1, 3, 4, 5, 6, 6]) if defect else s.below(8)
        src = com if k == 5 else pr
        x = bytearray(src)
        if t == 0:
            x[0] ^= 0x80
        elif t == 1:
            x[0] ^= 0x40
        elif t == 2:
            x[0] ^= 0x20
        elif t == 3:
            x = bytearray(b"\xc0" + b"\0" * 46 + b"\1")
        elif t == 4:
            x = bytearray(b"\xe0" + b"\0" * 47)
        elif t == 5:
            x = bytearray(_BP.to_bytes(48, "big"))
            x[0] |= 0x80
        elif t == 6:
            e = stray("bls1", s.below(8))
            x = bytearray(bls_compress((
                int.from_bytes(e[:64], "big"),
                int.from_bytes(e[64:], "big"))))
        else:
            x = bytearray(b"\xc0" + b"\0" * 47)
        if k == 5:
            com = bytes(x)
        else:
            pr = bytes(x)
    vh = b"\x01" + hashlib.sha256(com).digest()[1:]
    if k == 7:
        vh = s.pick([b"\x02" + vh[1:], b"\0" + vh[1:],
                     vh[:31] + bytes([vh[31] ^ 1]),
                     hashlib.sha256(com).digest()])
    d = vh + z.to_bytes(32, "big") + y.to_bytes(32, "big") + com + pr
    if k == 13 and defect:
        return 10, s.pick([d[:-1], d + b"\0", d[1:], b"", d[:96], d * 2])
    return 10, cut(s, d, 48)


def maker(call, lo, n=(1, 1), direct=True):
    def make(s):
        fork = s.int(lo, 17)
        return precompile_case(
            s, fork, [call(s) for _ in range(s.int(*n))], direct=direct)
    return make


def nt(want, c):
    return "succeeds" in c["tags"]


def S(name, call, lo, quick, n=(1, 1), fixed=None):
    return body_suite(
        name, maker(call, lo, n), quick,
        "structured inputs (multiples of the generator, infinity, strays "
        "outside the subgroup, non-canonical coordinates, wrong lengths) "
        "with gas at and around the price; non-trivial: a call succeeds", nt,
        fixed=fixed)


def D(name, call, lo, quick):
    return body_suite(
        name, maker(call, lo), quick,
        "inputs with exactly one defect, cheap because no pairing is "
        "reached: a coordinate not reduced, infinity not reduced, stray "
        "padding, a point off the curve or off the subgroup (beside an "
        "infinity or a valid point), wrong lengths, malformed compressed "
        "points; non-trivial: a call fails",
        lambda want, c: "fails" in c["tags"])


# share of the larger suites' cases that the quick tier runs
QUICK_SCALE = 0.5
SUITES = [
    S("bn", bn_call, BYZANTIUM, 3000, (1, 4)),
    S("bn-pairing", bn_pair_call, BYZANTIUM, 260),
    D("bn-pairing-defects", bn_defect_call, BYZANTIUM, 2400),
    S("bls-add", bls_add_call, PRAGUE, 1500, (1, 3)),
    S("bls-msm", bls_msm_call, PRAGUE, 500),
    S("bls-msm-gas", bls_msm_gas_call, PRAGUE, 200, fixed=MsmGrid()),
    S("bls-map", bls_map_call, PRAGUE, 1000, (1, 2)),
    S("bls-pairing", bls_pair_call, PRAGUE, 160),
    D("bls-pairing-defects", bls_defect_call, PRAGUE, 600),
    S("kzg", kzg_call, CANCUN, 160),
    D("kzg-defects", kzg_defect_call, CANCUN, 2400),
]
ASSUME = [
    "py_ecc's hash-to-curve (isogeny map and cofactor clearing) is shared by "
    "implementation and oracle for the two map precompiles; field checks, "
    "lengths, gas and encoding are checked independently",
    "pairings are decided through known discrete logarithms of the generated "
    "points; py_ecc's pairing is the fallback for other points",
]
