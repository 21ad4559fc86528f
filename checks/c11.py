from lib.pre import *
from refspec.prim import K1, R1, SECP_N, WRAP_R, k1_sign, _kG


def B32(x):
    return (x % M256).to_bytes(32, "big")


def g_ecrecover(s, fork):
    d = 1 + s.below(2**s.pick([3, 40, 255]))
    d = d % (SECP_N - 1) + 1
    h = s.bytes(32) if s.bool() else bytes([s.below(3)]) * 32
    par, r, sg = k1_sign(h, KEYS[s.below(3)] if s.bool() else d)
    v = 27 + par
    k = s.below(12)
    if k == 0:
        sg, v = SECP_N - sg, 55 - v           # high s is fine here
    elif k == 1:
        v = s.pick([0, 1, 26, 29, 30, 27 + 256, 28 + 2**255, 35, 36, 37])
    elif k == 2:
        r = s.pick([0, 1, 2, 5, SECP_N, SECP_N - 1, SECP_N + 1, M256 - 1,
                    K1.p, K1.p - 1])
    elif k == 3:
        sg = s.pick([0, 1, SECP_N, SECP_N - 1, SECP_N + 1, M256 - 1])
    elif k == 4:
        r = s.below(SECP_N)                   # half of these are no x
    elif k == 5:                              # recovers to infinity
        kk = int.from_bytes(keccak(b"n%d" % s.below(5)), "big") % SECP_N
        R = _kG(kk)
        r, v = R[0] % SECP_N, 27 + (R[1] & 1)
        h = B32(sg * kk % SECP_N)
    elif k == 6:
        h = s.pick([b"\0" * 32, b"\xff" * 32, B32(SECP_N), B32(SECP_N + 1)])
    elif k == 7:
        r, v = s.pick(WRAP_R), s.pick([27, 28, 29, 30])
    return h + B32(v) + B32(r) + B32(sg)


def g_hash(s, fork):
    return s.bytes(s.pick([0, 1, 31, 32, 33, 63, 64, 65, 55, 56, 119, 120,
                           s.below(400)]))


def g_modexp(s, fork):
    def ln():
        return s.pick([0, 1, 2, 8, 31, 32, 33, 63, 64, 65, s.below(140),
                       s.pick([255, 256, 1023, 1024, 1025])
                       if s.chance(30) else 16])

    def num(n):
        k = s.below(8)
        if k == 0:
            return b"\0" * n
        if k == 1:
            return (b"\0" * n + b"\x01")[-n:] if n else b""
        if k == 2:
            return b"\xff" * n
        if k == 3:
            return (b"\x80" + b"\0" * n)[:n]
        if k == 4:
            return (b"\0" * n + s.bytes(min(n, 4)))[-n:] if n else b""
        return s.bytes(n)
    bl, el, ml = ln(), ln(), ln()
    if s.chance(8):
        ml = el = bl = s.pick([0, 1, 32])
    if el > 200 and max(bl, ml) > 200:
        el = s.pick([1, 3, 32, 33])
    body = num(bl) + num(el) + num(ml)
    k = s.below(12)
    if k == 0:          # declared lengths far beyond the data
        big = s.pick([2**16, 2**32, 2**64 - 1, 2**64, 2**128, 2**255,
                      M256 - 1, M256 - 32, M256 - 96, M256 - 97, M256 - 98,
                      M256 - 64, M256 // 2])
        w = s.below(7)
        if w & 1 or w == 0:
            bl = big
        if w & 2:
            el = big
        if w & 4:
            ml = big
        if s.bool():
            bl, ml = s.pick([(0, 0), (bl, 0), (0, ml)])
    elif k == 1:
        body = body[:s.below(len(body) + 1)]
    elif k == 2:
        bl, el, ml = s.pick([(bl, el + 1, ml), (bl + 1, el, ml),
                             (bl, el, ml + 1), (1024, el, ml),
                             (1025, el, ml), (bl, 1025, ml)])
    d = B32(bl) + B32(el) + B32(ml) + body
    if s.chance(5):
        d = d[:s.below(100)]
    return d


def g_blake2(s, fork):
    rounds = s.pick([0, 1, 2, 9, 10, 11, 12, 13, 20, s.below(64)])
    if s.chance(8):
        rounds = s.pick([2**32 - 1, 2**31, 30_000_000])
    d = rounds.to_bytes(4, "big") + s.bytes(64) + s.bytes(128) + s.bytes(16)
    if s.chance(20):
        d = d[:4] + b"\0" * 64 + d[68:]
    if s.chance(20):
        d = d[:196] + s.pick([b"\xff" * 16, b"\xff" * 8 + b"\0" * 8,
                              b"\0" * 16])
    d += bytes([s.pick([0, 1, 0, 1, 0, 1, 2, 255])])
    k = s.below(12)
    if k == 0:
        d = d[:s.pick([0, 212, 211])]
    elif k == 1:
        d += b"\0"
    return d


N1 = R1.n


def g_p256(s, fork):
    d = 1 + int.from_bytes(keccak(b"p%d" % s.below(6)), "big") % (N1 - 1)
    Q = _r1mul(d)
    z = int.from_bytes(s.bytes(32), "big")
    if s.chance(10):
        z = s.pick([0, N1, N1 - 1, N1 + 1, M256 - 1])
    k = 1 + int.from_bytes(keccak(b"k%d" % s.below(6)), "big") % (N1 - 1)
    R = _r1mul(k)
    r = R[0] % N1
    sg = (z + r * d) * pow(k, -1, N1) % N1
    m = s.below(14)
    if m == 0:
        sg = N1 - sg                     # both are valid
    elif m == 1:
        r = s.pick([0, 1, N1, N1 - 1, r + N1, M256 - 1])
    elif m == 2:
        sg = s.pick([0, 1, N1, N1 - 1, M256 - 1])
    elif m == 3:                         # u1 G + u2 Q is infinity
        z = -r * d % N1
        sg = 1 + s.below(N1 - 1)
    elif m == 4:                         # R.x >= n: only r = x - n passes
        x = N1 + s.below(40)
        while True:
            T = R1.lift(x, s.below(2))
            if T:
                break
            x += 1
        r, sg = T[0] - N1, 1 + s.below(N1 - 1)
        # Q = r^-1 (sT - zG)
        Q = R1.mul(R1.add(R1.mul(T, sg), R1.mul(R1.g, -z % N1)),
                   pow(r, -1, N1)) if r else Q
        if Q is None:
            Q = R1.g
    elif m == 5:
        Q = s.pick([(0, 0), (Q[0], R1.p - Q[1]), (Q[0], Q[1] ^ 1),
                    (Q[0] + R1.p, Q[1]), (R1.p, Q[1]), (Q[0], R1.p),
                    (0, R1.lift(0, 0)[1] if R1.lift(0, 0) else 1),
                    (M256 - 1, M256 - 1)])
    elif m == 6:
        z += 1
    x = B32(z) + B32(r) + B32(sg) + B32(Q[0]) + B32(Q[1])
    j = s.below(12)
    if j == 0:
        x = x[:s.pick([0, 128, 159])]
    elif j == 1:
        x += b"\0"
    return x


import functools                                   # noqa: E402


@functools.lru_cache(64)
def _r1mul(k):
    return R1.mul(R1.g, k)


GENS = dict(ecrecover=g_ecrecover, sha256=g_hash, ripemd=g_hash,
            identity=g_hash, modexp=g_modexp, blake2=g_blake2, p256=g_p256)


def maker(names, lo, per=(1, 4)):
    def make(s):
        fork = s.int(lo, 17)
        calls = []
        for _ in range(s.int(*per)):
            n = s.pick(names)
            d = GENS[n](s, fork)
            if n in ("ecrecover", "sha256", "ripemd", "identity"):
                d = mangle(s, d)
            calls.append((ADDR[n], d))
        if s.chance(3):
            # just outside the set of precompiles
            calls.append((s.pick([0, 9, 10, 11, 17, 18, 0xFF, 0x100, 0x101,
                                  2**160 - 1]), s.blob(64)))
        return precompile_case(s, fork, calls, direct=True)
    return make


def nt(want, c):
    return "succeeds" in c["tags"]


def S(name, names, lo, quick, per=(1, 4)):
    return body_suite(
        name, maker(names, lo, per), quick,
        "blocks calling %s with structured and mangled input, gas at and "
        "around the price; non-trivial: a call is priced to succeed"
        % "/".join(names), nt)


SUITES = [
    S("ecrecover", ["ecrecover"], 0, 6000),
    S("hashes", ["sha256", "ripemd", "identity"], 0, 5000),
    S("modexp", ["modexp"], BYZANTIUM, 9000, (1, 5)),
    S("blake2", ["blake2"], ISTANBUL, 2500),
    S("p256", ["p256"], OSAKA, 1200),
    S("mixed", list(GENS), 0, 1500),
]
ASSUME = ["keccak/sha256/ripemd160 of pycryptodome and hashlib are correct"]
