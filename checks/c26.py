"""C26: Ethash sizes, seeds, items, Hashimoto and proof-of-work checks."""
import contextlib
from lib.pbt import Suite
from lib.adapt import Fork, REJECTS, preload, U64, Uint
from lib.chain import (gen_tip, child_header, header_targets, mutate_field,
                       blank_header)
from ethereum import ethash as T
from ethereum.utils import numeric as N
from ethereum_types.numeric import U32
from ethereum_types.bytes import Bytes8, Bytes32, Bytes
from refspec import ethash as R, block as RB
from refspec.forks import *
from refspec.prim import keccak

ASSUME = ("Blocks lie in the first 2048 Ethash epochs; full-size caches are "
          "built for few epochs only, the cache algorithm being exercised "
          "on reduced sizes otherwise.")


# ---------------------------------------------------------------- sizes
def make_size(s):
    e = s.weighted([(3, s.below(600)), (2, s.below(2048)), (1, 0), (1, 1)])
    off = s.pick([0, 29999, 1, 29998, s.below(30000)])
    return dict(number=e * 30000 + off)


def run_size(c, res):
    n = c["number"]
    res.eq("epoch", int(T.epoch(Uint(n))), n // 30000)
    res.eq("cache_size", int(T.cache_size(Uint(n))), R.cache_size(n))
    res.eq("dataset_size", int(T.dataset_size(Uint(n))), R.dataset_size(n))
    res.eq("seed", bytes(T.generate_seed(Uint(n))), R.seed(n))
    for v, u in ((T.cache_size(Uint(n)), 64), (T.dataset_size(Uint(n)), 128)):
        if int(v) % u or not R.is_prime(int(v) // u):
            res.fail("prime", "%d is not a prime multiple of %d" % (v, u))
    res.nontrivial = True
    res.tag("epoch<%d" % (2**(n // 30000).bit_length()))


def make_prime(s):
    k = s.below(5)
    if k == 0:
        return dict(n=s.below(400))
    if k == 1:
        p = s.int(2, 3000)
        return dict(n=p * p + s.pick([0, 0, 1, -1, 2]))
    if k == 2:
        return dict(n=s.int(2, 5000) * s.int(2, 5000))
    return dict(n=s.below(2**s.int(3, 26)))


def run_prime(c, res):
    for n in (c["n"], Uint(c["n"])):
        res.eq("is_prime", bool(N.is_prime(n)), R.is_prime(c["n"]))
    res.nontrivial = True
    res.tag("prime" if R.is_prime(c["n"]) else "composite")


# ---------------------------------------------------------------- caches
@contextlib.contextmanager
def small_cache(words):
    """generate_cache over a reduced number of rows."""
    old = T.cache_size
    T.cache_size = lambda number: Uint(words * 64)
    try:
        yield
    finally:
        T.cache_size = old


def make_cache(s):
    return dict(number=30000 * s.pick([0, 1, 2, 5, s.below(300)])
                + s.pick([0, 29999]),
                rows=s.pick([1, 2, 3, 5, 13, 31, 101, 127, 257, 499,
                             s.int(1, 300)]))


def run_cache(c, res):
    with small_cache(c["rows"]):
        got = T.generate_cache(Uint(c["number"]))
    want = R.make_cache(R.seed(c["number"]), c["rows"] * 64)
    res.eq("rows", len(got), len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        if [int(x) for x in a] != R.words(b):
            res.fail("cache", "row %d differs" % i)
            break
    res.nontrivial = True
    res.tag("rows<=%d" % (10**len(str(c["rows"]))))


def run_full(c, res):
    """A full-size cache, its size included, and items taken from it."""
    n = c["number"]
    got = T.generate_cache(Uint(n))
    want = [R.words(x) for x in R.make_cache(R.seed(n), R.cache_size(n))]
    res.eq("rows", len(got), len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        if [int(x) for x in a] != b:
            res.fail("cache", "row %d differs" % i)
            return
    last = R.dataset_size(n) // 64 - 1
    for i in (0, 1, last, last // 3, len(want), 2**22 + 1):
        res.eq("item", bytes(T.generate_dataset_item(got, Uint(i))),
               R.item(want, i))
    h = keccak(b"full")
    for k in range(2):
        nonce = keccak(b"nonce%d" % k)[:8]
        a = T.hashimoto_light(Bytes32(h), Bytes8(nonce), got,
                              T.dataset_size(Uint(n)))
        b = R.light(h, nonce, want, R.dataset_size(n))
        res.eq("hashimoto", (bytes(a[0]), bytes(a[1])), b)
    res.nontrivial = True
    res.tag("epoch:%d" % (n // 30000))


# ---------------------------------------------------------------- items
def rand_cache(seed, rows):
    return [R.words(R.k512(b"row%d" % i + seed)) for i in range(rows)]


def impl_cache(rows):
    return tuple(tuple(U32(w) for w in r) for r in rows)


def make_item(s):
    rows = s.pick([1, 2, 3, 7, 16, 61, 251, 256, 1021])
    big = s.pick([0, 0, 1])
    return dict(seed=s.bytes(8), rows=rows, edge=s.pick([None, None, 0, M32]),
                index=[s.pick([0, 1, rows - 1, rows, rows + 1, 2**24 + 5,
                               2**31, 2**32 - 1, s.below(2**25), 255, 256])
                       for _ in range(2)], big=big)


M32 = 2**32 - 1


def run_item(c, res):
    rows = rand_cache(c["seed"], c["rows"])
    if c["edge"] is not None:
        rows = [[c["edge"]] * 16 if i % 2 else r for i, r in enumerate(rows)]
    ic = impl_cache(rows)
    for i in c["index"]:
        res.eq("item", bytes(T.generate_dataset_item(ic, Uint(i))),
               R.item(rows, i))
    a, b = rows[0][0], rows[-1][1]
    for x in (a, b, 0, M32, 2**31):
        res.eq("fnv", int(T.fnv(U32(x), U32(b))), R.fnv(x, b))
    res.nontrivial = True
    res.tag("rows:%d" % c["rows"])


# ---------------------------------------------------------------- hashimoto
def make_hashimoto(s):
    return dict(header=s.bytes(32), nonce=s.pick(
        [s.bytes(8), b"\0" * 8, b"\xff" * 8, b"\0" * 7 + b"\1"]),
        rows=s.pick([1, 2, 3, 31, 251, 8388593, 8388599, 2**20 + 7,
                     33554393, s.int(1, 2**25)]),
        seed=s.bytes(4), light=s.chance(2))


def run_hashimoto(c, res):
    h, n = c["header"], c["nonce"]
    size = c["rows"] * 128
    seen = []

    def look(i):
        return R.words(R.k512(c["seed"] + b"%d" % i))

    def fetch(i):
        seen.append(int(i))
        return tuple(U32(w) for w in look(int(i)))
    a = T.hashimoto(Bytes32(h), Bytes8(n), Uint(size), fetch)
    want = []

    def look2(i):
        want.append(i)
        return look(i)
    b = R.hashimoto(h, n, size, look2)
    res.eq("hashimoto", (bytes(a[0]), bytes(a[1])), b)
    res.eq("accesses", sorted(set(seen)), sorted(set(want)))
    if c["light"]:
        rows = rand_cache(c["seed"], 97)
        a = T.hashimoto_light(Bytes32(h), Bytes8(n), impl_cache(rows),
                              Uint(size))
        res.eq("light", (bytes(a[0]), bytes(a[1])),
               R.light(h, n, rows, size))
        res.tag("light")
    res.nontrivial = True


# ----------------------------------------------------------- header check
_tiny = {}


def tiny(epoch):
    """A distinct small cache per epoch."""
    if epoch not in _tiny:
        rows = rand_cache(b"epoch%d" % epoch, 5)
        _tiny[epoch] = (rows, impl_cache(rows))
    return _tiny[epoch]


def prf(header_hash, nonce, rows, size):
    t = header_hash + nonce + b"".join(map(bytes, [R.unwords(r) for r in rows]
                                           )) + size.to_bytes(8, "big")
    return keccak(b"mix" + t), keccak(b"res" + t)


def tiny_size(n):
    return 128 * (31 + n // 30000)


@contextlib.contextmanager
def small_world(F, real):
    """Small caches and datasets; Hashimoto itself replaced unless real."""
    new = dict(
        generate_cache=lambda n: tiny(int(n) // 30000)[1],
        dataset_size=lambda n: Uint(tiny_size(int(n))))
    if not real:
        def hl(header_hash, nonce, cache, dataset_size):
            m, r = prf(bytes(header_hash), bytes(nonce), cache_rows(cache),
                       int(dataset_size))
            return Bytes(m), Bytes32(r)
        new["hashimoto_light"] = hl
    saved = []
    for mod in (F.fork, T):
        for k, v in new.items():
            if hasattr(mod, k):
                saved.append((mod, k, getattr(mod, k)))
                setattr(mod, k, v)
    try:
        yield
    finally:
        for m, k, v in reversed(saved):
            setattr(m, k, v)


def cache_rows(cache):
    return [[int(w) for w in r] for r in cache]


def solve(fork, h, real):
    n = h["number"]
    f = R.light if real else prf
    return f(RB.pow_hash(fork, h), h["nonce"], tiny(n // 30000)[0],
             tiny_size(n))


def make_pow(s):
    fork = s.int(0, PARIS - 1)
    tip = gen_tip(s, fork, s.pick([0, 29_998, 29_999, 30_000, 59_999,
                                   s.below(2**24)]))
    h = child_header(s, fork, fork, tip)
    for k in ("state_root", "transactions_root", "receipt_root"):
        h[k] = s.bytes(32)
    h["bloom"] = s.bytes(8) * 32
    h["gas_used"] = s.below(h["gas_limit"])
    return dict(fork=fork, h=h, real=s.chance(1), mode=s.weighted([
        (4, "edge"), (3, "field"), (2, "nonce"), (2, "mix"), (1, "none"),
        (1, "epoch")]), field=s.pick(
            [f for f in header_targets(fork) if f not in ("nonce", "mix")]),
        delta=s.pick([-1, 0, 0, 1, 2]), salt=s.bytes(8),
        bit=s.below(256), tip=tip)


def run_pow(c, res):
    fork, h = c["fork"], dict(c["h"])
    F = Fork(fork)
    real, mode = c["real"], c["mode"]
    lim = 2**256
    # the difficulty is sealed: look for one that sits on its own boundary
    if mode in ("edge", "field", "mix"):
        d = 1
        for i in range(3 if real else 40):
            h["nonce"] = keccak(c["salt"] + bytes([i]))[:8]
            h["difficulty"] = max(1, d)
            m, r = solve(fork, h, real)
            d = lim // max(1, int.from_bytes(r, "big"))
            if int.from_bytes(r, "big") <= lim // h["difficulty"] and i > 4:
                break
        if mode == "edge" and c["delta"] > 0:
            h["difficulty"] += c["delta"]
    m, r = solve(fork, h, real)
    h["mix"] = m
    if mode == "mix":
        x = int.from_bytes(m, "big") ^ (1 << c["bit"])
        h["mix"] = x.to_bytes(32, "big")
    elif mode == "nonce":
        x = int.from_bytes(h["nonce"], "big") ^ (1 << c["bit"] % 64)
        h["nonce"] = x.to_bytes(8, "big")
    elif mode == "field":
        before = dict(h)
        from lib.pbt import Src
        import random
        mutate_field(Src(random.Random(c["salt"])), fork, h, c["tip"],
                     c["field"])
        h["nonce"], h["mix"] = before["nonce"], before["mix"]
        if not h["difficulty"]:
            h["difficulty"] = 1
    elif mode == "epoch":
        h["number"] += 30000
    m2, r2 = solve(fork, h, real)
    ok = m2 == h["mix"] and int.from_bytes(r2, "big") <= lim // h["difficulty"]
    with small_world(F, real):
        try:
            F.fork.validate_proof_of_work(F.header(h))
            got = True
        except REJECTS:
            got = False
    if got != ok:
        res.fail("accepted" if got else "refused",
                 "mode %s: %s, expected %s" % (
                     mode, "accepted" if got else "refused",
                     "acceptance" if ok else "refusal"))
    res.eq("sealed hash", bytes(F.fork.generate_header_hash_for_pow(
        F.header(h))), RB.pow_hash(fork, h))
    res.tag(mode, "valid" if ok else "invalid", "real" if real else "prf",
            F.name)
    res.nontrivial = True


# ------------------------------------------------ target comparison, exact
def make_target(s):
    return dict(fork=s.int(0, PARIS - 1), r=s.pick(
        [0, 1, 2**256 - 1, 2**255, 2**200, s.below(2**s.int(1, 256))]),
        which=s.pick([0, 0, 1, -1, 2]), sal=s.below(2**17),
        mixok=not s.chance(10))


def run_target(c, res):
    """The comparison alone, with the result of Hashimoto chosen freely."""
    F = Fork(c["fork"])
    r = c["r"]
    d = max(1, 2**256 // max(1, r) + c["which"]) if r else c["sal"] + 1
    h = blank_header(c["fork"], number=5, difficulty=d, mix=b"\x07" * 32)
    m = b"\x07" * 32 if c["mixok"] else b"\x08" * 32
    saved = []
    new = dict(generate_cache=lambda n: tiny(0)[1],
               dataset_size=lambda n: Uint(tiny_size(0)),
               hashimoto_light=lambda *a, **k: (
                   Bytes(m), Bytes32(r.to_bytes(32, "big"))))
    for mod in (F.fork, T):
        for k, v in new.items():
            if hasattr(mod, k):
                saved.append((mod, k, getattr(mod, k)))
                setattr(mod, k, v)
    try:
        try:
            F.fork.validate_proof_of_work(F.header(h))
            got = True
        except REJECTS:
            got = False
    finally:
        for mod, k, v in reversed(saved):
            setattr(mod, k, v)
    ok = c["mixok"] and r <= 2**256 // d
    if got != ok:
        res.fail("target", "result %#x difficulty %d: %s" % (r, d, got))
    res.nontrivial = True
    res.tag("valid" if ok else "invalid")


preload(NAMES[:PARIS])
# share of the larger suites' cases that the quick tier runs
QUICK_SCALE = 0.75
SUITES = [
    Suite("full", lambda s: dict(number=30000 * s.below(100)), run_full, 0,
          4, "full-size caches with items and Hashimoto on top",
          [dict(number=59_999)]),
    Suite("sizes", make_size, run_size, 1500, 40000,
          "block numbers in the first 2048 epochs; every case counts"),
    Suite("primes", make_prime, run_prime, 4000, None,
          "integers, squares and products around primes; every case counts"),
    Suite("cache", make_cache, run_cache, 400, None,
          "caches of 1 to 499 rows for seeds of 300 epochs"),
    Suite("items", make_item, run_item, 900, None,
          "dataset items over generated caches, indices at the edges"),
    Suite("hashimoto", make_hashimoto, run_hashimoto, 1500, None,
          "Hashimoto over generated datasets of 1 to 2^25 rows, 2% also "
          "through a cache"),
    Suite("headers", make_pow, run_pow, 4000, None,
          "sealed headers of every proof-of-work fork at the difficulty "
          "boundary, with one field, the nonce, the mix digest or the epoch "
          "changed afterwards; 2% with the real Hashimoto, else a stand-in"),
    Suite("target", make_target, run_target, 4000, None,
          "Hashimoto results chosen around 2^256/difficulty"),
]
