"""Reference Ethash on plain integers (after the Ethash wiki definition)."""
from Crypto.Hash import keccak as _k

EPOCH, HASH, MIX, PRIME = 30000, 64, 128, 0x01000193
M32 = 2**32 - 1


def k512(b):
    return _k.new(digest_bits=512, data=b).digest()


def k256(b):
    return _k.new(digest_bits=256, data=b).digest()


def is_prime(n):
    """Deterministic Miller-Rabin below 3.3e24."""
    if n < 2:
        return False
    ps = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41)
    for p in ps:
        if n % p == 0:
            return n == p
    d, r = n - 1, 0
    while d % 2 == 0:
        d, r = d // 2, r + 1
    for a in ps:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(r - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def _size(start, growth, unit, number):
    n = (start + growth * (number // EPOCH)) // unit - 1
    while not is_prime(n):
        n -= 2
    return n * unit


def cache_size(number):
    return _size(2**24, 2**17, HASH, number)


def dataset_size(number):
    return _size(2**30, 2**23, MIX, number)


def seed(number):
    s = b"\0" * 32
    for _ in range(number // EPOCH):
        s = k256(s)
    return s


def words(b):
    return [int.from_bytes(b[i:i + 4], "little") for i in range(0, len(b), 4)]


def unwords(ws):
    return b"".join(w.to_bytes(4, "little") for w in ws)


def make_cache(sd, size):
    """List of 64-byte rows."""
    n = size // HASH
    o = [k512(sd)]
    for _ in range(n - 1):
        o.append(k512(o[-1]))
    for _ in range(3):
        for i in range(n):
            v = int.from_bytes(o[i][:4], "little") % n
            x = int.from_bytes(o[(i - 1 + n) % n], "big") \
                ^ int.from_bytes(o[v], "big")
            o[i] = k512(x.to_bytes(64, "big"))
    return o


def fnv(a, b):
    return (a * PRIME ^ b) & M32


def item(cache, i):
    """cache: list of 16-word rows."""
    n = len(cache)
    row = list(cache[i % n])
    row[0] ^= i
    mix = words(k512(unwords(row)))
    for j in range(256):
        p = cache[fnv((i ^ j) & M32, mix[j % 16]) % n]
        mix = [(m * PRIME ^ q) & M32 for m, q in zip(mix, p)]
    return k512(unwords(mix))


def hashimoto(header_hash, nonce, size, lookup):
    """lookup(i) -> 16 words.  nonce as in the header (big-endian)."""
    s = k512(header_hash + nonce[::-1])
    sw = words(s)
    rows = size // MIX
    mix = sw + sw
    for i in range(64):
        p = fnv(i ^ sw[0], mix[i % 32]) % rows
        new = list(lookup(2 * p)) + list(lookup(2 * p + 1))
        mix = [(m * PRIME ^ q) & M32 for m, q in zip(mix, new)]
    cm = [fnv(fnv(fnv(mix[i], mix[i + 1]), mix[i + 2]), mix[i + 3])
          for i in range(0, 32, 4)]
    md = unwords(cm)
    return md, k256(s + md)


def light(header_hash, nonce, cache, size):
    return hashimoto(header_hash, nonce, size,
                     lambda i: words(item(cache, i)))
