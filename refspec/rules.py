"""Protocol formulas (Yellow Paper and EIPs), on unbounded integers."""
from .forks import *

GAS_PER_BLOB = 131072
BLOB = {  # fork -> (target blobs, max blobs, update fraction)
    CANCUN: (3, 6, 3338477),
    PRAGUE: (6, 9, 5007716),
    OSAKA: (6, 9, 5007716),
}
TX_GAS_CAP = 2**24          # EIP-7825


def words(n):
    return -(-n // 32)


def intrinsic(fork, tx):
    """(intrinsic gas, calldata floor). tx: model transaction dict."""
    data = tx["data"]
    z = data.count(0)
    nz = len(data) - z
    g = 21000 + 4 * z + (68 if fork < ISTANBUL else 16) * nz
    if tx["to"] is None:
        if fork >= HOMESTEAD:
            g += 32000
        if fork >= SHANGHAI:
            g += 2 * words(len(data))
    for _, slots in tx.get("access", ()):
        g += 2400 + 1900 * len(slots)
    g += 25000 * len(tx.get("auths", ()))
    floor = 21000 + 10 * (z + 4 * nz) if fork >= PRAGUE else 0
    return g, floor


def fake_exp(factor, num, den):
    """EIP-4844 fake_exponential."""
    i, out, acc = 1, 0, factor * den
    while acc > 0:
        out += acc
        acc = acc * num // (den * i)
        i += 1
    return out // den


def blob_price(fork, excess):
    return fake_exp(1, excess, BLOB[fork][2])


def next_excess(fork, parent_excess, parent_used, parent_base_fee):
    """Excess blob gas; parent values 0 when the parent is pre-fork."""
    target, mx, _ = BLOB[fork]
    target *= GAS_PER_BLOB
    s = parent_excess + parent_used
    if s < target:
        return 0
    if fork >= OSAKA and (8192 * parent_base_fee
                          > GAS_PER_BLOB * blob_price(fork, parent_excess)):
        t, m, _ = BLOB[fork]
        return parent_excess + parent_used * (m - t) // m
    return s - target


def gas_limit_ok(limit, parent_limit):
    return abs(limit - parent_limit) < parent_limit // 1024 \
        and limit >= 5000


def next_base_fee(parent_limit, parent_used, parent_fee):
    target = parent_limit // 2
    if parent_used == target:
        return parent_fee
    if parent_used > target:
        d = parent_fee * (parent_used - target) // target // 8
        return parent_fee + max(d, 1)
    d = parent_fee * (target - parent_used) // target // 8
    return parent_fee - d


def difficulty(fork, number, time, ptime, pdiff, pommers=False):
    step = pdiff // 2048
    if fork < HOMESTEAD:
        d = pdiff + step if time < ptime + 13 else pdiff - step
        delay = 0
    elif fork < BYZANTIUM:
        d = pdiff + step * max(1 - (time - ptime) // 10, -99)
        delay = 0
    else:
        d = pdiff + step * max((2 if pommers else 1) - (time - ptime) // 9,
                               -99)
        delay = BOMB_DELAY[fork]
    p = (number - delay) // 100000 - 2
    if p >= 0:
        d += 2**p
    return max(d, 131072)
