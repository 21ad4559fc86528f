"""Calling precompiled contracts from a block: shared by C11 and C12."""
from lib.suites import *
from refspec import precompiles as P, rules

ADDR = dict(ecrecover=1, sha256=2, ripemd=3, identity=4, modexp=5, bn_add=6,
            bn_mul=7, bn_pair=8, blake2=9, kzg=10, g1add=11, g1msm=12,
            g2add=13, g2msm=14, bls_pair=15, map1=16, map2=17, p256=0x100)
FROM = {n: P._T[a][0] for n, a in ADDR.items()}


class _F:
    def __init__(self, data, gas):
        self.data, self.gas = data, gas


def price(fork, addr, data):
    """Gas charged with plenty of gas, or None when it fails."""
    fn = P.lookup(fork, addr.to_bytes(20, "big"))
    if fn is None:
        return 0
    # never let the model compute something absurd
    f = _F(data, 25_000_000)
    try:
        fn(fork, f)
        return 25_000_000 - f.gas
    except P.PrecompileFail:
        return None


def proxy(fork, kind, outn):
    """calldata = gas32 addr32 input.. ; logs success, output, return data."""
    a = Asm(fork)
    a.push(64).op(0x36, 0x03)                     # size - 64
    a.push(64).push(0).op(0x37)                   # calldatacopy(0, 64, n)
    a.push(outn).push(0)
    a.push(64).op(0x36, 0x03).push(0)
    if kind in (0xF1, 0xF2):
        a.push(0)
    a.push(32).op(0x35).push(0).op(0x35, kind)
    a.push(outn).push(0).op(0xA1)                 # log1 topic = success
    if fork >= BYZANTIUM:
        a.op(0x3D).push(0).push(0).op(0x3E)
        a.op(0x3D).push(0).op(0xA0)
    return a.build() + b"\x00"


def precompile_case(s, fork, calls, direct=False, ample=False):
    """calls: list of (address number, data)."""
    kinds = [0xF1, 0xF1, 0xF2]
    if fork >= HOMESTEAD:
        kinds.append(0xF4)
    if fork >= BYZANTIUM:
        kinds.append(0xFA)
    code = proxy(fork, s.pick(kinds), s.pick([640, 640, 32, 0, 31, 64, 128]))
    blk = gen_blk(s, fork)
    blk["gas_limit"] = 200_000_000
    pre = {EOA[0]: dict(nonce=0, balance=10**26),
           CON[0]: dict(nonce=1, balance=10**18, code=code)}
    if fork >= PRAGUE:
        for x in (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ):
            pre[x] = dict(nonce=1, code=b"\x00")
    txs, tags = [], []
    for i, (addr, data) in enumerate(calls):
        p = price(fork, addr, data)
        tags.append("fails" if p is None else "succeeds")
        g = 0 if ample else s.pick([0, 0, 0, 0, 1, 2, 3])
        q = 1_000_000 if p is None else p
        g = [q + 1000, q, max(q - 1, 0), s.below(q + 1)][g]
        limit = min(16_000_000, 400_000 + 90 * len(data) + g + g // 32)
        if direct and s.chance(20):
            to, d = addr.to_bytes(20, "big"), data
            r = rules.intrinsic(fork, dict(type=0, data=d, to=to))
            limit = min(16_000_000, max(r[0] + g, r[1]))
        else:
            to = CON[0]
            d = g.to_bytes(32, "big") + addr.to_bytes(32, "big") + data
        txs.append(simple_tx(s, fork, blk, to=to, data=d, gas=limit, nonce=i))
    c = G.case(fork, blk, pre, txs)
    c["tags"] = sorted(set(tags))
    return c


def mangle(s, d):
    """Often leave alone; sometimes truncate, extend or flip bits."""
    k = s.below(10)
    if k < 6:
        return d
    if k == 6:
        return d[:s.below(len(d) + 1)]
    if k == 7:
        return d + s.bytes(s.pick([1, 31, 32, 33]))
    if k == 8 and d:
        i = s.below(len(d))
        return d[:i] + bytes([d[i] ^ (1 << s.below(8))]) + d[i + 1:]
    return d + b"\0"


def ran(want, c):
    """At least one precompile call went through and logged."""
    return bool(want.logs) or any(t["ok"] for t in want.traces)
