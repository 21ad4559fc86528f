from lib.suites import *


def env_ops(fork):
    ops = [0x30, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3A, 0x41, 0x42, 0x43, 0x44,
           0x45, 0x5A]
    if fork >= BYZANTIUM:
        ops.append(0x3D)
    if fork >= ISTANBUL:
        ops += [0x46, 0x47]
    if fork >= LONDON:
        ops.append(0x48)
    if fork >= CANCUN:
        ops.append(0x4A)
    return ops


def reader(s, fork, base, m):
    """Code that logs m readings."""
    a = Asm(fork)
    P = Prog(s, fork, None, [CON[0], CON[1], CON[2], EOA[0], EOA[2],
                             FRESH[0], COINBASE])
    for i in range(m):
        k = s.below(10)
        if k < 5:
            a.op(s.pick(env_ops(fork)))
        elif k < 8:
            P.addr(a)
            a.op(s.pick([0x31, 0x3B] + ([0x3F, 0x3F]
                                        if fork >= CONSTANTINOPLE else [])))
        elif k == 8:
            if s.chance(70):
                a.push(s.pick([0, 1, 2, 3, 254, 255, 256, 257, 258, 300,
                               s.below(260)]))
                a.op(0x43, 0x03, 0x40)
            else:
                a.push(s.pick([0, 1, 2, 255, 256, 2**64, 2**64 + 1,
                               M256 - 1, word(s)])).op(0x40)
        elif fork >= CANCUN:
            a.push(s.pick([0, 1, 2, 3, 4, 5, 6, 9, 2**32, 2**64,
                           M256 - 1])).op(0x49)
        else:
            a.op(s.pick(env_ops(fork)))
        a.push(base + 32 * i).op(0x52)
    a.push(base + 32 * m).push(0).op(0xA0)
    return a


def make(s):
    fork = any_fork(s)
    pre = {}
    for i in (0, 1, 2):
        a = reader(s, fork, 0, s.int(1, 14))
        if i < 2:
            for _ in range(s.int(0, 2)):
                kd = s.pick([0xF1, 0xF1, 0xF2] + (
                    [0xF4] if fork >= HOMESTEAD else []) + (
                    [0xFA] if fork >= BYZANTIUM else []))
                a.push(s.pick([0, 32])).push(0)
                a.push(s.pick([0, 4, 33])).push(0)
                if kd in (0xF1, 0xF2):
                    a.push(s.pick([0, 1, 3]))
                a.push(int.from_bytes(CON[i + 1], "big"))
                a.push(s.pick([200000, 120000, 60000])).op(kd, 0x50)
                b = reader(s, fork, 0, s.int(1, 4))
                a.parts += b.parts
        if s.chance(30):
            a.push(s.pick([0, 32, 100])).push(0).op(0xF3)
        pre[CON[i]] = dict(nonce=1, balance=s.pick([0, 2, 10**18]),
                           code=a.build())
    pre[EOA[2]] = dict(nonce=s.below(2), balance=s.below(3))
    if s.chance(30):
        pre[FRESH[0]] = s.pick([dict(nonce=0, balance=7), dict(nonce=1),
                                dict(nonce=1, code=b"\xfe")] + (
            [dict(nonce=0, balance=0)] if fork < PARIS else []))
    if fork >= PRAGUE and s.chance(25):
        pre[EOA[2]] = dict(nonce=1, balance=1,
                           code=b"\xef\x01\x00" + CON[1])
    if EOA[2] in pre and fork >= PARIS and not any(
            pre[EOA[2]].get(k) for k in ("nonce", "balance", "code")):
        pre[EOA[2]]["nonce"] = 1
    pre[EOA[0]] = dict(nonce=0, balance=10**24)
    if fork >= PRAGUE:
        for x in (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ):
            pre[x] = dict(nonce=1, code=b"\x00")
    blk = gen_blk(s, fork)
    blk["number"] = s.pick([1, 2, 3, 255, 256, 257, 258, 1000, 2**32])
    blk["gas_limit"] = s.pick([30_000_000, 2**40 + 5, 10_000_001])
    if fork >= LONDON:
        blk["base_fee"] = s.pick([0, 7, 10**9 + 1, 2**70])
    blk["time"] = s.pick([1, 1000, 2**32 + 1, 2**64 - 1])
    if fork < PARIS:
        blk["difficulty"] = s.pick([131072, 2**255 + 7, 10**15])
    types = [t for t in tx_types(fork) if t < 4]
    n = s.int(1, 2)
    nn = {}
    txs = [gen_tx(s, fork, blk, nn, [CON[0], CON[0], CON[1]], types=types,
                  sender=0, value=s.pick([0, 0, 5]),
                  gas=900_000) for _ in range(n)]
    pre[EOA[0]]["balance"] = 10**40
    if fork >= PRAGUE and EOA[2] in pre and s.chance(20):
        txs.append(gen_tx(s, fork, blk, nn, [EOA[2]], types=types, sender=0,
                          gas=900_000))
    return G.case(fork, blk, pre, txs)


SUITES = [
    body_suite("environment", make, 24000,
               "contracts nested by every call kind log random environment, "
               "account and block readings under edge-valued block contexts; "
               "non-trivial: a transaction succeeded"),
    mix_suite("programs", 8000, dict(
        env=10, acct=8, call=6, create=2, sd=1, copy=2, transient=1, ret=1),
        "environment-heavy structured blocks; non-trivial: a transaction "
        "succeeded"),
]
