from lib.suites import *


def touch(s, a, fork, pool, slots):
    """One access whose price shows warmth (bracketed by GAS)."""
    k = s.below(14)
    a.op(0x5A)
    t = int.from_bytes(s.pick(pool), "big")
    if k < 2:
        a.push(t).op(s.pick([0x31, 0x3B, 0x3F]), 0x50)
    elif k == 2:
        a.push(s.pick([0, 1, 32])).push(0).push(0).push(t).op(0x3C)
    elif k < 6:
        a.push(s.pick(slots)).op(0x54, 0x50)
    elif k < 8:
        a.push(s.below(3)).push(s.pick(slots)).op(0x55)
    elif k < 11:
        kd = s.pick([0xF1, 0xF2, 0xF4, 0xFA])
        a.push(0).push(0).push(0).push(0)
        if kd in (0xF1, 0xF2):
            a.push(s.pick([0, 0, 0, 1]))
        a.push(t)
        a.push(s.pick([0, 100, 30000, 60000])).op(kd, 0x50)
    elif k == 11:
        a.push(0).push(0).push(s.pick([0, 10**30])).op(0xF0)
        # probe the created address
        a.op(0x80, 0x31, 0x50, 0x50)
    elif k == 12:
        salt = s.below(3)
        a.push(salt).push(0).push(0).push(s.pick([0, 10**30])).op(0xF5, 0x50)
        new = keccak(b"\xff" + CON[0] + salt.to_bytes(32, "big")
                     + keccak(b""))[12:]
        a.push(int.from_bytes(new, "big")).op(0x31, 0x50)
    else:
        # call to a contract that destroys itself
        a.push(0).push(0).push(0).push(0).push(0)
        a.push(int.from_bytes(CON[3], "big")).push(60000).op(0xF1, 0x50)
    a.op(0x5A, 0x90, 0x03)          # gas used by the access
    a.push(32 * s.below(12)).op(0x52)


def make(s):
    fork = any_fork(s, BERLIN)
    fresh_created = keccak(rlp([CON[0], 1]))[12:]
    pool = [CON[0], CON[1], CON[2], EOA[0], EOA[1], FRESH[0], FRESH[1],
            COINBASE, fresh_created] + [num_addr(n) for n in (
                1, 2, 4, 8, 9, 10, 11, 17, 18, 0x100, 0)]
    pool += CON[:3] * 2
    slots = [0, 1, 2, M256 - 1]
    pre = {EOA[0]: dict(nonce=0, balance=10**24),
           EOA[1]: dict(nonce=0, balance=10**20)}
    if fork >= PRAGUE:
        for x in (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ):
            pre[x] = dict(nonce=1, code=b"\x00")
    for i in range(4):
        a = Asm(fork)
        for _ in range(s.int(1, 8)):
            touch(s, a, fork, pool, slots)
        if i == 3:
            a.push(int.from_bytes(s.pick(pool), "big")).op(0xFF)
        e = s.below(6)
        if i and e == 0:
            a.push(0).push(0).op(0xFD)
        elif i and e == 1:
            a.op(0xFE)
        a.push(32 * 12).push(0).op(0xA0)
        pre[CON[i]] = dict(nonce=1, balance=s.pick([0, 5]), code=a.build(),
                           storage={k: 1 for k in slots if s.bool()})
    if fork >= PRAGUE and s.chance(20):
        pre[FRESH[0]] = dict(nonce=1, code=b"\xef\x01\x00" + s.pick(
            [CON[1], CON[2], num_addr(4), FRESH[1]]))
    blk = gen_blk(s, fork, coinbase=s.pick([COINBASE, COINBASE, CON[1],
                                            FRESH[0]]))
    n = s.int(1, 3)
    nn, txs = {}, []
    for _ in range(n):
        acc = [[s.pick(pool), [s.pick(slots) for _ in range(s.below(4))]]
               for _ in range(s.below(5))]
        t = s.pick([t for t in tx_types(fork) if t != 3])
        to = s.pick([CON[0], CON[0], CON[0], CON[1], FRESH[0]])
        kw = {}
        if t < 3 and s.chance(15):
            a = Asm(fork)
            me = keccak(rlp([EOA[0], nn.get(EOA[0], 0)]))[12:]
            for _ in range(s.int(1, 4)):
                touch(s, a, fork, pool + [me], slots)
            a.push(32 * 12).push(0).op(0xA0)
            kw["data"] = a.build()
            to = "create"
        if t == 4:
            kw["auths"] = [make_auth(blk["chain_id"], s.pick(CON[:3]),
                                     s.below(2), KEYS[s.pick([1, 5, 6])])
                           for _ in range(s.int(1, 3))]
        txs.append(gen_tx(s, fork, blk, nn, [to if to != "create" else None],
                          types=[t], to=to, access=acc, sender=0,
                          gas=s.pick([500_000, 1_500_000]), **kw))
    return bound_gas(s, fork, G.case(fork, blk, pre, txs), pct=25,
                     i=s.below(n))


def make_tree(s):
    """Call trees that mostly succeed, each contract calling later ones, so
    that warmth has to travel up and down several levels."""
    fork = any_fork(s, BERLIN)
    slots = [0, 1, M256 - 1]
    addrs = [FRESH[0], FRESH[1], EOA[1], num_addr(20)]
    pre = {EOA[0]: dict(nonce=0, balance=10**24)}
    if fork >= PRAGUE:
        for x in (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ):
            pre[x] = dict(nonce=1, code=b"\x00")
    n = 4
    for i in range(n):
        a = Asm(fork)
        for _ in range(s.int(2, 5)):
            k = s.below(10)
            a.op(0x5A)
            if k < 5 and i < n - 1:
                kd = s.weighted([(4, 0xF1), (1, 0xF2), (2, 0xF4), (1, 0xFA)])
                a.push(0).push(0).push(0).push(0)
                if kd in (0xF1, 0xF2):
                    a.push(0)
                a.push(int.from_bytes(CON[s.int(i + 1, n - 1)], "big"))
                a.op(0x5A, kd, 0x50)
            elif k < 8:
                a.push(s.pick(slots)).op(0x54, 0x50)
            elif k == 8:
                a.push(int.from_bytes(s.pick(addrs), "big")).op(
                    s.pick([0x31, 0x3B, 0x3F]), 0x50)
            else:
                a.push(s.below(2)).push(s.pick(slots)).op(0x55)
            a.op(0x5A, 0x90, 0x03).push(32 * s.below(12)).op(0x52)
        if i and s.chance(20):
            a.push(0).push(0).op(0xFD)
        elif not i:
            a.push(32 * 12).push(0).op(0xA0)
        pre[CON[i]] = dict(nonce=1, balance=5, code=a.build(),
                           storage={k: 1 for k in slots if s.bool()})
    blk = gen_blk(s, fork)
    nn = {}
    acc = [[s.pick(addrs + CON[:4]), [s.pick(slots)]]
           for _ in range(s.below(3))]
    txs = [gen_tx(s, fork, blk, nn, [CON[0]], types=[s.below(3) if fork >=
                                                     LONDON else s.below(2)],
                  to=CON[0], access=acc, sender=0, gas=1_500_000)
           for _ in range(s.int(1, 2))]
    return G.case(fork, blk, pre, txs)


# share of the larger suites' cases that the quick tier runs
QUICK_SCALE = 0.8
SUITES = [
    body_suite("accesses", make, 10000,
               "sequences of account and slot accesses of every kind, each "
               "priced by GAS differences, across frames that fail, access "
               "lists with duplicates, precompiles, coinbase, created and "
               "delegated addresses, up to three transactions; non-trivial: "
               "a transaction succeeded"),
    body_suite("trees", make_tree, 9000,
               "call trees of four contracts that mostly succeed, every "
               "access priced by GAS differences; non-trivial: a "
               "transaction succeeded"),
    mix_suite("programs", 3500, dict(
        acct=8, sload=6, store=4, call=6, create=2, copy=2, sd=1, revert=1,
        invalid=1, ret=1), "access-heavy structured blocks; non-trivial: a "
        "transaction succeeded", lo=BERLIN),
]
