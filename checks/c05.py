from lib.suites import *
import itertools


def burn(a, s):
    """Spend enough gas that the refund cap does not hide the counter."""
    a.push(1).push(s.pick([180000, 250000, 0])).op(0x53)


def matrix():
    """original x first write x second write x third write, per fork, cold
    and (after an SLOAD) warm."""
    out = []
    for fork in range(18):
        for o in range(3):
            for warm in (0, 1):
                for w1 in range(3):
                    # one program per (o, w1): slots hold o; sequences w2, w3
                    a = Asm(fork)
                    a.push(1).push(300000).op(0x53)
                    i = 0
                    st = {}
                    for w2, w3 in itertools.product(range(3), range(3)):
                        k = 100 + i
                        i += 1
                        if o:
                            st[k] = o
                        if warm:
                            a.push(k).op(0x54, 0x50)
                        for w in (w1, w2, w3):
                            a.push(w).push(k).op(0x55)
                            a.op(0x5A).push(32 * i).op(0x52)
                    a.push(32 * 12).push(0).op(0xA0)
                    out.append(micro(Src(None), fork, a.build(), pre={
                        CON[0]: dict(nonce=1, balance=0, code=a.build(),
                                     storage=st)}))
    return out


def make_seq(s):
    """Storage traffic over several contracts, frames and transactions."""
    fork = any_fork(s)
    slots = [0, 1, 2, 2**255, M256 - 1]
    n = s.int(1, 3)

    def body(me, depth):
        a = Asm(fork)
        if depth == 0 and s.chance(70):
            burn(a, s)
        r = 50
        for _ in range(s.int(1, 8)):
            k = s.below(12)
            if k < 4:
                a.push(s.below(3)).push(s.pick(slots)).op(0x55)
            elif k < 6:
                a.push(s.pick(slots)).op(0x54)
                r += 1
                a.push(32 * (r - 50)).op(0x52)
            elif k == 6 and fork >= CANCUN:
                a.push(s.below(3)).push(s.pick(slots)).op(0x5D)
            elif k == 7 and fork >= CANCUN:
                a.push(s.pick(slots)).op(0x5C)
                r += 1
                a.push(32 * (r - 50)).op(0x52)
            elif k == 8:
                a.op(0x5A).push(32).op(0x52)
            elif depth < 3 or s.chance(10):
                kinds = [0xF1, 0xF1, 0xF2]
                if fork >= HOMESTEAD:
                    kinds += [0xF4, 0xF4]
                if fork >= BYZANTIUM:
                    kinds += [0xFA]
                kind = s.pick(kinds)
                a.push(0).push(0).push(0).push(0)
                if kind in (0xF1, 0xF2):
                    a.push(s.pick([0, 0, 1]))
                t = s.pick(CON[depth + 1:4] or CON[:1]) if s.chance(92) \
                    else s.pick(CON[:4])
                a.push(int.from_bytes(t, "big"))
                a.push(s.pick([100000, 100000, 60000, 30000, 2300, 2301, 0,
                               5000, 22100, 22101, 20000 + 2 * s.below(3000)]))
                a.op(kind)
                a.push(s.pick([0, 32, 64])).op(0x52)
        end = s.below(6)
        if depth:
            if end == 0 and fork >= BYZANTIUM:
                a.push(0).push(0).op(0xFD)
            elif end == 1:
                a.op(0xFE)
            elif end == 2 and s.bool():
                a.push(int.from_bytes(EOA[1], "big")).op(0xFF)
        a.push(32 * 8).push(0).op(0xA0)
        return a.build()

    pre = {EOA[0]: dict(nonce=0, balance=10**24)}
    for i in range(4):
        pre[CON[i]] = dict(nonce=1, balance=10, code=body(i, i), storage={
            k: s.int(1, 2) for k in slots if s.bool()})
    if fork >= PRAGUE:
        for x in (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ):
            pre[x] = dict(nonce=1, code=b"\x00")
    blk = gen_blk(s, fork)
    txs = []
    for i in range(n):
        kw = {}
        if fork >= BERLIN and s.chance(40):
            kw = dict(type=1, access=[[CON[s.below(4)], [s.pick(slots)]]])
        txs.append(simple_tx(s, fork, blk, to=CON[s.pick([0, 0, 1, 2])],
                             nonce=i, gas=1_500_000, **kw))
    return bound_gas(s, fork, G.case(fork, blk, pre, txs), pct=25,
                     i=s.below(n))


def make_stipend(s):
    """SSTORE with gas around the 2300 sentry in a callee."""
    fork = any_fork(s)
    b = Asm(fork)
    b.push(s.below(3)).push(s.below(2)).op(0x55)
    if s.bool():
        b.push(s.below(3)).push(s.below(2)).op(0x55)
    a = Asm(fork)
    if s.bool():
        # warm the slot first
        a.push(0).push(0).push(0).push(0).push(0)
        a.push(int.from_bytes(CON[1], "big")).push(50000).op(0xF1, 0x50)
    m = s.int(1, 8)
    for i in range(m):
        v = s.below(2)
        a.push(0).push(0).push(0).push(0).push(v)
        a.push(int.from_bytes(CON[1], "big"))
        a.push(s.pick([0, 6, 2300, 2301, 2305, 2306, 2307, 2312, 2313,
                       800, 5000, 5006, 5007, 20006, 20007, 22106, 22107,
                       2406, 2407, 2906, 2907, 3106, 3107, 3112, 4606,
                       s.below(30000)]))
        a.op(0xF1).push(64 * i).op(0x52)
        a.op(0x5A).push(64 * i + 32).op(0x52)
    a.push(64 * m).push(0).op(0xA0)
    return micro(s, fork, a.build(), pre={
        CON[1]: dict(nonce=1, balance=0, code=b.build(), storage={
            k: s.int(1, 2) for k in (0, 1) if s.bool()})}, gas=1_500_000)


def writes(want, c):
    return any(t["ok"] for t in want.traces)


# share of the larger suites' cases that the quick tier runs
QUICK_SCALE = 0.8
SUITES = [
    body_suite("matrix", None, 0,
               "every original/first/second/third value combination over "
               "{0,1,2}, warm and cold, every fork, enumerated with gas "
               "after each store; non-trivial: always", always,
               fixed=matrix()),
    body_suite("histories", make_seq, 20000,
               "storage and transient-storage traffic over four contracts, "
               "nested call kinds, reverts and up to three transactions; "
               "non-trivial: some transaction succeeded", writes),
    body_suite("stipend", make_stipend, 7000,
               "stores in callees with gas around each price and the 2300 "
               "sentry; non-trivial: transaction succeeded", writes),
    mix_suite("programs", 5000, dict(
        store=6, sload=4, refund=5, transient=4, call=6, revert=2, invalid=1,
        create=2, sd=1, expr=1, ret=1), "storage-heavy structured blocks; "
        "non-trivial: some transaction succeeded", writes),
]
