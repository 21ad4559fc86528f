from lib.suites import *


def make_sd(s):
    """Self-destructs in many roles, several per transaction and block."""
    fork = any_fork(s)
    pre = {EOA[0]: dict(nonce=0, balance=10**24)}
    if fork >= PRAGUE:
        for x in (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ):
            pre[x] = dict(nonce=1, code=b"\x00")
    ben = [CON[0], CON[1], CON[2], EOA[1], FRESH[0], FRESH[1], COINBASE,
           num_addr(1), num_addr(3)]

    def sd(a):
        k = s.below(10)
        if k < 2:
            a.op(0x30)
        elif k == 2:
            a.op(0x33)
        else:
            a.push(int.from_bytes(s.pick(ben), "big"), 20)
        a.op(0xFF)
    # CON[1], CON[2]: destroy (sometimes conditionally, via delegate etc.)
    for i in (1, 2):
        a = Asm(fork)
        if s.chance(30):
            a.push(s.below(3)).push(s.below(3)).op(0x55)
        if s.chance(25):
            a.push(0).push(0).push(0).push(0).push(s.pick([0, 1]))
            a.push(int.from_bytes(s.pick(ben), "big"), 20)
            a.push(s.pick([20000, 60000])).op(0xF1, 0x50)
        sd(a)
        pre[CON[i]] = dict(nonce=1, balance=s.pick([0, 5, 100]),
                           code=a.build(), storage={0: 1, 1: 2})
    if fork < PARIS and s.chance(40):
        pre[FRESH[1]] = dict(nonce=0, balance=0)
    blk = gen_blk(s, fork, coinbase=s.weighted(
        [(4, COINBASE), (1, CON[1]), (1, FRESH[0]), (1, EOA[0])]))

    def creator():
        """Deploy a self-destructing contract and use it at once."""
        a = Asm(fork)
        n = s.int(1, 4)
        for i in range(n):
            k = s.below(4)
            if k < 2:
                # init that self-destructs, or deploys a destroying runtime
                b = Asm(fork)
                if s.chance(40):
                    b.push(1).push(0).op(0x55)
                if s.bool():
                    sd(b)
                    init = b.build()
                else:
                    r = Asm(fork)
                    sd(r)
                    rt = r.build()
                    b.load_data(rt, 0)
                    b.push(len(rt)).push(0).op(0xF3)
                    init = b.build()
                two = fork >= CONSTANTINOPLE and s.bool()
                a.load_data(init, 0)
                if two:
                    a.push(s.below(2))
                a.push(len(init)).push(0).push(s.pick([0, 3]))
                a.op(0xF5 if two else 0xF0)
                for _ in range(s.int(0, 2)):
                    a.push(0).push(0).push(0).push(0).push(s.pick([0, 2]))
                    a.op(0x85).push(60000).op(0xF1, 0x50)
                if s.chance(40):
                    a.op(0x80, s.pick([0x31, 0x3B] + (
                        [0x3F] if fork >= CONSTANTINOPLE else [])))
                    a.push(20 + i).op(0x55)
                a.push(40 + i).op(0x55)
            else:
                kd = s.pick([0xF1, 0xF1, 0xF2] + (
                    [0xF4] if fork >= HOMESTEAD else []) + (
                    [0xFA] if fork >= BYZANTIUM else []))
                a.push(0).push(0).push(0).push(0)
                if kd in (0xF1, 0xF2):
                    a.push(s.pick([0, 0, 1]))
                t = s.pick([CON[1], CON[2], CON[1], CON[2], CON[3]])
                a.push(int.from_bytes(t, "big"))
                a.push(s.pick([100000, 100000, 45000, 30000, 32600, 5000,
                               7600, 2600]))
                a.op(kd).push(60 + i).op(0x55)
                if s.chance(40):
                    a.push(int.from_bytes(s.pick(ben + CON[1:3]), "big"), 20)
                    a.op(0x31).push(80 + i).op(0x55)
        e = s.below(8)
        if e == 0:
            sd(a)
        elif e == 1 and fork >= BYZANTIUM:
            a.push(0).push(0).op(0xFD)
        elif e == 2 and s.bool():
            a.op(0xFE)
        return a.build()
    pre[CON[0]] = dict(nonce=1, balance=1000, code=creator())
    pre[CON[3]] = dict(nonce=1, balance=10, code=creator())
    txs = []
    n = s.int(1, 3)
    for i in range(n):
        txs.append(simple_tx(
            s, fork, blk, to=s.pick([CON[0], CON[0], CON[1], CON[3],
                                     FRESH[2], FRESH[1]]),
            nonce=i, gas=1_500_000, value=s.pick([0, 0, 1]),
            gas_price=(blk["base_fee"] or 0) + s.pick([0, 10])))
    return bound_gas(s, fork, G.case(fork, blk, pre, txs), pct=30,
                     i=s.below(n))


def make_touch(s):
    """Touching empty and nearly-empty accounts, with failing frames."""
    fork = any_fork(s)
    pre = {EOA[0]: dict(nonce=0, balance=10**24)}
    if fork >= PRAGUE:
        for x in (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ):
            pre[x] = dict(nonce=1, code=b"\x00")
    pool = [FRESH[0], FRESH[1], COINBASE, num_addr(1), num_addr(3),
            num_addr(5), EOA[1], num_addr(9)]
    if fork < PARIS:
        for x in pool:
            if s.chance(40):
                pre[x] = dict(nonce=0, balance=0)
    else:
        for x in pool:
            if s.chance(20):
                pre[x] = dict(nonce=0, balance=1)

    def body(i):
        a = Asm(fork)
        for _ in range(s.int(1, 5)):
            k = s.below(8)
            if k == 0:
                a.push(int.from_bytes(s.pick(pool), "big"))
                a.op(s.pick([0x31, 0x3B]), 0x50)
            else:
                kd = s.pick([0xF1, 0xF1, 0xF1, 0xF2] + (
                    [0xF4] if fork >= HOMESTEAD else []) + (
                    [0xFA] if fork >= BYZANTIUM else []))
                a.push(0).push(0).push(s.pick([0, 32])).push(0)
                if kd in (0xF1, 0xF2):
                    a.push(s.pick([0, 0, 0, 1]))
                t = s.pick(pool + (CON[1:3] if i == 0 else CON[2:3]
                                   if i == 1 else []))
                a.push(int.from_bytes(t, "big"))
                a.push(s.pick([0, 3000, 60000, 100, 2000])).op(kd, 0x50)
        e = s.below(8)
        if e == 0:
            a.op(0xFE)
        elif e == 1 and fork >= BYZANTIUM:
            a.push(0).push(0).op(0xFD)
        elif e == 2:
            a.push(int.from_bytes(s.pick(pool), "big")).op(0xFF)
        return a.build()
    for i in range(3):
        pre[CON[i]] = dict(nonce=1, balance=s.pick([0, 3]), code=body(i))
    blk = gen_blk(s, fork, coinbase=s.pick([COINBASE, COINBASE, FRESH[0],
                                            num_addr(3), EOA[0]]))
    n = s.int(1, 3)
    txs = [simple_tx(s, fork, blk, to=s.pick([CON[0], CON[1]] + pool),
                     nonce=i, gas=600_000, value=s.pick([0, 0, 1]),
                     gas_price=(blk["base_fee"] or 0) + s.pick([0, 0, 10]))
           for i in range(n)]
    return bound_gas(s, fork, G.case(fork, blk, pre, txs), pct=30,
                     i=s.below(n))


# share of the larger suites' cases that the quick tier runs
QUICK_SCALE = 0.75
SUITES = [
    body_suite("selfdestruct", make_sd, 16000,
               "blocks with many self-destructs: to self, caller, absent, "
               "precompile and coinbase beneficiaries, of fresh and old "
               "contracts, repeated, nested, delegated and reverted; "
               "non-trivial: a self-destruct executed",
               stat("selfdestruct")),
    body_suite("touch", make_touch, 13000,
               "zero-value touches of empty, absent and precompile accounts "
               "in succeeding and failing frames; non-trivial: a transaction "
               "ran", always),
    mix_suite("programs", 5000, dict(
        sd=8, call=6, create=4, store=2, acct=2, revert=1, invalid=1,
        refund=1), "self-destruct-heavy structured blocks; non-trivial: a "
        "self-destruct executed", stat("selfdestruct"), ncon=3),
]
