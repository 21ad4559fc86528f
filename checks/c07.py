from lib.suites import *

CREATOR = CON[0]


def addr1(creator, nonce):
    return keccak(rlp([creator, nonce]))[12:]


def addr2(creator, salt, init):
    return keccak(b"\xff" + creator + salt.to_bytes(32, "big")
                  + keccak(init))[12:]


def initcode(s, fork, depth=0):
    a = Asm(fork)
    if s.chance(30):
        # context of the initcode frame
        for i, o in enumerate([0x30, 0x33, 0x34, 0x36, 0x38]):
            a.op(o).push(32 * i).op(0x52)
        a.push(160).push(0).op(0xA0)
    if s.chance(30):
        a.push(s.below(3)).push(s.below(3)).op(0x55)
    if s.chance(15):
        a.push(s.below(3)).op(0x54).push(9).op(0x55)
    if s.chance(15):
        a.op(0x30, s.pick([0x31, 0x3B] + (
            [0x3F] if fork >= CONSTANTINOPLE else []))).push(8).op(0x55)
    if depth < 2 and s.chance(20):
        sub = initcode(s, fork, depth + 1)
        a.load_data(sub, 64)
        a.push(len(sub)).push(64).push(0).op(0xF0).push(7).op(0x55)
    k = s.below(16)
    if k == 0:
        a.op(s.pick([0xFE, 0x0C]))
    elif k == 1 and fork >= BYZANTIUM:
        a.push(s.pick([0, 4, 40])).push(0).op(0xFD)
    elif k == 2:
        Prog(s, fork, None, [CON[0], CON[1], EOA[1], FRESH[0]]).addr(a)
        a.op(0xFF)
    elif k == 3:
        a.push(s.pick([0, 1, 32])).push(0).op(0xF3)
    elif k == 4:
        n = s.pick([24575, 24576, 24577, 6000, 24608])
        a.push(n).push(0).op(0xF3)
    elif k == 5:
        r = bytes([s.pick([0xEF, 0xEE, 0xF0, 0xEF])]) + s.blob(3)
        a.load_data(r, 0)
        a.push(len(r) if s.chance(90) else 0).push(0).op(0xF3)
    elif k == 6:
        pass        # runs off the end: empty code
    else:
        r = s.pick([b"\x60\x01\x60\x00\x55", b"\x33\xff", b"\x30\xff",
                    b"\x5b", b"\x36\x60\x00\x55",
                    b"\x60\x00\x54\x60\x01\x01\x60\x00\x55"]) + s.blob(30)
        a.load_data(r, 0)
        a.push(len(r)).push(0).op(0xF3)
    return a.build()


def clean_pre(s, fork, pre):
    """An account at a future creation address."""
    k = s.below(7)
    if k == 0:
        return dict(nonce=1, balance=s.below(2))
    if k == 1:
        return dict(nonce=0, balance=s.below(2), code=b"\x00")
    if k == 2:
        return dict(nonce=0, balance=1, storage={s.below(3): 1})
    if k == 3:
        return dict(nonce=s.pick([2, 2**64 - 1]), balance=0, code=b"\x60",
                    storage={1: 2})
    return dict(nonce=0, balance=s.pick([1, 1000]))


def make_op(s):
    """Creating opcodes with chosen values, nonces, salts and collisions."""
    fork = any_fork(s)
    n = s.int(1, 3)
    nonce = s.weighted([(12, 1), (2, 0), (1, 2**64 - 2), (1, 2**64 - 1),
                        (1, 127), (1, 128), (1, 255), (1, 2**32)])
    if fork >= SPURIOUS and nonce == 0:
        nonce = 1
    a = Asm(fork)
    pre = {}
    nn = nonce
    for i in range(n):
        init = initcode(s, fork)
        two = fork >= CONSTANTINOPLE and s.bool()
        salt = s.pick([0, 1, 2**255, M256 - 1])
        off = s.pick([0, 32, 7])
        a.load_data(init, off)
        size = len(init)
        if s.chance(4):
            size = s.pick([49151, 49152, 49153, 49184])
        if two:
            a.push(salt)
        a.push(size).push(off)
        a.push(s.pick([0, 0, 1, 500, 501, 2**255]))
        a.op(0xF5 if two else 0xF0)
        padded = init + b"\0" * (size - len(init)) if off + size else init
        target = addr2(CREATOR, salt, padded) if two else addr1(CREATOR, nn)
        nn += 1
        if s.chance(18):
            pre[target] = clean_pre(s, fork, pre)
        a.op(0x80).push(100 + 8 * i).op(0x55)
        if s.chance(60):
            # use what was created
            k = s.below(3)
            if k == 0:
                a.op(0x3B).push(101 + 8 * i).op(0x55)
            else:
                a.push(0).push(0).push(0).push(0).push(s.pick([0, 0, 1]))
                a.op(0x85)
                a.push(30000)
                a.op(0xF1).push(101 + 8 * i).op(0x55)
        else:
            a.op(0x50)
        if fork >= BYZANTIUM:
            a.op(0x3D).push(102 + 8 * i).op(0x55)
        a.op(0x5A).push(103 + 8 * i).op(0x55)
        if two and s.chance(25):
            # again: usually a collision now
            a.push(salt).push(size).push(off).push(0).op(0xF5)
            a.push(104 + 8 * i).op(0x55)
    code = a.build()
    pre[CREATOR] = dict(nonce=nonce, balance=s.pick([500, 1, 0, 10**18]),
                        code=code, storage={})
    pre[CON[1]] = dict(nonce=1, code=b"\x00")
    blk = gen_blk(s, fork)
    c = micro(s, fork, code, pre=pre, gas=s.pick(
        [4_000_000, 12_000_000, 12_000_000]), blk=blk)
    if s.chance(25):
        # the same again in a second transaction
        c["txs"].append(simple_tx(s, fork, blk, nonce=1, gas=4_000_000))
    return bound_gas(s, fork, c, pct=45)


def make_nested(s):
    """Creation inside calls that may fail, delegate or be static."""
    fork = any_fork(s)
    init = initcode(s, fork)
    b = Asm(fork)
    two = fork >= CONSTANTINOPLE and s.bool()
    b.load_data(init, 0)
    if two:
        b.push(s.below(2))
    b.push(len(init)).push(0).push(s.pick([0, 0, 3]))
    b.op(0xF5 if two else 0xF0).push(0).op(0x52)
    if fork >= BYZANTIUM:
        b.op(0x3D).push(32).op(0x52)
    b.push(64).push(0)
    b.op(s.pick([0xF3, 0xF3, 0xFD if fork >= BYZANTIUM else 0xF3, 0xFE]))
    a = Asm(fork)
    m = s.int(1, 3)
    for i in range(m):
        k = s.pick([0xF1, 0xF1, 0xF2] + ([0xF4] if fork >= HOMESTEAD else [])
                   + ([0xFA] if fork >= BYZANTIUM else []))
        a.push(64).push(0).push(0).push(0)
        if k in (0xF1, 0xF2):
            a.push(s.pick([0, 4]))
        a.push(int.from_bytes(CON[1], "big"))
        a.push(s.pick([300000, 900000, 60000, 40000, 33000]))
        a.op(k).push(64 + 64 * i).op(0x52)
        a.op(0x5A).push(96 + 64 * i).op(0x52)
        a.push(96 + 64 * i + 32).push(0).op(0xA0)
    return bound_gas(s, fork, micro(s, fork, a.build(), pre={
        CON[1]: dict(nonce=1, balance=3, code=b.build())}, gas=5_000_000),
        pct=25)


def make_tx(s):
    """Creation transactions."""
    fork = any_fork(s)
    blk = gen_blk(s, fork)
    nonce = s.pick([0, 0, 1, 127, 128, 2**32])
    init = initcode(s, fork)
    if s.chance(8):
        n = s.pick([49151, 49152, 49153, 3000])
        init = init + b"\0" * (n - len(init))
    pre = {EOA[0]: dict(nonce=nonce, balance=10**24)}
    if fork >= PRAGUE:
        for x in (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ):
            pre[x] = dict(nonce=1, code=b"\x00")
    if s.chance(25):
        pre[addr1(EOA[0], nonce)] = clean_pre(s, fork, pre)
    if s.chance(15):
        pre[addr1(addr1(EOA[0], nonce), s.below(2))] = \
            clean_pre(s, fork, pre)
    txs = [gen_tx(s, fork, blk, {EOA[0]: nonce}, [], to="create", sender=0,
                  types=[t for t in tx_types(fork) if t < 3], data=init,
                  gas=s.pick([1_000_000, 3_000_000, 8_000_000]))]
    c = G.case(fork, blk, pre, txs)
    if s.chance(20):
        txs.append(simple_tx(s, fork, blk, to=addr1(EOA[0], nonce),
                             nonce=nonce + 1, gas=200000))
        c["txs"] = txs
    return bound_gas(s, fork, c, pct=50)


def made(want, c):
    return any(want.stats.get(k) for k in (
        "create", "create2", "create_refused", "create_collision")) or any(
        t["created"] for t in want.traces)


# share of the larger suites' cases that the quick tier runs
QUICK_SCALE = 0.7
SUITES = [
    body_suite("opcodes", make_op, 14000,
               "CREATE/CREATE2 with edge values, creator nonces, salts, "
               "initcode and code sizes, 0xEF code and occupied target "
               "addresses, gas limits at boundaries; non-trivial: a creation "
               "was attempted", made),
    body_suite("nested", make_nested, 7000,
               "creations below calls, delegations, static calls and failing "
               "frames; non-trivial: a creation was attempted", made),
    body_suite("transactions", make_tx, 11000,
               "creation transactions of every type, with occupied "
               "addresses and boundary gas; non-trivial: a creation was "
               "attempted", made),
    mix_suite("programs", 5000, dict(
        create=8, store=2, call=3, sd=2, ret=2, revert=1, transient=1),
        "creation-heavy structured blocks; non-trivial: a creation was "
        "attempted", made),
]
