from lib.suites import *

BIG = [0, 1, 31, 32, 33, 64, 100, 700, 1023, 1024, 4096, 22500, 65536,
       200000, 2**20]


def one_op(s, fork, a):
    """A statement whose cost depends on its operands."""
    P = Prog(s, fork, None, [CON[0], CON[1], FRESH[0], EOA[0], EOA[2]])
    k = s.below(17)
    if k == 0:
        a.push(word(s)).push(s.pick(BIG)).op(s.pick([0x52, 0x53]))
    elif k == 1:
        a.push(s.pick(BIG)).op(0x51, 0x50)
    elif k == 2:
        a.push(s.pick(BIG)).push(s.pick(BIG)).op(0x20, 0x50)
    elif k == 3:
        a.push(s.pick(BIG)).push(P.srcoff()).push(s.pick(BIG))
        a.op(s.pick([0x37, 0x39]))
    elif k == 4:
        a.push(s.pick(BIG)).push(P.srcoff()).push(s.pick(BIG))
        P.addr(a)
        a.op(0x3C)
    elif k == 5:
        n = s.below(33)
        e = int.from_bytes(s.bytes(n), "big") if s.bool() else (
            1 << s.below(256)) - s.below(2)
        a.push(e).push(word(s)).op(0x0A, 0x50)
    elif k == 6:
        n = s.below(5)
        for _ in range(n):
            a.push(s.below(9))
        a.push(s.pick(BIG)).push(s.pick(BIG)).op(0xA0 + n)
    elif k == 7:
        a.push(s.below(3)).push(s.below(4)).op(0x55)
    elif k == 8:
        a.push(s.below(5)).op(0x54, 0x50)
    elif k == 9:
        P.addr(a)
        a.op(s.pick([0x31, 0x3B] + (
            [0x3F] if fork >= CONSTANTINOPLE else [])), 0x50)
    elif k == 10 and fork >= CANCUN:
        a.push(s.pick(BIG)).push(s.pick(BIG)).push(s.pick(BIG)).op(0x5E)
    elif k == 11 and fork >= CANCUN:
        a.push(s.below(3)).push(s.below(3)).op(0x5D)
        a.push(s.below(3)).op(0x5C, 0x50)
    elif k == 12:
        n = s.pick([0, 1, 31, 32, 33, 64, 100, 1000])
        two = fork >= CONSTANTINOPLE and s.bool()
        if two:
            a.push(s.below(3))
        a.push(n).push(s.pick([0, 32, 1000])).push(s.below(2))
        a.op(0xF5 if two else 0xF0, 0x50)
    elif k == 13 and fork >= BYZANTIUM:
        a.op(0x3D).push(0).push(s.pick(BIG)).op(0x3E)
    elif k == 14:
        # any plain opcode with enough operands
        op = s.pick([o for o in sorted(G.OPS[fork]) if o not in (
            0x56, 0x57, 0x00, 0xF3, 0xFD, 0xFF, 0xF0, 0xF1, 0xF2, 0xF4, 0xF5,
            0xFA, 0x5B)])
        for _ in range(7):
            a.push(s.below(64))
        if 0x90 <= op <= 0x9F or 0x80 <= op <= 0x8F:
            for _ in range(17):
                a.push(s.below(64))
        if 0x60 <= op <= 0x7F:
            a.raw(bytes([op]) + s.bytes(op - 0x5F))
        else:
            a.op(op)
    elif k == 15:
        P.st_call(a)
    else:
        P.st_expr(a)


def make_ops(s):
    fork = any_fork(s)
    a = Asm(fork)
    for _ in range(s.int(1, 5)):
        one_op(s, fork, a)
    if s.chance(30):
        a.op(0x5A).push(77).op(0x55)
    b = Asm(fork)
    for _ in range(s.below(3)):
        one_op(s, fork, b)
    c = micro(s, fork, a.build(), gas=5_000_000, pre={
        CON[1]: dict(nonce=1, balance=s.below(2), code=b.build())})
    return bound_gas(s, fork, c, pct=75)


# every plain opcode bracketed by GAS, all forks (fixed list)
def bracket():
    out = []
    for fork in range(18):
        ops = [o for o in sorted(G.OPS[fork]) if o not in (
            0x56, 0x57, 0x00, 0xF3, 0xFD, 0xFF, 0x5A)]
        for i in range(0, len(ops), 8):
            a = Asm(fork)
            for j, op in enumerate(ops[i:i + 8]):
                for x in (1, 2, 3, 0, 1, 40, 7)[:7]:
                    a.push(x)
                if 0x80 <= op <= 0x9F:
                    for x in range(17):
                        a.push(x)
                if 0xF0 <= op <= 0xFA:
                    a.push(0).push(0).push(0).push(0).push(0)
                    a.push(int.from_bytes(CON[1], "big")).push(5000)
                a.op(0x5A).push(96).op(0x52)        # memory[96] = gas
                if 0x60 <= op <= 0x7F:
                    a.raw(bytes([op]) + b"\x01" * (op - 0x5F))
                else:
                    a.op(op)
                a.op(0x5A).push(128).op(0x52)
                a.push(64).push(96).op(0xA0)
            out.append(micro(Src(None), fork, a.build(), pre={
                CON[1]: dict(nonce=1, code=b"\x60\x01\x60\x00\x52")}))
    return out


# inner frames given exactly enough, one less, one more
def make_sweep(s):
    fork = any_fork(s)
    b = Asm(fork)
    n = s.int(1, 3)
    for _ in range(n):
        one_op(s, fork, b)
    callee = b.build()
    blk = gen_blk(s, fork)
    pre = {CON[1]: dict(nonce=1, balance=10, code=callee)}
    probe = micro(s, fork, callee, gas=3_000_000, blk=blk)
    try:
        out = RB.run_body(fork, world_of(probe["pre"]), blk_of(blk),
                          probe["txs"], [])
        tr = out.traces[0]
        U = tr["used"] + tr["refund"] - tr["intrinsic"]
    except RB.Reject:
        U = 1000
    a = Asm(fork)
    m = s.int(2, 8)
    vals = [U, U - 1, U + 1] + [max(0, U * s.below(1001) // 1000)
                                if s.bool() else max(0, U - s.below(3000))
                                for _ in range(m)]
    kinds = [0xF1] + ([0xF4] if fork >= HOMESTEAD else []) + (
        [0xFA] if fork >= BYZANTIUM else [])
    for i, g in enumerate(s.shuffle(vals)):
        kind = s.pick(kinds)
        a.push(0).push(0).push(0).push(0)
        if kind == 0xF1:
            a.push(0)
        a.push(int.from_bytes(CON[1], "big")).push(max(0, min(g, 400000)))
        a.op(kind)
        a.push(64 * i).op(0x52)
        a.op(0x5A).push(64 * i + 32).op(0x52)
    a.push(64 * len(vals)).push(0).op(0xA0)
    return micro(s, fork, a.build(), pre=pre, gas=8_000_000, blk=blk)


def make_intrinsic(s):
    fork = any_fork(s)
    blk = gen_blk(s, fork)
    n = s.pick([0, 1, 2, 31, 32, 33, 100, 1000, s.below(3000)])
    z = s.below(n + 1)
    data = s.pick([b"\x00" * n, b"\x01" * n, b"\x00" * z + b"\xff" * (n - z)])
    code = s.pick([b"", b"\x00", b"\x60\x00\x60\x00\xfd",
                   b"\x60\x00\x60\x00\x55\x60\x00\x60\x01\x55",
                   b"\xfe", b"\x5a\x60\x00\x55"])
    pre = {EOA[0]: dict(nonce=0, balance=10**24),
           CON[0]: dict(nonce=1, code=code, storage={0: 1, 1: 1, 5: 2})}
    if fork >= PRAGUE:
        for x in (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ):
            pre[x] = dict(nonce=1, code=b"\x00")
    t = s.pick(tx_types(fork))
    to = CON[0] if t >= 3 or s.chance(75) else "create"
    tx = gen_tx(s, fork, blk, {}, [CON[0]], types=[t], to=to, sender=0,
                data=data, gas=3_000_000, auths=[
                    make_auth(s.pick([0, blk["chain_id"]]), CON[1],
                              s.below(2), KEYS[5 + i % 3])
                    for i in range(s.int(1, 4))] if t == 4 else None)
    c = G.case(fork, blk, pre, [tx])
    c = bound_gas(s, fork, c, pct=50)
    if s.chance(30):
        # around the admission boundary
        i, f = rules.intrinsic(fork, tx)
        tx = c["txs"][0]
        tx["gas"] = max(i, f) + s.int(-2, 2)
        sign_tx(tx, KEYS[0], tx["type"] == 0 and tx["v"] > 28)
    return c


# share of the larger suites' cases that the quick tier runs
QUICK_SCALE = 0.7
SUITES = [
    body_suite("bracket", None, 0,
               "every opcode of every fork bracketed by GAS, enumerated; "
               "non-trivial: always", always, fixed=bracket()),
    body_suite("ops", make_ops, 22000,
               "1-5 operations with size- and value-dependent prices, the "
               "gas limit moved to the exact use, one below/above, or a "
               "fraction in 75% of cases; non-trivial: always", always),
    body_suite("sweep", make_sweep, 5000,
               "an inner frame called with exactly enough gas, one less, one "
               "more and fractions, success and remaining gas logged; "
               "non-trivial: transaction succeeded"),
    body_suite("intrinsic", make_intrinsic, 7000,
               "transactions of every type with edge calldata, access lists "
               "and authorizations, gas limit at the admission and execution "
               "boundaries; non-trivial: always", always),
    mix_suite("programs", 7000, None,
              "structured multi-transaction blocks, gas limits tightened to "
              "boundaries in 45% of cases; non-trivial: always", always),
]
