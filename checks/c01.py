from lib.suites import *

BIN = [0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x0A, 0x0B, 0x10, 0x11,
       0x12, 0x13, 0x14, 0x16, 0x17, 0x18, 0x1A]
TER = [0x08, 0x09]
UN = [0x15, 0x19]
SHIFTS = [0x1B, 0x1C, 0x1D]


def related(s, a):
    """An operand correlated with a."""
    k = s.below(10)
    if k == 0:
        return a
    if k == 1:
        return -a % M256
    if k == 2:
        return (a + s.int(-2, 2)) % M256
    if k == 3:
        return a ^ (1 << s.below(256))
    if k == 4:
        return a // s.pick([2, 3, 7, 256])
    if k == 5:
        return M256 - 1 - a
    return word(s)


def operands(s, op):
    if op in (0x1A, 0x0B):          # BYTE, SIGNEXTEND: index on top
        x = word(s)
        i = s.int(0, 34) if s.chance(80) else word(s)
        return [x, i]
    if op in SHIFTS:
        x = word(s)
        i = s.int(0, 260) if s.chance(80) else word(s)
        return [x, i]
    if op == 0x0A:                  # EXP: base on top
        e = s.below(20) if s.bool() else word(s)
        return [e, word(s) if s.bool() else s.int(0, 5)]
    a = word(s)
    if op in TER:
        b, c = related(s, a), word(s)
        if s.chance(30):
            c = related(s, b)
        if s.chance(10):
            c = s.pick([0, 1])
        return [c, b, a]
    b = related(s, a)
    return [b, a] if s.bool() else [a, b]


def make(s):
    fork = any_fork(s)
    a = Asm(fork)
    ops = BIN + TER + UN
    if fork >= CONSTANTINOPLE:
        ops = ops + SHIFTS + SHIFTS
    if fork >= OSAKA:
        ops = ops + [0x1E] * 3
    n = s.int(1, 36)
    for i in range(n):
        op = s.pick(ops)
        if op in UN or op == 0x1E:
            xs = [word(s)]
        else:
            xs = operands(s, op)
        for x in xs:
            a.push(x)
        a.op(op)
        a.push(32 * i).op(0x52)
    a.push(32 * n).push(0).op(0xA0)
    return micro(s, fork, a.build())


def make_sha3(s):
    fork = any_fork(s)
    a = Asm(fork)
    data = s.bytes(s.pick([0, 1, 31, 32, 64, 135, 136, 137, 200, 272, 300]))
    a.op(0x36).push(0).push(0).op(0x37)     # calldatacopy all
    n = s.int(1, 8)
    for i in range(n):
        size = s.pick([0, 1, 31, 32, 33, 135, 136, 137, 271, 272, 273,
                       s.below(700)])
        off = s.pick([0, 0, 1, 32, s.below(400)])
        a.push(size).push(off).op(0x20)
        a.push(i).op(0x55)
    return micro(s, fork, a.build(), data=data)


def make_chain(s):
    """Deep expressions with results feeding later operations."""
    return G.gen_body(s, any_fork(s), dict(expr=10, hash=2, mem=1, store=1),
                      ntx=1, slots=2, ncon=1, create_tx=False)


E14 = [0, 1, 2, 3, 31, 32, 255, 256, 2**128, 2**255 - 1, 2**255, 2**255 + 1,
       M256 - 2, M256 - 1]
E8 = [0, 1, 2, 3, 2**255, 2**255 - 1, M256 - 2, M256 - 1]


def grid():
    """Every opcode on every combination of edge operands, every fork."""
    import itertools
    out = []
    for fork in range(18):
        ops = BIN + (SHIFTS if fork >= CONSTANTINOPLE else [])
        jobs = [(op, xs) for op in ops for xs in itertools.product(E14, E14)]
        jobs += [(op, xs) for op in TER for xs in
                 itertools.product(E8, E8, E8)]
        un = UN + ([0x1E] if fork >= OSAKA else [])
        vals = E14 + [1 << i for i in range(0, 256, 5)]
        jobs += [(op, (x,)) for op in un for x in vals]
        for i in range(0, len(jobs), 60):
            a = Asm(fork)
            for j, (op, xs) in enumerate(jobs[i:i + 60]):
                for x in xs:
                    a.push(x)
                a.op(op).push(32 * j).op(0x52)
            a.push(32 * 60).push(0).op(0xA0)
            out.append(micro(Src(None), fork, a.build()))
    return out


SUITES = [
    body_suite("edge_grid", None, 0,
               "all pairs (triples) of 14 (8) edge operands for every opcode "
               "and fork, enumerated; non-trivial: the transaction succeeded",
               fixed=grid()),
    body_suite("ops", make, 30000,
               "programs of 1-36 opcodes over edge-biased and correlated "
               "256-bit operands, all results emitted in a log; non-trivial: "
               "the transaction succeeded so every result was compared"),
    body_suite("keccak", make_sha3, 4000,
               "hashes of arbitrary memory ranges around block and word "
               "boundaries; non-trivial: transaction succeeded"),
    body_suite("expressions", make_chain, 6000,
               "random nested expressions stored and logged; non-trivial: "
               "transaction succeeded"),
]
