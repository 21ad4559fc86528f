from lib.suites import *


# ---- jump destination analysis: random bytes with pushes and JUMPDESTs
def make_jump(s):
    """Body of bytes; jump to a chosen position; a marker at each JUMPDEST
    tells which one was reached (PC is logged)."""
    fork = any_fork(s)
    body = b""
    for _ in range(s.int(1, 12)):
        k = s.below(8)
        if k < 2:
            body += b"\x5b"
        elif k < 4:
            n = s.int(1, 32)
            d = bytearray(s.bytes(n))
            for _ in range(s.below(4)):
                d[s.below(n)] = 0x5B
            if s.chance(20):
                d = d[:s.below(n)]          # truncated: swallows what follows
            body += bytes([0x5F + n]) + bytes(d)
        elif k == 4:
            body += bytes([s.pick([0x5F, 0x60, 0x7F, 0x80, 0x61, 0x5E,
                                   0x5A])])
        elif k == 5:
            body += b"\x5b\x58\x60\x00\x52\x60\x20\x60\x00\xa0\x00"
        elif k == 6:
            body += s.bytes(1)
        else:
            body += b"\x5b" * s.int(1, 3)
    tail = b"\x5b\x58\x60\x00\x52\x60\x20\x60\x00\xa0\x00"
    if s.bool():
        body += tail
    cond = s.chance(50)
    where = s.below(10)
    a = Asm(fork)
    head = 35 if cond else 34
    pos5b = [i for i, b in enumerate(body) if b == 0x5B]
    if where < 7 and pos5b:
        dest = head + s.pick(pos5b)
    elif where < 9:
        dest = s.below(head + len(body) + 3)
    else:
        dest = s.pick([2**32 + head, 2**64, M256 - 1, 2**255,
                       2**64 + head + (pos5b[0] if pos5b else 0)])
    if cond:
        c = s.pick([1, 0, 2, 255])
        code = bytes([0x60, c]) + b"\x7f" + dest.to_bytes(32, "big")
        code = code + b"\x57"
        assert len(code) == 36
        code = bytes([0x60, c]) + b"\x7f" + (
            dest + 1 if where < 7 and pos5b else dest
        ).to_bytes(32, "big") + b"\x57"
    else:
        code = b"\x7f" + dest.to_bytes(32, "big") + b"\x56"
    return micro(s, fork, code + body, gas=200000)


# ---- stack: depth limits, all DUP/SWAP indices with distinguishable items
def make_stack(s):
    fork = any_fork(s)
    a = Asm(fork)
    depth = s.weighted([(6, s.int(1, 40)), (2, s.int(1005, 1024)),
                        (1, 1024), (1, 1025)])
    for i in range(min(depth, 1100)):
        a.op(0x60, i & 255) if depth > 60 else a.push(
            word(s) if s.chance(10) else i + 1)
    for _ in range(s.int(0, 25)):
        k = s.below(10)
        if k < 4:
            a.op(0x80 + s.below(16))
        elif k < 8:
            a.op(0x90 + s.below(16))
        elif k == 8:
            a.op(0x50)
        else:
            n = s.int(1, 32)
            a.raw(bytes([0x5F + n]) + s.bytes(n))
    # observe the top items
    m = s.int(1, 24)
    for i in range(m):
        a.push(32 * i).op(0x52)
    a.push(32 * m).push(0).op(0xA0)
    code = a.build()
    if s.chance(10):
        # push data running off the end of the code
        n = s.int(1, 32)
        code = code[:-1] + bytes([0x5F + n]) + s.bytes(s.below(n))
    return micro(s, fork, code)


# ---- memory and copies: everything logged at the end
def make_mem(s):
    fork = any_fork(s)
    a = Asm(fork)
    data = s.blob(100)
    other = s.blob(80)
    ext = CON[1]
    ret = s.blob(90)
    rc = Asm(fork)
    rc.load_data(ret, 0)
    rc.push(len(ret)).push(0)
    rc.op(0xFD if fork >= BYZANTIUM and s.chance(40) else 0xF3)
    P = Prog(s, fork, None, [CON[0], CON[1], CON[2], FRESH[0], EOA[0]])
    off = lambda: s.pick([0, 1, 31, 32, 33, 64, 95, 96, s.below(130)])
    size = lambda: s.pick([0, 1, 2, 31, 32, 33, 63, 64, s.below(120)])
    a.push(int.from_bytes(s.bytes(32), "big")).push(off()).op(0x52)
    for _ in range(s.int(1, 14)):
        k = s.below(13)
        if k == 0:
            a.push(word(s)).push(off()).op(0x52)
        elif k == 1:
            a.push(word(s)).push(off()).op(0x53)
        elif k == 2:
            a.push(off()).op(0x51)
            a.push(off()).op(0x52)
        elif k == 3:
            a.op(0x59).push(off()).op(0x52)
        elif k == 4:
            a.push(size()).push(P.srcoff()).push(off()).op(0x37)
        elif k == 5:
            a.push(size()).push(P.srcoff()).push(off()).op(0x39)
        elif k == 6:
            a.push(size()).push(P.srcoff()).push(off())
            P.addr(a)
            a.op(0x3C)
        elif k == 7:
            a.push(P.srcoff() if s.bool() else off()).op(0x35)
            a.push(off()).op(0x52)
        elif k in (8, 12):
            # call the returning contract: output written to memory
            kind = s.pick([0xF1, 0xF2] + ([0xF4] if fork >= HOMESTEAD else [])
                          + ([0xFA] if fork >= BYZANTIUM else []))
            a.push(size()).push(off()).push(size()).push(off())
            if kind in (0xF1, 0xF2):
                a.push(0)
            a.push(int.from_bytes(ext, "big"), 20)
            a.push(50000).op(kind).op(0x50)
        elif k == 9 and fork >= BYZANTIUM:
            if s.chance(75):
                # inside the buffer: offset + size == RETURNDATASIZE
                o = s.pick([0, 0, 0, 1, 2])
                a.push(o).op(0x3D, 0x03).push(o).push(off()).op(0x3E)
            else:
                a.push(size()).push(s.pick([0, 1, 32, M256 - 1, 2**64]))
                a.push(off()).op(0x3E)
        elif fork >= CANCUN:
            a.push(size()).push(off()).push(off()).op(0x5E)
        elif k == 10 and fork >= BYZANTIUM:
            a.op(0x3D).push(off()).op(0x52)
        else:
            a.op(s.pick([0x36, 0x38])).push(off()).op(0x52)
    a.op(0x59)
    a.push(160).op(0x52)
    a.push(320).push(0).op(0xA0)
    code = a.build() + b"\x00" + s.blob(20)
    return micro(s, fork, code, data=data, pre={
        CON[1]: dict(nonce=1, code=rc.build()),
        CON[2]: dict(nonce=1, code=other)})


def make_mix(s):
    return G.gen_body(s, any_fork(s), dict(
        mem=8, copy=5, branch=4, loop=3, raw=3, expr=3, call=2, env=2,
        ret=1, revert=1, hash=1), ncon=2)


# share of the larger suites' cases that the quick tier runs
QUICK_SCALE = 0.85
SUITES = [
    body_suite("jumps", make_jump, 24000,
               "byte strings mixing JUMPDEST bytes, (truncated) pushes with "
               "JUMPDEST bytes in their data, and a jump to a chosen "
               "position; the reached destination logs its PC; non-trivial: "
               "every case (success and failure of the jump are compared)",
               always),
    body_suite("stack", make_stack, 7000,
               "stacks of 1-1025 distinguishable items with random "
               "DUP/SWAP/POP/PUSHn then a log of the top items; non-trivial: "
               "every case", always),
    body_suite("memory", make_mem, 16000,
               "overlapping loads, stores and copies from every source with "
               "edge offsets, final memory and MSIZE logged; non-trivial: "
               "the transaction succeeded"),
    body_suite("programs", make_mix, 6000,
               "structured programs heavy in memory, copies, branches and "
               "loops; non-trivial: some transaction succeeded"),
]
