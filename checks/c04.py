from lib.suites import *


def opcode_matrix():
    """Each of the 256 bytes as an opcode, with 0, 7 and 17 operands, in a
    callee whose failure its caller observes."""
    out = []
    for fork in range(18):
        for op in range(256):
            variants = [0, 1, 2, 3, 7, 17] if op in G.OPS[fork] else [0, 17]
            a = Asm(fork)
            pre = {}
            for i, n in enumerate(variants):
                addr = b"\xd0" + bytes([op, i]) + b"\x01" * 17
                code = b"".join(b"\x60" + bytes([j]) for j in range(n)) + \
                    bytes([op]) + b"\x00"
                pre[addr] = dict(nonce=1, code=code, storage={1: 1})
                a.push(0).push(0).push(0).push(0).push(0)
                a.push(int.from_bytes(addr, "big")).push(60000).op(0xF1)
                a.push(64 * i).op(0x52)
                a.op(0x5A).push(64 * i + 32).op(0x52)
            a.push(64 * len(variants)).push(0).op(0xA0)
            out.append(micro(Src(None), fork, a.build(), pre=pre))
    return out


def stack_limit():
    """Every opcode at stack heights 1023 and 1024."""
    out = []
    for fork in range(18):
        ops = sorted(G.OPS[fork])
        for i in range(0, len(ops), 6):
            for h in (1023, 1024):
                pre, a = {}, Asm(fork)
                for j, op in enumerate(ops[i:i + 6]):
                    addr = b"\xd1" + bytes([op, h & 1]) + b"\x01" * 17
                    pre[addr] = dict(
                        nonce=1, code=b"\x60\x01" * h + bytes([op]) + b"\x00")
                    a.push(0).push(0).push(0).push(0).push(0)
                    a.push(int.from_bytes(addr, "big")).push(90000).op(0xF1)
                    a.push(64 * j).op(0x52)
                    a.op(0x5A).push(64 * j + 32).op(0x52)
                a.push(64 * 6).push(0).op(0xA0)
                out.append(micro(Src(None), fork, a.build(), pre=pre))
    return out


def observe(a, fork, addr, i, kind=0xF1, gas=90000, value=0):
    a.push(64).push(64).push(0).push(0)
    if kind in (0xF1, 0xF2):
        a.push(value)
    a.push(int.from_bytes(addr, "big"), 20).push(gas).op(kind)
    a.push(256 + 64 * i).op(0x52)
    a.op(0x5A).push(288 + 64 * i).op(0x52)
    if fork >= BYZANTIUM:
        a.op(0x3D).push(256 + 64 * i + 33).op(0x53)


def make_bytes(s):
    """Arbitrary bytes as the code of called contracts and initcode."""
    fork = any_fork(s)
    pre, a = {}, Asm(fork)
    kinds = [0xF1, 0xF1, 0xF2] + ([0xF4] if fork >= HOMESTEAD else []) + (
        [0xFA] if fork >= BYZANTIUM else [])
    n = s.int(1, 5)
    for i in range(n):
        addr = CON[1 + i % 5]
        if addr not in pre:
            k = s.below(4)
            if k == 0:
                code = s.blob(40)
            else:
                # mostly defined opcodes with small operands
                code = b""
                for _ in range(s.int(1, 25)):
                    q = s.below(10)
                    if q < 5:
                        code += b"\x60" + bytes([s.pick(
                            [0, 1, 2, 32, 64, 255, s.below(256)])])
                    elif q < 9:
                        code += bytes([s.pick(sorted(G.OPS[fork]))])
                    else:
                        code += s.bytes(1)
            pre[addr] = dict(nonce=1, balance=s.below(3), code=code,
                             storage={0: 1, 1: 2})
        observe(a, fork, addr, i, s.pick(kinds), value=s.pick([0, 0, 1]))
    a.push(64 * n + 192).push(64).op(0xA0)
    return micro(s, fork, a.build(), pre=pre, gas=3_000_000)


WRITES = ["sstore", "log0", "log4", "create", "create2", "call_value",
          "selfdestruct", "tstore", "call_zero", "callcode_value",
          "delegate", "sload", "callcode_zero"]


def write_op(a, fork, w):
    if w == "sstore":
        a.push(5).push(0).op(0x55)
    elif w == "log0":
        a.push(0).push(0).op(0xA0)
    elif w == "log4":
        for x in range(4):
            a.push(x)
        a.push(0).push(0).op(0xA4)
    elif w == "create":
        a.push(0).push(0).push(0).op(0xF0)
    elif w == "create2" and fork >= CONSTANTINOPLE:
        a.push(0).push(0).push(0).push(0).op(0xF5)
    elif w in ("call_value", "call_zero", "callcode_value", "callcode_zero"):
        a.push(0).push(0).push(0).push(0)
        a.push(1 if "value" in w else 0)
        a.push(int.from_bytes(EOA[1], "big")).push(5000)
        a.op(0xF1 if w.startswith("call_") else 0xF2)
    elif w == "selfdestruct":
        a.push(int.from_bytes(EOA[1], "big")).op(0xFF)
    elif w == "tstore" and fork >= CANCUN:
        a.push(5).push(0).op(0x5D)
    elif w == "delegate" and fork >= HOMESTEAD:
        a.push(0).push(0).push(0).push(0)
        a.push(int.from_bytes(CON[3], "big")).push(30000).op(0xF4)
    elif w == "sload":
        a.push(0).op(0x54)


def make_static(s):
    """Writes directly or via nested calls inside a STATICCALL."""
    fork = any_fork(s, BYZANTIUM)
    pre = {}
    for i in (1, 2, 3):
        b = Asm(fork)
        for _ in range(s.int(0, 2)):
            b.push(word(s)).push(s.pick([0, 32])).op(0x52)
        for _ in range(s.int(1, 2)):
            k = s.below(10)
            if k < 6 or i == 3:
                write_op(b, fork, s.pick(WRITES))
            else:
                observe(b, fork, CON[s.pick([2, 3]) if i == 1 else 3], 0,
                        s.pick([0xF1, 0xF2, 0xF4, 0xFA]), gas=40000)
        if s.bool():
            b.push(32).push(0).op(s.pick([0xF3, 0xFD]))
        pre[CON[i]] = dict(nonce=1, balance=5, code=b.build(),
                           storage={0: 1})
    a = Asm(fork)
    n = s.int(1, 3)
    for i in range(n):
        observe(a, fork, CON[1], i, s.pick([0xFA, 0xFA, 0xFA, 0xF1, 0xF4]),
                gas=s.pick([90000, 90000, 30000, 3000]))
    a.push(64 * n + 192).push(64).op(0xA0)
    return micro(s, fork, a.build(), pre=pre, gas=2_000_000)


def make_mix(s):
    return G.gen_body(s, any_fork(s), dict(
        raw=6, invalid=2, revert=3, call=8, store=3, mem=2, branch=2, copy=3,
        create=2, log=2, ret=2, expr=2, sd=1, transient=1), ncon=3)


# share of the larger suites' cases that the quick tier runs
QUICK_SCALE = 0.65
SUITES = [
    body_suite("opcode_matrix", None, 0,
               "all 256 opcode bytes with 0-17 operands in every fork, "
               "enumerated; non-trivial: always", always,
               fixed=opcode_matrix()),
    body_suite("stack_limit", None, 0,
               "every defined opcode at stack heights 1023 and 1024 in every "
               "fork, enumerated; non-trivial: always", always,
               fixed=stack_limit()),
    body_suite("bytes", make_bytes, 16000,
               "called contracts made of random and half-structured bytes, "
               "outcome, gas and return data logged by the caller; "
               "non-trivial: some inner frame halted or reverted",
               stat("halt", "revert")),
    body_suite("static", make_static, 9000,
               "state-changing operations at several depths under static "
               "calls; non-trivial: a frame halted", stat("halt")),
    body_suite("programs", make_mix, 6000,
               "structured blocks heavy in faults; non-trivial: a frame "
               "halted or reverted", stat("halt", "revert")),
]
