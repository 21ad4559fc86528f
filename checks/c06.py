from lib.suites import *


def kinds_of(fork):
    return [0xF1, 0xF1, 0xF2] + ([0xF4] if fork >= HOMESTEAD else []) + (
        [0xFA] if fork >= BYZANTIUM else [])


def reporter(s, fork):
    """Callee that logs its whole context and returns/reverts data."""
    a = Asm(fork)
    ops = [0x30, 0x33, 0x34, 0x36, 0x32, 0x3A]
    if s.bool():
        ops.append(0x5A)
    if fork >= ISTANBUL:
        ops.append(0x47)
    for i, o in enumerate(ops):
        a.op(o).push(32 * i).op(0x52)
    n = 32 * len(ops)
    a.op(0x30, 0x31).push(n).op(0x52)
    a.op(0x36).push(0).push(n + 32).op(0x37)
    log = s.chance(75)
    if log:
        a.push(n + 32).op(0x36, 0x01).push(0).op(0xA0)
    if s.chance(40):
        a.push(s.below(4)).push(s.below(3)).op(0x55)
    return a


def make_context(s):
    """Chains of calls of every kind between context-reporting contracts."""
    fork = any_fork(s)
    depth = s.int(1, 3)
    pre = {}
    for i in range(1, 4):
        a = reporter(s, fork)
        if i < depth:
            a.push(s.pick([0, 32, 64])).push(s.pick([0, 32]))
            a.push(s.pick([0, 4, 36])).push(s.pick([0, 7, 32]))
            k = s.pick(kinds_of(fork))
            if k in (0xF1, 0xF2):
                a.push(s.pick([0, 0, 1, 7, 1000]))
            a.push(int.from_bytes(CON[i + 1], "big")
                   | (s.below(2) << 255), 20)
            if s.chance(70):
                a.push(s.pick([200000, 100000, 60000]))
            else:
                Prog(s, fork, None, CON[:3]).gasarg(a)
            a.op(k)
            a.push(0).op(0x52)
            if fork >= BYZANTIUM:
                a.op(0x3D).push(32).op(0x52)
                a.op(0x3D).push(0).push(64).op(0x3E)
            a.push(200).push(0).op(0xA0)
        k = s.below(8)
        n = s.pick([0, 1, 31, 32, 33, 64, 100])
        if k < 5:
            a.push(n).push(s.pick([0, 5])).op(0xF3)
        elif k == 5 and fork >= BYZANTIUM:
            a.push(n).push(s.pick([0, 5])).op(0xFD)
        elif k == 6:
            a.op(0xFE)
        pre[CON[i]] = dict(nonce=1, balance=s.pick([0, 5, 999, 1000]),
                           code=a.build())
    a = Asm(fork)
    for i in range(8):
        a.push(int.from_bytes(keccak(bytes([i])), "big")).push(32 * i)
        a.op(0x52)
    m = s.int(1, 3)
    for i in range(m):
        a.push(s.pick([0, 1, 32, 33, 64, 100])).push(s.pick([0, 31, 64, 200]))
        a.push(s.pick([0, 1, 4, 32, 68])).push(s.pick([0, 1, 32, 250]))
        k = s.pick(kinds_of(fork))
        if k in (0xF1, 0xF2):
            a.push(s.pick([0, 0, 1, 7, 10**18, 10**18 + 1, 2**255]))
        a.push(int.from_bytes(s.pick(CON[1:4]), "big"), 20)
        a.push(s.pick([400000, 400000, 300000, 60000, 20000, 2300, 0]))
        a.op(k)
        a.push(320 + 96 * i).op(0x52)
        a.op(0x5A).push(352 + 96 * i).op(0x52)
        if fork >= BYZANTIUM:
            a.op(0x3D).push(384 + 96 * i).op(0x52)
            if s.bool():
                a.op(0x3D).push(0).push(640).op(0x3E)
    a.push(900).push(0).op(0xA0)
    return micro(s, fork, a.build(), pre=pre, gas=3_000_000,
                 value=s.pick([0, 0, 5]))


def make_target(s):
    """Calls with value / gas edges to every kind of target."""
    fork = any_fork(s)
    pre = {CON[1]: dict(nonce=1, balance=0, code=reporter(s, fork).build()),
           EOA[2]: dict(nonce=1, balance=5),
           CON[2]: dict(nonce=1, code=b"\x5a\x60\x00\x55\x5a\x60\x00\x52"
                                      b"\x60\x20\x60\x00\xf3")}
    if fork < PARIS:
        pre[FRESH[2]] = dict(nonce=0, balance=0)      # empty but existing
    a = Asm(fork)
    m = s.int(1, 6)
    for i in range(m):
        a.push(s.pick([0, 32, 64])).push(s.pick([0, 32]))
        a.push(s.pick([0, 4, 128])).push(s.pick([0, 32]))
        k = s.pick(kinds_of(fork))
        if k in (0xF1, 0xF2):
            a.push(s.pick([0, 0, 1, 2, 999, 1000, 1001, M256 - 1]))
        t = s.pick([CON[1], CON[2], EOA[2], FRESH[0], FRESH[2], CON[0],
                    COINBASE, num_addr(1), num_addr(2), num_addr(4),
                    num_addr(9), num_addr(18), num_addr(0x100), b"\0" * 20])
        if t == CON[0]:
            t = s.pick([CON[0], FRESH[1]]) if s.chance(30) else FRESH[1]
        a.push(int.from_bytes(t, "big"), 20)
        g = s.pick([0, 1, 15, 2299, 2300, 5000, 30000, 60000, None, None,
                    M256 - 1])
        if fork < TANGERINE and (g is None or g > 10**6):
            g = 3000
        if g is None:
            a.op(0x5A)
        else:
            a.push(g)
        a.op(k).push(320 + 64 * i).op(0x52)
        a.op(0x5A).push(352 + 64 * i).op(0x52)
    a.push(800).push(0).op(0xA0)
    pre[CON[0]] = dict(nonce=1, balance=1000, code=a.build())
    return bound_gas(s, fork, micro(s, fork, a.build(), pre=pre,
                                    gas=1_000_000), pct=40)


def make_depth(s):
    """Recursion to the 1024 limit."""
    fork = any_fork(s, 0, PRAGUE)      # Osaka caps transaction gas
    a = Asm(fork)
    # count in slot 0 on the way back: log at the deepest levels
    kind = s.pick(kinds_of(fork))
    two = fork >= CONSTANTINOPLE and s.chance(30)
    create = s.chance(25)
    if create and fork >= TANGERINE:
        # at each level: try an empty CREATE, log result if it failed
        a.push(0).push(0).push(0).push(0)
        a.op(0xF5 if two else 0xF0)
        l = a.label()
        a.ref(l)
        a.op(0x57)
        if kind != 0xFA:
            a.push(0).push(0).op(0xA0)
        a.dest(l)
    # memory[0] = calldata word + 1
    a.push(0).op(0x35).push(1).op(0x01).push(0).op(0x52)
    a.push(32).push(0).push(32).push(0)
    if kind in (0xF1, 0xF2):
        a.push(s.pick([0, 1]))
    a.op(0x30)
    if fork < TANGERINE:
        a.push(s.pick([20000, 15000])).op(0x5A, 0x03)
    else:
        a.op(0x5A)
    a.op(kind)
    a.push(32).op(0x52)
    # return what came back: deepest count bubbles up
    l = a.label()
    a.push(32).op(0x51)
    a.ref(l)
    a.op(0x57)
    a.push(1).push(0x40).op(0x52)
    a.push(32).push(0).op(0xF3)
    a.dest(l)
    a.push(32).push(0).op(0xF3)
    code = a.build()
    pre = {EOA[0]: dict(nonce=0, balance=10**30)}
    blk = gen_blk(s, fork, gas_limit=2**62)
    b = Asm(fork)
    b.push(32).push(0).push(0).push(0).push(0)
    b.push(int.from_bytes(CON[1], "big"))
    if fork < TANGERINE:
        b.push(100000).op(0x5A, 0x03)
    else:
        b.op(0x5A)
    b.op(0xF1).push(32).op(0x52).push(64).push(0).op(0xA0)
    pre[CON[1]] = dict(nonce=1, balance=s.pick([0, 10**6, 500]), code=code)
    gas = 40_000_000 if fork < TANGERINE else s.pick(
        [10**13, 10**12, 10**11])
    if create and fork >= TANGERINE:
        gas = 10**14
    return micro(s, fork, b.build(), pre=pre, gas=gas, blk=blk)


def write_op(s, a, fork):
    """One operation that may or may not be allowed in a static frame."""
    k = s.pick(["sstore", "log", "create", "call", "call0", "callcode", "sd",
                "sload"] + (["create2"] if fork >= CONSTANTINOPLE else [])
               + (["tstore"] if fork >= CANCUN else []))
    if k == "sstore":
        a.push(s.below(3)).push(s.below(3)).op(0x55)
    elif k == "tstore":
        a.push(7).push(s.below(3)).op(0x5D)
    elif k == "log":
        n = s.below(5)
        for _ in range(n):
            a.push(s.below(9))
        a.push(4).push(0).op(0xA0 + n)
    elif k in ("create", "create2"):
        if k == "create2":
            a.push(s.below(3))
        a.push(0).push(0).push(s.pick([0, 0, 1]))
        a.op(0xF0 if k == "create" else 0xF5).op(0x50)
    elif k == "sd":
        a.push(int.from_bytes(FRESH[0], "big"), 20).op(0xFF)
    elif k == "sload":
        a.push(s.below(3)).op(0x54, 0x50)
    else:
        for _ in range(4):
            a.push(0)
        a.push(0 if k == "call0" else s.pick([1, 2]))
        a.push(int.from_bytes(s.pick([EOA[2], FRESH[0], num_addr(4)]),
                              "big"), 20)
        a.push(s.pick([0, 3000])).op(0xF2 if k == "callcode" else 0xF1)
        a.push(64).op(0x52)
    return k


def make_static(s):
    """STATICCALL somewhere in a chain of calls; writes attempted below,
    beside and after it."""
    fork = any_fork(s, BYZANTIUM)
    depth = s.int(1, 3)
    where = s.below(depth + 1)                 # == depth: nowhere
    pre = {EOA[2]: dict(nonce=1, balance=5)}
    tags = []
    for i in range(1, 4):
        a = Asm(fork)
        pos = s.below(3) if i < depth else 0
        if pos == 0 and s.chance(70 if i == depth else 20):
            tags.append("w:" + write_op(s, a, fork))
        if i < depth:
            kind = 0xFA if i == where else s.pick([0xF1, 0xF1, 0xF2, 0xF4])
            a.push(64).push(32).push(0).push(0)
            if kind in (0xF1, 0xF2):
                a.push(s.pick([0, 0, 0, 1]))
            a.push(int.from_bytes(CON[i + 1], "big"), 20).op(0x5A)
            a.op(kind).push(0).op(0x52)
            if s.chance(30):
                tags.append("w:" + write_op(s, a, fork))
        else:
            a.push(9).push(0).op(0x52)
        a.push(96).push(0).op(0xF3 if s.chance(85) else 0xFD)
        pre[CON[i]] = dict(nonce=1, balance=s.pick([10, 0]),
                           code=a.build(), storage={1: 5})
    a = Asm(fork)
    for i in range(s.int(1, 2)):
        kind = 0xFA if (where == 0 and i == 0) else s.pick(
            [0xF1, 0xF1, 0xF2, 0xF4])
        a.push(96).push(32 + 160 * i).push(0).push(0)
        if kind in (0xF1, 0xF2):
            a.push(0)
        a.push(int.from_bytes(CON[1], "big"), 20)
        a.push(400000).op(kind).push(160 * i).op(0x52)
        if s.chance(40):
            write_op(s, a, fork)
    a.push(320).push(0).op(0xA0)
    c = micro(s, fork, a.build(), pre=pre, gas=2_500_000)
    c["tags"] = ["static-at-%d-of-%d" % (where, depth)] + sorted(set(tags))
    return c


def deep(want, c):
    return want.stats.get("max_depth", 0) >= 1000


# share of the larger suites' cases that the quick tier runs
QUICK_SCALE = 0.5
SUITES = [
    body_suite("context", make_context, 11000,
               "call chains of every kind through contracts that log caller, "
               "address, value, data, gas and balance; outputs and return "
               "data re-read by the caller; non-trivial: an inner call ran",
               stat("call", "callcode", "delegatecall", "staticcall")),
    body_suite("static", make_static, 9000,
               "STATICCALL at any level of a call chain, state-changing "
               "operations attempted in deeper frames, beside and after it; "
               "non-trivial: a static call ran", stat("staticcall")),
    body_suite("targets", make_target, 11000,
               "value and gas edges against contracts, accounts, absent and "
               "empty accounts, precompiles; non-trivial: an inner call ran "
               "or was refused",
               stat("call", "callcode", "delegatecall", "staticcall",
                    "call_no_balance")),
    body_suite("depth", make_depth, 60,
               "recursion to the 1024-frame limit with every call kind and "
               "CREATE at the limit; non-trivial: depth 1000 was passed",
               deep, thorough=600),
    mix_suite("programs", 7000, dict(
        call=12, store=3, mem=2, ret=2, revert=2, copy=2, env=1, precompile=2,
        branch=1, log=1, sd=1, create=1), "call-heavy structured blocks; "
        "non-trivial: an inner call ran",
        stat("call", "callcode", "delegatecall", "staticcall")),
]
