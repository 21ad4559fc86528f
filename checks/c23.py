"""C23: system calls and execution-layer requests."""
from lib.suites import *

ASSUME = ("System contracts do not create and destroy contracts within one "
          "system call.")
MIX = dict(store=8, expr=6, mem=3, log=4, copy=3, branch=2, env=6,
           acct=4, sload=5, transient=3, hash=1, revert=1, invalid=1, ret=2,
           stop=1, sd=1)
# an expansion the allowance cannot pay for
BURN = bytes.fromhex("63ffffffff51")
SYS = [RB.BEACON_ROOTS, RB.HISTORY, RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ]


def bounded_call(s, a):
    """A call that cannot use up the 30M allowance of a system call."""
    a.push(0).push(0).push(s.pick([0, 4])).push(0)
    o = s.pick([0xF1, 0xF1, 0xF2, 0xF4, 0xFA])
    if o in (0xF1, 0xF2):
        a.push(s.pick([0, 0, 1]))
    a.push(int.from_bytes(s.pick(SYS + CON[:2] + [
        RB.SYSTEM, FRESH[0], num_addr(2), num_addr(4)]), "big"))
    a.push(s.pick([0, 5000, 30000, 60000])).op(o)
    a.push(s.below(4)).op(0x55)


def sprog(s, fork):
    a = Asm(fork)
    p = Prog(s, fork, MIX, SYS + CON[:2], 3)
    n = s.int(1, 6)
    for i in range(n):
        if s.chance(25):
            bounded_call(s, a)
        else:
            p.stmt(a, terminal=(i == n - 1))
    return a.build()


def returns(s, fork, ret):
    """Do something small, then return exactly ``ret``."""
    a = Asm(fork)
    p = Prog(s, fork, MIX, [CON[0], CON[1]] + SYS, 3)
    p.w = [(v, k) for v, k in p.w if k not in p.TERMINAL]
    for _ in range(s.below(4)):
        p.stmt(a)
    if ret:
        a.load_data(ret, 0)
    a.push(len(ret)).push(0).op(0xF3)
    return a.build()


def observer(s, fork):
    """Records everything a system call can see of its environment."""
    a = Asm(fork)
    k = 0x40
    for o in s.sample([0x30, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3A, 0x3D, 0x41,
                       0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x4A, 0x5A],
                      6):
        a.op(o).push(k).op(0x55)
        k += 1
    for o in (0, 1, 32):
        a.push(o).op(0x35).push(k).op(0x55)
        k += 1
    a.op(0x30, 0x31).push(k).op(0x55)
    a.push(1).op(0x43, 0x03, 0x40).push(k + 1).op(0x55)
    a.push(0).op(0x49).push(k + 2).op(0x55)
    return a.build()


def sys_prog(s, fork):
    k = s.below(8)
    if k < 3:
        return sprog(s, fork)
    if k < 5:
        return observer(s, fork)
    if k == 5:
        return STORE_DATA
    if k == 6:
        return s.pick([b"\xfe", b"\x5f\x5f\xfd", BURN, b"\x00",
                       b"\x5f\x35\x5f\x55\xfe"])
    return returns(s, fork, s.blob(40))


def gas_probe(s, fork):
    """Transaction-side code: is anything of the system calls still warm?"""
    a = Asm(fork)
    k = 0x60
    for _ in range(s.int(1, 4)):
        o = s.below(3)
        a.op(0x5A)
        x = s.pick(SYS + [CON[1], RB.SYSTEM])
        if o == 0:
            a.push(int.from_bytes(x, "big")).op(0x31, 0x50)
        elif o == 1:
            a.push(s.below(4)).op(0x54, 0x50)
        else:
            a.push(0).push(0).push(0).push(0).push(0)
            a.push(int.from_bytes(x, "big")).push(s.pick([3000, 40000])).op(0xF1, 0x50)
        a.op(0x5A, 0x90, 0x03).push(k).op(0x55)
        k += 1
    return a.build()


def base_pre(s, fork):
    pre = {EOA[i]: dict(nonce=0, balance=10**24) for i in range(3)}
    for a in CON[:2]:
        pre[a] = dict(nonce=1, balance=s.pick([0, 5]),
                      code=(gas_probe if s.bool() else sprog)(s, fork),
                      storage={i: 1 for i in range(2)})
    return pre


def calls_of(s, fork, blk, targets, n=None):
    nn = {}
    return [gen_tx(s, fork, blk, nn, targets,
                   types=[t for t in tx_types(fork) if t != 3])
            for _ in range(s.below(3) if n is None else n)]


def make_sys(s):
    fork = s.pick([CANCUN, PRAGUE, OSAKA])
    blk = gen_blk(s, fork, beacon_root=s.pick(
        [keccak(b"beacon"), b"\0" * 32, s.bytes(32)]))
    pre = base_pre(s, fork)
    for a in SYS:
        req = a in SYS[2:]
        if s.chance(15) and not req:
            continue
        pre[a] = dict(nonce=s.pick([1, 0]), balance=s.pick([0, 0, 3]),
                      storage={i: 7 for i in range(s.below(3))},
                      code=sys_prog(s, fork) if not req else s.pick(
                          [sys_prog, lambda s, f: returns(
                              s, f, b"")])(s, fork))
        if not pre[a]["nonce"] and not pre[a]["balance"] and \
                not pre[a]["code"]:
            pre[a]["nonce"] = 1
    if s.chance(12):
        pre[RB.SYSTEM] = dict(nonce=s.pick([0, 3]), balance=9)
    return G.case(fork, blk, pre, calls_of(
        s, fork, blk, [CON[0], CON[1], s.pick(SYS)]))


def run_sys(c, res):
    want, w, got, st = run_body_case(always)(c, res)
    if want is None:
        res.nontrivial = "system" in "".join(res.tags)


# ------------------------------------------------------------ requests
def make_req(s):
    fork = s.pick([PRAGUE, OSAKA])
    blk = gen_blk(s, fork)
    pre = base_pre(s, fork)
    for a, n in ((SYS[2], 76), (SYS[3], 116)):
        k = s.below(14)
        if k < 9:
            code = returns(s, fork, s.bytes(s.pick(
                [0, 0, n, 2 * n, 16 * n, 1, 31, 33])))
        elif k == 9:
            # burn until the allowance is gone
            code = s.pick([BURN, b"\xfe", b"\x5f\x5f\xfd"])
        elif k == 10:
            code = b""
        elif k == 11:
            code = None
        elif k == 12:
            # return the gas seen, the caller and the input size
            code = Asm(fork).op(0x5A).push(0).op(0x52, 0x33).push(32).op(
                0x52, 0x36).push(64).op(0x52).push(96).push(0).op(0xF3
                                                                  ).build()
        else:
            # per-block counter: requests reflect this block's transactions
            code = counter(fork)
        if code is not None:
            pre[a] = dict(nonce=1, balance=0, code=code,
                          storage={0: s.below(3)})
    return G.case(fork, blk, pre, calls_of(s, fork, blk,
                                           SYS[2:] + [CON[0]], s.int(0, 3)))


def counter(fork):
    """From the system: return the number of calls made since; else count."""
    a = Asm(fork)
    l = a.label()
    a.push(int.from_bytes(RB.SYSTEM, "big"), 20).op(0x33, 0x14)
    a.ref(l)
    a.op(0x57)
    a.push(1).push(0).op(0x54, 0x01).push(0).op(0x55, 0x00)
    a.dest(l)
    a.push(0).op(0x54).push(0).op(0x52)
    a.push(0).push(0).op(0x55)
    a.push(0).op(0x51).push(0).op(0xF3)
    return a.build()


# ------------------------------------------------------------ deposits
def deposit_data(s):
    """ABI data of a deposit event, possibly with one thing wrong."""
    parts = [s.bytes(48), s.bytes(32), s.bytes(8), s.bytes(96), s.bytes(8)]
    offs, body, o = [], b"", 160
    for p in parts:
        offs.append(o)
        pad = p + b"\0" * (-len(p) % 32)
        body += len(p).to_bytes(32, "big") + pad
        o += 32 + len(pad)
    d = b"".join(x.to_bytes(32, "big") for x in offs) + body
    k = s.weighted([(14, "ok"), (3, "word"), (2, "len"), (1, "pad"),
                    (1, "empty"), (1, "bigword")])
    words = [0, 1, 2, 3, 4, 5, 8, 10, 12, 16]
    if k == "word":
        i = 32 * s.pick(words)
        v = int.from_bytes(d[i:i + 32], "big") + s.pick([-1, 1, 32, -32])
        d = d[:i] + (v % M256).to_bytes(32, "big") + d[i + 32:]
    elif k == "bigword":
        i = 32 * s.pick(words)
        d = d[:i] + bytes([1 + s.below(255)]) + d[i + 1:]
    elif k == "len":
        d = s.pick([d[:-1], d + b"\0", d[:-32], d + b"\0" * 32, d[:32],
                    d[:575], d + d])
    elif k == "pad":
        # padding of the last, short fields is not part of the request
        i = s.pick([240, 255, 360, 383, 552, 575])
        d = d[:i] + b"\xaa" + d[i + 1:]
    elif k == "empty":
        d = b""
    return k, d


def emitter(s, fork):
    """Code emitting logs; returns (code, labels)."""
    a = Asm(fork)
    labels = []
    for _ in range(s.weighted([(5, 1), (4, 2), (1, 0), (1, 3)])):
        k, d = deposit_data(s)
        t = [int.from_bytes(RB.DEPOSIT_TOPIC, "big")]
        m = s.weighted([(12, "plain"), (1, "topic"), (1, "no-topic"),
                        (1, "second"), (1, "extra-topics")])
        if m == "topic":
            t[0] ^= 1 << s.below(256)
        elif m == "no-topic":
            t = []
        elif m == "second":
            t = [5] + t
        elif m == "extra-topics":
            t = t + [s.below(9) for _ in range(s.int(1, 3))]
        labels.append(k + "/" + m)
        if d:
            a.load_data(d, 0)
            if s.chance(70):
                # a key of this very call, so that order is visible
                a.op(0x5A, 0x32, 0x01, 0x3A, 0x01, 0x36, 0x01)
                a.push(192).op(0x52)
        for x in reversed(t):
            a.push(x)
        a.push(len(d)).push(0).op(0xA0 + len(t))
    e = s.below(12)
    if e == 0:
        a.push(0).push(0).op(0xFD)
        labels.append("reverted")
    elif e == 1:
        a.op(0xFE)
        labels.append("reverted")
    return a.build(), labels


def forward(s, fork, to, op):
    a = Asm(fork)
    a.push(0).push(0).push(0).push(0)
    if op in (0xF1, 0xF2):
        a.push(0)
    a.push(int.from_bytes(to, "big")).op(0x5A, op, 0x50)
    if s.chance(10):
        a.push(0).push(0).op(0xFD)
    return a.build()


def make_dep(s):
    fork = s.pick([PRAGUE, OSAKA])
    blk = gen_blk(s, fork)
    pre = {EOA[i]: dict(nonce=0, balance=10**24) for i in range(3)}
    code, labels = emitter(s, fork)
    pre[RB.DEPOSIT] = dict(nonce=1, balance=0, code=code)
    c2, l2 = emitter(s, fork)
    pre[CON[0]] = dict(nonce=1, balance=0, code=c2)
    pre[CON[1]] = dict(nonce=1, balance=0, code=forward(
        s, fork, RB.DEPOSIT, s.pick([0xF1, 0xF1, 0xF4, 0xF2, 0xFA])))
    for a, n in ((SYS[2], 76), (SYS[3], 116)):
        k = s.below(8)
        if k == 0:
            # a deposit event from within a system call is not in a receipt
            code = forward(s, fork, RB.DEPOSIT, 0xF1)
        else:
            code = sys_code(s.bytes(s.pick([0, 0, n])))
        pre[a] = dict(nonce=1, code=code)
    nn = {}
    txs = [gen_tx(s, fork, blk, nn, [RB.DEPOSIT] * 4 + [CON[1]] * 2
                  + [CON[0]], types=[0, 1, 2], value=0,
                  gas=s.pick([1_000_000] * 5 + [30_000]))
           for _ in range(s.pick([1, 2, 2, 3, 3, 6]))]
    return G.case(fork, blk, pre, txs, tags=["data:" + x for x in labels])


def nt_dep(want, c):
    return bool(want.requests)


def run_dep(c, res):
    want, w, got, st = run_body_case(nt_dep)(c, res)
    if want is None and any("deposit" in t for t in res.tags):
        res.nontrivial = True


# ------------------------------------------------------------ the commitment
def make_hash(s):
    return dict(fork=s.pick(["prague", "osaka"]), reqs=[
        bytes([s.pick([0, 1, 2, 3, 255])]) + s.bytes(
            s.pick([0, 1, 76, 116, 192, 400]))
        for _ in range(s.weighted([(1, 0), (3, 1), (3, 2), (4, 3),
                                   (1, 6)]))])


def run_hash(c, res):
    import importlib
    m = importlib.import_module("ethereum.%s.requests" % c["fork"])
    res.eq("requests_hash", bytes(m.compute_requests_hash(list(c["reqs"]))),
           RB.requests_hash(c["reqs"]))
    res.nontrivial = bool(c["reqs"])
    res.tag("requests:%d" % len(c["reqs"]))


# share of the larger suites' cases that the quick tier runs
QUICK_SCALE = 0.8
SUITES = [
    Suite("system", make_sys, run_sys, 9000, None,
          "bodies with generated code at all system addresses (arbitrary "
          "programs, environment observers, failing ones, none) followed by "
          "transactions probing warmth; every accepted case, and every case "
          "refused for a failing system contract"),
    Suite("requests", make_req, run_sys, 7000, None,
          "request contracts returning 0 to 16 requests' worth of bytes, "
          "failing, missing or counting the block's calls; counted as above"),
    Suite("deposits", make_dep, run_dep, 9000, None,
          "1-6 transactions reaching code at the deposit address that emits "
          "well-formed and malformed events, events from elsewhere, reverted "
          "ones; non-trivial: the requests list is non-empty or the block "
          "is refused for a malformed event"),
    Suite("hash", make_hash, run_hash, 4000, None,
          "request lists and their commitment; non-trivial: non-empty list"),
]
