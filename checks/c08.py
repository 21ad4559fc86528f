from lib.suites import *
from lib import stateops as SO


def make_api(s):
    k = any_fork(s)
    return dict(fork=NAMES[k], ops=SO.gen_ops(s, k, s.int(3, 40), marks_any=True))


def run_api(c, res):
    F = Fork(c["fork"])
    api = SO.Api(F, F.state)
    m = SO.Model(F.k)
    depth = 0
    for i, o in enumerate(c["ops"]):
        try:
            api.do(o)
        except Exception as e:
            res.fail("crash", "op %d %s: %s: %s" % (
                i, o[0], type(e).__name__, e))
            return
        SO.apply_model(m, o)
        depth = max(depth, len(m.snaps))
        if o[0] in ("commit", "rollback", "observe", "begin") or \
                i == len(c["ops"]) - 1:
            bad = SO.diff(api.observe(), SO.expect(m))
            if bad:
                res.fail("state-api", "after op %d %s: %s" % (
                    i, o[0], "; ".join(bad[:4])))
                return
    res.tag(c["fork"])
    res.nontrivial = depth >= 2 and any(
        o[0] == "rollback" for o in c["ops"])


def make_frames(s):
    """Trees of frames that write everything and then succeed or fail."""
    fork = any_fork(s)
    pre = {EOA[0]: dict(nonce=0, balance=10**24)}
    if fork >= PRAGUE:
        for x in (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ):
            pre[x] = dict(nonce=1, code=b"\x00")
    n = 5
    for i in range(n):
        a = Asm(fork)
        for _ in range(s.int(1, 6)):
            k = s.below(12)
            if k < 3:
                a.push(s.below(3)).push(s.below(3)).op(0x55)
            elif k == 3:
                a.push(7).push(0).op(0x52).push(32).push(0)
                for j in range(s.below(3)):
                    pass
                a.op(0xA0)
            elif k == 4 and fork >= CANCUN:
                a.push(s.below(3)).push(s.below(2)).op(0x5D)
            elif k == 5 and fork >= CANCUN:
                a.push(s.below(2)).op(0x5C).push(10).op(0x55)
            elif k == 6:
                # empty creation (bumps nonce)
                a.push(0).push(0).push(s.pick([0, 1]))
                a.op(0xF0).push(11).op(0x55)
            elif k == 7 and s.chance(30):
                a.push(int.from_bytes(s.pick([FRESH[0], CON[0], EOA[1]]),
                                      "big")).op(0xFF)
            else:
                kinds = [0xF1, 0xF1, 0xF1, 0xF2]
                if fork >= HOMESTEAD:
                    kinds.append(0xF4)
                if fork >= BYZANTIUM:
                    kinds.append(0xFA)
                kd = s.pick(kinds)
                a.push(0).push(0).push(0).push(0)
                if kd in (0xF1, 0xF2):
                    a.push(s.pick([0, 1, 3]))
                if i + 1 < n and s.chance(88):
                    t = CON[s.int(i + 1, n - 1)]
                else:
                    t = s.pick([FRESH[0], num_addr(3), EOA[1]])
                a.push(int.from_bytes(t, "big"))
                a.push(s.pick([300000, 100000, 40000, 2300, 0]))
                a.op(kd).push(20 + s.below(4)).op(0x55)
        e = s.below(9)
        if e == 0:
            a.op(0xFE)
        elif e == 1:
            a.op(0x50)          # underflow
        elif e in (2, 3) and fork >= BYZANTIUM:
            a.push(0).push(0).op(0xFD)
        elif e == 4:
            a.push(int.from_bytes(s.pick([FRESH[0], CON[0]]), "big"))
            a.op(0xFF)
        pre[CON[i] if i < len(CON) else num_addr(1000 + i)] = dict(
            nonce=1, balance=s.pick([0, 2, 50]), code=a.build(),
            storage={j: s.int(1, 2) for j in range(3) if s.bool()})
    blk = gen_blk(s, fork)
    m = s.int(1, 3)
    txs = [simple_tx(s, fork, blk, to=CON[s.pick([0, 0, 1])], nonce=i,
                     gas=2_000_000, value=s.pick([0, 1])) for i in range(m)]
    return bound_gas(s, fork, G.case(fork, blk, pre, txs), pct=40,
                     i=s.below(m))


# share of the larger suites' cases that the quick tier runs
QUICK_SCALE = 0.8
SUITES = [
    Suite("state_api", make_api, run_api, 24000, None,
          "operation histories on the state module (nested begin/commit/"
          "rollback, account, storage, code, balance, nonce, destruction, "
          "transient storage) observed in full against a dictionary model "
          "with deep-copied snapshots; non-trivial: two levels were open and "
          "a rollback happened"),
    body_suite("frames", make_frames, 13000,
               "trees of frames that write storage, logs, transient "
               "storage, nonces and balances and then return, revert, halt "
               "or self-destruct; non-trivial: some frame failed",
               stat("halt", "revert")),
    mix_suite("programs", 6000, dict(
        store=4, call=8, revert=4, invalid=4, create=3, log=2, transient=2,
        sd=1, refund=1, sload=1, acct=1), "failure-heavy structured blocks; "
        "non-trivial: some frame failed", stat("halt", "revert"), ncon=3),
]
