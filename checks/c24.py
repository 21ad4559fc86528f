"""C24: withdrawals credit exactly the stated amounts after transactions."""
from lib.suites import *
from lib.chain import (Chain, gen_tip, gen_anc, gen_child, run_history,
                       header_targets)

ASSUME = ("Balances stay below 2^256 and no empty account exists before the "
          "block (as everywhere since the Merge).")
FORKS_ = [SHANGHAI, CANCUN, PRAGUE, OSAKA]
MIX = dict(store=4, expr=3, call=8, create=5, sd=4, acct=6, env=3, ret=2,
           revert=2, stop=1, log=2)


def amounts(s):
    return s.weighted([(3, 0), (3, 1), (2, 32 * 10**9), (1, 2**64 - 1),
                       (1, 2**63), (2, s.below(2**40)), (1, 2**32)])


def created_by(fork, pre, sender, nonce):
    return keccak(rlp([sender, nonce]))[12:]


def make(s):
    fork = s.pick(FORKS_)
    c = G.gen_body(s, fork, MIX, ntx=s.below(3), gasmode=False, ncon=2)
    for a in (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ):
        if a in c["pre"]:
            c["pre"][a] = dict(nonce=1, code=b"\x00")
    pool = [FRESH[2], FRESH[3], FRESH[2], EOA[0], EOA[1], CON[0], CON[1],
            c["blk"]["coinbase"], num_addr(s.int(0, 20)), num_addr(0x100),
            RB.WITHDRAWAL_REQ, RB.SYSTEM, RB.BEACON_ROOTS, FRESH[0],
            created_by(fork, c["pre"], EOA[0], c["pre"][EOA[0]]["nonce"]),
            created_by(fork, c["pre"], CON[0], c["pre"][CON[0]]["nonce"]),
            s.bytes(20)]
    some = s.sample(pool, s.int(1, 6))
    n = s.weighted([(1, 0), (6, s.int(1, 4)), (3, 16), (1, 17),
                    (1, s.int(120, 140)), (1, s.int(255, 260))])
    i0 = s.pick([0, 1, s.below(2**40), 2**64 - 1 - n])
    c["wds"] = [dict(index=i0 + i if s.chance(90) else s.below(2**64),
                     validator=s.pick([0, 7, s.below(2**20), 2**64 - 1]),
                     address=s.pick(some), amount=amounts(s))
                for i in range(n)]
    return c


def run(c, res):
    want, w, got, st = run_body_case(always)(c, res)
    if want is None:
        return
    F = Fork(c["fork"])
    res.nontrivial = bool(c["wds"])
    if not c["wds"] or got is None:
        return
    # stated directly: the state after is that of the body without
    # withdrawals plus the amounts, dropping accounts that stay empty
    st2 = F.make_state(world_of(c["pre"]))
    out2 = F.apply_body(F.block_env(blk_of(c["blk"]), st2), c["txs"], [])
    if int(out2.block_gas_used) != int(got.block_gas_used):
        res.fail("gas", "withdrawals changed the gas used")
    credit = {}
    for x in c["wds"]:
        credit[x["address"]] = credit.get(x["address"], 0) \
            + x["amount"] * 10**9
    sysd = (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ)
    for a, v in credit.items():
        p, q = F.read_account(st2, a), F.read_account(st, a)
        want_ = None if p is None and not v else (
            (p or (0, 0, b""))[0], (p or (0, 0, b""))[1] + v,
            (p or (0, 0, b""))[2])
        if want_ == (0, 0, b""):
            want_ = None
        if q != want_ and a not in sysd:
            res.fail("credit", "%s: %s, expected %s" % (
                a.hex(), q and q[:2], want_ and want_[:2]))
    res.tag("withdrawals:%s" % min(len(c["wds"]), 20))
    if any(not x["amount"] for x in c["wds"]):
        res.tag("zero-amount")
    if any(v == 0 and F.read_account(st2, a) is None
           for a, v in credit.items()):
        res.tag("zero-to-absent")
    if any((F.read_account(st2, a) or (0, 0, b""))[2] for a in credit):
        res.tag("to-code")


# --------------------------------------------------------- whole blocks
def make_blk(s):
    fork = s.pick(FORKS_)
    pf = fork if s.chance(70) or fork == SHANGHAI else fork - 1
    tip = gen_tip(s, fork, s.pick([0, 3, 100]), pf)
    tip["excess_blob_gas"] = 0 if pf < CANCUN else tip["excess_blob_gas"]
    anc = gen_anc(s, fork, tip["number"] + 1, tip, pf)
    pre = {EOA[i]: dict(nonce=0, balance=10**22) for i in range(3)}
    pre[CON[0]] = dict(nonce=1, code=Prog(
        s, fork, MIX, [FRESH[2], EOA[0], CON[0]], 3).code())
    if fork >= PRAGUE:
        for a in (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ):
            pre[a] = dict(nonce=1, code=b"\x00")
    ch = Chain(anc, world_of(pre))
    wds = [dict(index=i, validator=s.below(50), address=s.pick(
        [FRESH[2], EOA[0], CON[0], COINBASE]), amount=amounts(s))
        for i in range(s.int(1, 5))]
    b, _ = gen_child(s, fork, ch, wds=wds, ntx=s.below(2),
                     targets=[CON[0], FRESH[2]])
    b["fork"] = fork
    k = s.weighted([(4, "ok"), (1, "swap"), (1, "drop"), (1, "field"),
                    (1, "root"), (1, "add")])
    w = b["wds"] = [dict(x) for x in b["wds"]]
    if k == "swap":
        i, j = s.below(len(w)), s.below(len(w))
        w[i], w[j] = w[j], w[i]
    elif k == "drop":
        w.pop(s.below(len(w)))
    elif k == "field":
        x = w[s.below(len(w))]
        f = s.pick(["index", "validator", "amount", "address"])
        x[f] = s.pick([EOA[1], FRESH[2]]) if f == "address" else \
            (x[f] + s.pick([1, -1, 256])) % 2**64
    elif k == "root":
        h = b["h"]["withdrawals_root"]
        b["h"]["withdrawals_root"] = s.pick(
            [RB.EMPTY_ROOT, bytes([h[0] ^ 1]) + h[1:], keccak(b"\xc0")])
    elif k == "add":
        w.append(dict(w[-1]))
    return dict(anc=anc, pre=pre, chain_id=1, blocks=[b], kind=k)


def run_blk(c, res):
    n = run_history(c, res)
    res.tag("kind:" + c["kind"])
    res.nontrivial = n is not None


# share of the larger suites' cases that the quick tier runs
QUICK_SCALE = 0.75
SUITES = [
    Suite("bodies", make, run, 9000, None,
          "bodies with 0-260 withdrawals to fresh, funded, coded, created, "
          "precompiled and system addresses, zero to 2^64-1 Gwei, checked "
          "against the model and against the same body without them; "
          "non-trivial: accepted with at least one withdrawal"),
    Suite("blocks", make_blk, run_blk, 3500, None,
          "whole blocks whose withdrawal list is intact, reordered, "
          "shortened, extended or edited; every case counts"),
]
