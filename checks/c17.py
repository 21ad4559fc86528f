from lib.suites import *


def conserve(want, w, got, st, c, res):
    """Independent of the executing model: totals on the implementation."""
    F = Fork(c["fork"])
    pre = sum(x.get("balance", 0) for x in c["pre"].values())
    total = 0
    for a in set(w.a) | set(c["pre"]) | set(EOA) | set(CON) | set(FRESH) | {
            c["blk"]["coinbase"], COINBASE}:
        r = F.read_account(st, a)
        if r is not None:
            total += r[1]
    minted = 0
    if F.k < PARIS:
        R = BLOCK_REWARD[F.name]
        minted = R + len(c.get("ommers", ())) * (R // 32)
        for o in c.get("ommers", ()):
            minted += R * (8 + o["number"] - c["blk"]["number"]) // 8
    minted += sum(x["amount"] * 10**9 for x in c["wds"])
    burnt = sum(t["burnt"] for t in want.traces)
    dead = sum(t["pre_total"] - t["post_total"] - t["burnt"]
               for t in want.traces)
    if F.k < LONDON and any(t["burnt"] for t in want.traces):
        res.fail("oracle", "burn before London")
    if dead < 0:
        res.fail("oracle", "model created ether")
    if dead and not want.stats.get("selfdestruct"):
        res.fail("conservation", "ether vanished without self-destruct")
    res.eq("conservation", total, pre + minted - burnt - dead)


def run(c, res):
    want, w, got, st = run_body_case(always)(c, res)
    if want is not None and got is not None:
        conserve(want, w, got, st, c, res)
        # settlement of plain senders, straight from the definition
        if sum(t["refund"] > 0 for t in want.traces):
            res.tag("refund-paid")
        if any(t["used"] == t["floor"] > 0 for t in want.traces):
            res.tag("floor-paid")


def make(s):
    """Fee markets, refunds (to the cap), floors, coinbase identities."""
    fork = any_fork(s)
    blk = gen_blk(s, fork, coinbase=s.pick(
        [COINBASE, COINBASE, EOA[0], EOA[1], CON[0], CON[1], FRESH[0]]))
    if fork >= LONDON:
        blk["base_fee"] = s.pick([0, 1, 7, 1000, 10**9 + 7, 10**12])
    # a contract that clears slots: refunds from none to beyond the cap
    a = Asm(fork)
    n = s.below(8)
    for j in range(n):
        a.push(s.pick([0, 0, 0, 1])).push(j).op(0x55)
    if s.chance(40):
        a.push(s.pick([1, 5000, 60000, 150000])).push(0).op(0x20, 0x50)
    if s.chance(25):
        a.push(0).push(0).push(0).push(0).push(s.below(3))
        a.push(int.from_bytes(s.pick([EOA[1], COINBASE, FRESH[1], CON[1]]),
                              "big")).push(30000).op(0xF1, 0x50)
    e = s.below(10)
    if e == 0:
        a.op(0xFE)
    elif e == 1 and fork >= BYZANTIUM:
        a.push(0).push(0).op(0xFD)
    elif e in (2, 3):
        a.push(int.from_bytes(s.pick([EOA[1], CON[0], COINBASE, FRESH[2],
                                      EOA[0]]), "big")).op(0xFF)
    pre = {EOA[i]: dict(nonce=0, balance=10**24) for i in range(3)}
    pre[CON[0]] = dict(nonce=1, balance=s.below(5), code=a.build(),
                       storage={j: 1 for j in range(n)})
    pre[CON[1]] = dict(nonce=1, balance=9, code=s.pick(
        [b"\x33\xff", b"\x30\xff", b"\x41\xff", b"\x00"]))
    if fork >= PRAGUE:
        for x in (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ):
            pre[x] = dict(nonce=1, code=b"\x00")
    nn, txs = {}, []
    m = s.int(1, 4)
    nb = 0
    for i in range(m):
        t = s.pick(tx_types(fork))
        if t == 3:
            nb += 1
            if nb > 3:
                t = 2
        to = "create" if t < 3 and s.chance(12) else s.pick(
            [CON[0], CON[0], CON[1], EOA[1], FRESH[0], COINBASE])
        data = s.pick([b"", b"\x00" * 3, b"\x01" * 30])
        if fork >= PRAGUE and s.chance(45):
            data = s.pick([b"\x00" * 2000, b"\x01" * 900,
                           b"\x01" * 150, b"\x00" * 400 + b"\x02" * 400])
        tx = gen_tx(s, fork, blk, nn, [CON[0]], types=[t], to=to, data=data,
                    gas=s.pick([100_000, 300_000, 1_000_000]),
                    value=s.pick([0, 0, 1, 10**18]))
        if s.chance(25):
            # exact affordability
            key = key_of(fork, tx, blk["chain_id"])
            if nn[EOA[KEYS.index(key)]] == 1:
                pre[EOA[KEYS.index(key)]]["balance"] = \
                    RB.max_cost(tx) + s.pick([0, 1, 10**18])
        txs.append(tx)
    if s.chance(30) and m > 1:
        blk["gas_limit"] = sum(t["gas"] for t in txs)
    return bound_gas(s, fork, G.case(fork, blk, pre, txs), pct=35,
                     i=s.below(m))


def make_mix(s):
    return G.gen_body(s, any_fork(s), dict(
        call=6, sd=3, create=3, store=3, refund=4, revert=1, invalid=1,
        expr=1, ret=1))


# share of the larger suites' cases that the quick tier runs
QUICK_SCALE = 0.8
SUITES = [
    Suite("settlement", make, run, 22000, None,
          "blocks of 1-4 transactions of all types with edge fees, refunds "
          "up to and beyond the cap, calldata floors, senders/recipients "
          "that are the coinbase, exact balances; ether totals checked on "
          "the implementation's state; non-trivial: block accepted"),
    Suite("programs", make_mix, run, 8000, None,
          "value-moving structured blocks with the same conservation "
          "checks; non-trivial: block accepted"),
]
