"""C20: a block extends the chain iff its header commits to its execution."""
from lib.pbt import Suite
from lib.chain import *
from lib.adapt import preload
from checks.c19 import pick_pf

ASSUME = ("Seals are stubbed (C26). After a block whose body or commitments "
          "are invalid nothing is claimed about the state object, which the "
          "library documents as being mutated in place; chain.blocks must be "
          "unchanged. System contracts are stand-ins held in state.")


def hash_reader(s, fork):
    """Contract that records BLOCKHASH(NUMBER - k) for several k."""
    a = Asm(fork)
    ks = [1, s.pick([2, 3, 5]), s.pick([255, 256, 257, 0]), s.int(1, 300)]
    for i, k in enumerate(ks):
        # NUMBER - k may wrap below zero near genesis: that is fine
        a.push(k).op(0x43).op(0x03).op(0x40).push(0x100 + i).op(0x55)
    return a.op(0x00).build()


def base(s, fork):
    """Ancestors (all that BLOCKHASH can reach), state and chain id."""
    if fork == LONDON and s.chance(30):
        no = FORK_BLOCK[LONDON] - s.pick([1, 2])
    elif fork == DAO and s.chance(40):
        no = FORK_BLOCK[DAO] + s.pick([-1, 0, 8, 9])
    elif s.chance(15):
        no = tip_number(s, fork)
    else:
        no = s.pick([0, 1, 2, 3, 6, 9])
    if fork == LONDON:
        pf = BERLIN if is_first(fork, no + 1) else LONDON
    else:
        pf = pick_pf(s, fork, no)
    tip = gen_tip(s, fork, no, pf)
    n = no + 1 if no < 255 else s.pick([255, 256, 257, 300])
    anc = gen_anc(s, fork, n, tip, pf)
    pre = G.gen_pre(s, fork, ncon=s.int(1, 2))
    pre[CON[3]] = dict(nonce=1, code=hash_reader(s, fork), balance=1)
    return anc, pre, s.pick([1, 1, 5])


def body_mutation(s, fork, b):
    """Change the body but not the header; returns a copy."""
    m = dict(b, txs=list(b["txs"]), wds=list(b["wds"]))
    k = s.below(5)
    if k == 0 and m["txs"]:
        m["txs"].pop(s.below(len(m["txs"])))
    elif k == 1 and len(m["txs"]) > 1:
        m["txs"][0], m["txs"][1] = m["txs"][1], m["txs"][0]
    elif k == 2 and m["txs"]:
        t = dict(m["txs"][0], data=m["txs"][0]["data"] + b"\x01")
        m["txs"][0] = t
    elif k == 3 and fork >= SHANGHAI:
        m["wds"].append(dict(index=1, validator=1, address=FRESH[2],
                             amount=s.below(2)))
    elif k == 4 and m["wds"]:
        i = s.below(len(m["wds"]))
        w = dict(m["wds"][i])
        f = s.pick(["index", "validator", "amount"])
        w[f] ^= 1
        m["wds"][i] = w
    elif m["txs"]:
        m["txs"] = m["txs"] + [m["txs"][-1]]
    else:
        m["ommers"] = [blank_header(fork, number=b["h"]["number"] - 1)]
    return m


COMMIT = ["state_root", "transactions_root", "receipt_root", "bloom",
          "gas_used", "withdrawals_root", "blob_gas_used", "requests_hash"]


def make_hist(s, fork=None, **kw):
    fork = G.pick_fork(s) if fork is None else fork
    anc, pre, cid = base(s, fork)
    ch = Chain(anc, world_of(pre), cid)
    blocks = []
    tg = [CON[0], CON[3], CON[0], EOA[1], FRESH[0]]
    if CON[1] in pre:
        tg.append(CON[1])
    for _ in range(s.int(1, 3)):
        b, ch2 = gen_child(s, fork, ch, targets=tg)
        b["fork"] = fork
        if s.chance(25):
            # an invalid variant that needs no execution to be refused
            mb = dict(b, h=dict(b["h"]))
            k = s.pick(["parent_hash", "number", "timestamp", "gas_limit",
                        "ommers_hash", "extra_data"])
            mutate_field(s, fork, mb["h"], ch.blocks[-1][1], k)
            try:
                ch.admit(fork, mb, None)
            except RB.Reject:
                blocks.append(mb)
        if s.chance(30):
            if s.chance(30):
                mb = body_mutation(s, fork, b)
            else:
                mb = dict(b, h=dict(b["h"]))
                k = s.pick([c for c in COMMIT if c in b["h"]] + [
                    "coinbase", "mix", "beacon_root"])
                mutate_field(s, fork, mb["h"], ch.blocks[-1][1], k)
            blocks.append(mb)
            break
        blocks.append(b)
        ch = ch2
    return dict(anc=anc, pre=pre, chain_id=cid, blocks=blocks)


def run_hist(c, res):
    n = run_history(c, res)
    if len(c["anc"]) > 250:
        res.tag("long-history")
    res.nontrivial = any(b["txs"] or b["wds"] for b in c["blocks"]) \
        and n is not None


# ------------------------------------------------ old blocks as parents
def make_side(s):
    """Blocks that build on an older block than the tip."""
    fork = G.pick_fork(s)
    no = s.int(1, 9)
    tip = gen_tip(s, fork, no, fork)
    anc = gen_anc(s, fork, no + 1, tip, fork)
    pre = G.gen_pre(s, fork, ncon=1)
    at = s.below(len(anc))
    ch = Chain(anc, world_of(pre))
    old = Chain(anc[:at + 1], world_of(pre))
    b, _ = gen_child(s, fork, old if s.chance(80) else ch)
    b["fork"] = fork
    good, _ = gen_child(s, fork, ch)
    good["fork"] = fork
    return dict(anc=anc, pre=pre, chain_id=1, blocks=[b, good])


def run_side(c, res):
    run_history(c, res)
    res.nontrivial = True


# ------------------------------------------------ block size (Osaka)
def make_size(s):
    fork = s.pick([OSAKA, OSAKA, PRAGUE])
    pre = {EOA[0]: dict(nonce=0, balance=10**26)}
    G.sys_pre(s, fork, pre)
    tip = gen_tip(s, fork, 10, fork)
    tip.update(gas_limit=200_000_000, gas_used=100_000_000, base_fee=7)
    anc = gen_anc(s, fork, 1, tip, fork)
    ch = Chain(anc, world_of(pre))
    target = RB.MAX_RLP_BLOCK + s.pick([0, 1, -1, 2, -300])
    lens = [1_500_000] * 5
    need = target - sum(lens)

    def txs(last):
        out = []
        for i, n in enumerate(lens + [last]):
            t = dict(type=0, nonce=i, gas=21000 + 10 * n, value=0,
                     to=FRESH[0], data=b"\0" * n, chain_id=1, gas_price=7)
            out.append(sign_tx(t, KEYS[0], protected=True))
        return out
    b, _ = gen_child(s, fork, ch, txs=[], wds=[])
    b["fork"] = fork
    last = need - 1000
    for _ in range(4):
        b["txs"] = txs(last)
        b["h"]["gas_used"] = sum(t["gas"] for t in b["txs"])
        d = target - len(block_rlp(fork, b))
        if d == 0:
            break
        last += d
    # keep the case small: only lengths are stored
    return dict(fork=fork, anc=anc, pre=pre, h=b["h"], lens=lens + [last],
                target=target, wds=b["wds"])


def run_size(c, res):
    fork = c["fork"]
    txs = []
    for i, n in enumerate(c["lens"]):
        t = dict(type=0, nonce=i, gas=21000 + 10 * n, value=0, to=FRESH[0],
                 data=b"\0" * n, chain_id=1, gas_price=7)
        txs.append(sign_tx(t, KEYS[0], protected=True))
    b = dict(h=dict(c["h"]), txs=txs, wds=[], ommers=[], fork=fork)
    ch = Chain(c["anc"], world_of(c["pre"]))
    out = ch.run(fork, b)
    b["h"].update(RB.commitments(fork, ch.w, out))
    n = len(block_rlp(fork, b))
    res.tag("size%+d" % (n - RB.MAX_RLP_BLOCK))
    run_history(dict(anc=c["anc"], pre=c["pre"], chain_id=1, blocks=[b]),
                res)
    res.nontrivial = True


preload()
SUITES = [
    Suite("histories", make_hist, run_hist, 5000, None,
          "1-3 blocks with transactions and withdrawals on a generated "
          "state and 1-300 ancestors, with variants broken in one header "
          "commitment, body item or header rule; non-trivial: the blocks "
          "have content"),
    Suite("side", make_side, run_side, 1500, None,
          "blocks valid on an older block offered to the chain, then a "
          "valid one; every case counts"),
    Suite("size", make_size, run_size, 16, 120,
          "blocks within two bytes of the EIP-7934 limit; every case "
          "counts"),
]
