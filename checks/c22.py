"""C22: ommers are validated and rewards paid exactly."""
from lib.pbt import Suite
from lib.chain import *
from lib.adapt import preload, body_case

ASSUME = ("Seals are stubbed (a chosen set of headers fails); ommers have "
          "the header format of the fork that includes them.")


def canon(s, fork, n):
    """n linked headers, each valid on the one before, some with ommers."""
    tip = gen_tip(s, fork, s.pick([0, 0, 4, 500]), fork)
    tip["parent_hash"] = keccak(b"older")
    anc = [[fork, tip, []]]
    for _ in range(n - 1):
        p = anc[-1][1]
        h = child_header(s, fork, fork, p, dt=s.pick([13, 1, 9, 20]))
        h["state_root"] = s.bytes(32)
        om = []
        if len(anc) >= 2 and s.chance(40):
            om = [sibling(s, fork, anc[max(
                0, len(anc) - 1 - s.pick([1, 2, 3, 6]))][1])
                for _ in range(s.pick([1, 2]))]
        h["ommers_hash"] = RB.ommers_hash(fork, om)
        anc.append([fork, h, om])
    return anc


def sibling(s, fork, parent):
    h = child_header(s, fork, fork, parent)
    h["coinbase"] = s.pick([FRESH[2], FRESH[3], COINBASE, CON[0], EOA[1]])
    h["state_root"] = s.bytes(32)
    h["gas_used"] = s.pick([0, h["gas_limit"]])
    return h


def make(s):
    fork = s.int(0, PARIS - 1)
    anc = canon(s, fork, s.weighted([(3, 9), (3, 4), (1, 2), (1, 1),
                                     (1, 12)]))
    n = len(anc)
    kinds, oms = [], []
    bad = []
    for _ in range(s.weighted([(5, 1), (4, 2), (1, 0), (1, 3)])):
        k = s.weighted([(9, "good"), (1, "old"), (1, "own-sibling"),
                        (1, "canonical"), (2, "included"), (1, "dup"),
                        (3, "mutated"), (1, "orphan"), (1, "seal"),
                        (1, "child-of-ommer")])
        kinds.append(k)
        # parent index of an ommer of age a is n - 1 - a
        at = max(0, n - 1 - s.weighted([(3, 1), (2, 2), (1, 3), (1, 4),
                                        (1, 5), (4, 6)]))
        if k == "old":
            at = max(0, n - 1 - s.int(7, 9))
        if k == "own-sibling":
            at = n - 1
        o = sibling(s, fork, anc[at][1])
        if k == "canonical":
            o = anc[s.below(n)][1]
        elif k == "included":
            inc = [x for a in anc for x in a[2]]
            if inc:
                o = inc[s.below(len(inc))]
        elif k == "dup" and oms:
            o = oms[0]
        elif k == "mutated":
            mutate_field(s, fork, o, anc[at][1], s.pick(
                [f for f in header_targets(fork) if f != "ommers_hash"]))
        elif k == "orphan":
            o["parent_hash"] = s.bytes(32)
        elif k == "child-of-ommer" and oms and oms[0]["timestamp"] < 2**250:
            o = sibling(s, fork, oms[0])
        elif k == "seal":
            bad.append(len(oms))
        oms.append(dict(o))
    pre = {EOA[0]: dict(nonce=0, balance=10**21),
           CON[0]: dict(nonce=1, balance=3, code=b"\x00")}
    if s.chance(20):
        pre[FRESH[2]] = dict(nonce=0, balance=7)
    ch = Chain(anc, world_of(pre))
    b, _ = gen_child(s, fork, ch, ommers=oms, ntx=s.below(2),
                     targets=[CON[0], FRESH[2]])
    b["fork"] = fork
    if bad:
        b["bad_ommers"] = bad
    m = s.below(20)
    if m == 0 and len(oms) > 1:
        b["ommers"] = oms[::-1]
        kinds.append("order")
    elif m == 1:
        b["ommers"] = oms[:-1]
        kinds.append("dropped")
    elif m == 2:
        b["h"]["ommers_hash"] = s.pick([RB.EMPTY_OMMERS, keccak(b"")])
        kinds.append("hash")
    if m in (1, 2):
        b.pop("bad_ommers", None)
    good, _ = gen_child(s, fork, ch, txs=[])
    good["fork"] = fork
    return dict(anc=anc, pre=pre, chain_id=1, blocks=[b, good],
                kinds=kinds)


def run(c, res):
    # the second block is only valid if the first is refused
    if not run_history(dict(c, blocks=c["blocks"][:1]), res):
        run_history(dict(c, blocks=c["blocks"]), res)
        res.tags = res.tags[len(res.tags) // 2:]
    else:
        res.tag("ommers-accepted:%d" % len(c["blocks"][0]["ommers"]))
    res.tag(*["kind:" + k for k in c["kinds"]])
    res.nontrivial = bool(c["blocks"][0]["ommers"])


# ------------------------------------------------------------ rewards
def make_rew(s):
    fork = s.int(0, PARIS - 1)
    blk = G.gen_blk(s, fork, number=s.pick([7, 8, 100, 4_000_000]))
    pool = [blk["coinbase"], FRESH[2], FRESH[3], EOA[0], CON[0],
            num_addr(3), FRESH[4] if len(FRESH) > 4 else FRESH[2]]
    oms = [blank_header(fork, coinbase=s.pick(pool),
                        number=blk["number"] - s.int(1, 6))
           for _ in range(s.weighted([(2, 0), (3, 1), (3, 2)]))]
    pre = G.gen_pre(s, fork, ncon=1)
    if fork < SPURIOUS and s.bool():
        pre[FRESH[2]] = dict()
    nn = {a: x.get("nonce", 0) for a, x in pre.items()}
    txs = [G.gen_tx(s, fork, blk, nn, [CON[0], FRESH[2], EOA[1]])
           for _ in range(s.below(3))]
    return dict(G.case(fork, blk, pre, txs), ommers=oms)


def run_rew(c, res):
    F = Fork(c["fork"])
    w = world_of(c["pre"])
    body_case(F, blk_of(c["blk"]), w, c["txs"], (), c["ommers"], res)
    res.tag(c["fork"], "ommers:%d" % len(c["ommers"]))
    res.nontrivial = True


preload()
SUITES = [
    Suite("ommers", make, run, 18000, None,
          "blocks with 0-3 ommers (valid, too old, sibling, canonical, "
          "included, duplicate, mutated, orphaned, badly sealed) on chains "
          "of 1-12 mutually valid headers, then a valid block; non-trivial: "
          "the block has ommers"),
    Suite("rewards", make_rew, run_rew, 4000, None,
          "bodies with 0-2 ommers of age 1-6 whose beneficiaries coincide "
          "with other accounts; every case counts"),
]
