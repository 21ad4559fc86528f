"""C19: a header is accepted iff every consensus rule holds."""
from lib.pbt import Suite
from lib.chain import *
from lib.adapt import preload, FORKS

ASSUME = ("Proof-of-work seals are decided by C26; here the seal check is "
          "replaced by one that fails exactly the chosen headers. Ancestors "
          "are themselves plausible headers (gas limit >= 5000, difficulty "
          ">= 131072).")


def pick_pf(s, fork, tip_no):
    """Fork of the parent: the same, or the previous one at a fork block."""
    if fork == 0:
        return 0
    if fork == LONDON:
        return BERLIN if is_first(fork, tip_no + 1) and s.chance(80) \
            else LONDON
    return fork - 1 if s.chance(25) else fork


def make_fields(s):
    fork = G.pick_fork(s)
    no = tip_number(s, fork)
    pf = pick_pf(s, fork, no)
    tip = gen_tip(s, fork, no, pf, roomy=False)
    anc = gen_anc(s, fork, s.pick([1, 1, 2, 3, 8]), tip, pf)
    at = len(anc) - 1
    if len(anc) > 1 and s.chance(20) and not (fork == LONDON and pf < fork):
        at = s.below(len(anc))
    apf, parent, _ = anc[at]
    h = child_header(s, fork, apf, parent,
                     is_first(fork, parent["number"] + 1))
    if fork < PARIS:
        h["ommers_hash"] = s.pick([h["ommers_hash"], keccak(b"o")])
    h["gas_used"] = s.pick([0, h["gas_limit"], s.below(h["gas_limit"] + 1)])
    for k in ("state_root", "transactions_root", "receipt_root"):
        h[k] = s.bytes(32)
    mut = []
    for _ in range(s.weighted([(3, 1), (2, 0), (1, 2)])):
        k = s.pick(header_targets(fork))
        mutate_field(s, fork, h, parent, k)
        mut.append(k)
    if mut and "parent_hash" not in mut and s.chance(15):
        # a consistent sibling of something else
        h["parent_hash"] = RB.header_hash(*anc[s.below(len(anc))][:2])
    c = dict(fork=fork, anc=anc, h=h, mut=mut,
             pow=fork >= PARIS or s.chance(92))
    return c


def run_fields(c, res):
    F = Fork(c["fork"])
    ch = Chain(c["anc"], None)
    bad = set() if c["pow"] else {RB.header_hash(c["fork"], c["h"])}
    try:
        ch.check(c["fork"], c["h"],
                 lambda f, h: RB.header_hash(f, h) not in bad)
        why = None
    except RB.Reject as e:
        why = str(e)
    chain = impl_chain(c["anc"], F.state.State(), 1, c["fork"])
    hdr = F.header(c["h"])
    with pow_stub(F, bad):
        ok, err = attempt(lambda: F.fork.validate_header(chain, hdr), res)
    if ok is None:
        return
    if ok and why:
        res.fail("accepted-invalid", "accepted, but breaks rule: " + why)
    if not ok and not why:
        res.fail("rejected-valid", "rejected (%s), but follows every rule"
                 % err)
    res.tag(NAMES[c["fork"]], "invalid:" + why if why else "valid",
            *["changed:" + m for m in c["mut"]])
    if c["anc"][-1][0] != c["fork"]:
        res.tag("parent-of-previous-fork")
    res.nontrivial = True


def make_chain(s):
    """Empty blocks through state_transition, one field of one changed."""
    fork = G.pick_fork(s)
    no = tip_number(s, fork)
    pf = pick_pf(s, fork, no)
    tip = gen_tip(s, fork, no, pf)
    anc = gen_anc(s, fork, s.pick([1, 2, 8]), tip, pf)
    pre = {EOA[0]: dict(nonce=0, balance=10**20)}
    if fork >= PRAGUE:
        G.sys_pre(s, fork, pre)
    ch = Chain(anc, world_of(pre))
    blocks = []
    n = s.int(1, 3)
    for i in range(n):
        b, ch2 = gen_child(s, fork, ch, txs=[])
        b["fork"] = fork
        if s.chance(45):
            k = s.pick(header_targets(fork))
            mb = dict(b, h=dict(b["h"]))
            mutate_field(s, fork, mb["h"], ch.blocks[-1][1], k)
            if fork < PARIS and s.chance(10):
                mb = dict(b, pow=False)
            blocks.append(mb)
        blocks.append(b)
        ch = ch2
    return dict(anc=anc, pre=pre, chain_id=1, blocks=blocks)


def run_chain(c, res):
    run_history(c, res)
    res.nontrivial = True


preload()
SUITES = [
    Suite("fields", make_fields, run_fields, 36000, None,
          "a header derived from a generated parent (same or previous fork, "
          "numbers near fork and bomb boundaries) by the rules, with 0-2 "
          "fields moved to or past their boundary; every case counts"),
    Suite("chain", make_chain, run_chain, 4000, None,
          "histories of 1-3 empty blocks through state_transition with "
          "invalid variants offered before the valid block; every case "
          "counts"),
]
