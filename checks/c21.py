"""C21: protocol formulas are exact for all inputs."""
from lib.pbt import Suite
from lib.chain import *
from lib.adapt import preload, U256, Bytes32

ASSUME = ("Excess blob gas above 60,000,000 is not generated for prices (the "
          "price has thousands of digits there); timestamps stay below "
          "2^250; parent gas limits are at least 1024 and their targets "
          "non-zero, as for every block the rules accept.")


def big(s, lo, hi):
    """Log-uniform-ish integer in [lo, hi]."""
    return min(hi, lo + s.below(2 ** s.int(1, max(1, hi.bit_length()))))


# ------------------------------------------------------------ difficulty
def make_diff(s):
    fork = s.int(0, PARIS - 1)
    d = BOMB_DELAY.get(fork, 0)
    n = s.weighted([
        (3, d + 100000 * s.int(1, 40) + s.pick([-1, 0, 1])),
        (1, max(1, d + s.pick([-1, 0, 1]))), (1, 1), (2, big(s, 1, 2**34)),
        (1, d + 200000 + s.pick([-2, -1, 0, 1]))])
    pd = s.weighted([(2, 131072), (1, 131072 + s.below(5000)), (1, 2048 * 64),
                     (1, 2048 * s.int(64, 2**40) + s.pick([0, 1, 2047])),
                     (3, big(s, 131072, 2**80))])
    pt = big(s, 0, 2**40)
    dt = s.weighted([(2, s.int(1, 40)), (1, 13), (1, 12), (1, 9), (1, 10),
                     (1, s.int(880, 1030)), (1, 990), (1, 999), (1, 1000),
                     (1, 1001), (1, big(s, 1, 2**60)), (1, 909), (1, 910)])
    return dict(fork=fork, n=n, pd=pd, pt=pt, dt=dt, om=s.bool())


def run_diff(c, res):
    F = Fork(c["fork"])
    f = c["fork"]
    kw = dict(block_number=Uint(c["n"]),
              block_timestamp=U256(c["pt"] + c["dt"]),
              parent_timestamp=U256(c["pt"]),
              parent_difficulty=Uint(c["pd"]))
    if f >= BYZANTIUM:
        kw["parent_has_ommers"] = c["om"]
    got = int(F.fork.calculate_block_difficulty(**kw))
    want = rules.difficulty(f, c["n"], c["pt"] + c["dt"], c["pt"], c["pd"],
                            c["om"])
    res.eq("difficulty", got, want, NAMES[f])
    res.tag(NAMES[f])
    p = (c["n"] - BOMB_DELAY.get(f, 0)) // 100000 - 2
    res.tag("bomb" if p >= 0 else "no-bomb",
            "floor" if want == 131072 else "above-floor")
    res.nontrivial = True


# ------------------------------------------------------------ gas limit
def make_limit(s):
    p = s.weighted([(1, 5000), (2, s.int(5000, 7000)), (1, 30_000_000),
                    (1, 1024 * s.int(5, 2**20) + s.pick([-1, 0, 1])),
                    (2, big(s, 5000, 2**63))])
    d = p // 1024
    g = s.weighted([(4, p + s.pick([-1, 1]) * d + s.pick([-1, 0, 1])),
                    (1, p), (1, s.int(4998, 5002)), (1, big(s, 0, 2**63)),
                    (1, p + s.int(-d, d))])
    return dict(fork=G.pick_fork(s), g=max(0, g), p=p)


def run_limit(c, res):
    F = Fork(c["fork"])
    got = F.fork.check_gas_limit(Uint(c["g"]), Uint(c["p"]))
    want = rules.gas_limit_ok(c["g"], c["p"])
    res.eq("gas-limit", bool(got), want, repr(c))
    res.tag("ok" if want else "not-ok")
    res.nontrivial = True


# ------------------------------------------------------------ base fee
def make_base(s):
    p = s.weighted([(2, 30_000_000), (1, s.int(5000, 6000)),
                    (2, big(s, 5000, 2**40)), (1, 5001)])
    t = p // 2
    u = s.weighted([(1, t), (1, t + 1), (1, max(0, t - 1)), (1, 0), (1, p),
                    (1, 2 * t), (4, s.below(p + 1)),
                    (1, min(p, t + t // 8)), (1, t - t // 8)])
    f = s.weighted([(1, 0), (1, s.below(20)), (1, 7), (1, 8), (1, 10**9),
                    (3, big(s, 0, 2**80)), (1, 8 * s.below(2**30))])
    steps = [s.below(p + 1) if s.bool() else s.pick([0, p, t])
             for _ in range(s.below(12))]
    return dict(fork=s.int(LONDON, OSAKA), p=p, u=u, f=f, g=p, steps=steps)


def run_base(c, res):
    F = Fork(c["fork"])
    fee, used = c["f"], c["u"]
    for nxt in c["steps"] + [None]:
        got = int(F.fork.calculate_base_fee_per_gas(
            Uint(c["g"]), Uint(c["p"]), Uint(used), Uint(fee)))
        want = rules.next_base_fee(c["p"], used, fee)
        if not res.eq("base-fee", got, want, "limit %d used %d fee %d" % (
                c["p"], used, fee)):
            break
        t = c["p"] // 2
        # laws of EIP-1559, independent of the model
        if used == t and got != fee or used > t and got <= fee or \
                used < t and got > fee:
            res.fail("base-fee-direction")
        odd = c["p"] - 2 * t
        if got > fee + max(1, fee * (t + odd) // (8 * t)) or \
                got < fee - fee // 8:
            res.fail("base-fee-step", "%d -> %d" % (fee, got))
        fee, used = got, nxt
    res.tag(NAMES[c["fork"]])
    res.nontrivial = c["u"] != c["p"] // 2 and c["f"] > 0


# ------------------------------------------------------------ blob gas
def make_excess(s):
    fork = s.int(CANCUN, OSAKA)
    pf = fork - 1 if s.chance(30) else fork
    T = rules.BLOB[fork][0] * 131072
    h = blank_header(pf)
    if pf >= CANCUN:
        h["blob_gas_used"] = 131072 * s.below(rules.BLOB[pf][1] + 1)
        u = h["blob_gas_used"]
        h["excess_blob_gas"] = s.weighted([
            (2, max(0, T - u) + s.pick([0, 1])),
            (1, max(0, T - u - 1)), (1, 0), (1, T),
            (3, 131072 * s.below(400)), (2, s.below(60_000_000)),
            (2, s.int(0, 30) * 1_000_000)])
    h["base_fee"] = s.weighted([
        (1, 0), (1, 7), (1, 16), (1, 15), (1, 17), (2, big(s, 0, 2**40)),
        (2, -1)])
    if h["base_fee"] < 0:
        # at the EIP-7918 threshold
        h["base_fee"] = 16 * rules.blob_price(
            fork, h["excess_blob_gas"]) + s.pick([-1, 0, 1])
    return dict(fork=fork, pf=pf, h=h)


def run_excess(c, res):
    F, P = Fork(c["fork"]), Fork(c["pf"])
    got = int(F.mod("vm.gas").calculate_excess_blob_gas(P.header(c["h"])))
    pre = c["pf"] < CANCUN
    h = c["h"]
    want = rules.next_excess(
        c["fork"], 0 if pre else h["excess_blob_gas"],
        0 if pre else h["blob_gas_used"], 0 if pre else h["base_fee"])
    res.eq("excess", got, want, "%s parent %s" % (
        NAMES[c["fork"]], NAMES[c["pf"]]))
    res.tag(NAMES[c["fork"]], "zero" if want == 0 else "positive")
    if c["pf"] != c["fork"]:
        res.tag("fork-block")
    T = rules.BLOB[c["fork"]][0] * 131072
    if not pre and want and want != h["excess_blob_gas"] + \
            h["blob_gas_used"] - T:
        res.tag("reserve-price")
    res.nontrivial = not pre


def make_price(s):
    fork = s.int(CANCUN, OSAKA)
    return dict(fork=fork, e=s.weighted([
        (2, s.below(60_000_000)), (1, 131072 * s.below(450)),
        (1, s.below(5_000_000)),
        (1, int(rules.BLOB[fork][2] * 0.6931) + s.int(-3, 4))]),
        n=s.below(10))


def run_price(c, res):
    F = Fork(c["fork"])
    g = F.mod("vm.gas")
    p = int(g.calculate_blob_gas_price(U64(c["e"])))
    res.eq("blob-price", p, rules.blob_price(c["fork"], c["e"]))
    tx = sign_tx(dict(type=3, nonce=0, gas=21000, value=0, to=CON[0],
                      data=b"", chain_id=1, max_fee=1, prio=0, access=[],
                      blob_fee=1, blobs=[b"\x01" * 32] * c["n"]), KEYS[0])
    t = F.tx_obj(tx)
    res.eq("total-blob-gas", int(g.calculate_total_blob_gas(t)),
           131072 * c["n"])
    res.eq("data-fee", int(g.calculate_data_fee(U64(c["e"]), t)),
           131072 * c["n"] * rules.blob_price(c["fork"], c["e"]))
    if c["e"]:
        q = int(g.calculate_blob_gas_price(U64(c["e"] - 1)))
        if q > p:
            res.fail("blob-price-monotone", "%d" % c["e"])
    res.nontrivial = p > 1


def make_exp(s):
    den = s.weighted([(1, 1), (2, s.int(1, 1000)), (2, 3338477),
                      (2, 5007716), (1, big(s, 1, 2**40))])
    return dict(f=s.weighted([(3, 1), (2, s.below(1000)),
                              (1, big(s, 0, 2**64))]),
                n=s.below(40 * den), d=den)


def run_exp(c, res):
    from ethereum.utils.numeric import taylor_exponential
    got = int(taylor_exponential(Uint(c["f"]), Uint(c["n"]), Uint(c["d"])))
    res.eq("fake-exponential", got, rules.fake_exp(c["f"], c["n"], c["d"]))
    # Independent law: the result is f*e^(n/d) up to truncation.
    from fractions import Fraction
    x = Fraction(c["n"], c["d"])
    term = tot = Fraction(c["f"])
    i = 1
    while term > Fraction(1, 10**6) or i < x:
        term = term * x / i
        term = Fraction(int(term * 2**80), 2**80)
        tot += term
        i += 1
        if i > 400:
            break
    slack = 3 + int(tot * i) // c["d"]       # truncation, carried forward
    if got > tot + 2 or c["d"] >= 10**6 and got < tot - slack:
        res.fail("fake-exponential-value", "%r: %d far from %s" % (
            c, got, float(tot)))
    res.nontrivial = c["n"] > 0 and c["f"] > 0


preload()
SUITES = [
    Suite("difficulty", make_diff, run_diff, 150000, None,
          "parent difficulty, timestamps and numbers around bomb, floor "
          "and clamp boundaries, every proof-of-work fork; all count"),
    Suite("gas_limit", make_limit, run_limit, 80000, None,
          "limits at the adjustment bounds of the parent's; all count"),
    Suite("base_fee", make_base, run_base, 60000, None,
          "single steps and trajectories of up to 12 blocks at one gas "
          "limit; non-trivial: usage off target and a non-zero fee"),
    Suite("excess", make_excess, run_excess, 40000, None,
          "parent excess, blob gas and base fee at target and reserve-price "
          "boundaries, parents of the previous fork included; non-trivial: "
          "the parent has blob fields"),
    Suite("price", make_price, run_price, 6000, None,
          "excess blob gas up to 60 million; non-trivial: price above 1"),
    Suite("exponential", make_exp, run_exp, 6000, None,
          "factor, numerator and denominator of the Taylor exponential; "
          "non-trivial: exponent and factor above zero"),
]
