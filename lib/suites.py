"""Shared suite builders: block bodies run on implementation and reference."""
from lib.pbt import Suite, Result, Src
from lib import gen as G
from lib.gen import *
from lib.adapt import (Fork, REJECTS, body_case, state_diff, FORKS,
                       preload, compare_outputs)


def run_body_case(nt):
    def run(c, res):
        want, w, got, st = G.run_case_body(Fork(c["fork"]), c, res)
        res.tag(c["fork"])
        for x in c.get("tags", ()):
            res.tag(x)
        if want is not None:
            for t in want.traces:
                res.tag("tx-ok" if t["ok"] else "tx-failed")
            for k in want.stats:
                if k != "max_depth":
                    res.tag("did:" + k)
            res.nontrivial = bool(nt(want, c))
        return want, w, got, st
    return run


def stat(*names):
    return lambda want, c: any(want.stats.get(n) for n in names)


def always(want, c):
    return True


def any_ok(want, c):
    return any(t["ok"] for t in want.traces)


def body_suite(name, make, quick, rule, nt=any_ok, thorough=None, fixed=None):
    return Suite(name, make, run_body_case(nt), quick, thorough, rule, fixed)


def mix_suite(name, quick, weights, rule, nt=any_ok, lo=0, hi=17, **kw):
    """gen_body over a statement mix."""
    def make(s):
        return G.gen_body(s, G.pick_fork(s, lo, hi), weights, **kw)
    return body_suite(name, make, quick, rule, nt)


def simple_tx(s, fork, blk, to=CON[0], data=b"", gas=2_000_000, value=0,
              nonce=0, sender=0, **kw):
    tx = dict(type=0, nonce=nonce, gas=gas, value=value, to=to, data=data,
              chain_id=blk["chain_id"],
              gas_price=(blk["base_fee"] or 0) + 10)
    tx.update(kw)
    return sign_tx(tx, KEYS[sender], protected=fork >= SPURIOUS)


def micro(s, fork, code, pre=None, gas=2_000_000, data=b"", value=0,
          blk=None, txs=None, **kw):
    """One contract, one plain transaction."""
    b = blk or gen_blk(s, fork)
    p = {EOA[0]: dict(nonce=0, balance=10**24),
         CON[0]: dict(nonce=1, balance=10**18, code=code)}
    if fork >= PRAGUE:
        p[RB.WITHDRAWAL_REQ] = dict(nonce=1, code=b"\x00")
        p[RB.CONSOLIDATION_REQ] = dict(nonce=1, code=b"\x00")
    if pre:
        p.update(pre)
    t = txs if txs is not None else [
        simple_tx(s, fork, b, gas=gas, data=data, value=value)]
    return G.case(fork, b, p, t, **kw)


def bound_gas(s, fork, c, i=0, pct=50):
    """Move tx i's gas limit to a boundary of what it uses (pct of cases)."""
    if not s.chance(pct):
        return c
    mode, frac = s.below(7), s.below(1001)
    try:
        out = RB.run_body(fork, world_of(c["pre"]), blk_of(c["blk"]),
                          c["txs"][:i + 1], [])
    except RB.Reject:
        return c
    tr = out.traces[i]
    used = tr["used"] + tr["refund"]
    lo = max(tr["intrinsic"], tr["floor"])
    g = (used, used - 1, used + 1, lo + (used - lo) * frac // 1000, lo + frac,
         used - frac, lo)[mode]
    tx = c["txs"][i]
    k = key_of(fork, tx, c["blk"]["chain_id"])
    prot = tx["type"] == 0 and tx["v"] > 28
    tx["gas"] = max(g, lo)
    sign_tx(tx, k, prot)
    return c


def any_fork(s, lo=0, hi=17):
    return s.int(lo, hi)
preload()
