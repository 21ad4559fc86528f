"""C25: set-code authorizations delegate accounts exactly as signed."""
from lib.suites import *
from refspec.prim import WRAP_R

ASSUME = "No assumption beyond the generated pre-states."
MIX = dict(store=6, sload=3, env=6, acct=6, call=8, copy=4, create=2, log=2,
           sd=2, ret=2, revert=2, invalid=1, expr=2, mem=2, transient=1,
           stop=1, refund=1)
HALF = SECP_N // 2


def delegation(a):
    return b"\xef\x01\x00" + a


def gen_auth(s, blk, nonces, targets, keys):
    """One authorization and what was done to it."""
    i = s.pick(keys)
    who = EOA[i]
    k = s.weighted([(12, "valid"), (1, "chain"), (2, "nonce"), (1, "max"),
                    (1, "y"), (1, "wrap"), (1, "high-s"), (1, "r"), (1, "s"),
                    (1, "addr"), (1, "noise")])
    cid = s.pick([blk["chain_id"], blk["chain_id"], 0])
    nonce = nonces.get(who, 0)
    if k == "chain":
        cid = s.pick([blk["chain_id"] + 1, 2**256 - 1, 2**64,
                      blk["chain_id"] + 2**64])
    elif k == "nonce":
        nonce = min(max(0, nonce + s.pick([1, -1, 2, 2**32])), 2**64 - 1)
    elif k == "max":
        nonce = s.pick([2**64 - 1, 2**64 - 2])
    nonce = min(nonce, 2**64 - 1)
    a = make_auth(cid, s.pick(targets), nonce, KEYS[i])
    if k == "y":
        a["y"] = s.pick([1 - a["y"], 2, 3, 27, 28, 255])
    elif k == "wrap":
        # nobody's key: whatever account it recovers to has nonce zero
        a = make_auth(cid, a["address"], 0, KEYS[i])
        a["r"], a["y"] = s.pick(WRAP_R), s.pick([0, 1, 2, 2, 3, 3])
    elif k == "high-s":
        a["s"], a["y"] = SECP_N - a["s"], 1 - a["y"]
        if s.bool():
            a["y"] = 1 - a["y"]
    elif k == "r":
        a["r"] = s.pick([0, 1, SECP_N, SECP_N - 1, 2**256 - 1,
                         SECP_N + a["r"] if SECP_N + a["r"] < M256 else 5])
    elif k == "s":
        a["s"] = s.pick([0, 1, HALF, HALF + 1, SECP_N, 2**256 - 1])
    elif k == "addr":
        a["address"] = s.bytes(20)
    elif k == "noise":
        a["r"], a["s"] = s.bytes(32), s.bytes(32)
        a["r"] = int.from_bytes(a["r"], "big")
        a["s"] = int.from_bytes(a["s"], "big") % (HALF + 1)
    ok = cid in (0, blk["chain_id"]) and k in ("valid", "addr") \
        and nonce == nonces.get(who, 0)
    if ok:
        nonces[who] = nonces.get(who, 0) + 1
    return a, k


def prober(s, fork, pool):
    """Looks at delegated accounts from outside, measuring gas."""
    a = Asm(fork)
    k = 0x50
    for _ in range(s.int(1, 5)):
        x = int.from_bytes(s.pick(pool), "big")
        o = s.below(8)
        gas = s.chance(40)
        if gas:
            a.op(0x5A)
        if o == 0:
            a.push(x).op(0x3B)
        elif o == 1:
            a.push(x).op(0x3F)
        elif o == 2:
            a.push(32).push(0).push(0).push(x).op(0x3C)
            a.push(0).op(0x51)
        elif o == 3:
            a.push(x).op(0x31)
        else:
            op = s.pick([0xF1, 0xF1, 0xF2, 0xF4, 0xFA])
            a.push(s.pick([0, 32])).push(0).push(s.pick([0, 4])).push(0)
            if op in (0xF1, 0xF2):
                a.push(s.pick([0, 0, 1]))
            a.push(x)
            if s.bool():
                a.op(0x5A)
            else:
                a.push(s.pick([0, 700, 2600, 30000, 60000]))
            a.op(op)
        a.push(k).op(0x55)
        if gas:
            a.op(0x5A, 0x90, 0x03).push(k + 0x20).op(0x55)
        k += 1
    return a.build()


def make(s):
    fork = s.pick([PRAGUE, OSAKA])
    blk = gen_blk(s, fork)
    who = EOA[:7]
    tg = [CON[0], CON[1], CON[2], CON[0], CON[1], b"\0" * 20, EOA[3], EOA[4],
          num_addr(s.pick([1, 2, 4, 5, 9, 0xb, 0x100])), FRESH[0],
          RB.WITHDRAWAL_REQ, blk["coinbase"]]
    pool = EOA[:7] + CON[:3]
    pre = {}
    for i in range(7):
        k = s.below(6)
        if i < 3:
            d = dict(nonce=s.pick([0, 0, 1, 5]), balance=10**24)
        elif k < 2:
            continue
        else:
            d = dict(nonce=s.pick([0, 1, 2**64 - 2, 2**64 - 1])
                     if s.chance(20) else 0, balance=s.pick([1, 10**18]))
        if s.chance(30):
            d["code"] = delegation(s.pick(tg))
            d["nonce"] = max(d["nonce"], 1)
        elif s.chance(7):
            d["code"] = s.pick([b"\x00", delegation(CON[0])[:-1],
                                delegation(CON[0]) + b"\0", b"\xef\x01\x01"
                                + CON[0], b"\xef\x00\x00" + CON[0],
                                b"\xef\x01\x00"])
        d["storage"] = {j: s.pick([1, 2]) for j in range(3)
                        if s.chance(25)} if d.get("code") else {}
        pre[EOA[i]] = d
    for i in range(3):
        pre[CON[i]] = dict(
            nonce=1, balance=s.pick([0, 5]),
            code=prober(s, fork, pool) if s.chance(50) else
            Prog(s, fork, MIX, pool, 3).code(),
            storage={j: 1 for j in range(3) if s.bool()})
    if s.chance(10):
        pre[CON[2]]["code"] = delegation(s.pick(tg))
    for a in (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ):
        pre[a] = dict(nonce=1, code=b"\x00")
    nn = {a: c.get("nonce", 0) for a, c in pre.items()}
    txs, tags = [], []
    for _ in range(s.int(1, 3)):
        snd = s.below(3)
        auths = None
        typ = s.weighted([(5, 4), (1, 0), (1, 2)])
        me = nn.get(EOA[snd], 0)
        kw = {}
        if typ == 4:
            # the sender's nonce is bumped before its own authorizations
            nn[EOA[snd]] = me + 1
            auths = []
            for _ in range(s.weighted([(4, 1), (4, 2), (2, 3), (1, 6)])):
                a, k = gen_auth(s, blk, nn, tg,
                                [snd, 0, 3, 4, 5, 3, 4, 5, 6])
                auths.append(a)
                tags.append("auth:" + k)
            if s.chance(10) and len(auths) > 1:
                auths.append(auths[0])
                tags.append("auth:replayed")
            after = nn[EOA[snd]]
            nn[EOA[snd]] = me
        tx = gen_tx(s, fork, blk, nn, EOA[3:7] * 2 + EOA[:3] + CON[:3],
                    types=[typ], sender=snd, auths=auths,
                    gas=s.pick([1_000_000, 1_000_000, 400_000]),
                    to="create" if typ != 4 and s.chance(15) else None,
                    **kw)
        if typ == 4:
            nn[EOA[snd]] = after
        txs.append(tx)
    c = G.case(fork, blk, pre, txs, tags=tags)
    G.tighten(s, fork, c)
    return c


def nt(want, c):
    return bool(want.stats.get("auth_applied")
                or want.stats.get("delegated_tx")
                or any(t.startswith("auth:") for t in c.get("tags", ())))


def run(c, res):
    want, w, got, st = run_body_case(nt)(c, res)
    if want is None or got is None:
        return
    # a plain restatement for the accounts whose keys are known
    F = Fork(c["fork"])
    for a in EOA[:7]:
        r = F.read_account(st, a)
        if r is None:
            continue
        if r[2][:3] == b"\xef\x01\x00" and len(r[2]) == 23:
            res.tag("ends-delegated")
            if r[2][3:] == b"\0" * 20 and c["pre"].get(a, {}).get(
                    "code", b"")[3:] != b"\0" * 20:
                res.fail("designator", "delegated to the zero address")
            was = c["pre"].get(a, {})
            if was.get("code", b"") != r[2] and \
                    r[0] <= was.get("nonce", 0):
                res.fail("nonce", "delegation set without a nonce bump")


# --------------------------------------------- one authorization, all edges
def make_one(s):
    """A single authorization against one authority state; empty call."""
    fork = s.pick([PRAGUE, OSAKA])
    blk = gen_blk(s, fork)
    nonce = s.pick([0, 0, 1, 7, 2**64 - 2, 2**64 - 1])
    pre = {EOA[0]: dict(nonce=0, balance=10**24)}
    if s.chance(70):
        pre[EOA[3]] = dict(nonce=nonce, balance=s.pick([0, 1]) if nonce
                           else 1)
        if s.chance(40):
            pre[EOA[3]]["code"] = s.weighted([
                (4, delegation(CON[0])), (1, delegation(FRESH[0])),
                (1, b"\x00"), (1, delegation(CON[0])[:-1]),
                (1, delegation(CON[0]) + b"\0"),
                (1, b"\xef\x01\x01" + CON[0])])
    else:
        nonce = 0
    for a in (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ):
        pre[a] = dict(nonce=1, code=b"\x00")
    pre[CON[0]] = dict(nonce=1, code=prober(s, fork, [EOA[3]]))
    a, k = gen_auth(s, blk, {EOA[3]: nonce}, [CON[0], FRESH[0], b"\0" * 20,
                                              num_addr(4)], [3])
    tx = gen_tx(s, fork, blk, {}, [FRESH[1], EOA[3], CON[0]], types=[4],
                sender=0, auths=[a], value=0)
    return G.case(fork, blk, pre, [tx], tags=["auth:" + k])


SUITES = [
    body_suite("one", make_one, 7000,
               "one authorization (chain id, nonce, signature and address "
               "edges) against an absent, plain, delegated or coded "
               "authority; every accepted case", nt=always),
    Suite("bodies", make, run, 6500, None,
          "1-3 transactions with up to 7 authorizations each, delegated "
          "senders and callees, targets that are delegated, precompiles, "
          "missing or clearing, observers measuring code and gas; "
          "non-trivial: an authorization was present or delegated code ran"),
]
