from lib.suites import *

NMAX = 2**64 - 1


def resign(tx, key, s=None):
    prot = tx["type"] == 0 and tx.get("v", 27) > 28
    return sign_tx(tx, key, prot)


def make(s):
    """A valid block with (usually) one rule pushed to or over its edge."""
    fork = any_fork(s)
    blk = gen_blk(s, fork)
    pre = {EOA[i]: dict(nonce=s.pick([0, 0, 3]), balance=10**24)
           for i in range(3)}
    pre[CON[0]] = dict(nonce=1, code=s.pick([b"", b"\x00", b"\x5a\x50"]))
    if fork >= PRAGUE:
        for x in (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ):
            pre[x] = dict(nonce=1, code=b"\x00")
    nn = {a: c["nonce"] for a, c in pre.items()}
    n = s.pick([1, 1, 2, 3])
    types = tx_types(fork)
    if s.chance(35) and len(types) > 1:
        types = types[-2:]
    txs = []
    for i in range(n):
        t = s.pick(types)
        to = "create" if t < 3 and s.chance(25) else CON[0]
        txs.append(gen_tx(s, fork, blk, nn, [CON[0]], types=[t], to=to,
                          gas=s.pick([100_000, 200_000]),
                          data=s.pick([b"", b"\x00", b"\x00" * 9 + b"\x01",
                                       b"\x01" * 40])))
    # which transaction to disturb, and how
    i = s.below(n)
    tx = txs[i]
    key = key_of(fork, tx, blk["chain_id"])
    sender = EOA[KEYS.index(key)]
    d = s.int(-1, 1)
    dims = ["none", "nonce", "nonce_max", "gas_intrinsic", "gas_block",
            "balance", "code", "sig", "create_size", "fee_base", "value",
            "chain", "block_sum"]
    if tx["type"] >= 2:
        dims += ["prio", "prio_max", "fee_base"]
    if tx["type"] == 3:
        dims += ["blob_fee", "blob_count", "blob_version", "no_blobs",
                 "blob_create", "blob_sum", "balance"]
    if tx["type"] == 4:
        dims += ["no_auths", "auth_create", "auth_weird"]
    if fork >= OSAKA:
        dims += ["gas_cap"]
    if fork >= PRAGUE:
        dims += ["floor", "code", "floor"]
    if fork < PRAGUE:
        dims += ["unsupported"]
    dim = s.pick(dims)
    prot = tx["type"] == 0 and tx["v"] > 28

    def redo():
        sign_tx(tx, key, prot)

    if dim == "nonce":
        tx["nonce"] = max(0, tx["nonce"] + s.pick([-1, 1, 2**32]))
        redo()
    elif dim == "nonce_max":
        v = NMAX + s.int(-2, 1)
        pre[sender]["nonce"] = min(v, NMAX)
        k = 0
        for t in txs:
            if key_of(fork, t, blk["chain_id"]) == key:
                t["nonce"] = v + k
                if t["type"] == 4:
                    t["nonce"] = min(t["nonce"], NMAX)
                k += 1
                sign_tx(t, key, t["type"] == 0 and t["v"] > 28)
    elif dim == "gas_intrinsic":
        g, f = rules.intrinsic(fork, tx)
        tx["gas"] = max(g, f) + d
        redo()
    elif dim == "floor":
        tx["data"] = s.pick([b"\x00" * 500, b"\x01" * 300,
                             b"\x01" * 100 + b"\x00" * 77])
        g, f = rules.intrinsic(fork, tx)
        tx["gas"] = f + s.int(-1, 1) if s.chance(70) else g + s.int(-1, 1)
        redo()
    elif dim == "gas_block":
        blk["gas_limit"] = sum(t["gas"] for t in txs[:i]) + tx["gas"] + d
        if i and s.bool():
            # against what is really left
            try:
                out = RB.run_body(fork, world_of(pre), blk_of(
                    dict(blk, gas_limit=30_000_000)), txs[:i], [])
                blk["gas_limit"] = out.gas_used + tx["gas"] + d
            except RB.Reject:
                pass
    elif dim == "block_sum":
        blk["gas_limit"] = sum(t["gas"] for t in txs) + d
    elif dim == "balance":
        need = RB.max_cost(tx)
        if i == 0 or s.bool():
            # only transactions of this sender matter; keep just this one
            txs = [tx]
            tx["nonce"] = pre[sender]["nonce"]
            redo()
        if s.chance(40):
            tx["value"] = 10**20 if tx["value"] == 0 else 0
            redo()
            need = RB.max_cost(tx)
        pre[sender]["balance"] = min(max(0, need + d), M256 - 1)
    elif dim == "code":
        pre[sender]["code"] = s.pick([
            b"\xef\x01\x00" + CON[0], b"\xef\x01\x00" + CON[0] + b"\x00",
            b"\xef\x01\x00" + s.below(2**s.pick([4, 8, 160])).to_bytes(
                20, "big"),
            b"\xef\x01\x00" + CON[0][:19], b"\xef\x01\x01" + CON[0],
            b"\x00", b"\xef\x00\x01" + CON[0], b"\xef\x01\x00" + sender,
            b"\xee\x01\x00" + CON[0]])
    elif dim == "sig":
        k = s.below(8)
        if k == 0:
            tx["s"] = SECP_N - tx["s"]
            if s.bool():
                tx["v"] = tx["v"] ^ 1 if tx["type"] else (
                    tx["v"] + 1 if tx["v"] % 2 else tx["v"] - 1)
        elif k == 1:
            tx["r"] = s.pick([0, SECP_N, SECP_N - 1, M256 - 1])
        elif k == 2:
            tx["s"] = s.pick([0, SECP_N, SECP_N - 1, M256 - 1, 1,
                              SECP_N // 2, SECP_N // 2 + 1])
        elif k == 3:
            tx["v"] = s.pick([0, 1, 2, 26, 27, 28, 29, 35, 36, 37, 38, 255,
                              2**64, 36 + 2 * blk["chain_id"],
                              37 + 2 * blk["chain_id"]])
        elif k == 4:
            tx["value"] += 1        # breaks the signature: another sender
        elif k == 5:
            tx["r"] = (tx["r"] + 1) % M256
        else:
            tx["data"] = tx["data"] + b"\x00"
    elif dim == "create_size":
        m = s.pick([49151, 49152, 49153, 49184, 24577])
        tx["to"] = None if tx["type"] < 3 else tx["to"]
        tx["data"] = b"\x00" * m
        tx["gas"] = 1_000_000
        redo()
    elif dim == "fee_base":
        b = blk["base_fee"] or 0
        if tx["type"] < 2:
            tx["gas_price"] = max(0, b + d)
        else:
            tx["max_fee"] = max(0, b + d)
            tx["prio"] = min(tx["prio"], tx["max_fee"])
        redo()
    elif dim == "prio":
        tx["prio"] = max(0, tx["max_fee"] + d)
        redo()
    elif dim == "prio_max":
        tx["prio"] = s.pick([2**255, M256 - 1])
        if s.bool():
            tx["max_fee"] = M256 - 1
        redo()
    elif dim == "value":
        tx["value"] = s.pick([M256 - 1, 2**255, 10**24, 10**24 + 1])
        redo()
    elif dim == "chain":
        if tx["type"] == 0:
            w = s.pick([blk["chain_id"] + 1, 0, 2**32])
            h = RB.signing_hash(dict(tx, chain_id=w))
            y, r, s_ = k1_sign(h, key)
            tx["v"], tx["r"], tx["s"] = 35 + 2 * w + y, r, s_
        else:
            tx["chain_id"] = s.pick([blk["chain_id"] + 1, 0, NMAX])
            redo()
    elif dim == "blob_fee":
        tx["blob_fee"] = max(0, rules.blob_price(fork, blk["excess"]) + d)
        redo()
    elif dim == "blob_count":
        m = s.pick([5, 6, 7, 8, 9, 10])
        tx["blobs"] = [b"\x01" + bytes([j]) * 31 for j in range(m)]
        redo()
    elif dim == "blob_sum":
        tot = s.pick([6, 7, 9, 10, 8])
        rest = tot
        txs = []
        sn = {}
        while rest > 0:
            m = min(rest, s.pick([1, 2, 3, 6]))
            t = gen_tx(s, fork, blk, dict(nn_of(pre, sn)), [CON[0]],
                       types=[3], to=CON[0], sender=0, gas=100_000)
            t["nonce"] = pre[EOA[0]]["nonce"] + len(txs)
            t["blobs"] = [b"\x01" + bytes([j]) * 31 for j in range(m)]
            sign_tx(t, KEYS[0])
            txs.append(t)
            rest -= m
    elif dim == "blob_version":
        j = s.below(len(tx["blobs"]))
        tx["blobs"][j] = bytes([s.pick([0, 2, 255])]) + tx["blobs"][j][1:]
        redo()
    elif dim == "no_blobs":
        tx["blobs"] = []
        redo()
    elif dim in ("blob_create", "auth_create"):
        tx["to"] = None
        redo()
    elif dim == "no_auths":
        tx["auths"] = []
        redo()
    elif dim == "auth_weird":
        tx["auths"] = [dict(chain_id=s.pick([0, 1, 2**64, M256 - 1]),
                            address=CON[0], nonce=s.pick([0, NMAX]),
                            y=s.pick([0, 1, 27, 255]),
                            r=s.pick([0, 1, SECP_N, M256 - 1]),
                            s=s.pick([0, 1, SECP_N, M256 - 1]))
                       for _ in range(s.int(1, 2))]
        redo()
    elif dim == "gas_cap":
        tx["gas"] = 2**24 + d
        redo()
    elif dim == "unsupported":
        t = s.pick([t for t in range(5) if t not in tx_types(fork)])
        # only meaningful where typed envelopes exist at all
        if fork >= BERLIN:
            tx.update(type=t, gas_price=10**10, max_fee=10**10, prio=1,
                      access=[], blob_fee=10**9, blobs=[b"\x01" * 32],
                      auths=[make_auth(0, CON[0], 0, KEYS[5])])
            if t >= 3 and tx["to"] is None:
                tx["to"] = CON[0]
            redo()
    c = G.case(fork, blk, pre, txs)
    c["tags"] = ["dim:" + dim]
    return c


def nn_of(pre, sn):
    return {a: c.get("nonce", 0) for a, c in pre.items()}


def run(c, res):
    want, w, got, st = G.run_case_body(Fork(c["fork"]), c, res)
    res.tag(c["fork"], *c["tags"])
    res.nontrivial = c["tags"] != ["dim:none"]


# share of the larger suites' cases that the quick tier runs
QUICK_SCALE = 0.65
SUITES = [
    Suite("admission", make, run, 38000, None,
          "valid blocks of 1-3 transactions with one validity rule moved to "
          "its edge or over it (nonce, gas, fees, balance, code, signature, "
          "chain, sizes, blobs, authorizations, type); non-trivial: a rule "
          "was moved"),
]
