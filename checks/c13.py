from lib.suites import *
from lib.adapt import Bytes, Bytes20, Bytes32, Bytes256, U256, Uint, _rlp
from ethereum_rlp import rlp


def make(s):
    """Blocks of log-emitting frames, some of which fail."""
    fork = any_fork(s)
    pre = {EOA[i]: dict(nonce=0, balance=10**24) for i in range(3)}
    if fork >= PRAGUE:
        for x in (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ):
            pre[x] = dict(nonce=1, code=b"\x00")
    for i in range(4):
        a = Asm(fork)
        a.push(int.from_bytes(s.bytes(32), "big")).push(0).op(0x52)
        for _ in range(s.int(1, 6)):
            k = s.below(10)
            if k < 6:
                n = s.below(5)
                for j in range(n):
                    a.push(s.pick([0, 1, 2**255, M256 - 1]) if s.bool()
                           else word(s))
                a.push(s.pick([0, 0, 1, 31, 32, 33, 64, 100]))
                a.push(s.pick([0, 0, 1, 32, 500])).op(0xA0 + n)
            elif k < 9 and i < 3:
                kinds = [0xF1, 0xF1, 0xF2]
                if fork >= HOMESTEAD:
                    kinds.append(0xF4)
                if fork >= BYZANTIUM:
                    kinds.append(0xFA)
                kd = s.pick(kinds)
                a.push(0).push(0).push(0).push(0)
                if kd in (0xF1, 0xF2):
                    a.push(s.pick([0, 0, 1]))
                a.push(int.from_bytes(CON[s.int(i + 1, 3)], "big"))
                a.push(s.pick([200000, 100000, 30000, 2000])).op(kd, 0x50)
            else:
                # a constructor that logs
                init = b"\x60\x01\x60\x00\xa0" + s.pick(
                    [b"\x00", b"\xfe", b"\x60\x00\x60\x00\xf3",
                     b"\x30\xff"])
                a.load_data(init, 64)
                a.push(len(init)).push(64).push(0).op(0xF0, 0x50)
        e = s.below(9)
        if e == 0:
            a.op(0xFE)
        elif e == 1 and fork >= BYZANTIUM:
            a.push(0).push(0).op(0xFD)
        elif e == 2:
            a.push(int.from_bytes(EOA[1], "big")).op(0xFF)
        pre[CON[i]] = dict(nonce=1, balance=5, code=a.build())
    blk = gen_blk(s, fork)
    nn, txs = {}, []
    m = s.int(1, 5) if s.chance(95) else s.int(16, 20)
    for i in range(m):
        txs.append(gen_tx(
            s, fork, blk, nn, [CON[0], CON[0], CON[1], CON[2], EOA[1]],
            types=[t for t in tx_types(fork) if t != 3 or i < 3],
            gas=s.pick([600_000, 600_000, 200_000, 100_000])))
    return bound_gas(s, fork, G.case(fork, blk, pre, txs), pct=20,
                     i=s.below(m))


def make_long(s):
    """Blocks long enough for two- and three-byte trie indices."""
    fork = any_fork(s)
    pre = {EOA[i]: dict(nonce=0, balance=10**24) for i in range(3)}
    # log the value, with calldata's first word as topic
    pre[CON[0]] = dict(nonce=1, balance=0, code=bytes.fromhex(
        "3460005260003560206000a100"))
    pre[CON[1]] = dict(nonce=1, balance=0, code=bytes.fromhex(
        "60006000a0fe"))
    if fork >= PRAGUE:
        for x in (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ):
            pre[x] = dict(nonce=1, code=b"\x00")
    blk = gen_blk(s, fork)
    n = s.pick([127, 128, 129, 130, 140, 180]) if s.chance(85) else \
        s.pick([255, 256, 257, 258, 270])
    bf = blk["base_fee"] or 0
    nn, txs = [0, 0, 0], []
    for i in range(n):
        j = s.below(3)
        to = s.pick([CON[0], CON[0], CON[0], CON[1], EOA[2], FRESH[0]])
        typ = s.pick(tx_types(fork)[:3])
        tx = dict(type=typ, nonce=nn[j], gas=s.pick([60000, 50000]),
                  value=s.below(3) if to != CON[1] else 0, to=to,
                  data=s.pick([b"", i.to_bytes(32, "big")]),
                  chain_id=blk["chain_id"])
        if typ < 2:
            tx["gas_price"] = bf + s.below(3)
        else:
            tx["prio"] = s.below(3)
            tx["max_fee"] = bf + 2
        if typ:
            tx["access"] = []
        nn[j] += 1
        txs.append(sign_tx(tx, KEYS[j], protected=fork >= SPURIOUS
                           and s.bool()))
    return G.case(fork, blk, pre, txs)


def run(c, res):
    want, w, got, st = run_body_case(
        lambda want, c: bool(want.logs))(c, res)
    if want is None or got is None:
        return
    F = Fork(c["fork"])
    # block bloom over all logs, and decoding of what was stored
    bl = bytes(F.mod("bloom").logs_bloom(got.block_logs))
    res.eq("block-bloom", bl, RB.bloom_of(
        [(bytes(a), t, d) for a, t, d in want.logs]))
    for i, r in enumerate(want.receipts):
        raw = F.trie.trie_get(got.receipts_trie, rlp.encode(Uint(i)))
        check_receipt(F, res, raw, r)


def check_receipt(F, res, raw, r):
    try:
        o = F.blocks.decode_receipt(raw) if F.k >= BERLIN else raw
    except Exception as e:
        res.fail("receipt-decode", "%s: %s" % (type(e).__name__, e))
        return
    if F.k >= BERLIN:
        typed = isinstance(raw, (bytes, bytearray))
        if typed != (r["type"] != 0) or (typed and raw[0] != r["type"]):
            res.fail("receipt-type", "type prefix of receipt")
    if F.k >= BYZANTIUM:
        res.eq("receipt-status", bool(o.succeeded), r["ok"])
    else:
        res.eq("receipt-root", bytes(o.post_state), r["root"])
    res.eq("receipt-gas", int(o.cumulative_gas_used), r["gas"])
    res.eq("receipt-bloom", bytes(o.bloom), r["bloom"])
    res.eq("receipt-logs", [F.log(x) for x in o.logs],
           [(a, list(t), d) for a, t, d in r["logs"]])


# ---- bloom and receipt codec directly
def make_codec(s):
    k = any_fork(s)
    logs = [[s.bytes(20), [s.bytes(32) for _ in range(s.below(5))],
             s.blob(40)] for _ in range(s.pick([0, 1, 2, 3, 10, 60]))]
    return dict(fork=NAMES[k], logs=logs, type=s.pick(tx_types(k)),
                ok=s.bool(), gas=s.below(2**s.pick([1, 20, 64])),
                root=s.bytes(32))


def run_codec(c, res):
    F = Fork(c["fork"])
    B = F.blocks
    logs = tuple(B.Log(address=Bytes20(a),
                       topics=tuple(Bytes32(t) for t in ts), data=Bytes(d))
                 for a, ts, d in c["logs"])
    mlogs = [(a, list(t), d) for a, t, d in c["logs"]]
    bloom = bytes(F.mod("bloom").logs_bloom(logs))
    res.eq("bloom", bloom, RB.bloom_of(mlogs))
    kw = dict(cumulative_gas_used=Uint(c["gas"]), bloom=Bytes256(bloom),
              logs=logs)
    if F.k >= BYZANTIUM:
        rec = B.Receipt(succeeded=c["ok"], **kw)
    else:
        rec = B.Receipt(post_state=Bytes32(c["root"]), **kw)
    mr = dict(type=c["type"], ok=c["ok"], gas=c["gas"], bloom=bloom,
              logs=mlogs, root=c["root"] if F.k < BYZANTIUM else None)
    raw = rec
    if F.k >= BERLIN:
        tx = dict(type=c["type"], nonce=0, gas=21000, value=0, to=CON[0],
                  data=b"", chain_id=1, gas_price=1, max_fee=1, prio=1,
                  access=[], blob_fee=1, blobs=[b"\x01" * 32],
                  auths=[], v=0, r=1, s=1)
        raw = B.encode_receipt(F.tx_obj(tx), rec)
        if B.decode_receipt(raw) != rec:
            res.fail("receipt-roundtrip", "decode(encode(r)) != r")
    e = bytes(raw) if isinstance(raw, (bytes, bytearray)) else \
        bytes(rlp.encode(raw))
    res.eq("receipt-encoding", e, RB.receipt_encode(mr))
    if rlp.decode_to(B.Receipt, rlp.encode(rec)) != rec:
        res.fail("receipt-rlp", "receipt does not survive RLP")
    res.tag(c["fork"])
    res.nontrivial = len(logs) > 0


# share of the larger suites' cases that the quick tier runs
QUICK_SCALE = 0.85
SUITES = [
    Suite("receipts", make, run, 15000, None,
          "blocks of 1-20 transactions whose frames log and then return, "
          "revert, halt or self-destruct; every receipt compared and "
          "decoded; non-trivial: a log survived"),
    Suite("long", make_long, run, 110, None,
          "blocks of 127-270 short transactions, so that trie indices need "
          "two and three bytes; non-trivial: a log survived"),
    Suite("codec", make_codec, run_codec, 12000, None,
          "random logs and receipts of every type through bloom, encoding "
          "and decoding; non-trivial: at least one log"),
    mix_suite("programs", 4000, dict(
        log=10, call=6, revert=2, invalid=2, create=2, mem=2, sd=1, ret=1),
        "log-heavy structured blocks; non-trivial: a log survived",
        lambda want, c: bool(want.logs)),
]
