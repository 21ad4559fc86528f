from lib.suites import *
from lib.adapt import Bytes, Bytes20, U64, U256, Uint, _rlp, RLPException
from refspec.prim import (unrlp, rlp, RLPError, keccak, k1_sign, k1_addr,
                          SECP_N, WRAP_R, K1)


def rnd_tx(s, k, types=None):
    t = s.pick(types or tx_types(k)[::-1])
    if t == 0 and s.bool():
        t = s.pick(tx_types(k))

    def num(bits):
        return s.pick([0, 1, 127, 128, 255, 256, 2**(bits // 2),
                       2**bits - 1, s.below(2**bits)])
    tx = dict(type=t, nonce=num(64 if t == 4 else s.pick([64, 256])),
              gas=num(s.pick([64, 300])), value=num(256),
              to=s.pick([None, b"\0" * 20, s.bytes(20), s.bytes(20)]),
              data=s.blob(s.pick([0, 1, 55, 56, 60, 300])),
              chain_id=s.pick([1, 1, 0, 2, 127, 128, 2**32, 2**63 - 1,
                               2**63, 2**64 - 1, s.below(2**64)]))
    if t < 2:
        tx["gas_price"] = num(s.pick([64, 256, 300]))
    else:
        tx["prio"], tx["max_fee"] = num(256), num(256)
    if t:
        tx["access"] = [[s.bytes(20), [s.below(M256)
                                       for _ in range(s.below(3))]]
                        for _ in range(s.pick([0, 0, 1, 2, 5]))]
    if t == 3:
        tx["blob_fee"] = num(256)
        tx["blobs"] = [s.bytes(32) for _ in range(s.below(4))]
    if t >= 3 and tx["to"] is None:
        tx["to"] = s.bytes(20)
    if t == 4:
        tx["auths"] = [dict(chain_id=num(256), address=s.bytes(20),
                            nonce=num(64), y=s.pick([0, 1, 27, 255]),
                            r=num(256), s=num(256))
                       for _ in range(s.below(3))]
    return tx


def make_codec(s):
    k = any_fork(s) if s.chance(65) else s.int(BERLIN, OSAKA)
    tx = rnd_tx(s, k)
    tx.update(v=s.pick([0, 1, 27, 28, 37, 2**64, M256 - 1]),
              r=s.pick([0, 1, s.below(M256)]), s=s.below(M256))
    muts = []
    for _ in range(s.pick([0, 1, 1, 2])):
        muts.append([s.below(9), s.below(2**16), s.below(2**16),
                     s.bytes(s.pick([1, 1, 2, 20, 32]))])
    return dict(fork=NAMES[k], tx=tx, muts=muts)


# ------------------------------------------------ strict reference decoding
def _int(n):
    def f(x):
        if not isinstance(x, bytes) or x[:1] == b"\0" or \
                (n is not None and len(x) > n):
            raise RLPError("int")
    return f


def _fix(*ns):
    def f(x):
        if not isinstance(x, bytes) or (ns and len(x) not in ns):
            raise RLPError("fixed")
    return f


def _seq(g):
    def f(x):
        if not isinstance(x, list):
            raise RLPError("list")
        for y in x:
            g(y)
    return f


def _tup(*gs):
    def f(x):
        if not isinstance(x, list) or len(x) != len(gs):
            raise RLPError("tuple")
        for g, y in zip(gs, x):
            g(y)
    return f


u8, u64, u256, uint = _int(1), _int(8), _int(32), _int(None)
to0, to1, data = _fix(0, 20), _fix(20), _fix()
acl = _seq(_tup(to1, _seq(_fix(32))))
sig = (u256, u256, u256)
SCHEMA = {
    0: _tup(u256, uint, uint, to0, u256, data, *sig),
    1: _tup(u64, u256, uint, uint, to0, u256, data, acl, *sig),
    2: _tup(u64, u256, uint, uint, uint, to0, u256, data, acl, *sig),
    3: _tup(u64, u256, uint, uint, uint, to1, u256, data, acl, u256,
            _seq(_fix(32)), *sig),
    4: _tup(u64, u64, uint, uint, uint, to1, u256, data, acl,
            _seq(_tup(u256, to1, u64, u8, u256, u256)), *sig),
}


def ref_ok(k, raw, typed):
    """Is raw a canonical transaction of the fork?"""
    try:
        if typed:
            if not raw or raw[0] not in tx_types(k) or raw[0] == 0:
                return False
            SCHEMA[raw[0]](unrlp(raw[1:]))
        else:
            SCHEMA[0](unrlp(raw))
        return True
    except RLPError:
        return False


def walk(x, path=()):
    yield path
    if isinstance(x, list):
        for i, y in enumerate(x):
            yield from walk(y, path + (i,))


def mutate(tx, m):
    """A structural or byte-level change of the encoding."""
    kind, a, b, blob = m
    enc = RB.tx_encode(tx)
    t = tx["type"]
    head, body = (enc[:1], enc[1:]) if t else (b"", enc)
    if kind == 0:                               # flip one byte
        i = a % len(body)
        body = body[:i] + bytes([body[i] ^ (1 + b % 255)]) + body[i + 1:]
    elif kind == 1:
        body = body[:a % (len(body) + 1)]
    elif kind == 2:
        body = body + blob
    elif kind == 3 and t:
        head = bytes([b % 256])
    elif kind == 8 and t:
        head, body = b"", body if a % 3 else b""
    else:
        tree = unrlp(body)
        paths = list(walk(tree))
        p = paths[a % len(paths)]
        if p:
            n = tree
            for i in p[:-1]:
                n = n[i]
            i = p[-1]
            x = n[i]
            c = b % 7
            if c == 0:
                del n[i]
            elif c == 1:
                n.insert(i, blob)
            elif c == 2:
                n[i] = b"\0" + x if isinstance(x, bytes) else []
            elif c == 3:
                n[i] = blob
            elif c == 4:
                n[i] = [x]
            elif c == 5:
                n[i] = b"" if isinstance(x, bytes) else b"\1"
            else:
                n[i] = x + b"\1" if isinstance(x, bytes) else x + x[:1]
        body = rlp(tree)
    return head + body


def run_codec(c, res):
    F = Fork(c["fork"])
    T, tx = F.txs, c["tx"]
    o = F.tx_obj(tx)
    enc = RB.tx_encode(tx)
    t = tx["type"]
    if F.k >= BERLIN:
        e = T.encode_transaction(o)
        if t:
            res.eq("encoding", bytes(e), enc)
        else:
            res.eq("encoding", bytes(_rlp.encode(e)), enc)
        if T.decode_transaction(e) != o:
            res.fail("roundtrip", "decode(encode(tx)) != tx")
        res.eq("hash", bytes(T.get_transaction_hash(e)), keccak(enc))
    else:
        res.eq("encoding", bytes(_rlp.encode(o)), enc)
        res.eq("hash", bytes(T.get_transaction_hash(o)), keccak(enc))
    cls = T.LegacyTransaction if F.k >= BERLIN else T.Transaction
    if not t and _rlp.decode_to(cls, enc) != o:
        res.fail("roundtrip", "decode(encode(tx)) != tx")
    for m in c["muts"]:
        raw = mutate(tx, m)
        typed = bool(t)
        want = ref_ok(F.k, raw, typed)
        try:
            if typed:
                d = T.decode_transaction(Bytes(raw))
            else:
                d = _rlp.decode_to(cls, raw)
            ok = True
        except REJECTS:
            ok = False
        except Exception as e:
            res.fail("decode-crash", "%s: %s" % (type(e).__name__, e))
            continue
        if ok != want:
            res.fail("decode", "%s %s encoding" % (
                "accepted" if ok else "rejected",
                "an invalid" if ok else "a canonical"))
        elif ok:
            back = bytes(T.encode_transaction(d)) if typed else \
                bytes(_rlp.encode(d))
            res.eq("re-encoding", back, raw)
        res.tag("decodes" if want else "malformed")
    res.tag("type%d" % t)
    res.nontrivial = bool(t) or len(c["muts"]) > 0


# ---------------------------------------------------------------- signatures
def make_sig(s):
    k = any_fork(s) if s.chance(65) else s.int(BERLIN, OSAKA)
    tx = rnd_tx(s, k)
    chain = tx["chain_id"]
    key = s.pick([1, 2, 3, SECP_N - 1, SECP_N - 2]) if s.chance(30) else \
        KEYS[s.below(3)]
    prot = tx["type"] == 0 and k >= SPURIOUS and s.bool()
    sign_tx(tx, key, prot)
    mut = None
    m = s.below(16)
    if m == 0:
        tx["s"] = SECP_N - tx["s"]
        if s.bool() and tx["type"] == 0:
            tx["v"] += 1 if tx["v"] % 2 else -1
        elif tx["type"]:
            tx["v"] ^= 1
    elif m == 1:
        tx["s"] = s.pick([0, 1, SECP_N // 2, SECP_N // 2 + 1, SECP_N - 1,
                          SECP_N, M256 - 1])
    elif m == 2:
        tx["r"] = s.pick([0, 1, SECP_N - 1, SECP_N, SECP_N + 1, K1.p,
                          K1.p - 1, M256 - 1])
    elif m == 3:
        tx["v"] = s.pick([0, 1, 2, 3, 26, 27, 28, 29, 34, 35, 36, 37, 38,
                          256, 2**64, M256 - 1, 34 + 2 * chain,
                          35 + 2 * chain, 36 + 2 * chain, 37 + 2 * chain])
    elif m == 4:
        tx["v"] = tx["v"] ^ 1 if tx["type"] else 55 - tx["v"] \
            if tx["v"] in (27, 28) else tx["v"] + (1 if tx["v"] % 2 else -1)
    elif m == 5:
        chain = s.pick([chain + 1, chain ^ 1, 0, 1]) % 2**64
    elif m == 6:
        tx["r"] = s.pick(WRAP_R)
        tx["v"] += s.pick([0, 1, 2, 2])
    elif m <= 10:
        mut = s.pick([f for f in (
            "nonce", "gas", "value", "data", "to", "gas_price", "prio",
            "max_fee", "access", "blob_fee", "blobs", "auths", "chain_id")
            if f in tx and (f != "chain_id" or tx["type"])])
    return dict(fork=NAMES[k], tx=tx, chain=chain, mut=mut, key=key,
                salt=s.bytes(20))


def changed(tx, f, salt):
    t = dict(tx)
    if f == "to":
        t[f] = salt if t[f] != salt else b"\0" * 20
    elif f == "data":
        t[f] = t[f] + b"\0"
    elif f == "access":
        t[f] = t[f] + [[salt, []]]
    elif f == "blobs":
        t[f] = t[f] + [b"\1" * 32]
    elif f == "auths":
        t[f] = t[f] + [dict(chain_id=0, address=salt, nonce=0, y=0, r=1,
                            s=1)]
    else:
        lim = 2**64 if f in ("chain_id", "gas") or (
            f == "nonce" and t["type"] == 4) else M256
        t[f] = (t[f] + 1) % lim
    return t


def recover(F, tx, chain):
    try:
        o = F.tx_obj(tx)
        if F.k >= SPURIOUS:
            return bytes(F.txs.recover_sender(U64(chain), o))
        return bytes(F.txs.recover_sender(o))
    except REJECTS:
        return None


def run_sig(c, res):
    F = Fork(c["fork"])
    tx, chain = c["tx"], c["chain"]
    try:
        want = RB.sender_of(F.k, chain, tx)
    except RB.Reject:
        want = None
    got = recover(F, tx, chain)
    res.eq("sender", got, want)
    if c["mut"] and want is not None:
        t2 = changed(tx, c["mut"], c["salt"])
        ch = t2["chain_id"] if c["mut"] == "chain_id" else chain
        g2 = recover(F, t2, ch)
        if g2 == want:
            res.fail("binding", "changing %s keeps the sender" % c["mut"])
        res.tag("mut:" + c["mut"])
        if c["mut"] == "chain_id":
            res.eq("chain-binding", recover(F, t2, chain), None)
    res.tag("recovers" if want else "rejected")
    res.tag("type%d" % tx["type"])
    res.nontrivial = want is not None


SUITES = [
    Suite("codec", make_codec, run_codec, 100000, None,
          "random transactions of every type and fork, round-tripped and "
          "compared with the canonical encoding and hash, plus byte-level "
          "and structural mutations against a strict schema; non-trivial: "
          "typed, or mutated"),
    Suite("sender", make_sig, run_sig, 40000, None,
          "signed transactions with boundary chain ids, keys, r, s, v; "
          "single-field changes after signing; non-trivial: a sender is "
          "recovered"),
]
