from lib.suites import *
from lib.adapt import (Bytes, Bytes0, Bytes8, Bytes20, Bytes32, Bytes256,
                       U64, U256, Uint)
from refspec.prim import mpt_root, ordered_root, rlp, keccak
from ethereum_rlp import rlp as RLP


def keyset(s):
    """A few keys chosen to share nibbles and to be prefixes of each other."""
    k = s.below(6)
    n = s.int(1, 9)
    if k == 0:
        return [s.bytes(32) for _ in range(n)]
    if k == 1:                       # indices
        base = s.pick([0, 0, 120, 126, 250, 65530])
        return [rlp(base + i) for i in range(s.int(1, 20))]
    if k == 2:                       # tiny alphabets, variable lengths
        al = s.pick([(0x00, 0x01), (0x00, 0x10), (0x11, 0x1f, 0xf1),
                     (0x00, 0xff)])
        return [bytes(s.pick(al) for _ in range(s.below(5)))
                for _ in range(n)]
    if k == 3:                       # long common prefix, varying tail
        p = s.bytes(s.pick([1, 20, 31]))
        return [p + bytes([s.pick([0, 1, 15, 16, 17, 255])])
                for _ in range(n)]
    if k == 4:                       # 32-byte keys differing at one nibble
        p = bytearray(s.bytes(32))
        out = [bytes(p)]
        for _ in range(n):
            q = bytearray(p)
            q[s.below(32)] ^= 1 << s.below(8)
            out.append(bytes(q))
        return out
    return [s.bytes(s.pick([1, 2, 20])) for _ in range(n)]


def blobval(s):
    n = s.pick([1, 1, 2, 3, 27, 28, 29, 30, 31, 32, 33, 34, 55, 56, 64, 1,
                s.int(1, 80), s.pick([255, 256, 300])])
    return s.bytes(n) if s.bool() else bytes([s.pick([0, 1, 0x7F, 0x80,
                                                      0xC0, 0xFF])]) * n


def make_hist(s):
    k = any_fork(s)
    kind = s.pick(["bytes", "bytes", "bytes", "u256", "none"])
    keys = keyset(s)
    ops = []
    n = s.int(1, 24) if s.chance(90) else s.int(30, 60)
    for _ in range(n):
        t = s.below(3)
        o = s.below(12)
        if o < 8:
            v = blobval(s) if kind != "u256" else s.pick(
                [0, 1, 127, 128, 255, 256, 2**32, 2**255, M256 - 1,
                 s.below(M256)])
            ops.append(["set", t, s.pick(keys), v])
        elif o < 10:
            ops.append(["del", t, s.pick(keys)])
        elif o == 10:
            ops.append(["copy", t, s.below(3)])
        else:
            ops.append(["root", t])
    return dict(fork=NAMES[k], secured=s.bool(), kind=kind, ops=ops,
                keys=keys)


def run_hist(c, res):
    F = Fork(c["fork"])
    T = F.trie
    u = c["kind"] == "u256"
    default = {"u256": U256(0), "bytes": Bytes(b""), "none": None}[c["kind"]]

    def val(v):
        return U256(v) if u else Bytes(v)
    tries = [T.Trie(secured=c["secured"], default=default) for _ in range(3)]
    maps = [{}, {}, {}]
    encv = rlp if u else bytes

    def look(i):
        want = mpt_root({k: encv(v) for k, v in maps[i].items()},
                        c["secured"])
        res.eq("root", bytes(T.root(tries[i])), want)
        return want
    for o in c["ops"]:
        i = o[1]
        if o[0] == "set":
            T.trie_set(tries[i], Bytes(o[2]), val(o[3]))
            if u and o[3] == 0:
                maps[i].pop(o[2], None)
            else:
                maps[i][o[2]] = o[3]
        elif o[0] == "del":
            T.trie_set(tries[i], Bytes(o[2]), default)
            maps[i].pop(o[2], None)
        elif o[0] == "copy":
            tries[o[2]] = T.copy_trie(tries[i])
            maps[o[2]] = dict(maps[i])
        else:
            look(i)
    roots = [look(i) for i in range(3)]
    for i in range(3):
        for k in c["keys"]:
            g = T.trie_get(tries[i], Bytes(k))
            w = maps[i].get(k)
            w = default if w is None else val(w)
            if g != w:
                res.fail("read", "key %s: %r, expected %r" % (k.hex(), g, w))
        for j in range(i):
            if (maps[i] == maps[j]) != (roots[i] == roots[j]):
                res.fail("oracle", "model roots collide")
    # the same final map, written once in another order
    for i in range(3):
        t = T.Trie(secured=c["secured"], default=default)
        for k in sorted(maps[i], reverse=True):
            T.trie_set(t, Bytes(k), val(maps[i][k]))
        res.eq("order", bytes(T.root(t)), roots[i])
    res.tag(c["kind"])
    res.tag("secured" if c["secured"] else "plain")
    res.nontrivial = max(len(m) for m in maps) >= 2


# ---- protocol objects as values
def make_obj(s):
    k = any_fork(s)
    kinds = ["account", "tx", "receipt"]
    if k >= SHANGHAI:
        kinds.append("withdrawal")
    kind = s.pick(kinds)
    n = s.pick([0, 1, 2, 3, 5, 17, s.below(40),
                s.pick([127, 128, 129, 140, 260])])
    items = []
    for i in range(n):
        if kind == "account":
            items.append([s.bytes(20), s.pick([0, 1, 2**64 - 1]),
                          word(s), s.blob(3), s.bytes(32)])
        elif kind == "tx":
            items.append(dict(
                type=s.pick(tx_types(k)), nonce=s.below(300),
                gas=21000 + s.below(9), gas_price=s.below(2**40),
                value=word(s), to=s.pick([None, s.bytes(20)]),
                data=s.blob(s.pick([0, 3, 60])), chain_id=1, access=[],
                max_fee=9, prio=s.below(9), blob_fee=1, blobs=[], auths=[],
                v=27, r=s.below(M256), s=s.below(M256)))
            if items[-1]["type"]:
                items[-1]["v"] = s.below(2)
            if items[-1]["type"] >= 3:
                items[-1]["to"] = items[-1]["to"] or b"\1" * 20
        elif kind == "receipt":
            items.append([s.bool(), s.below(2**40), s.bytes(32),
                          s.pick(tx_types(k))])
        else:
            items.append(dict(index=s.below(2**64), validator=s.below(2**64),
                              address=s.bytes(20), amount=s.below(2**64)))
    return dict(fork=NAMES[k], kind=kind, items=items)


def run_obj(c, res):
    F = Fork(c["fork"])
    T, kind = F.trie, c["kind"]
    if kind == "account":
        t = T.Trie(secured=True, default=None)
        m, roots = {}, {}
        for a, n, b, code, sr in c["items"]:
            T.trie_set(t, Bytes20(a), F.types.Account(
                nonce=Uint(n), balance=U256(b), code=Bytes(code)))
            m[a] = rlp([n, b, sr, keccak(code)])
            roots[a] = sr
        got = bytes(T.root(t, lambda x: Bytes32(roots[bytes(x)])))
        res.eq("account-root", got, mpt_root(m, True))
    else:
        t = T.Trie(secured=False, default=None)
        encs = []
        for i, x in enumerate(c["items"]):
            if kind == "tx":
                v, e = F.block_tx(x), RB.tx_encode(x)
            elif kind == "withdrawal":
                v = F.withdrawal(x)
                e = rlp([x["index"], x["validator"], x["address"],
                         x["amount"]])
            else:
                kw = dict(cumulative_gas_used=Uint(x[1]),
                          bloom=Bytes256(b"\0" * 256), logs=())
                if F.k >= BYZANTIUM:
                    r = F.blocks.Receipt(succeeded=x[0], **kw)
                else:
                    r = F.blocks.Receipt(post_state=Bytes32(x[2]), **kw)
                v = r
                if F.k >= BERLIN:
                    tx = dict(type=x[3], nonce=0, gas=0, value=0, to=CON[0],
                              data=b"", chain_id=1, gas_price=1, max_fee=1,
                              prio=1, access=[], blob_fee=1, blobs=[],
                              auths=[], v=0, r=1, s=1)
                    v = F.blocks.encode_receipt(F.tx_obj(tx), r)
                e = RB.receipt_encode(dict(
                    type=x[3] if F.k >= BERLIN else 0, ok=x[0], gas=x[1],
                    bloom=b"\0" * 256, logs=[],
                    root=x[2] if F.k < BYZANTIUM else None))
            T.trie_set(t, RLP.encode(Uint(i)), v)
            encs.append(e)
        res.eq(kind + "-root", bytes(T.root(t)), ordered_root(encs))
    res.tag(kind)
    res.nontrivial = len(c["items"]) >= 2


# ---- state and storage roots
def make_state(s):
    k = any_fork(s)
    world = {}
    ops = []
    for i in range(s.below(6)):
        a = s.pick([s.bytes(20), bytes([i + 1]) * 20])
        st = {}
        for _ in range(s.pick([0, 1, 2, 3, 8, 20])):
            key = s.pick([s.below(8), word(s), s.below(M256)])
            st[key] = s.pick([1, 0x7F, 0x80, 2**64, M256 - 1, word(s)])
        world[a] = [s.pick([1, 2, 2**40]), word(s),
                    s.pick([b"", b"\x00", s.blob(70)]),
                    {x: v for x, v in st.items() if v}]
    for a in world:
        ops.append([0, a])
        for x in world[a][3]:
            ops.append([1, a, x])
            if s.chance(20):
                ops.append([2, a, x])
    return dict(fork=NAMES[k], world=world, ops=ops, seed=s.below(2**32))


def run_state(c, res):
    import random
    F = Fork(c["fork"])
    S = F.state
    w = world_of({a: dict(nonce=n, balance=b, code=code, storage=st)
                  for a, (n, b, code, st) in c["world"].items()})
    rng = random.Random(c["seed"])
    st = S.State()
    ops = list(c["ops"])
    rng.shuffle(ops)
    ops.sort(key=lambda o: o[0] != 0)          # accounts before storage
    key = lambda x: Bytes32(x.to_bytes(32, "big"))      # noqa: E731
    for o in ops:
        n, b, code, sto = c["world"][o[1]]
        A = Bytes20(o[1])
        if o[0] == 0:
            S.set_account(st, A, F.types.Account(
                nonce=Uint(n), balance=U256(b), code=Bytes(code)))
        elif o[0] == 2:                       # overwrite or clear first
            S.set_storage(st, A, key(o[2]), U256(rng.randrange(3)))
            S.set_storage(st, A, key(o[2] ^ 1 << 200), U256(5))
            S.set_storage(st, A, key(o[2] ^ 1 << 200),
                          U256(sto.get(o[2] ^ 1 << 200, 0)))
    for o in ops:
        if o[0] == 1:
            S.set_storage(st, Bytes20(o[1]), key(o[2]),
                          U256(c["world"][o[1]][3][o[2]]))
    for o in ops:
        if o[0] == 2:
            S.set_storage(st, Bytes20(o[1]), key(o[2]),
                          U256(c["world"][o[1]][3][o[2]]))
    res.eq("state-root", bytes(S.state_root(st)), w.root())
    for a in c["world"]:
        res.eq("storage-root", bytes(S.storage_root(st, Bytes20(a))),
               w.storage_root(a))
    res.eq("state-root", bytes(S.state_root(st)), w.root())
    res.nontrivial = len(c["world"]) >= 2 and any(
        len(v[3]) >= 2 for v in c["world"].values())


SUITES = [
    Suite("histories", make_hist, run_hist, 60000, None,
          "1-60 writes, overwrites, deletions and copies over three tries "
          "of one kind with prefix-sharing keys; root and reads against the "
          "definition, and rewritten in another order; non-trivial: a map "
          "of two or more keys"),
    Suite("objects", make_obj, run_obj, 10000, None,
          "ordered lists and account maps of protocol objects of every "
          "type, up to 260 items; non-trivial: two or more items"),
    Suite("state", make_state, run_state, 15000, None,
          "random account/storage maps built in random order with "
          "overwrites and clears; non-trivial: several accounts and a "
          "storage of two or more slots"),
]
