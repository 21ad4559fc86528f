"""RLP of headers, blocks, receipts... and the numeric/hex helpers."""
from lib.suites import *
from lib.adapt import _rlp, Bytes, Bytes8, Bytes20, Bytes32, Bytes256
from ethereum_types.bytes import Bytes0
from ethereum_types.numeric import U8, U32, U64, U256, Uint
from refspec import block as RB, rules
from refspec.prim import keccak, rlp, unrlp, RLPError
from ethereum.crypto.hash import keccak256
from ethereum.utils import byte as UB, hexadecimal as UH, numeric as UN
from ethereum_spec_tools.evm_tools import utils as TU
import ethereum.utils as EU

ASSUME = ("Helpers are called with the argument types they declare; hex "
          "strings consist of an optional 0x and hex digits (Python's "
          "tolerance of underscores and spaces is not examined).")

preload()
KINDS = ["header", "block", "withdrawal", "log", "receipt", "auth", "access",
         "account"]


# ------------------------------------------------------------- generators
def edge(s, bits):
    """An unsigned integer of at most so many bits, edges favoured."""
    k = s.below(12)
    if k < 6:
        return min([0, 1, 0x7F, 0x80, 0xFF, 0x100][k], 2**bits - 1)
    if k == 6:
        return 2**bits - 1
    return s.below(2 ** s.int(1, bits))


def rbytes(s, n):
    k = s.below(4)
    if k == 0:
        return b"\0" * n
    if k == 1:
        return b"\0" * (n - 1) + s.bytes(1)
    return s.bytes(n)


def rdata(s):
    return s.bytes(s.weighted([(2, 0), (3, 1), (2, 31), (2, 32), (2, 33),
                               (2, 54), (2, 55), (3, 56), (2, 57), (1, 200),
                               (1, 256), (1, 300)]))


def g_header(s, fork):
    h = dict(parent_hash=rbytes(s, 32), ommers_hash=rbytes(s, 32),
             coinbase=rbytes(s, 20), state_root=rbytes(s, 32),
             transactions_root=rbytes(s, 32), receipt_root=rbytes(s, 32),
             bloom=rbytes(s, 256), difficulty=edge(s, 300),
             number=edge(s, 280), gas_limit=edge(s, 264),
             gas_used=edge(s, 264), timestamp=edge(s, 256),
             extra_data=rdata(s), mix=rbytes(s, 32), nonce=rbytes(s, 8))
    if fork >= LONDON:
        h["base_fee"] = edge(s, 300)
    if fork >= SHANGHAI:
        h["withdrawals_root"] = rbytes(s, 32)
    if fork >= CANCUN:
        h.update(blob_gas_used=edge(s, 64), excess_blob_gas=edge(s, 64),
                 beacon_root=rbytes(s, 32))
    if fork >= PRAGUE:
        h["requests_hash"] = rbytes(s, 32)
    return h


def g_withdrawal(s):
    return dict(index=edge(s, 64), validator=edge(s, 64),
                address=rbytes(s, 20), amount=edge(s, 256))


def g_log(s):
    return dict(address=rbytes(s, 20),
                topics=[rbytes(s, 32) for _ in range(s.below(6))],
                data=rdata(s))


def g_receipt(s, fork):
    t = s.below(max_type(fork) + 1)
    return dict(type=t, root=rbytes(s, 32) if fork < BYZANTIUM else None,
                ok=s.bool(), gas=edge(s, 264), bloom=rbytes(s, 256),
                logs=[g_log(s) for _ in range(s.below(4))])


def g_auth(s):
    return dict(chain_id=edge(s, 256), address=rbytes(s, 20),
                nonce=edge(s, 64), y=edge(s, 8), r=edge(s, 256),
                s=edge(s, 256))


def g_access(s):
    return dict(account=rbytes(s, 20),
                slots=[edge(s, 256) for _ in range(s.below(5))])


def g_account(s):
    return dict(nonce=edge(s, 70), balance=edge(s, 256), root=rbytes(s, 32),
                code=rdata(s))


def max_type(fork):
    return (4 if fork >= PRAGUE else 3 if fork >= CANCUN else
            2 if fork >= LONDON else 1 if fork >= BERLIN else 0)


def g_tx(s, fork):
    t = s.below(max_type(fork) + 1)
    tx = dict(type=t, nonce=edge(s, 64 if t == 4 else 256),
              gas=edge(s, 264), value=edge(s, 256), data=rdata(s),
              to=rbytes(s, 20) if t >= 3 or s.bool() else None,
              v=edge(s, 256), r=edge(s, 256), s=edge(s, 256))
    if t < 2:
        tx["gas_price"] = edge(s, 264)
    else:
        tx.update(prio=edge(s, 264), max_fee=edge(s, 264))
    if t:
        tx["chain_id"] = edge(s, 64)
        tx["access"] = [(a["account"], a["slots"]) for a in
                        (g_access(s) for _ in range(s.below(3)))]
    if t == 3:
        tx.update(blob_fee=edge(s, 256),
                  blobs=[rbytes(s, 32) for _ in range(s.below(3))])
    if t == 4:
        tx["auths"] = [g_auth(s) for _ in range(s.below(3))]
    return tx


def g_block(s, fork):
    b = dict(header=g_header(s, fork),
             txs=[g_tx(s, fork) for _ in range(s.below(4))],
             ommers=[g_header(s, fork) for _ in range(
                 s.weighted([(3, 0), (2, 1), (1, 2)]))])
    if fork >= SHANGHAI:
        b["withdrawals"] = [g_withdrawal(s) for _ in range(s.below(4))]
    return b


def g_any(s, kinds=KINDS):
    kind = s.pick(kinds)
    lo = {"withdrawal": SHANGHAI, "auth": PRAGUE, "access": BERLIN}.get(
        kind, 0)
    fork = s.int(lo, len(NAMES) - 1)
    return kind, fork, g_kind(s, kind, fork)


def g_kind(s, kind, fork):
    return {"header": lambda: g_header(s, fork),
            "block": lambda: g_block(s, fork),
            "withdrawal": lambda: g_withdrawal(s), "log": lambda: g_log(s),
            "receipt": lambda: g_receipt(s, fork), "auth": lambda: g_auth(s),
            "access": lambda: g_access(s),
            "account": lambda: g_account(s)}[kind]()


# ------------------------------------------------------------ the encoding
def tree(kind, fork, o):
    """Nested list of bytes/ints: the yellow-paper field order."""
    if kind == "header":
        return RB.header_fields(fork, o)
    if kind == "withdrawal":
        return [o["index"], o["validator"], o["address"], o["amount"]]
    if kind == "log":
        return [o["address"], list(o["topics"]), o["data"]]
    if kind == "receipt":
        return [o["root"] if fork < BYZANTIUM else int(o["ok"]), o["gas"],
                o["bloom"], [tree("log", fork, l) for l in o["logs"]]]
    if kind == "auth":
        return [o["chain_id"], o["address"], o["nonce"], o["y"], o["r"],
                o["s"]]
    if kind == "access":
        return [o["account"], [k.to_bytes(32, "big") for k in o["slots"]]]
    if kind == "account":
        return [o["nonce"], o["balance"], o["root"], keccak(o["code"])]
    t = [RB.header_fields(fork, o["header"]),
         [unrlp(RB.tx_encode(x)) if x["type"] == 0 else RB.tx_encode(x)
          for x in o["txs"]],
         [RB.header_fields(fork, x) for x in o["ommers"]]]
    if fork >= SHANGHAI:
        t.append([tree("withdrawal", fork, x) for x in o["withdrawals"]])
    return t


def log_obj(F, l):
    return F.blocks.Log(address=Bytes20(l["address"]),
                        topics=tuple(Bytes32(t) for t in l["topics"]),
                        data=Bytes(l["data"]))


def obj(F, kind, o):
    if kind == "header":
        return F.header(o)
    if kind == "block":
        return F.block(o["header"], o["txs"], o["ommers"],
                       o.get("withdrawals", ()))
    if kind == "withdrawal":
        return F.withdrawal(o)
    if kind == "log":
        return log_obj(F, o)
    if kind == "auth":
        return F.auth(o)
    if kind == "access":
        return F.access(o["account"], o["slots"])
    kw = dict(cumulative_gas_used=Uint(o["gas"]), bloom=Bytes256(o["bloom"]),
              logs=tuple(log_obj(F, l) for l in o["logs"]))
    if F.k < BYZANTIUM:
        kw["post_state"] = Bytes32(o["root"])
    else:
        kw["succeeded"] = bool(o["ok"])
    return F.blocks.Receipt(**kw)


def cls_of(F, kind):
    return {"header": lambda: F.blocks.Header,
            "block": lambda: F.blocks.Block,
            "withdrawal": lambda: F.blocks.Withdrawal,
            "log": lambda: F.blocks.Log,
            "receipt": lambda: F.blocks.Receipt,
            "auth": lambda: F.types.Authorization,
            "access": lambda: F.txs.Access}[kind]()


# --------------------------------------------------------------- roundtrip
def make_round(s):
    kind, fork, o = g_any(s)
    return dict(kind=kind, fork=NAMES[fork], o=o)


def run_round(c, res):
    F, kind, o = Fork(c["fork"]), c["kind"], c["o"]
    if kind == "account":
        a = F.types.Account(nonce=Uint(o["nonce"]), balance=U256(o["balance"]),
                            code=Bytes(o["code"]))
        res.eq("account-rlp", bytes(F.types.encode_account(
            a, Bytes32(o["root"]))), rlp(tree(kind, F.k, o)))
        res.tag("account")
        res.nontrivial = True
        return
    want = rlp(tree(kind, F.k, o))
    x = obj(F, kind, o)
    raw = _rlp.encode(x)
    res.eq(kind + "-rlp", bytes(raw), want)
    try:
        y = _rlp.decode_to(cls_of(F, kind), Bytes(want))
    except Exception as e:
        res.fail(kind + "-decode", "%s rejected: %r" % (kind, e))
        return
    res.eq(kind + "-decoded", y == x and x == y, True)
    res.eq(kind + "-reencoded", bytes(_rlp.encode(y)), want)
    z = obj(F, kind, o)
    if z != x or keccak256(_rlp.encode(z)) != keccak256(raw):
        res.fail(kind + "-equal", "equal objects differ")
    res.eq(kind + "-hash", bytes(keccak256(raw)), keccak(want))
    if kind == "block":
        for a, b in zip(o["txs"], y.transactions):
            e = F.block_tx(a)
            if e != b:
                res.fail("block-tx", "transaction %r, expected %r" % (b, e))
        res.eq("block-ommers", bytes(keccak256(_rlp.encode(y.ommers))),
               keccak(rlp([RB.header_fields(F.k, u) for u in o["ommers"]])))
    if kind == "receipt" and F.k >= BERLIN:
        t = o["type"]
        tx = F.tx_obj(plain_tx(t))
        e = F.blocks.encode_receipt(tx, x)
        if t == 0:
            res.eq("legacy-receipt", e == x, True)
        else:
            res.eq("typed-receipt", bytes(e), bytes([t]) + want)
        d = F.blocks.decode_receipt(e)
        res.eq("receipt-decoded", d == x, True)
        res.tag("receipt-type%d" % t)
    res.tag(kind, c["fork"])
    res.nontrivial = True


def plain_tx(t):
    return dict(type=t, nonce=0, gas=0, value=0, data=b"", to=b"\1" * 20,
                v=0, r=1, s=1, gas_price=1, prio=1, max_fee=1, chain_id=1,
                access=[], blob_fee=1, blobs=[], auths=[])


# ------------------------------------------------------------- sensitivity
def leaves(o, path=()):
    if isinstance(o, dict):
        for k, v in o.items():
            yield from leaves(v, path + (k,))
    elif isinstance(o, (list, tuple)):
        yield path + ("#",), o
        for i, v in enumerate(o):
            yield from leaves(v, path + (i,))
    elif o is not None:
        yield path, o


def put(o, path, v):
    if not path:
        return v
    if isinstance(o, dict):
        return {k: put(x, path[1:], v) if k == path[0] else x
                for k, x in o.items()}
    return [put(x, path[1:], v) if i == path[0] else x
            for i, x in enumerate(o)]


FREE = {"extra_data", "data"}


def make_sense(s):
    kind, fork, o = g_any(s, [k for k in KINDS if k != "account"])
    ls = [(p, v) for p, v in leaves(o) if not (
        kind == "receipt" and (p == ("type",) or (
            p == ("ok",) and fork < BYZANTIUM)))
          and p[-1] != "type"
          and not (p[-1] == "#" and len(p) > 2 and p[-3] == "access")]
    p, v = s.pick(ls)
    if p[-1] == "#":
        p = p[:-1]
        v = list(v)
        if v and (s.bool() or p[-1] not in (
                "topics", "slots", "blobs")):
            i = s.below(len(v))
            new = v[:i] + v[i + 1:] if s.bool() else v[:i] + [v[i]] + v[i:]
        else:
            new = v + [b"\0" * 32 if p[-1] in ("topics", "blobs") else 0] \
                if p[-1] in ("topics", "slots", "blobs") else v
    elif isinstance(v, bool):
        new = not v
    elif isinstance(v, int):
        new = v ^ (1 << s.below(max(1, v.bit_length()))) if s.bool() else (
            v - 1 if v else 1)
    elif p[-1] in FREE and (not v or s.bool()):
        new = v + b"\0" if s.bool() else (v[1:] if v else b"\1")
    elif v:
        i = s.below(len(v))
        new = v[:i] + bytes([v[i] ^ (1 << s.below(8))]) + v[i + 1:]
    else:
        new = v
    return dict(kind=kind, fork=NAMES[fork], o=o, p2=put(o, p, new),
                path="/".join(str(x) for x in p))


def run_sense(c, res):
    F, kind = Fork(c["fork"]), c["kind"]
    a, b = tree(kind, F.k, c["o"]), tree(kind, F.k, c["p2"])
    x, y = obj(F, kind, c["o"]), obj(F, kind, c["p2"])
    same = rlp(a) == rlp(b)
    res.eq("objects", x == y, same)
    ex, ey = _rlp.encode(x), _rlp.encode(y)
    res.eq("encodings", bytes(ex) == bytes(ey), same)
    res.eq("hashes", keccak256(ex) == keccak256(ey), same)
    res.eq("second", bytes(ey), rlp(b))
    res.tag(kind, "same" if same else "changed")
    res.nontrivial = not same


# --------------------------------------------------------- decoding junk
U = lambda n=None: ("U", n)
B = lambda n=None: ("B", n)


def schema(kind, fork):
    if kind == "header":
        t = [B(32), B(32), B(20), B(32), B(32), B(32), B(256), U(), U(), U(),
             U(), U(32), B(), B(32), B(8)]
        if fork >= LONDON:
            t.append(U())
        if fork >= SHANGHAI:
            t.append(B(32))
        if fork >= CANCUN:
            t += [U(8), U(8), B(32)]
        if fork >= PRAGUE:
            t.append(B(32))
        return t
    if kind == "withdrawal":
        return [U(8), U(8), B(20), U(32)]
    if kind == "log":
        return [B(20), ("L", B(32)), B()]
    if kind == "receipt":
        return [B(32) if fork < BYZANTIUM else ("bool",), U(), B(256),
                ("L", schema("log", fork))]
    if kind == "auth":
        return [U(32), B(20), U(8), U(1), U(32), U(32)]
    if kind == "access":
        return [B(20), ("L", B(32))]
    legacy = [U(32), U(), U(), ("TO",), U(32), B(), U(32), U(32), U(32)]
    t = [schema("header", fork),
         ("L", ("OR", B(), legacy) if fork >= BERLIN else legacy),
         ("L", schema("header", fork))]
    if fork >= SHANGHAI:
        t.append(("L", schema("withdrawal", fork)))
    return t


def fits(sc, x):
    if isinstance(sc, list):
        return isinstance(x, list) and len(x) == len(sc) and all(
            fits(a, b) for a, b in zip(sc, x))
    if sc[0] == "L":
        return isinstance(x, list) and all(fits(sc[1], y) for y in x)
    if sc[0] == "OR":
        return fits(sc[1], x) or fits(sc[2], x)
    if not isinstance(x, bytes):
        return False
    if sc[0] == "bool":
        return x in (b"", b"\1")
    if sc[0] == "TO":
        return len(x) in (0, 20)
    if sc[0] == "U":
        return x[:1] != b"\0" and (sc[1] is None or len(x) <= sc[1])
    return sc[1] is None or len(x) == sc[1]


def norm(x):
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in x]
    if isinstance(x, int):
        return x.to_bytes((x.bit_length() + 7) // 8, "big")
    return bytes(x)


def loose(x, s, odds):
    """RLP with an occasional non-canonical length."""
    if isinstance(x, bytes):
        body, base = x, 0x80
        if len(x) == 1 and x[0] < 0x80:
            return b"\x81" + x if odds and s.below(odds) == 0 else x
    else:
        body, base = b"".join(loose(y, s, odds) for y in x), 0xC0
    n = len(body)
    if odds and s.below(odds) == 0:
        l = n.to_bytes(s.int(1, 3) + (n > 255), "big")
        return bytes([base + 55 + len(l)]) + l + body
    if n < 56:
        return bytes([base + n]) + body
    l = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([base + 55 + len(l)]) + l + body


def spots(x, path=()):
    yield path
    if isinstance(x, list):
        for i, y in enumerate(x):
            yield from spots(y, path + (i,))


def at(x, path):
    for i in path:
        x = x[i]
    return x


def mangle(s, x):
    """Change one node of a nested list."""
    ps = list(spots(x))
    p = s.pick(ps)
    v = at(x, p)
    k = s.below(8)
    if isinstance(v, list):
        if k == 0:
            new = v[:-1]
        elif k == 1:
            new = v + [s.pick([b"", b"\1", b"\0" * 32, []])]
        elif k == 2:
            new = v + v[-1:]
        elif k == 3:
            new = b"".join(y for y in v if isinstance(y, bytes))
        elif k == 4 and len(v) > 1:
            i = s.below(len(v) - 1)
            new = v[:i] + [v[i + 1], v[i]] + v[i + 2:]
        elif k == 5:
            new = []
        elif k == 6:
            new = rlp(v)
        else:
            new = [v]
    elif k == 0:
        new = b"\0" + v
    elif k == 1:
        new = v[1:]
    elif k == 2:
        new = v + b"\0"
    elif k == 3:
        new = v[:-1]
    elif k == 4:
        new = []
    elif k == 5:
        new = [v]
    elif k == 6:
        new = s.pick([b"", b"\0", b"\1", b"\2", b"\xff" * 8, b"\xff" * 9,
                      b"\xff" * 32, b"\1" + b"\0" * 32, b"\0" * 20])
    else:
        new = v.lstrip(b"\0")
    return put(x, p, new)


def make_junk(s):
    kind, fork, o = g_any(s, [k for k in KINDS if k != "account"])
    t = norm(tree(kind, fork, o))
    as_fork, as_kind = fork, kind
    how = s.weighted([(6, "tree"), (3, "bytes"), (2, "length"), (2, "fork"),
                      (1, "kind"), (2, "none"), (2, "reencode"), (1, "noise")])
    raw = rlp(t)
    if how == "tree":
        for _ in range(s.int(1, 2)):
            if isinstance(t, list):
                t = mangle(s, t)
        raw = rlp(t)
    elif how == "bytes":
        k = s.below(5)
        i = s.below(len(raw))
        raw = [raw[:i], raw + s.bytes(s.int(1, 3)),
               raw[:i] + bytes([raw[i] ^ (1 << s.below(8))]) + raw[i + 1:],
               raw[:i] + raw[i + 1:],
               raw[:i] + s.bytes(1) + raw[i:]][k]
    elif how == "length":
        k = s.below(4)
        i = s.below(min(len(raw), 4))
        raw = raw[:i] + bytes([(raw[i] + [1, 255, 64, 8][k]) % 256]) + \
            raw[i + 1:]
    elif how == "reencode":
        raw = loose(t, s, 12)
    elif how == "fork":
        lo = {"withdrawal": SHANGHAI, "auth": PRAGUE, "access": BERLIN}.get(
            kind, 0)
        as_fork = s.int(lo, len(NAMES) - 1)
    elif how == "kind":
        as_kind = s.pick([k for k in ("header", "block", "log", "receipt")])
    elif how == "noise":
        raw = s.blob(40)
    return dict(kind=as_kind, fork=NAMES[as_fork], raw=raw, how=how,
                typ=s.below(7) if as_kind == "receipt" and s.bool() else None)


def run_junk(c, res):
    F, kind, raw = Fork(c["fork"]), c["kind"], c["raw"]
    try:
        ok = fits(schema(kind, F.k), unrlp(raw))
    except RLPError:
        ok = False
    typ = c["typ"] if F.k >= BERLIN else None
    try:
        if typ is not None:
            ok = ok and 1 <= typ <= max_type(F.k)
            got = F.blocks.decode_receipt(Bytes(bytes([typ]) + raw))
        else:
            got = _rlp.decode_to(cls_of(F, kind), Bytes(raw))
        err = None
    except Exception as e:
        got, err = None, e
    if ok and err is not None:
        res.fail(kind + "-rejected-valid", "rejected: %r" % err)
    elif not ok and err is None:
        res.fail(kind + "-accepted-invalid", "accepted as %r" % (got,))
    elif ok:
        res.eq(kind + "-same-bytes", bytes(_rlp.encode(got)), raw)
    res.tag(kind, c["how"] + (":valid" if ok else ":invalid"))
    res.nontrivial = c["how"] != "none"


# ------------------------------------------------------------- helpers
def rhex(s, maxlen=70):
    n = s.weighted([(2, 1), (2, 2), (1, 15), (2, 16), (1, 17), (1, 39),
                    (2, 40), (1, 41), (1, 63), (3, 64), (1, 65), (2, 66),
                    (1, 511), (2, 512), (1, 513), (1, 514), (3, -1), (2, -2)])
    if n == -2:
        return ""
    if n == -1:
        n = s.int(1, maxlen)
    z = s.below(3)
    digits = "%0*x" % (n, s.below(16 ** n))
    if z == 0:
        digits = "0" * (n - n // 3) + digits[:n // 3]
    return digits.upper() if s.below(4) == 0 else digits


def make_help(s):
    what = s.pick(["hex", "hexnum", "pad", "ceil", "sign", "prime", "le",
                   "taylor", "mask", "render", "fixed"])
    c = dict(what=what, fork=NAMES[s.int(0, len(NAMES) - 1)])
    if what in ("hex", "hexnum", "fixed"):
        c.update(h=rhex(s), prefix=s.bool())
    elif what == "pad":
        d = rdata(s)
        c.update(d=d, n=s.pick([0, 1, 32, 64, len(d), max(0, len(d) - 1),
                                len(d) + 1, s.below(400)]), k=s.below(3))
    elif what == "ceil":
        c.update(n=s.pick([edge(s, 256), 32 * edge(s, 64) + s.pick(
            [0, 1, 31]), s.below(100)]))
    elif what == "sign":
        c.update(n=edge(s, 256) * s.pick([1, -1]))
    elif what == "prime":
        c.update(n=s.pick([s.below(200), s.below(10**5), s.below(1000)**2,
                           -s.below(100), (lambda a: a * (a + 2))(
                               s.below(1000))]))
    elif what == "le":
        c.update(d=s.bytes(4 * s.below(20)) if s.bool() else
                 rbytes(s, 4 * s.int(1, 20)))
    elif what == "taylor":
        d = s.pick([1, 2, 3, 3338477, 5007716, s.int(1, 10**7)])
        c.update(f=s.pick([0, 1, 2, 10, s.below(2**64)]),
                 n=s.pick([0, 1, s.below(20 * d), s.below(200 * d)]), d=d)
    elif what == "mask":
        c.update(n=edge(s, 256))
    else:
        c.update(n=edge(s, 256), d=rdata(s), style=s.below(4))
    return c


def attempt(f, *a):
    try:
        return f(*a)
    except Exception:
        return None


def run_help(c, res):
    what = c["what"]
    F = Fork(c["fork"])
    res.tag(what)
    res.nontrivial = True
    if what == "hex":
        h = c["h"]
        full = ("0x" if c["prefix"] else "") + h
        res.eq("has_hex_prefix", UH.has_hex_prefix(full), c["prefix"])
        res.eq("remove_hex_prefix", UH.remove_hex_prefix(full), h)
        X = F.mod("utils.hexadecimal")
        rows = [("hex_to_bytes", UH.hex_to_bytes, None, False),
                ("hex_to_bytes8", UH.hex_to_bytes8, 8, True),
                ("hex_to_bytes32", UH.hex_to_bytes32, 32, True),
                ("hex_to_bytes256", UH.hex_to_bytes256, 256, True),
                ("hex_to_hash", UH.hex_to_hash, 32, False),
                ("hex_to_root", X.hex_to_root, 32, False),
                ("hex_to_address", X.hex_to_address, 20, True)]
        for name, f, n, pad in rows:
            d = h.rjust(2 * n, "0") if pad else h
            want = bytes.fromhex(d) if len(d) % 2 == 0 and (
                n is None or len(d) == 2 * n) else None
            got = attempt(f, full)
            res.eq(name, None if got is None else bytes(got), want)
            if got is not None and n is not None:
                T = {8: Bytes8, 32: Bytes32, 256: Bytes256, 20: Bytes20}[n]
                res.eq(name + "-type", isinstance(got, T), True)
    elif what == "hexnum":
        h = c["h"]
        full = ("0x" if c["prefix"] else "") + h
        v = int(h, 16) if h else None
        for name, f, T, bits in (
                ("hex_to_uint", UH.hex_to_uint, Uint, None),
                ("hex_to_u8", UH.hex_to_u8, U8, 8),
                ("hex_to_u64", UH.hex_to_u64, U64, 64),
                ("hex_to_u256", UH.hex_to_u256, U256, 256)):
            got = attempt(f, full)
            want = v if v is not None and (
                bits is None or v < 2**bits) else None
            res.eq(name, None if got is None else int(got), want)
            if got is not None:
                res.eq(name + "-type", isinstance(got, T), True)
                res.eq(name + "-inverse", int(f(hex(got))), int(got))
    elif what == "fixed":
        # to_be/le_bytes of the numeric types against padding helpers
        v = int(c["h"] or "0", 16) % 2**256
        b = U256(v).to_be_bytes()
        res.eq("left-pad-word", bytes(UB.left_pad_zero_bytes(b, 32)),
               v.to_bytes(32, "big"))
        res.eq("word", bytes(U256(v).to_be_bytes32()), v.to_bytes(32, "big"))
        res.eq("from", int(U256.from_be_bytes(
            UB.left_pad_zero_bytes(b, U256(32)))), v)
        res.eq("hex_to_u256", int(UH.hex_to_u256(TU.encode_to_hex(v))), v)
        w = v.to_bytes(32, "big")
        res.eq("hex-bytes32", bytes(UH.hex_to_bytes32(
            TU.encode_to_hex(w))), w)
        res.eq("hex-hash", bytes(UH.hex_to_hash(TU.encode_to_hex(w))), w)
    elif what == "pad":
        n = [int, Uint, U256][c["k"]](c["n"])
        d, k = c["d"], c["n"]
        res.eq("left", bytes(UB.left_pad_zero_bytes(Bytes(d), n)),
               b"\0" * max(0, k - len(d)) + d)
        res.eq("right", bytes(UB.right_pad_zero_bytes(Bytes(d), n)),
               d + b"\0" * max(0, k - len(d)))
    elif what == "ceil":
        res.eq("ceil32", int(UN.ceil32(Uint(c["n"]))),
               -(-c["n"] // 32) * 32)
    elif what == "sign":
        n = c["n"]
        res.eq("sign", int(UN.get_sign(n)), (n > 0) - (n < 0))
    elif what == "prime":
        n = c["n"]
        res.eq("prime", bool(UN.is_prime(n)), n > 1 and all(
            n % p for p in range(2, min(n, int(n ** 0.5) + 2))))
    elif what == "le":
        d = c["d"]
        want = [int.from_bytes(d[i:i + 4], "little")
                for i in range(0, len(d), 4)]
        got = UN.le_bytes_to_uint32_sequence(d)
        res.eq("le-sequence", [int(x) for x in got], want)
        seq = [U32(x) for x in want]
        res.eq("le-bytes", bytes(UN.le_uint32_sequence_to_bytes(seq)), d)
        res.eq("le-uint", int(UN.le_uint32_sequence_to_uint(seq)),
               int.from_bytes(d, "little"))
    elif what == "taylor":
        res.eq("taylor", int(UN.taylor_exponential(
            Uint(c["f"]), Uint(c["n"]), Uint(c["d"]))),
            rules.fake_exp(c["f"], c["n"], c["d"]))
    elif what == "mask":
        A = F.mod("utils.address")
        for T in (Uint, U256):
            res.eq("mask", bytes(A.to_address_masked(T(c["n"]))),
                   (c["n"] % 2**160).to_bytes(20, "big"))
    else:
        n, d = c["n"], c["d"]
        res.eq("encode-int", TU.encode_to_hex(n), hex(n))
        res.eq("encode-bytes", TU.encode_to_hex(d), "0x" + d.hex())
        res.eq("decode-bytes", bytes(UH.hex_to_bytes(TU.encode_to_hex(d))),
               d)
        text = [hex(n), str(n), "0x%064x" % n, n][c["style"]]
        for T, bits in ((Uint, None), (U256, 256), (U64, 64), (U8, 8)):
            got = attempt(TU.parse_hex_or_int, text, T)
            res.eq("parse", None if got is None else int(got),
                   n if bits is None or n < 2**bits else None)


SUITES = [
    Suite("roundtrip", make_round, run_round, 30000,
          rule="every case: the encoding equals the reference encoding, the "
               "decoded object equals the original, hashes agree"),
    Suite("sensitivity", make_sense, run_sense, 30000,
          rule="one field was changed and the reference encodings differ"),
    Suite("junk", make_junk, run_junk, 60000,
          rule="the bytes were mangled or read as another fork or kind"),
    Suite("helpers", make_help, run_help, 60000,
          rule="every case: compared with Python's own conversions"),
]
