"""C28: genesis construction commits exactly to the configured allocation."""
import json, os, tempfile
from lib.pbt import Suite
from lib.adapt import (Fork, preload, U64, U256, Uint, Bytes8, Bytes,
                       state_diff, _rlp)
from lib.chain import blank_header
from ethereum import genesis as T
from refspec import block as RB
from refspec.forks import *
from refspec.prim import keccak, rlp
from refspec.world import World, Acct

ASSUME = ("Allocations are in the documented JSON form; no account is both "
          "configured with storage and entirely empty.")
ADDRS = [bytes([i]) * 20 for i in range(1, 9)] + [
    i.to_bytes(20, "big") for i in (0, 1, 2, 255)] + [
    bytes.fromhex("00000000219ab540356cbb839cbe05303d7705fa")]


def number(s, hi):
    return s.weighted([(2, 0), (2, 1), (2, s.below(1000)),
                       (2, s.below(hi)), (1, hi - 1)])


def word(s):
    return s.weighted([(2, 1), (2, s.below(300)), (1, 2**256 - 1),
                       (2, int.from_bytes(s.bytes(32), "big")), (1, 0)])


def make(s):
    fork = s.below(len(NAMES))
    n = s.weighted([(1, 0), (4, s.int(1, 5)), (2, s.int(6, 20)),
                    (1, s.int(30, 80))])
    alloc = []
    seen = set()
    for i in range(n):
        a = s.pick(ADDRS) if s.bool() else s.bytes(20)
        if a in seen:
            continue
        seen.add(a)
        d = dict(balance=number(s, 2**s.pick([64, 100, 256])),
                 nonce=s.weighted([(4, None), (2, 1), (1, 0),
                                   (1, number(s, 2**64))]),
                 code=s.weighted([(4, None), (3, s.blob(60)), (1, b""),
                                  (1, b"\x60" * s.pick([24576, 300]))]),
                 storage=None if s.bool() else [
                     [word(s), word(s)] for _ in range(s.below(6))],
                 hexbal=s.bool(), prefix=s.chance(70), upper=s.chance(20),
                 nobal=s.chance(8), padval=s.bool(),
                 keyfmt=s.weighted([(3, 0), (2, 1), (1, 2), (1, 3)]))
        if not (d["balance"] or d["nonce"] or d["code"]):
            if fork >= 5:
                d["storage"] = None
        alloc.append([a, d])
    return dict(fork=fork, alloc=alloc, chain_id=s.weighted(
        [(3, 1), (2, 0), (2, s.below(2**64))]),
        difficulty=number(s, 2**256), gas_limit=number(s, 2**64),
        extra=s.weighted([(3, b""), (3, s.blob(32)), (1, s.blob(200))]),
        nonce=s.bytes(8), timestamp=number(s, 2**64), hextime=s.bool(),
        file=s.chance(50))


def hx(n):
    return hex(n)


def account_json(d):
    j = {}
    if not (d["nobal"] and not d["balance"]):
        j["balance"] = hx(d["balance"]) if d["hexbal"] else str(d["balance"])
    if d["nonce"] is not None:
        j["nonce"] = str(d["nonce"])
    if d["code"] is not None:
        j["code"] = "0x" + d["code"].hex()
    if d["storage"] is not None:
        j["storage"] = {
            ["0x%064x", "0x%x", "%064x", "%x"][d["keyfmt"]] % k:
            ("0x%064x" if d["padval"] else "0x%x") % v
            for k, v in d["storage"]}
    return j


def alloc_json(c):
    out = {}
    for a, d in c["alloc"]:
        k = a.hex().upper() if d["upper"] else a.hex()
        out[("0x" if d["prefix"] else "") + k] = account_json(d)
    return out


def via_file(doc):
    """Through the JSON reader, reached by a path leaving the assets."""
    fd, path = tempfile.mkstemp(suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(doc, f)
        base = os.path.join(os.path.dirname(T.__file__), "assets")
        try:
            return T.get_genesis_configuration(os.path.relpath(path, base))
        except (FileNotFoundError, ValueError) as e:
            if isinstance(e, FileNotFoundError):
                return None
            raise
    finally:
        os.unlink(path)


def config(c, res):
    alloc = alloc_json(c)
    if c["file"]:
        g = via_file(dict(
            config=dict(chainId=c["chain_id"]),
            difficulty=hx(c["difficulty"]),
            extraData="0x" + c["extra"].hex(), gasLimit=hx(c["gas_limit"]),
            nonce="0x" + c["nonce"].hex(),
            timestamp=hx(c["timestamp"]) if c["hextime"]
            else str(c["timestamp"]), alloc=alloc))
        if g is not None:
            res.tag("json-file")
            return g
    return T.GenesisConfiguration(
        chain_id=U64(c["chain_id"]), difficulty=Uint(c["difficulty"]),
        extra_data=Bytes(c["extra"]), gas_limit=Uint(c["gas_limit"]),
        nonce=Bytes8(c["nonce"]), timestamp=U256(c["timestamp"]),
        initial_accounts=alloc)


def description(F):
    return T.GenesisFork(
        Address=F.types.Address, Account=F.types.Account, Trie=F.trie.Trie,
        Bloom=F.types.Bloom, Header=F.blocks.Header, Block=F.blocks.Block,
        set_account=F.state.set_account, set_storage=F.state.set_storage,
        state_root=F.state.state_root, root=F.trie.root,
        hex_to_address=F.mod("utils.hexadecimal").hex_to_address)


def model(c):
    w = World()
    for a, d in c["alloc"]:
        st = {}
        for k, v in d["storage"] or ():
            st[k] = v
        w.a[a] = Acct(d["nonce"] or 0,
                      d["balance"], d["code"] or b"",
                      {k: v for k, v in st.items() if v})
    return w


def run(c, res):
    fork = c["fork"]
    F = Fork(fork)
    g = config(c, res)
    st = F.state.State()
    chain = F.fork.BlockChain(blocks=[], state=st, chain_id=U64(77))
    T.add_genesis_block(description(F), chain, g)
    w = model(c)
    for d in state_diff(F, st, w)[:4]:
        res.fail("state", d)
    res.eq("chain_id", int(chain.chain_id), c["chain_id"])
    res.eq("blocks", len(chain.blocks), 1)
    b = chain.blocks[0]
    h = blank_header(
        fork, number=0, difficulty=c["difficulty"], gas_limit=c["gas_limit"],
        extra_data=c["extra"], nonce=c["nonce"], timestamp=c["timestamp"],
        coinbase=b"\0" * 20, base_fee=10**9, state_root=w.root(),
        mix=b"\0" * 32)
    want = F.header(h)
    for f in want.__dataclass_fields__:
        x, y = getattr(b.header, f), getattr(want, f)
        if x != y or type(x) is not type(y):
            res.fail("header." + f, "%r, expected %r" % (x, y))
    res.eq("hash", keccak(bytes(_rlp.encode(b.header))),
           RB.header_hash(fork, h))
    res.eq("transactions", len(b.transactions), 0)
    res.eq("ommers", len(b.ommers), 0)
    body = [RB.header_fields(fork, h), [], []]
    if fork >= SHANGHAI:
        res.eq("withdrawals", len(b.withdrawals), 0)
        body.append([])
    res.eq("rlp", bytes(_rlp.encode(b)), rlp(body))
    # the first child builds on exactly this header
    res.nontrivial = bool(c["alloc"])
    res.tag(F.name, "accounts<=%d" % (10 * (1 + len(c["alloc"]) // 10)))
    if any(d["storage"] for _, d in c["alloc"]):
        res.tag("storage")
    if any(d["nobal"] and not d["balance"] for _, d in c["alloc"]):
        res.tag("no-balance")


def run_main(c, res):
    F = Fork(c["fork"])
    g = T.get_genesis_configuration("mainnet.json")
    st = F.state.State()
    chain = F.fork.BlockChain(blocks=[], state=st, chain_id=U64(77))
    T.add_genesis_block(description(F), chain, g)
    h = chain.blocks[0].header
    res.eq("chain_id", int(chain.chain_id), 1)
    res.eq("state_root", bytes(h.state_root).hex(),
           "d7f8974fb5ac78d9ac099b9ad5018bedc2ce0a72dad1827a1709da30580f0544")
    if c["fork"] < LONDON:
        res.eq("hash", keccak(bytes(_rlp.encode(h))).hex(),
               "d4e56740f876aef8c010b86a40d5f56745a118d0906a34e69aec8c0db1cb"
               "8fa3")
    res.nontrivial = True


preload()
SUITES = [
    Suite("mainnet", lambda s: dict(fork=s.below(18)), run_main, 0, 20,
          "the mainnet configuration gives the mainnet root and hash",
          [dict(fork=0), dict(fork=16)]),
    Suite("genesis", make, run, 9000, None,
          "0-80 accounts with edge balances, nonces, code and storage, in "
          "decimal and hexadecimal, as an object or through the JSON reader, "
          "for every fork; non-trivial: at least one account"),
]
