"""Conversion between plain model data and the objects of the code under test.

Only public names of the fork packages are used, always by keyword, so that
refactorings inside the forks do not matter here.
"""
import importlib, os, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
sys.setrecursionlimit(max(sys.getrecursionlimit(), 12000))

from ethereum_rlp import rlp as _rlp                       # noqa: E402
from ethereum_rlp.exceptions import RLPException           # noqa: E402
from ethereum_types.bytes import (                         # noqa: E402
    Bytes, Bytes0, Bytes8, Bytes20, Bytes32, Bytes256)
from ethereum_types.numeric import U8, U64, U256, Uint     # noqa: E402
from ethereum.exceptions import EthereumException          # noqa: E402
import ethereum                                            # noqa: E402

assert os.path.realpath(ethereum.__file__).startswith(
    os.path.realpath(REPO)), ethereum.__file__

from refspec.forks import *                                # noqa: E402
from refspec import block as RB                            # noqa: E402
from refspec.world import World, Acct                      # noqa: E402

REJECTS = (EthereumException, RLPException)


class Fork:
    _cache = {}

    def __new__(cls, name):
        if isinstance(name, int):
            name = NAMES[name]
        if name not in cls._cache:
            o = super().__new__(cls)
            o.name, o.k = name, IDX[name]
            o._m = {}
            cls._cache[name] = o
        return cls._cache[name]

    def __reduce__(self):
        return (Fork, (self.name,))

    def mod(self, path):
        if path not in self._m:
            self._m[path] = importlib.import_module(
                "ethereum.%s%s" % (self.name, "." + path if path else ""))
        return self._m[path]

    fork = property(lambda s: s.mod("fork"))
    state = property(lambda s: s.mod("state"))
    blocks = property(lambda s: s.mod("blocks"))
    txs = property(lambda s: s.mod("transactions"))
    trie = property(lambda s: s.mod("trie"))
    types = property(lambda s: s.mod("fork_types"))
    vm = property(lambda s: s.mod("vm"))

    # -- state -------------------------------------------------------
    def make_state(self, world):
        S = self.state
        st = S.State()
        for a, c in world.a.items():
            S.set_account(st, Bytes20(a), self.types.Account(
                nonce=Uint(c.nonce), balance=U256(c.balance),
                code=Bytes(c.code)))
            for k, v in c.storage.items():
                S.set_storage(st, Bytes20(a),
                              Bytes32(k.to_bytes(32, "big")), U256(v))
        return st

    def read_account(self, st, a):
        """(exists, nonce, balance, code)"""
        c = self.state.get_account_optional(st, Bytes20(a))
        if c is None:
            return None
        return (int(c.nonce), int(c.balance), bytes(c.code))

    def read_slot(self, st, a, k):
        return int(self.state.get_storage(
            st, Bytes20(a), Bytes32(k.to_bytes(32, "big"))))

    # -- transactions ------------------------------------------------
    def legacy(self, tx):
        T = self.txs
        cls = T.LegacyTransaction if self.k >= BERLIN else T.Transaction
        return cls(
            nonce=U256(tx["nonce"]), gas_price=Uint(tx["gas_price"]),
            gas=Uint(tx["gas"]),
            to=Bytes0(b"") if tx["to"] is None else Bytes20(tx["to"]),
            value=U256(tx["value"]), data=Bytes(tx["data"]),
            v=U256(tx["v"]), r=U256(tx["r"]), s=U256(tx["s"]))

    def tx_obj(self, tx):
        """Transaction object (typed or legacy)."""
        t = tx["type"]
        if t == 0:
            return self.legacy(tx)
        T = self.txs
        kw = dict(
            chain_id=U64(tx["chain_id"]), nonce=U256(tx["nonce"]),
            gas=Uint(tx["gas"]),
            to=Bytes0(b"") if tx["to"] is None else Bytes20(tx["to"]),
            value=U256(tx["value"]), data=Bytes(tx["data"]),
            access_list=tuple(self.access(a, ks) for a, ks in tx["access"]),
            y_parity=U256(tx["v"]), r=U256(tx["r"]), s=U256(tx["s"]))
        if t == 1:
            return T.AccessListTransaction(
                gas_price=Uint(tx["gas_price"]), **kw)
        kw.update(max_priority_fee_per_gas=Uint(tx["prio"]),
                  max_fee_per_gas=Uint(tx["max_fee"]))
        if t == 2:
            return T.FeeMarketTransaction(**kw)
        if t == 3:
            return T.BlobTransaction(
                max_fee_per_blob_gas=U256(tx["blob_fee"]),
                blob_versioned_hashes=tuple(
                    Bytes32(b) for b in tx["blobs"]), **kw)
        kw.update(chain_id=U64(tx["chain_id"]), nonce=U64(tx["nonce"]))
        return T.SetCodeTransaction(
            authorizations=tuple(self.auth(a) for a in tx["auths"]), **kw)

    def access(self, a, ks):
        slots = tuple(Bytes32(k.to_bytes(32, "big")) for k in ks)
        if hasattr(self.txs, "Access"):
            return self.txs.Access(account=Bytes20(a), slots=slots)
        return (Bytes20(a), slots)

    def auth(self, a):
        return self.types.Authorization(
            chain_id=U256(a["chain_id"]), address=Bytes20(a["address"]),
            nonce=U64(a["nonce"]), y_parity=U8(a["y"]),
            r=U256(a["r"]), s=U256(a["s"]))

    def block_tx(self, tx):
        """As it sits in a block: legacy object or typed bytes."""
        if tx["type"] == 0:
            return self.legacy(tx)
        return Bytes(RB.tx_encode(tx))

    def withdrawal(self, x):
        return self.blocks.Withdrawal(
            index=U64(x["index"]), validator_index=U64(x["validator"]),
            address=Bytes20(x["address"]), amount=U256(x["amount"]))

    # -- environments ------------------------------------------------
    def block_env(self, blk, st):
        kw = dict(
            chain_id=U64(blk.chain_id), state=st,
            block_gas_limit=Uint(blk.gas_limit),
            block_hashes=[Bytes32(h) for h in blk.hashes],
            coinbase=Bytes20(blk.coinbase), number=Uint(blk.number),
            time=U256(blk.time))
        if self.k >= LONDON:
            kw["base_fee_per_gas"] = Uint(blk.base_fee)
        if self.k >= PARIS:
            kw["prev_randao"] = Bytes32(blk.prev_randao)
        else:
            kw["difficulty"] = Uint(blk.difficulty)
        if self.k >= CANCUN:
            kw["excess_blob_gas"] = U64(blk.excess_blob_gas)
            kw["parent_beacon_block_root"] = Bytes32(blk.beacon_root)
        return self.vm.BlockEnvironment(**kw)

    def apply_body(self, env, txs, withdrawals=(), ommers=()):
        kw = dict(block_env=env,
                  transactions=tuple(self.block_tx(t) for t in txs))
        if self.k >= SHANGHAI:
            kw["withdrawals"] = tuple(self.withdrawal(x) for x in withdrawals)
        elif self.k < PARIS:
            kw["ommers"] = tuple(self.header(o) for o in ommers)
        return self.fork.apply_body(**kw)

    # -- headers and blocks ------------------------------------------
    def header(self, h):
        kw = dict(
            parent_hash=Bytes32(h["parent_hash"]),
            ommers_hash=Bytes32(h["ommers_hash"]),
            coinbase=Bytes20(h["coinbase"]),
            state_root=Bytes32(h["state_root"]),
            transactions_root=Bytes32(h["transactions_root"]),
            receipt_root=Bytes32(h["receipt_root"]),
            bloom=Bytes256(h["bloom"]), difficulty=Uint(h["difficulty"]),
            number=Uint(h["number"]), gas_limit=Uint(h["gas_limit"]),
            gas_used=Uint(h["gas_used"]), timestamp=U256(h["timestamp"]),
            extra_data=Bytes(h["extra_data"]), nonce=Bytes8(h["nonce"]))
        kw["prev_randao" if self.k >= PARIS else "mix_digest"] = \
            Bytes32(h["mix"])
        if self.k >= LONDON:
            kw["base_fee_per_gas"] = Uint(h["base_fee"])
        if self.k >= SHANGHAI:
            kw["withdrawals_root"] = Bytes32(h["withdrawals_root"])
        if self.k >= CANCUN:
            kw["blob_gas_used"] = U64(h["blob_gas_used"])
            kw["excess_blob_gas"] = U64(h["excess_blob_gas"])
            kw["parent_beacon_block_root"] = Bytes32(h["beacon_root"])
        if self.k >= PRAGUE:
            kw["requests_hash"] = Bytes32(h["requests_hash"])
        return self.blocks.Header(**kw)

    def block(self, h, txs=(), ommers=(), withdrawals=()):
        kw = dict(header=self.header(h),
                  transactions=tuple(self.block_tx(t) for t in txs),
                  ommers=tuple(self.header(o) for o in ommers))
        if self.k >= SHANGHAI:
            kw["withdrawals"] = tuple(
                self.withdrawal(x) for x in withdrawals)
        return self.blocks.Block(**kw)

    def chain(self, blocks, st, chain_id):
        return self.fork.BlockChain(
            blocks=list(blocks), state=st, chain_id=U64(chain_id))

    # -- reading outputs ---------------------------------------------
    def log(self, l):
        return (bytes(l.address), [bytes(t) for t in l.topics],
                bytes(l.data))

    def receipts(self, out):
        """Encoded receipts in order, as stored in the receipts trie."""
        res = []
        i = 0
        while True:
            r = self.trie.trie_get(out.receipts_trie, _rlp.encode(Uint(i)))
            if r is None:
                return res
            res.append(bytes(r) if isinstance(r, (bytes, bytearray))
                       else bytes(_rlp.encode(r)))
            i += 1


FORKS = [Fork(n) for n in NAMES]


def preload(names=NAMES):
    """Import the fork packages before worker processes are forked."""
    for n in names:
        F = Fork(n)
        F.fork, F.txs, F.vm, F.trie, F.state, F.blocks, F.types


def state_diff(F, st, world, extra=()):
    """Differences between an implementation state and a model world."""
    bad = []
    for a in sorted(set(world.a) | set(extra)):
        got = F.read_account(st, a)
        c = world.a.get(a)
        want = None if c is None else (c.nonce, c.balance, bytes(c.code))
        if got != want:
            for i, n in enumerate(("nonce", "balance", "code")):
                if got is None or want is None:
                    bad.append("account %s: %s, expected %s" % (
                        a.hex(), "absent" if got is None else "present "
                        + str(got[:2]), "absent" if want is None else
                        "present " + str(want[:2])))
                    break
                if got[i] != want[i]:
                    bad.append("%s of %s: %s, expected %s" % (
                        n, a.hex(), _s(got[i]), _s(want[i])))
        if c is not None:
            for k in sorted(c.storage):
                v = F.read_slot(st, a, k)
                if v != c.storage[k]:
                    bad.append("slot %s[%#x]: %#x, expected %#x" % (
                        a.hex(), k, v, c.storage[k]))
    root = bytes(F.state.state_root(st))
    if root != world.root():
        bad.append("state root %s, expected %s" % (
            root.hex()[:16], world.root().hex()[:16]))
    return bad


def _s(x):
    return x.hex()[:80] if isinstance(x, bytes) else x


# --------------------------------------------------- whole-body comparison
def body_case(F, blk, world, txs, withdrawals=(), ommers=(), res=None,
              prefix=""):
    """Run a block body on the implementation and the reference and compare
    everything observable.  Returns (model output or None, model world,
    implementation output or None, implementation state)."""
    st = F.make_state(world)
    w = world.copy()
    try:
        want = RB.run_body(F.k, w, blk, txs, withdrawals, ommers)
        why = None
    except RB.Reject as e:
        want, why = None, str(e)
    try:
        got = F.apply_body(F.block_env(blk, st), txs, withdrawals, ommers)
        err = None
    except REJECTS as e:
        got, err = None, "%s: %s" % (type(e).__name__, e)
    except RecursionError as e:
        raise
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res.fail(prefix + "crash", "%s: %s at %s:%d" % (
            type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        return want, w, None, st
    if want is None and got is None:
        res.tag("rejected:" + why)
        return None, w, None, st
    if want is None:
        res.fail(prefix + "accepted-invalid",
                 "accepted, but must be rejected (%s)" % why)
        return None, w, got, st
    if got is None:
        res.fail(prefix + "rejected-valid", "rejected (%s), but is valid"
                 % err)
        return want, w, None, st
    compare_outputs(F, got, want, st, w, res, prefix)
    return want, w, got, st


def compare_outputs(F, got, want, st, w, res, prefix=""):
    res.eq(prefix + "gas_used", int(got.block_gas_used), want.gas_used)
    wl = [(a, list(t), d) for a, t, d in want.logs]
    gl = [F.log(l) for l in got.block_logs]
    res.eq(prefix + "logs", gl, wl)
    enc = [RB.receipt_encode(r) for r in want.receipts]
    ge = F.receipts(got)
    if len(ge) != len(enc):
        res.fail(prefix + "receipt_count", "%d receipts, expected %d" % (
            len(ge), len(enc)))
    for i, (a, b) in enumerate(zip(ge, enc)):
        if a != b:
            res.fail(prefix + "receipt", "receipt %d: %s, expected %s" % (
                i, a.hex()[:80] + "..", b.hex()[:80] + ".."))
    if F.k >= CANCUN:
        res.eq(prefix + "blob_gas", int(got.blob_gas_used), want.blob_gas)
    if F.k >= PRAGUE:
        res.eq(prefix + "requests", [bytes(r) for r in got.requests],
               want.requests)
    R = lambda t: bytes(F.trie.root(t))
    res.eq(prefix + "transactions_root", R(got.transactions_trie),
           RB.ordered_root(want.tx_bytes))
    res.eq(prefix + "receipts_root", R(got.receipts_trie),
           RB.ordered_root(enc))
    if F.k >= SHANGHAI:
        res.eq(prefix + "withdrawals_root", R(got.withdrawals_trie),
               RB.ordered_root(want.withdrawals))
    for d in state_diff(F, st, w)[:6]:
        res.fail(prefix + "state", d)
