"""Small helpers for the demonstrations (copied beside each demo)."""
import importlib
from dataclasses import replace
from coincurve import PrivateKey
from ethereum_types.bytes import Bytes, Bytes0, Bytes20, Bytes32
from ethereum_types.numeric import U64, U256, Uint
from ethereum.crypto.hash import keccak256

ORDER = ("frontier homestead dao_fork tangerine_whistle spurious_dragon "
         "byzantium constantinople istanbul muir_glacier berlin london "
         "arrow_glacier gray_glacier paris shanghai cancun prague "
         "osaka").split()
KEY = PrivateKey(b"\x01" * 32)
ME = Bytes20(keccak256(KEY.public_key.format(False)[1:])[12:])
CB = Bytes20(b"\x09" * 20)


def A(n):
    return Bytes20(bytes([0xAA]) * 19 + bytes([n]))


def H(s):
    return bytes.fromhex(s.replace(" ", ""))


class Run:
    """One fork: state building, signing, executing a block body."""

    def __init__(self, fork):
        self.f = fork
        self.k = ORDER.index(fork)
        m = lambda n: importlib.import_module("ethereum.%s.%s" % (fork, n))
        self.vm, self.S, self.T, self.types, self.fork, self.trie = (
            m("vm"), m("state"), m("transactions"), m("fork_types"),
            m("fork"), m("trie"))
        self.st = self.S.State()
        self.put(ME, 0, 10**20)
        if self.k >= 16:
            for a in ("00000961ef480eb55e80d19ad83579a64c007002",
                      "0000bbddc7ce488642fb579f8b00f3a590007251"):
                self.put(Bytes20(H(a)), 1, 0, b"\x00")

    def put(self, a, nonce=1, balance=0, code=b"", **slots):
        self.S.set_account(self.st, a, self.types.Account(
            nonce=Uint(nonce), balance=U256(balance), code=Bytes(code)))

    def slot(self, a, k, v=None):
        k = Bytes32(k.to_bytes(32, "big"))
        if v is None:
            return int(self.S.get_storage(self.st, a, k))
        self.S.set_storage(self.st, a, k, U256(v))

    def bal(self, a):
        return int(self.S.get_account(self.st, a).balance)

    def tx(self, to=None, data=b"", gas=500000, value=0, nonce=0, price=10):
        cls = getattr(self.T, "LegacyTransaction", None) or self.T.Transaction
        t = cls(nonce=U256(nonce), gas_price=Uint(price), gas=Uint(gas),
                to=Bytes0(b"") if to is None else to, value=U256(value),
                data=Bytes(data), v=U256(27), r=U256(1), s=U256(1))
        h = (self.T.signing_hash_pre155 if hasattr(
            self.T, "signing_hash_pre155") else self.T.signing_hash)(t)
        g = KEY.sign_recoverable(bytes(h), hasher=None)
        return replace(t, r=U256.from_be_bytes(g[:32]),
                       s=U256.from_be_bytes(g[32:64]), v=U256(27 + g[64]))

    def env(self, **kw):
        d = dict(chain_id=U64(1), state=self.st, block_gas_limit=Uint(10**7),
                 block_hashes=[Bytes32(b"\x01" * 32)], coinbase=CB,
                 number=Uint(1), time=U256(1))
        if self.k >= 10:
            d["base_fee_per_gas"] = Uint(7)
        if self.k >= 13:
            d["prev_randao"] = Bytes32(b"\0" * 32)
        else:
            d["difficulty"] = Uint(1)
        if self.k >= 15:
            d.update(excess_blob_gas=U64(0),
                     parent_beacon_block_root=Bytes32(b"\x02" * 32))
        d.update(kw)
        return self.vm.BlockEnvironment(**d)

    def body(self, *txs, withdrawals=(), ommers=(), **kw):
        extra = (withdrawals,) if self.k >= 14 else (
            () if self.k >= 13 else (ommers,))
        return self.fork.apply_body(self.env(**kw), tuple(txs), *extra)
