"""Reference world state: plain dictionaries with an undo log."""
from .prim import keccak, rlp, mpt_root, EMPTY_ROOT


class Acct:
    __slots__ = ("nonce", "balance", "code", "storage")

    def __init__(self, nonce=0, balance=0, code=b"", storage=None):
        self.nonce, self.balance, self.code = nonce, balance, code
        self.storage = storage if storage is not None else {}

    def copy(self):
        return Acct(self.nonce, self.balance, self.code, dict(self.storage))

    def empty(self):
        return not (self.nonce or self.balance or self.code)


class World:
    def __init__(self):
        self.a = {}      # address -> Acct
        self.undo = []   # undo closures (as tuples)

    def copy(self):
        w = World()
        w.a = {k: v.copy() for k, v in self.a.items()}
        return w

    # -- snapshots ---------------------------------------------------
    def mark(self):
        return len(self.undo)

    def revert(self, m):
        u = self.undo
        while len(u) > m:
            f, args = u.pop()
            f(*args)

    def log(self, f, *args):
        self.undo.append((f, args))

    # -- reads -------------------------------------------------------
    def exists(self, x):
        return x in self.a

    def alive(self, x):
        c = self.a.get(x)
        return c is not None and not c.empty()

    def nonce(self, x):
        c = self.a.get(x)
        return c.nonce if c else 0

    def balance(self, x):
        c = self.a.get(x)
        return c.balance if c else 0

    def code(self, x):
        c = self.a.get(x)
        return c.code if c else b""

    def sload(self, x, k):
        c = self.a.get(x)
        return c.storage.get(k, 0) if c else 0

    # -- writes ------------------------------------------------------
    def _drop(self, x):
        self.a.pop(x, None)

    def _put(self, x, c):
        self.a[x] = c

    def ensure(self, x):
        c = self.a.get(x)
        if c is None:
            c = self.a[x] = Acct()
            self.log(self._drop, x)
        return c

    def set_balance(self, x, v):
        c = self.ensure(x)
        self.log(setattr, c, "balance", c.balance)
        c.balance = v

    def add_balance(self, x, v):
        self.set_balance(x, self.balance(x) + v)

    def set_nonce(self, x, v):
        c = self.ensure(x)
        self.log(setattr, c, "nonce", c.nonce)
        c.nonce = v

    def set_code(self, x, v):
        c = self.ensure(x)
        self.log(setattr, c, "code", c.code)
        c.code = v

    def sstore(self, x, k, v):
        c = self.ensure(x)
        old = c.storage.get(k, 0)
        self.log(self._srestore, c, k, old)
        self._srestore(c, k, v)

    @staticmethod
    def _srestore(c, k, v):
        if v:
            c.storage[k] = v
        else:
            c.storage.pop(k, None)

    def clear_storage(self, x):
        c = self.a.get(x)
        if c is not None and c.storage:
            self.log(setattr, c, "storage", c.storage)
            c.storage = {}

    def delete(self, x):
        c = self.a.pop(x, None)
        if c is not None:
            self.log(self._put, x, c)

    # -- commitment --------------------------------------------------
    def storage_root(self, x):
        c = self.a.get(x)
        if c is None or not c.storage:
            return EMPTY_ROOT
        return mpt_root({k.to_bytes(32, "big"): rlp(v)
                         for k, v in c.storage.items()}, True)

    def root(self):
        return mpt_root({
            x: rlp([c.nonce, c.balance, self.storage_root(x),
                    keccak(c.code)])
            for x, c in self.a.items()}, True)

    def total(self):
        return sum(c.balance for c in self.a.values())
