"""Histories of state-module operations against a dictionary model."""
from refspec.forks import *
from refspec.prim import EMPTY_ROOT
from refspec.world import World, Acct
from lib.adapt import Fork, Bytes20, Bytes32, Bytes, U256, Uint
from lib.gen import M256

ADDR = [bytes([i + 1]) * 20 for i in range(4)]
SLOTS = [0, 1, 2**255, M256 - 1]
CODES = [b"", b"\x00", b"\x60\x01" * 20]


class Model:
    def __init__(self, k):
        self.k = k
        self.a = {}                 # addr -> [nonce, bal, code, {slot: v}]
        self.t = {}
        self.has_t = False
        self.created = set()
        self.snaps = []
        # had storage when roots were last computed, not destroyed since
        self.kept = set()
        self.meta = {}
        self.tainted_disk = set()
        self.tainted = set()        # storage changed, then dropped
        self.unknown = set()        # metadata of dropped transactions
        self.disk = ({}, {})

    def copy_a(self):
        return {x: [c[0], c[1], c[2], dict(c[3])] for x, c in self.a.items()}

    def copy_t(self):
        return {x: dict(v) for x, v in self.t.items()}

    def begin(self, keep=False):
        if not self.snaps:
            if not (keep and self.has_t):
                self.t = {}
            self.has_t = True
            self.kept |= {x for x, c in self.a.items() if c[3]}
        self.snaps.append((self.copy_a(), self.copy_t(), set(self.kept)))

    def commit(self):
        self.snaps.pop()
        if not self.snaps:
            self.created.clear()

    def rollback(self):
        self.a, self.t, self.kept = self.snaps.pop()
        if not self.snaps:
            self.created.clear()

    def settle(self):
        self.kept = {x for x, c in self.a.items() if c[3]}

    def acc(self, x):
        return self.a.setdefault(x, [0, 0, b"", {}])

    def after(self, x):
        if self.k >= PARIS:
            c = self.a[x]
            if not (c[0] or c[1] or c[2]):
                del self.a[x]

    def world(self):
        w = World()
        for x, c in self.a.items():
            w.a[x] = Acct(c[0], c[1], c[2], dict(c[3]))
        return w


def gen_ops(s, k, n, marks_any=False, db=False):
    """Operations legal in the order given (tracked with a model)."""
    m = Model(k)
    ops = []
    names = ["set_account", "set_storage", "set_storage", "set_storage",
             "destroy_account", "destroy_storage", "move", "nonce", "code",
             "balance", "begin", "begin", "commit", "rollback", "observe"]
    if k < PARIS:
        names += ["create_ether", "touch"]
    if SPURIOUS <= k < PARIS:
        names.append("clear_empty")
    if k >= ISTANBUL:
        names.append("mark")
    if k >= CANCUN:
        names += ["tset", "tset"]
    if db:
        names += ["db_commit", "db_rollback", "reopen", "crash", "meta",
                  "meta"]
    for _ in range(n):
        op = s.pick(names)
        x = s.pick(ADDR)
        if op == "set_account":
            v = [s.below(3), s.pick([0, 1, 1000]), s.pick(CODES)]
            if k >= PARIS and not any(v):
                v[0] = 1
            o = [op, x] + v
        elif op == "set_storage":
            if x not in m.a:
                continue
            o = [op, x, s.pick(SLOTS), s.pick([0, 0, 1, 2, M256 - 1])]
        elif op in ("destroy_account", "destroy_storage", "nonce", "touch"):
            o = [op, x]
        elif op == "move":
            have = m.a.get(x, [0, 0])[1]
            o = [op, x, s.pick(ADDR), s.pick([0, have, have // 2])]
        elif op == "code":
            o = [op, x, s.pick(CODES)]
        elif op in ("balance", "create_ether"):
            o = [op, x, s.pick([0, 1, 5, 2**128])]
        elif op == "begin":
            # the transient storage may live longer than one transaction
            o = [op, True] if s.chance(25) else [op]
        elif op == "observe":
            o = [op]
        elif op in ("commit", "rollback"):
            if not m.snaps:
                continue
            o = [op]
        elif op == "clear_empty":
            o = [op] + s.sample(ADDR, s.int(1, 4))
        elif op == "mark":
            if not m.snaps:
                continue
            orig = m.snaps[0][0].get(x)
            if orig and orig[3] and not marks_any:
                continue
            o = [op, x]
        elif op == "tset":
            if not m.snaps:
                continue
            o = [op, x, s.pick(SLOTS), s.below(3)]
        elif op in ("db_commit", "db_rollback", "reopen", "crash"):
            if m.snaps and op != "crash":
                continue
            o = [op]
        elif op == "meta":
            o = [op, s.pick([b"a", b"key", b"\0"]), s.pick(
                [b"", b"1", s.bytes(40)])]
        apply_model(m, o)
        ops.append(o)
    while m.snaps:
        o = ["commit"] if s.bool() else ["rollback"]
        apply_model(m, o)
        ops.append(o)
    return ops


def apply_model(m, o):
    op = o[0]
    if op == "set_account":
        c = m.acc(o[1])
        c[0], c[1], c[2] = o[2:5]
    elif op == "set_storage":
        c = m.a[o[1]]
        if o[3]:
            c[3][o[2]] = o[3]
        else:
            c[3].pop(o[2], None)
    elif op == "destroy_account":
        m.a.pop(o[1], None)
        m.kept.discard(o[1])
    elif op == "destroy_storage":
        m.kept.discard(o[1])
        if o[1] in m.a:
            m.a[o[1]][3] = {}
    elif op == "move":
        m.acc(o[1])[1] -= o[3]
        m.after(o[1])
        m.acc(o[2])[1] += o[3]
        m.after(o[2])
    elif op == "nonce":
        m.acc(o[1])[0] += 1
    elif op == "code":
        m.acc(o[1])[2] = o[2]
        m.after(o[1])
    elif op == "balance":
        m.acc(o[1])[1] = o[2]
        m.after(o[1])
    elif op == "create_ether":
        m.acc(o[1])[1] = (m.acc(o[1])[1] + o[2]) % M256
    elif op == "touch":
        m.acc(o[1])
    elif op == "clear_empty":
        for x in o[1:]:
            c = m.a.get(x)
            if c and not (c[0] or c[1] or c[2]):
                del m.a[x]
                m.kept.discard(x)
    elif op == "mark":
        m.created.add(o[1])
    elif op == "tset":
        d = m.t.setdefault(o[1], {})
        d[o[2]] = o[3]
    elif op in ("begin", "commit", "rollback"):
        getattr(m, op)(*o[1:])
    elif op == "meta":
        m.meta[o[1]] = o[2]
        m.unknown.discard(o[1])
    elif op in ("db_commit", "reopen"):
        m.disk = (m.copy_a(), dict(m.meta))
        m.tainted_disk = set(m.tainted)
        m.settle()
    elif op in ("db_rollback", "crash"):
        for k in m.meta:
            if m.meta[k] != m.disk[1].get(k):
                m.unknown.add(k)
        if op == "crash":
            m.tainted = set(m.tainted_disk)
        else:
            m.tainted |= {x for x in set(m.a) | set(m.disk[0])
                          if (m.a.get(x) or [0, 0, 0, {}])[3]
                          != (m.disk[0].get(x) or [0, 0, 0, {}])[3]}
        m.a, m.meta = {x: [c[0], c[1], c[2], dict(c[3])]
                       for x, c in m.disk[0].items()}, dict(m.disk[1])
        m.snaps, m.created = [], set()
        if op == "crash":
            m.t, m.has_t = {}, False
        m.settle()


def slot(k):
    return Bytes32(k.to_bytes(32, "big"))


class Api:
    """Drives one state module (reference or optimised)."""

    def __init__(self, F, mod, path=None):
        self.F, self.S, self.k = F, mod, F.k
        self.path = path
        self.st = mod.State(path) if path else mod.State()
        self.ts = None

    def account(self, n, b, c):
        return self.F.types.Account(nonce=Uint(n), balance=U256(b),
                                    code=Bytes(c))

    def do(self, o):
        S, st, op = self.S, self.st, o[0]
        A = Bytes20(o[1]) if len(o) > 1 and op not in (
            "meta", "begin") else None
        tx = (self.ts,) if self.k >= CANCUN else ()
        if op == "set_account":
            S.set_account(st, A, self.account(*o[2:5]))
        elif op == "set_storage":
            S.set_storage(st, A, slot(o[2]), U256(o[3]))
        elif op == "destroy_account":
            S.destroy_account(st, A)
        elif op == "destroy_storage":
            S.destroy_storage(st, A)
        elif op == "move":
            S.move_ether(st, A, Bytes20(o[2]), U256(o[3]))
        elif op == "nonce":
            S.increment_nonce(st, A)
        elif op == "code":
            S.set_code(st, A, Bytes(o[2]))
        elif op == "balance":
            S.set_account_balance(st, A, U256(o[2]))
        elif op == "create_ether":
            S.create_ether(st, A, U256(o[2]))
        elif op == "touch":
            S.touch_account(st, A)
        elif op == "clear_empty":
            S.destroy_touched_empty_accounts(
                st, {Bytes20(x) for x in o[1:]})
        elif op == "mark":
            S.mark_account_created(st, A)
        elif op == "tset":
            S.set_transient_storage(self.ts, A, slot(o[2]), U256(o[3]))
        elif op == "begin":
            if self.k >= CANCUN and self.depth == 0 and (
                    self.ts is None or len(o) == 1):
                self.ts = S.TransientStorage()
                tx = (self.ts,)
            self.depth += 1
            S.begin_transaction(st, *tx)
        elif op == "commit":
            self.depth -= 1
            S.commit_transaction(st, *tx)
        elif op == "rollback":
            self.depth -= 1
            S.rollback_transaction(st, *tx)
        elif op == "db_commit":
            S.commit_db_transaction(st)
            S.begin_db_transaction(st)
        elif op == "db_rollback":
            S.rollback_db_transaction(st)
            S.begin_db_transaction(st)
        elif op == "reopen":
            S.commit_db_transaction(st)
            S.close_state(st)
            self.st = S.State(self.path)
        elif op == "crash":
            # lost without a commit: only what was committed remains
            S.close_state(st)
            self.st = S.State(self.path)
            self.depth, self.ts = 0, None
        elif op == "meta":
            S.set_metadata(st, Bytes(o[1]), Bytes(o[2]))
        elif op != "observe":
            raise KeyError(op)

    depth = 0

    def observe(self, meta=False):
        S, st = self.S, self.st
        out = {}
        if meta:
            for k in (b"a", b"key", b"\0"):
                v = S.get_metadata(st, k)
                out["meta %r" % k] = None if v is None else bytes(v)
        for x in ADDR:
            A = Bytes20(x)
            c = S.get_account_optional(st, A)
            d = S.get_account(st, A)
            n = x.hex()[:2]
            out["optional " + n] = None if c is None else (
                int(c.nonce), int(c.balance), bytes(c.code))
            out["account " + n] = (int(d.nonce), int(d.balance),
                                   bytes(d.code))
            out["exists " + n] = S.account_exists(st, A)
            out["code_or_nonce " + n] = S.account_has_code_or_nonce(st, A)
            if self.depth:
                out["has_storage " + n] = S.account_has_storage(st, A)
            if self.k >= SPURIOUS:
                out["exists_empty " + n] = \
                    S.account_exists_and_is_empty(st, A)
                out["alive " + n] = S.is_account_alive(st, A)
            for k in SLOTS:
                m = "%s[%#x]" % (n, k)
                out["slot " + m] = int(S.get_storage(st, A, slot(k)))
                if self.depth and self.k >= ISTANBUL:
                    out["original " + m] = int(
                        S.get_storage_original(st, A, slot(k)))
                if self.ts is not None:
                    out["transient " + m] = int(
                        S.get_transient_storage(self.ts, A, slot(k)))
        if not self.depth:
            out["root"] = bytes(S.state_root(st))
            for x in ADDR:
                out["has_storage " + x.hex()[:2]] = S.account_has_storage(
                    st, Bytes20(x))
                if out["optional " + x.hex()[:2]] is not None:
                    out["storage_root " + x.hex()[:2]] = bytes(
                        S.storage_root(st, Bytes20(x)))
        return out


def expect(m, meta=False):
    out = {}
    if meta:
        for k in (b"a", b"key", b"\0"):
            if k not in m.unknown:
                out["meta %r" % k] = m.meta.get(k)
    for x in ADDR:
        c = m.a.get(x)
        n = x.hex()[:2]
        out["optional " + n] = None if c is None else tuple(c[:3])
        out["account " + n] = (0, 0, b"") if c is None else tuple(c[:3])
        out["exists " + n] = c is not None
        out["code_or_nonce " + n] = bool(c and (c[0] or c[2]))
        out["has_storage " + n] = bool(c and c[3])
        if m.k >= SPURIOUS:
            e = bool(c and (c[0] or c[1] or c[2]))
            out["exists_empty " + n] = c is not None and not e
            out["alive " + n] = e
        for k in SLOTS:
            q = "%s[%#x]" % (n, k)
            out["slot " + q] = c[3].get(k, 0) if c else 0
            if m.snaps and m.k >= ISTANBUL:
                o = m.snaps[0][0].get(x)
                out["original " + q] = 0 if x in m.created else (
                    o[3].get(k, 0) if o else 0)
            if m.has_t and m.k >= CANCUN:
                out["transient " + q] = m.t.get(x, {}).get(k, 0)
    if not m.snaps:
        w = m.world()
        out["root"] = w.root()
        for x in ADDR:
            if x in m.a:
                out["storage_root " + x.hex()[:2]] = w.storage_root(x)
    return out


def diff(got, want):
    return ["%s: got %s, expected %s" % (
        k, _h(got.get(k)), _h(want.get(k)))
        for k in want if got.get(k) != want[k]] + [
        "unexpected %s" % k for k in got
        if k not in want and k[:5] != "meta "]


def _h(v):
    return v.hex() if isinstance(v, bytes) else v
