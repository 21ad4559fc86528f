"""Structured generators for EVM programs, states, transactions and blocks."""
from refspec.forks import *
from refspec.prim import keccak, rlp, k1_addr, k1_sign, SECP_N
from refspec import evm as E, block as RB, rules, precompiles as PC
from refspec.world import World, Acct

M256 = 2**256
OPS = E.OPS

# ---------------------------------------------------------------- addresses
KEYS = [int.from_bytes(keccak(b"key%d" % i), "big") % SECP_N
        for i in range(8)]
EOA = [k1_addr(k) for k in KEYS]
CON = [b"\xc0" + bytes([i]) * 19 for i in range(6)]
COINBASE = b"\xcb" * 20
FRESH = [b"\xfe" + bytes([i]) * 19 for i in range(4)]


def num_addr(n):
    return n.to_bytes(20, "big")


# ---------------------------------------------------------------- words
EDGE = [0, 1, 2, 3, 4, 5, 7, 8, 16, 30, 31, 32, 33, 63, 64, 65, 96, 127, 128,
        255, 256, 257, 1023, 1024, 2**16, 2**32 - 1, 2**32, 2**63, 2**64 - 1,
        2**64, 2**128, 2**160 - 1, 2**160, 2**255 - 1, 2**255, 2**255 + 1,
        M256 - 1, M256 - 2, M256 - 31, M256 - 32, M256 - 33, M256 - 256]


def word(s):
    k = s.below(8)
    if k < 2:
        return s.pick(EDGE)
    if k == 2:
        return s.below(10)
    if k == 3:
        return (s.pick([1, M256 - 1]) << s.below(256)) % M256
    if k == 4:
        return ((1 << s.below(257)) + s.int(-2, 2)) % M256
    if k == 5:
        return (-s.below(300)) % M256
    if k == 6:
        return int.from_bytes(s.bytes(s.pick([1, 2, 4, 8, 16, 20, 31])),
                              "big")
    return int.from_bytes(s.bytes(32), "big")


# ---------------------------------------------------------------- assembler
class Asm:
    def __init__(self, fork):
        self.fork = fork
        self.parts = []
        self.data = []
        self.nlab = 0

    def op(self, *bs):
        self.parts.append(bytes(bs))
        return self

    def raw(self, b):
        self.parts.append(bytes(b))
        return self

    def push(self, v, size=None):
        v %= M256
        n = max(1, (v.bit_length() + 7) // 8)
        if size:
            n = max(n, size)
        self.parts.append(bytes([0x5F + n]) + v.to_bytes(n, "big"))
        return self

    def push0(self):
        return self.op(0x5F) if self.fork >= SHANGHAI else self.push(0)

    def label(self):
        self.nlab += 1
        return self.nlab

    def dest(self, l):
        self.parts.append(("dest", l))

    def ref(self, l):
        self.parts.append(("ref", l))

    def dref(self, i):
        self.parts.append(("dref", i))

    def add_data(self, b):
        self.data.append(bytes(b))
        return len(self.data) - 1

    def load_data(self, b, dest):
        """Copy b to memory at dest."""
        i = self.add_data(b)
        self.push(len(b)).dref(i)
        self.push(dest).op(0x39)
        return self

    def build(self, tail=b"\x00"):
        pos, n = {}, 0
        for p in self.parts:
            if isinstance(p, bytes):
                n += len(p)
            elif p[0] == "dest":
                pos[p] = n
                n += 1
            else:
                n += 3
        out = []
        doff, o = [], n + (len(tail) if self.data else 0)
        for d in self.data:
            doff.append(o)
            o += len(d)
        for p in self.parts:
            if isinstance(p, bytes):
                out.append(p)
            elif p[0] == "dest":
                out.append(b"\x5b")
            elif p[0] == "ref":
                out.append(b"\x61" + (pos[("dest", p[1])] & 0xFFFF)
                           .to_bytes(2, "big"))
            else:
                out.append(b"\x61" + (doff[p[1]] & 0xFFFF)
                           .to_bytes(2, "big"))
        if self.data:
            out.append(tail)
            out += self.data
        return b"".join(out)


# ---------------------------------------------------------------- programs
DEFAULT = dict(store=6, expr=6, mem=4, log=2, call=6, create=2, copy=3,
               branch=2, loop=1, env=3, raw=1, acct=3, ret=2, sd=1, revert=1,
               stop=1, invalid=1, transient=1, precompile=1, hash=2, sload=2,
               refund=1)


class Prog:
    """Random program generator for one fork with statement weights."""

    def __init__(self, s, fork, weights=None, targets=None, slots=4,
                 depth=0):
        self.s, self.fork = s, fork
        w = dict(DEFAULT)
        if weights is not None:
            w = dict(weights)
        if fork < CANCUN:
            w.pop("transient", None)
        if fork < BYZANTIUM:
            w.pop("revert", None)
        self.w = [(v, k) for k, v in w.items() if v]
        self.wmap = w
        self.targets = targets
        self.slots = slots
        self.depth = depth
        self.rslot = 0x20

    # -- building blocks --------------------------------------------
    def has(self, op):
        return op in OPS[self.fork]

    def pushw(self, a, v):
        s = self.s
        if v == 0 and self.fork >= SHANGHAI and s.bool():
            a.op(0x5F)
        elif s.chance(8):
            a.push(v, s.int(1, 32))
        else:
            a.push(v)

    def addr(self, a):
        """Push an address-ish word."""
        s = self.s
        k = s.below(20)
        if k < 12:
            a.push(int.from_bytes(s.pick(self.targets), "big"), 20)
        elif k == 12:
            a.op(0x30)
        elif k == 13:
            a.op(0x33)
        elif k == 14:
            a.op(0x32)
        elif k == 15:
            a.op(0x41)
        elif k == 16:
            a.push(s.pick([1, 2, 3, 4, 5, 6, 9, 10, 18, 0x100, 0]))
        elif k == 17:
            a.push(int.from_bytes(s.pick(FRESH), "big"))
        elif k == 18:
            # dirty high bits must be ignored
            a.push((s.below(2**96) << 160)
                   | int.from_bytes(s.pick(self.targets), "big"))
        else:
            a.push(word(s))

    def moff(self):
        s = self.s
        k = s.below(30)
        if k < 22:
            return s.pick([0, 0, 32, 64, 1, 31, 33, 96, 128, 160])
        if k < 29:
            return s.below(300)
        return s.weighted([(6, 2**12), (4, 2**16), (2, 2**24), (1, 2**32),
                           (1, 2**64), (1, M256 - 1), (1, M256 - 32)])

    def msize(self):
        s = self.s
        k = s.below(30)
        if k < 20:
            return s.pick([0, 1, 2, 31, 32, 33, 64, 4, 96])
        if k < 29:
            return s.below(200)
        return s.weighted([(6, 1000), (4, 5000), (1, 2**20), (1, 2**32),
                           (1, M256 - 1)])

    def leaf(self, a):
        s = self.s
        k = s.below(12)
        if k < 7:
            self.pushw(a, word(s))
        elif k == 7:
            a.op(s.pick([0x30, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3A, 0x41,
                         0x42, 0x43, 0x44, 0x45, 0x58, 0x59]))
        elif k == 8:
            a.push(s.below(self.slots)).op(0x54)
        elif k == 9:
            self.pushw(a, s.pick([0, 1, 4, 31, 32, 33, 64, M256 - 1]))
            a.op(0x35)
        elif k == 10:
            a.push(s.pick([0, 1, 32, 64])).op(0x51)
        else:
            self.account(a)

    def account(self, a):
        s = self.s
        ops = [0x31, 0x3B]
        if self.fork >= CONSTANTINOPLE:
            ops += [0x3F, 0x3F]
        if self.fork >= ISTANBUL and s.chance(15):
            a.op(0x47)
            return
        self.addr(a)
        a.op(s.pick(ops))

    BIN = [0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x0A, 0x0B, 0x10, 0x11,
           0x12, 0x13, 0x14, 0x16, 0x17, 0x18, 0x1A]

    def expr(self, a, d=2):
        s = self.s
        if d == 0 or s.chance(30):
            self.leaf(a)
            return
        ops = self.BIN
        if self.fork >= CONSTANTINOPLE:
            ops = ops + [0x1B, 0x1C, 0x1D]
        k = s.below(10)
        if k < 7:
            self.expr(a, d - 1)
            self.expr(a, d - 1)
            a.op(s.pick(ops))
        elif k == 7:
            for _ in range(3):
                self.expr(a, 0)
            a.op(s.pick([0x08, 0x09]))
        else:
            self.expr(a, d - 1)
            a.op(s.pick([0x15, 0x19] + (
                [0x1E] if self.fork >= OSAKA else [])))

    def sink(self, a):
        """Consume the top of the stack observably."""
        s = self.s
        k = s.below(10)
        if k < 6:
            self.rslot += 1
            a.push(self.rslot if s.chance(80) else s.below(self.slots))
            a.op(0x55)
        elif k < 8:
            a.push(s.pick([0, 32, 64, 1, 7, 96])).op(0x52)
        elif k == 8:
            a.push(s.pick([0, 32, 64])).push(s.pick([0, 1, 32])).op(0xA1)
        else:
            a.op(0x50)

    # -- statements ---------------------------------------------------
    def st_store(self, a):
        s = self.s
        v = s.pick([0, 0, 1, 2, 3, None])
        if v is None:
            self.expr(a, 1)
        else:
            self.pushw(a, v)
        if s.chance(6):
            a.push(word(s))
        else:
            a.push(s.below(self.slots))
        a.op(0x55)

    def st_refund(self, a):
        # several writes to one slot: exercises original/current/new triples
        s = self.s
        k = s.below(self.slots)
        for _ in range(s.int(2, 4)):
            a.push(s.below(3)).push(k).op(0x55)

    def st_sload(self, a):
        a.push(self.s.below(self.slots + 2)).op(0x54)
        self.sink(a)

    def st_expr(self, a):
        self.expr(a)
        self.sink(a)

    def st_env(self, a):
        s = self.s
        k = s.below(8)
        simple = [0x30, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3A, 0x41, 0x42, 0x43,
                  0x44, 0x45, 0x58, 0x59, 0x5A]
        if self.fork >= BYZANTIUM:
            simple.append(0x3D)
        if self.fork >= ISTANBUL:
            simple += [0x46, 0x47]
        if self.fork >= LONDON:
            simple.append(0x48)
        if self.fork >= CANCUN:
            simple.append(0x4A)
        if k == 0:
            # BLOCKHASH around the window
            a.push(s.pick([0, 1, 2, 3, 255, 256, 257, 258, 300]))
            a.op(0x43, 0x03, 0x40)
        elif k == 1 and self.fork >= CANCUN:
            self.pushw(a, s.pick([0, 1, 2, 3, 5, 6, 2**64, M256 - 1]))
            a.op(0x49)
        elif k == 2:
            self.pushw(a, word(s))
            a.op(0x40)
        else:
            a.op(s.pick(simple))
        self.sink(a)

    def st_acct(self, a):
        self.account(a)
        self.sink(a)

    def st_mem(self, a):
        s = self.s
        k = s.below(6)
        if k == 0:
            self.expr(a, 1)
            a.push(self.moff()).op(0x52)
        elif k == 1:
            self.expr(a, 1)
            a.push(self.moff()).op(0x53)
        elif k == 2:
            a.push(self.moff()).op(0x51)
            self.sink(a)
        elif k == 3:
            a.op(0x59)
            self.sink(a)
        elif self.fork >= CANCUN:
            a.push(self.msize()).push(self.moff()).push(self.moff())
            a.op(0x5E)
        else:
            a.push(word(s)).push(s.below(70)).op(0x52)

    def srcoff(self):
        s = self.s
        return s.pick([0, 1, 2, 4, 31, 32, 33, 64, 100, 1000, 2**32,
                       2**64 - 1, 2**64, M256 - 1, M256 - 32])

    def st_copy(self, a):
        s = self.s
        ops = [0x37, 0x39, 0x3C]
        if self.fork >= BYZANTIUM:
            ops.append(0x3E)
        o = s.pick(ops)
        size, src = self.msize(), self.srcoff()
        if o == 0x3E and s.chance(60):
            # within bounds: size <= RETURNDATASIZE
            a.op(0x3D).push(0)
        else:
            a.push(size)
            a.push(src if o != 0x3E else s.pick([0, 0, 1, 32, M256 - 1]))
        a.push(s.pick([0, 1, 32, 64]))
        if o == 0x3C:
            self.addr(a)
        a.op(o)

    def st_hash(self, a):
        a.push(self.msize()).push(self.moff()).op(0x20)
        self.sink(a)

    def st_log(self, a):
        s = self.s
        n = s.below(5)
        for _ in range(n):
            self.pushw(a, word(s) if s.bool() else s.below(4))
        a.push(self.msize()).push(self.moff()).op(0xA0 + n)

    def st_transient(self, a):
        s = self.s
        k = s.below(3)
        if s.bool():
            self.pushw(a, s.pick([0, 1, 2, 7]))
            a.push(k).op(0x5D)
        else:
            a.push(k).op(0x5C)
            self.sink(a)

    def gasarg(self, a):
        s = self.s
        if self.fork < TANGERINE:
            k = s.below(12)
            if k < 8:
                a.push(s.pick([0, 700, 3000, 20000, 25000, 60000, 100000,
                               2300]))
            elif k < 11:
                # leave some gas behind
                a.push(s.pick([40000, 50000, 100000, 36000, 45000]))
                a.op(0x5A, 0x03)
            else:
                a.op(0x5A)
            return
        k = s.below(10)
        if k < 5:
            a.op(0x5A)
        elif k < 9:
            a.push(s.pick([0, 1, 100, 700, 2300, 2301, 3000, 9000, 21000,
                           30000, 60000, 200000]))
        else:
            a.push(s.pick([M256 - 1, 2**64, 2**63]))

    def st_call(self, a, target=None):
        s = self.s
        kinds = [0xF1, 0xF1, 0xF1, 0xF2]
        if self.fork >= HOMESTEAD:
            kinds += [0xF4]
        if self.fork >= BYZANTIUM:
            kinds += [0xFA]
        o = s.pick(kinds)
        a.push(self.msize()).push(self.moff())
        a.push(self.msize()).push(self.moff())
        if o in (0xF1, 0xF2):
            k = s.below(10)
            if k < 6:
                a.push(0)
            elif k < 9:
                a.push(s.pick([1, 2, 1000, 10**9]))
            else:
                a.push(s.pick([10**18, 2**128, M256 - 1]))
        if target is None:
            self.addr(a)
        else:
            a.push(int.from_bytes(target, "big"))
        self.gasarg(a)
        a.op(o)
        k = s.below(10)
        if k < 7:
            self.sink(a)
        elif k == 7:
            a.op(0x50)
        else:
            self.sink(a)
            if self.fork >= BYZANTIUM:
                a.op(0x3D)
                self.sink(a)

    def st_precompile(self, a):
        s = self.s
        for i in range(s.below(5)):
            self.pushw(a, s.pick([0, 1, 2, 32, 27, 28, word(s)]))
            a.push(32 * i).op(0x52)
        self.st_call(a, num_addr(s.pick(
            [1, 2, 3, 4, 5, 6, 7, 9, 5, 1, 10, 11, 13, 0x100])))

    def runtime(self):
        """Deployed code for a created contract."""
        s = self.s
        k = s.below(12)
        if k == 0:
            return b""
        if k == 1:
            return bytes([0xEF]) + s.blob(4)
        if k == 2:
            return s.blob(40)
        if k == 3:
            return b"\x00" * s.pick([1, 32, 100])
        if k == 4:      # selfdestruct to caller / self / fresh
            return s.pick([b"\x33\xff", b"\x30\xff",
                           b"\x73" + FRESH[0] + b"\xff"])
        p = Prog(s, self.fork, self.wmap, self.targets, self.slots,
                 self.depth + 1)
        return p.code(s.int(1, 3))

    def initcode(self):
        s = self.s
        k = s.below(14)
        if k == 0:
            return b""
        if k == 1:
            return s.blob(30)
        a = Asm(self.fork)
        n = s.below(3)
        sub = Prog(s, self.fork, self.wmap, self.targets, self.slots,
                   self.depth + 1)
        for _ in range(n):
            sub.stmt(a, terminal=False)
        if k == 2 and self.fork >= BYZANTIUM:
            a.push(s.pick([0, 4, 32])).push(0).op(0xFD)
        elif k == 3:
            a.op(0xFE)
        elif k == 4:
            sub.addr(a)
            a.op(0xFF)
        elif k == 5:
            # return a stretch of zero memory, sizes around the limits
            a.push(s.weighted([(4, 1), (2, 3000), (1, 24575), (1, 24576),
                               (1, 24577)])).push(0).op(0xF3)
        else:
            r = self.runtime()
            a.load_data(r, 0)
            a.push(len(r)).push(0).op(0xF3)
        return a.build()

    def st_create(self, a):
        s = self.s
        if self.depth >= 3:
            return self.st_expr(a)
        two = self.fork >= CONSTANTINOPLE and s.bool()
        init = self.initcode()
        off = s.pick([0, 0, 32, 5])
        a.load_data(init, off)
        if two:
            a.push(s.below(3))
        a.push(len(init) if not s.chance(5) else self.msize())
        a.push(off)
        a.push(s.weighted([(7, 0), (2, 1), (1, 2**100)]))
        a.op(0xF5 if two else 0xF0)
        k = s.below(4)
        if k == 0:
            self.sink(a)
        elif k == 1:
            # call what was created
            a.op(0x80)
            self.sink(a)
            a.push(0).push(0).push(0).push(0).push(s.pick([0, 0, 1]))
            a.op(0x85)
            if self.fork < TANGERINE:
                a.push(30000)
            else:
                a.op(0x5A)
            a.op(0xF1)
            self.sink(a)
            a.op(0x50)
        elif k == 2:
            a.op(s.pick([0x31, 0x3B] + (
                [0x3F] if self.fork >= CONSTANTINOPLE else [])))
            self.sink(a)
        else:
            self.sink(a)
            if two and s.bool():
                # same salt and code again: collision
                a.push(0)
                a.push(len(init)).push(off).push(0).op(0xF5)
                self.sink(a)

    def st_branch(self, a):
        s = self.s
        l = a.label()
        if s.bool():
            a.push(s.below(2))
        else:
            self.expr(a, 1)
        a.ref(l)
        a.op(0x57)
        self.stmt(a, terminal=True)
        a.dest(l)

    def st_loop(self, a):
        s = self.s
        n = s.int(1, 4)
        top = a.label()
        a.push(n)
        a.dest(top)
        self.stmt(a, terminal=False)
        a.push(1).op(0x90, 0x03, 0x80)
        a.ref(top)
        a.op(0x57, 0x50)

    def st_raw(self, a):
        s = self.s
        k = s.below(5)
        if k == 0:
            a.raw(s.blob(3))
        elif k == 1:
            a.op(s.below(256))
        elif k == 2:
            a.op(s.pick(sorted(OPS[self.fork])))
        elif k == 3:
            a.push(word(s)).op(s.pick([0x56, 0x50, 0x80]))
        else:
            n = s.int(1, 16)
            for i in range(s.int(1, n)):
                a.push(i)
            a.op((0x7F if s.bool() else 0x8F) + n)

    def st_ret(self, a):
        a.push(self.msize()).push(self.moff()).op(0xF3)

    def st_revert(self, a):
        a.push(self.msize()).push(self.moff()).op(0xFD)

    def st_sd(self, a):
        self.addr(a)
        a.op(0xFF)

    def st_stop(self, a):
        a.op(0x00)

    def st_invalid(self, a):
        a.op(self.s.pick([0xFE, 0x0C, 0x21, 0x4F, 0xB0, 0xEF, 0xF6, 0xFC]))

    TERMINAL = ("ret", "revert", "sd", "stop", "invalid", "raw")

    def stmt(self, a, terminal=False):
        table = self.w if terminal else [
            (v, k) for v, k in self.w if k not in self.TERMINAL]
        if not table:
            table = self.w
        getattr(self, "st_" + self.s.weighted(table))(a)

    def code(self, n=None):
        s = self.s
        a = Asm(self.fork)
        n = s.int(1, 7) if n is None else n
        for i in range(n):
            self.stmt(a, terminal=(i == n - 1 or s.chance(4)))
        return a.build()


# ---------------------------------------------------------------- signing
def sign_tx(tx, key, protected=None):
    """Fill v, r, s (and chain_id=None for unprotected legacy)."""
    if tx["type"] == 0:
        cid = tx.get("chain_id") if protected else None
        h = RB.signing_hash(dict(tx, chain_id=cid))
        y, r, s_ = k1_sign(h, key)
        tx["v"] = 27 + y if cid is None else 35 + 2 * cid + y
    else:
        y, r, s_ = k1_sign(RB.signing_hash(tx), key)
        tx["v"] = y
    tx["r"], tx["s"] = r, s_
    return tx


def make_auth(chain_id, address, nonce, key):
    h = keccak(b"\x05" + rlp([chain_id, address, nonce]))
    y, r, s_ = k1_sign(h, key)
    return dict(chain_id=chain_id, address=address, nonce=nonce, y=y, r=r,
                s=s_)


def tx_types(fork):
    return [t for t in range(5) if fork >= RB.TYPE_FROM[t]]


# ---------------------------------------------------------------- blocks
def gen_blk(s, fork, **over):
    d = dict(
        chain_id=s.weighted([(8, 1), (1, 5), (1, 1337)]),
        coinbase=s.weighted([(5, COINBASE), (1, EOA[0]), (1, CON[0]),
                             (1, FRESH[1])]),
        number=s.pick([1, 2, 10, 256, 257, 300, 5000, 8191, 3 * 8191 + 1,
                       1_150_000]),
        time=s.pick([1000, 2**32, 1, 1_700_000_000]),
        gas_limit=30_000_000,
        difficulty=s.pick([131072, 2**20, 10**15]),
        randao=s.bytes(32) if s.chance(30) else b"\x11" * 32,
        base_fee=s.pick([7, 0, 1, 1000, 10**9]) if fork >= LONDON else None,
        excess=s.pick([0, 0, 131072, 2_000_000, 30_000_000, 60_000_000])
        if fork >= CANCUN else 0,
        beacon_root=keccak(b"beacon"))
    d.update(over)
    return d


_HASHES = [keccak(b"blockhash%d" % i) for i in range(300)]


def blk_of(d):
    n = min(d["number"] + 1, 256)
    return E.BlockCtx(
        chain_id=d["chain_id"], coinbase=d["coinbase"], number=d["number"],
        time=d["time"], gas_limit=d["gas_limit"], difficulty=d["difficulty"],
        prev_randao=d["randao"], base_fee=d["base_fee"],
        hashes=_HASHES[:n], excess_blob_gas=d["excess"],
        beacon_root=d["beacon_root"])


def world_of(pre):
    w = World()
    for a, c in pre.items():
        w.a[a] = Acct(c.get("nonce", 0), c.get("balance", 0),
                      c.get("code", b""),
                      {k: v for k, v in c.get("storage", {}).items() if v})
    return w


# Minimal stand-ins for the system contracts (the code is in state, not in
# the implementation): return a value stored in slot 0/1, or nothing.
def sys_code(ret):
    """Contract returning the given bytes (and counting calls in slot 7)."""
    a = Asm(CANCUN)
    a.push(7).op(0x54).push(1).op(0x01).push(7).op(0x55)
    if ret:
        a.load_data(ret, 0)
    a.push(len(ret)).push(0).op(0xF3)
    return a.build()


# real EIP-4788 / EIP-2935 style: store calldata word by timestamp/number
STORE_DATA = bytes.fromhex("5f35") + bytes.fromhex("4255") + \
    bytes.fromhex("33") + bytes.fromhex("5f55") + b"\x00"


def sys_pre(s, fork, pre):
    if fork >= PRAGUE:
        pre[RB.WITHDRAWAL_REQ] = dict(
            nonce=1, code=sys_code(b"" if s.chance(60) else s.bytes(76)))
        pre[RB.CONSOLIDATION_REQ] = dict(
            nonce=1, code=sys_code(b"" if s.chance(60) else s.bytes(116)))
    if fork >= CANCUN and s.chance(30):
        pre[RB.BEACON_ROOTS] = dict(nonce=1, code=STORE_DATA)
    if fork >= PRAGUE and s.chance(30):
        pre[RB.HISTORY] = dict(nonce=1, code=STORE_DATA)


def gen_pre(s, fork, weights=None, ncon=None, nstmt=None, slots=4,
            targets=None, codes=None):
    """Pre-state: funded EOAs and generated contracts."""
    n = s.int(1, 3) if ncon is None else ncon
    cons = CON[:n]
    if targets is None:
        targets = cons + [EOA[0], EOA[1], FRESH[0], COINBASE]
    pre = {}
    for i in range(3):
        pre[EOA[i]] = dict(nonce=s.pick([0, 0, 1, 5]),
                           balance=s.pick([10**24, 10**21]))
    for i, a in enumerate(cons):
        if codes and i < len(codes):
            code = codes[i]
        else:
            code = Prog(s, fork, weights, targets, slots).code(
                nstmt(s) if nstmt else None)
        st = {}
        for k in range(slots):
            if s.chance(40):
                st[k] = s.pick([1, 2, 3])
        pre[a] = dict(nonce=s.pick([1, 1, 0 if fork < SPURIOUS else 1, 7]),
                      balance=s.pick([0, 1, 10**18]), code=code, storage=st)
    sys_pre(s, fork, pre)
    return pre


def gen_fees(s, tx, base):
    b = base or 0
    if tx["type"] < 2:
        tx["gas_price"] = b + s.pick([10, 0, 1, 10**9])
    else:
        tx["max_fee"] = b + s.pick([20, 0, 1, 10**9])
        tx["prio"] = min(tx["max_fee"], s.pick([0, 1, 2, 10**9]))


def gen_tx(s, fork, blk, nonces, world_targets, types=None, gas=None,
           data=None, to=None, value=None, sender=None, access=None,
           auths=None):
    """A valid-by-construction transaction; nonces is updated."""
    i = s.below(3) if sender is None else sender
    t = s.pick(types or tx_types(fork))
    tx = dict(type=t, nonce=nonces.get(EOA[i], 0), gas=gas or 1_000_000,
              value=s.weighted([(6, 0), (2, 1), (1, 10**15)])
              if value is None else value,
              chain_id=blk["chain_id"])
    if to is not None:
        tx["to"] = to if to != "create" else None
    else:
        tx["to"] = s.pick(world_targets)
    if tx["to"] is None and t >= 3:
        tx["to"] = world_targets[0] or CON[0]
    tx["data"] = (s.pick([b"", b"\x00" * 4, b"\x01" * 36, s.blob(80)])
                  if data is None else data)
    gen_fees(s, tx, blk["base_fee"])
    if t >= 1:
        tx["access"] = gen_access(s, fork) if access is None else access
    if t == 3:
        tx["blob_fee"] = rules.blob_price(fork, blk["excess"]) + s.pick(
            [0, 1, 10])
        tx["blobs"] = [b"\x01" + s.bytes(31) for _ in range(s.int(1, 2))]
    if t == 4:
        tx["auths"] = auths if auths is not None else [
            make_auth(s.pick([blk["chain_id"], 0]), s.pick(CON[:3]),
                      0, KEYS[5 + s.below(2)])]
    sign_tx(tx, KEYS[i], protected=fork >= SPURIOUS and s.bool())
    nonces[EOA[i]] = nonces.get(EOA[i], 0) + 1
    return tx


def gen_access(s, fork):
    pool = CON[:3] + [EOA[1], FRESH[0], COINBASE, num_addr(2)]
    return [[s.pick(pool), [s.below(4) for _ in range(s.below(4))]]
            for _ in range(s.below(4))]


# ---------------------------------------------------------------- cases
def case(fork, blk, pre, txs, wds=(), **kw):
    d = dict(fork=NAMES[fork] if isinstance(fork, int) else fork, blk=blk,
             pre=pre, txs=list(txs), wds=list(wds))
    d.update(kw)
    return d


def pick_fork(s, lo=0, hi=17):
    """Later forks are preferred a little (more features)."""
    if s.chance(25):
        return s.int(max(lo, PARIS), hi) if hi >= PARIS else s.int(lo, hi)
    return s.int(lo, hi)


def gen_body(s, fork, weights=None, ntx=None, nstmt=None, gasmode=True,
             slots=4, create_tx=True, types=None, ncon=None):
    """A block body over generated contracts; the workhorse generator."""
    blk = gen_blk(s, fork)
    pre = gen_pre(s, fork, weights, nstmt=nstmt, slots=slots, ncon=ncon)
    cons = [a for a in CON if a in pre]
    targets = cons * 4 + [EOA[1], FRESH[0], num_addr(s.int(1, 5))]
    nonces = {a: c.get("nonce", 0) for a, c in pre.items()}
    txs = []
    for _ in range(s.int(1, 3) if ntx is None else ntx):
        if create_tx and s.chance(12):
            p = Prog(s, fork, weights, cons + [EOA[0], FRESH[0]], slots)
            txs.append(gen_tx(s, fork, blk, nonces, targets, to="create",
                              types=[t for t in (types or tx_types(fork))
                                     if t < 3],
                              data=p.initcode()))
        else:
            txs.append(gen_tx(s, fork, blk, nonces, targets, types=types))
    c = case(fork, blk, pre, txs)
    if gasmode:
        tighten(s, fork, c)
    return c


def key_of(fork, tx, chain_id):
    a = RB.sender_of(fork, chain_id, tx)
    return KEYS[EOA.index(a)]


def tighten(s, fork, c):
    """Sometimes lower one transaction's gas to a boundary of what it uses."""
    if not s.chance(45):
        return
    i = s.below(len(c["txs"]))
    mode = s.below(6)
    frac = s.below(1000)
    tx = c["txs"][i]
    try:
        w = world_of(c["pre"])
        out = RB.run_body(fork, w, blk_of(c["blk"]), c["txs"][:i + 1],
                          c["wds"])
        tr = out.traces[i]
    except RB.Reject:
        return
    used = tr["used"] + tr["refund"]
    lo = max(tr["intrinsic"], tr["floor"])
    g = {0: used, 1: used - 1, 2: used + 1,
         3: lo + (used - lo) * frac // 1000,
         4: lo + frac, 5: lo}[mode]
    key = key_of(fork, tx, c["blk"]["chain_id"])
    prot = tx["type"] == 0 and tx["v"] > 28
    tx["gas"] = max(g, lo)
    sign_tx(tx, key, prot)


def run_case_body(F, c, res, prefix=""):
    from lib.adapt import body_case
    return body_case(F, blk_of(c["blk"]), world_of(c["pre"]), c["txs"],
                     c["wds"], res=res, prefix=prefix)
