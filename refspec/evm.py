"""Reference EVM, written from the Yellow Paper and the EIPs.

One undo log covers world state, warm sets, transient storage, logs, refund
counter, touched accounts and scheduled deletions, so a failing frame is
undone by a single revert (the implementation under test instead threads
per-frame sets through parents and snapshots tries).
"""
from .forks import *
from .prim import keccak, rlp
from . import precompiles

M = 2**256
MASK = M - 1
SIGN = 2**255
RIPEMD = (3).to_bytes(20, "big")


class Halt(Exception):
    """Exceptional halt: all gas of the frame is consumed."""


class RevertEx(Exception):
    pass


class BlockCtx:
    def __init__(self, **kw):
        self.chain_id = 1
        self.coinbase = b"\0" * 20
        self.number = 0
        self.time = 0
        self.gas_limit = 0
        self.difficulty = 0
        self.prev_randao = b"\0" * 32
        self.base_fee = None
        self.hashes = []          # ancestors, oldest first, last = parent
        self.excess_blob_gas = 0
        self.beacon_root = b"\0" * 32
        self.__dict__.update(kw)


def to_signed(x):
    return x - M if x >= SIGN else x


def addr_of(x):
    return (x & (2**160 - 1)).to_bytes(20, "big")


def words(n):
    return (n + 31) // 32


def mem_cost(nbytes):
    w = words(nbytes)
    return 3 * w + w * w // 512


class Tx:
    """State shared by all frames of one transaction."""

    def __init__(self, fork, world, blk, origin, gas_price, blob_hashes=()):
        self.fork = fork
        self.w = world
        self.blk = blk
        self.origin = origin
        self.gas_price = gas_price
        self.blob_hashes = blob_hashes
        self.warm_a = set()
        self.warm_s = set()
        self.transient = {}
        self.logs = []
        self.refund = 0
        self.dead = {}            # scheduled deletions (ordered)
        self.touched = set()
        self.created = set()
        self.orig = {}            # (addr, slot) -> value at tx start
        self.stats = {}           # observation counters for the harness
        self.max_depth = 0

    # -- journaled helpers -------------------------------------------
    def warm_addr(self, x):
        """Mark warm; returns True if it already was."""
        if x in self.warm_a:
            return True
        self.warm_a.add(x)
        self.w.log(self.warm_a.discard, x)
        return False

    def warm_slot(self, x, k):
        if (x, k) in self.warm_s:
            return True
        self.warm_s.add((x, k))
        self.w.log(self.warm_s.discard, (x, k))
        return False

    def add_refund(self, n):
        self.w.log(setattr, self, "refund", self.refund)
        self.refund += n

    def touch(self, x):
        if x not in self.touched:
            self.touched.add(x)
            if x != RIPEMD:      # mainnet consensus quirk, block 2675119
                self.w.log(self.touched.discard, x)

    def schedule_delete(self, x):
        if x not in self.dead:
            self.dead[x] = True
            self.w.log(self.dead.pop, x, None)

    def mark_created(self, x):
        if x not in self.created:
            self.created.add(x)
            self.w.log(self.created.discard, x)

    def emit(self, a, topics, data):
        self.logs.append((a, topics, data))
        self.w.log(self.logs.pop)

    def set_transient(self, a, k, v):
        old = self.transient.get((a, k), 0)
        self.w.log(self._trestore, a, k, old)
        self._trestore(a, k, v)

    def _trestore(self, a, k, v):
        if v:
            self.transient[(a, k)] = v
        else:
            self.transient.pop((a, k), None)

    def original(self, a, k):
        if (a, k) in self.orig:
            return self.orig[(a, k)]
        return self.w.sload(a, k)

    def write_slot(self, a, k, v):
        # outside the undo log on purpose: originals never change in a tx
        self.orig.setdefault((a, k), self.w.sload(a, k))
        self.w.sstore(a, k, v)

    def bump(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1


class Frame:
    __slots__ = ("t", "fork", "w", "code", "pc", "stack", "mem", "gas",
                 "addr", "caller", "value", "data", "static", "depth",
                 "ret", "jd", "out", "done")

    def __init__(self, t, addr, caller, value, data, code, gas, depth,
                 static):
        self.t, self.fork, self.w = t, t.fork, t.w
        self.addr, self.caller, self.value = addr, caller, value
        self.data, self.code, self.gas = data, code, gas
        self.depth, self.static = depth, static
        self.pc = 0
        self.stack = []
        self.mem = bytearray()
        self.ret = b""
        self.out = b""
        self.jd = None
        self.done = False

    # -- machine helpers ---------------------------------------------
    def pop(self):
        if not self.stack:
            raise Halt("underflow")
        return self.stack.pop()

    def push(self, v):
        if len(self.stack) >= 1024:
            raise Halt("overflow")
        self.stack.append(v)

    def use(self, g):
        if self.gas < g:
            raise Halt("oog")
        self.gas -= g

    def expand(self, *ranges):
        """Cost and new size to cover the given (start, size) ranges."""
        end = len(self.mem)
        for s, n in ranges:
            if n and s + n > end:
                end = s + n
        end = words(end) * 32
        return mem_cost(end) - mem_cost(len(self.mem)), end

    def grow(self, end):
        if end > len(self.mem):
            self.mem.extend(b"\0" * (end - len(self.mem)))

    def charge_mem(self, base, *ranges):
        c, end = self.expand(*ranges)
        self.use(base + c)
        self.grow(end)

    def mread(self, s, n):
        return bytes(self.mem[s:s + n]) if n else b""

    def mwrite(self, s, b):
        if b:
            self.mem[s:s + len(b)] = b

    def acct_cost(self, x, old):
        """Access cost of an account-touching opcode."""
        if self.fork >= BERLIN:
            return 100 if self.t.warm_addr(x) else 2600
        return old

    def no_static(self):
        if self.static:
            raise Halt("static")

    def jumpdests(self):
        if self.jd is None:
            ok, i, c = set(), 0, self.code
            while i < len(c):
                o = c[i]
                if o == 0x5B:
                    ok.add(i)
                i += 1
                if 0x60 <= o <= 0x7F:
                    i += o - 0x5F
            self.jd = ok
        return self.jd

    def jump(self, d):
        if d not in self.jumpdests():
            raise Halt("bad jump")
        self.pc = d

    def run(self):
        ops = OPS[self.fork]
        code = self.code
        n = len(code)
        while not self.done and self.pc < n:
            op = code[self.pc]
            f = ops.get(op)
            if f is None:
                raise Halt("invalid opcode %02x" % op)
            self.pc += 1
            f(self)


def pad_read(b, s, n):
    x = bytes(b[s:s + n]) if s < len(b) else b""
    return x + b"\0" * (n - len(x))


# ------------------------------------------------------------ call engine
def enter(t, f, transfer, code_addr, created=False, no_precompile=False,
          on_success=None):
    """Run a frame as a message; returns (ok, gas_left, output)."""
    w = t.w
    m = w.mark()
    t.max_depth = max(t.max_depth, f.depth)
    if t.fork >= SPURIOUS:
        t.touch(f.addr)
    else:
        w.ensure(f.addr)
    if transfer and f.value:
        w.set_balance(f.caller, w.balance(f.caller) - f.value)
        w.add_balance(f.addr, f.value)
    try:
        pre = None
        if code_addr is not None and not no_precompile:
            pre = precompiles.lookup(t.fork, code_addr)
        if pre is not None:
            t.bump("precompile")
            f.out = pre(t.fork, f)
        else:
            f.run()
        if on_success:
            on_success(f)
        return True, f.gas, f.out
    except RevertEx:
        t.bump("revert")
        w.revert(m)
        return False, f.gas, f.out
    except (Halt, precompiles.PrecompileFail):
        t.bump("halt")
        w.revert(m)
        return False, 0, b""


def create_frame(t, f):
    """Run initcode frame f at f.addr (already checked for collision)."""
    w = t.w
    m = w.mark()
    w.clear_storage(f.addr)
    t.mark_created(f.addr)
    if t.fork >= SPURIOUS:
        w.set_nonce(f.addr, w.nonce(f.addr) + 1)

    def deposit(f):
        code = f.out
        if t.fork >= LONDON and code[:1] == b"\xEF":
            raise Halt("ef")
        cost = 200 * len(code)
        if t.fork < HOMESTEAD and f.gas < cost:
            f.out = b""
            return                     # frontier: empty contract is kept
        f.use(cost)
        if t.fork >= SPURIOUS and len(code) > 24576:
            raise Halt("code size")
        w.set_code(f.addr, code)

    ok, gas, out = enter(t, f, True, None, True, on_success=deposit)
    if not ok:
        w.revert(m)
    return ok, gas, out


def collides(w, x):
    c = w.a.get(x)
    return c is not None and bool(c.nonce or c.code or c.storage)


def do_call(f, gas, caller, addr, code_addr, value, transfer, static,
            a_in, n_in, a_out, n_out, code, no_pre):
    """Common tail of the call opcodes; gas already taken from f."""
    t = f.t
    f.ret = b""
    if f.depth + 1 > 1024:
        t.bump("depth_limit")
        f.gas += gas
        f.push(0)
        return
    data = f.mread(a_in, n_in)
    g = Frame(t, addr, caller, value, data, code, gas, f.depth + 1,
              f.static or static)
    ok, left, out = enter(t, g, transfer, code_addr, no_precompile=no_pre)
    f.gas += left
    f.ret = out
    f.push(1 if ok else 0)
    f.mwrite(a_out, out[:n_out])


def resolve_code(t, x):
    """EIP-7702: (code to run, is_delegated, delegate address)."""
    c = t.w.code(x)
    if t.fork >= PRAGUE and is_delegation(c):
        d = c[3:]
        return t.w.code(d), True, d
    return c, False, None


def is_delegation(c):
    return len(c) == 23 and c[:3] == b"\xef\x01\x00"


def call_gas(f, want, extra, memc):
    """EIP-150 gas for a call: amount forwarded (extra+memc paid apart)."""
    if f.gas < extra + memc:
        raise Halt("oog")
    avail = f.gas - extra - memc
    return min(want, avail - avail // 64)


def op_call(f, kind):
    t, w = f.t, f.w
    gas = f.pop()
    to = addr_of(f.pop())
    value = f.pop() if kind in ("call", "callcode") else 0
    a_in, n_in, a_out, n_out = f.pop(), f.pop(), f.pop(), f.pop()
    memc, end = f.expand((a_in, n_in), (a_out, n_out))
    extra = f.acct_cost(to, 40 if f.fork < TANGERINE else 700)
    code, delegated, target = resolve_code(t, to)
    if delegated:
        t.bump("delegated_call")
        extra += 100 if t.warm_addr(target) else 2600
    if value:
        extra += 9000
    if kind == "call":
        if f.fork < SPURIOUS:
            if not w.exists(to):
                extra += 25000
        elif value and not w.alive(to):
            extra += 25000
    if f.fork < TANGERINE:
        sub = gas
    else:
        sub = call_gas(f, gas, extra, memc)
    f.use(extra + memc + sub)
    if value:
        sub += 2300
    if kind == "call" and f.static and value:
        raise Halt("static")
    f.grow(end)
    if kind in ("call", "callcode") and w.balance(f.addr) < value:
        t.bump("call_no_balance")
        f.push(0)
        f.ret = b""
        f.gas += sub
        return
    t.bump(kind)
    args = (a_in, n_in, a_out, n_out, code, delegated)
    if kind == "call":
        do_call(f, sub, f.addr, to, to, value, True, False, *args)
    elif kind == "callcode":
        do_call(f, sub, f.addr, f.addr, to, value, True, False, *args)
    elif kind == "delegatecall":
        do_call(f, sub, f.caller, f.addr, to, f.value, False, False, *args)
    else:
        do_call(f, sub, f.addr, to, to, 0, True, True, *args)


def op_create(f, two):
    t, w = f.t, f.w
    value, a, n = f.pop(), f.pop(), f.pop()
    salt = f.pop() if two else None
    g = 32000
    if f.fork >= SHANGHAI:
        g += 2 * words(n)
    if two:
        g += 6 * words(n)
    f.charge_mem(g, (a, n))
    f.no_static()
    if f.fork >= SHANGHAI and n > 49152:
        raise Halt("initcode")
    init = f.mread(a, n)
    if two:
        new = keccak(b"\xff" + f.addr + salt.to_bytes(32, "big")
                     + keccak(init))[12:]
    else:
        new = keccak(rlp([f.addr, w.nonce(f.addr)]))[12:]
    sub = f.gas if f.fork < TANGERINE else f.gas - f.gas // 64
    f.gas -= sub
    f.ret = b""
    if (w.balance(f.addr) < value or w.nonce(f.addr) == 2**64 - 1
            or f.depth + 1 > 1024):
        t.bump("create_refused")
        f.gas += sub
        f.push(0)
        return
    if f.fork >= BERLIN:
        t.warm_addr(new)
    w.set_nonce(f.addr, w.nonce(f.addr) + 1)
    if collides(w, new):
        t.bump("create_collision")
        f.push(0)
        return
    t.bump("create2" if two else "create")
    g = Frame(t, new, f.addr, value, b"", init, sub, f.depth + 1, False)
    ok, left, out = create_frame(t, g)
    f.gas += left
    f.ret = b"" if ok else out
    f.push(int.from_bytes(new, "big") if ok else 0)


def op_selfdestruct(f):
    t, w = f.t, f.w
    ben = addr_of(f.pop())
    g = 0 if f.fork < TANGERINE else 5000
    if f.fork >= BERLIN and not t.warm_addr(ben):
        g += 2600
    if f.fork >= TANGERINE:
        if f.fork < SPURIOUS:
            if not w.exists(ben):
                g += 25000
        elif not w.alive(ben) and w.balance(f.addr):
            g += 25000
    f.use(g)
    f.no_static()
    t.bump("selfdestruct")
    if f.fork < LONDON and f.addr not in t.dead:
        t.add_refund(24000)
    bal = w.balance(f.addr)
    if f.fork >= CANCUN:
        w.set_balance(f.addr, 0)
        w.add_balance(ben, bal)
        if f.addr in t.created:
            w.set_balance(f.addr, 0)      # burnt if beneficiary is self
            t.schedule_delete(f.addr)
    else:
        w.add_balance(ben, bal)
        w.set_balance(f.addr, 0)
        t.schedule_delete(f.addr)
    if f.fork >= SPURIOUS:
        t.touch(ben)
    f.done = True


def op_sstore(f):
    t, w, a = f.t, f.w, f.addr
    k, v = f.pop(), f.pop()
    cur = w.sload(a, k)
    if f.fork < ISTANBUL:
        f.use(20000 if v and not cur else 5000)
        f.no_static()
        if cur and not v:
            t.add_refund(15000)
        t.write_slot(a, k, v)
        return
    if f.gas <= 2300:
        raise Halt("stipend")
    orig = t.original(a, k)
    g = 0
    if f.fork >= BERLIN:
        sload, reset = 100, 2900
        if not t.warm_slot(a, k):
            g = 2100
    else:
        sload, reset = 800, 5000
    clear = 15000 if f.fork < LONDON else 4800
    r = 0
    if v == cur:
        g += sload
    elif cur == orig:
        if orig == 0:
            g += 20000
        else:
            g += reset
            if v == 0:
                r = clear
    else:
        g += sload
        if orig:
            if cur == 0:
                r -= clear
            elif v == 0:
                r += clear
        if v == orig:
            r += (20000 if orig == 0 else reset) - sload
    f.use(g)
    f.no_static()
    if r:
        t.add_refund(r)
        t.bump("refund")
    t.write_slot(a, k, v)


def op_sload(f):
    k = f.pop()
    if f.fork >= BERLIN:
        g = 100 if f.t.warm_slot(f.addr, k) else 2100
    else:
        g = 50 if f.fork < TANGERINE else 200 if f.fork < ISTANBUL else 800
    f.use(g)
    f.push(f.w.sload(f.addr, k))


def op_log(n):
    def go(f):
        a, sz = f.pop(), f.pop()
        topics = [f.pop().to_bytes(32, "big") for _ in range(n)]
        f.charge_mem(375 + 375 * n + 8 * sz, (a, sz))
        f.no_static()
        f.t.emit(f.addr, topics, f.mread(a, sz))
        f.t.bump("log")
    return go


# ------------------------------------------------------------ simple opcodes
def _bin(cost, fn):
    def go(f):
        a, b = f.pop(), f.pop()
        f.use(cost)
        f.push(fn(a, b) & MASK)
    return go


def _sdiv(a, b):
    a, b = to_signed(a), to_signed(b)
    if b == 0:
        return 0
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def _smod(a, b):
    a, b = to_signed(a), to_signed(b)
    if b == 0:
        return 0
    r = abs(a) % abs(b)
    return -r if a < 0 else r


def _signext(k, x):
    if k >= 31:
        return x
    bit = 8 * k + 7
    low = x & ((1 << (bit + 1)) - 1)
    return low - (1 << (bit + 1)) if x >> bit & 1 else low


def _byte(i, x):
    return x >> (8 * (31 - i)) & 0xFF if i < 32 else 0


def op_exp(f):
    a, e = f.pop(), f.pop()
    per = 10 if f.fork < SPURIOUS else 50
    f.use(10 + per * ((e.bit_length() + 7) // 8))
    f.push(pow(a, e, M))


def op_ter(fn):
    def go(f):
        a, b, m = f.pop(), f.pop(), f.pop()
        f.use(8)
        f.push(fn(a, b) % m if m else 0)
    return go


def op_sha3(f):
    a, n = f.pop(), f.pop()
    f.charge_mem(30 + 6 * words(n), (a, n))
    f.push(int.from_bytes(keccak(f.mread(a, n)), "big"))


def _env(cost, fn):
    def go(f):
        f.use(cost)
        f.push(fn(f))
    return go


def _acct(old, fn):
    def go(f):
        x = addr_of(f.pop())
        o = old(f.fork)
        f.use(f.acct_cost(x, o))
        f.push(fn(f.w, x))
    return go


def _exthash(w, x):
    return int.from_bytes(keccak(w.code(x)), "big") if w.alive(x) else 0


def op_calldataload(f):
    i = f.pop()
    f.use(3)
    f.push(int.from_bytes(pad_read(f.data, i, 32), "big"))


def _copy(src):
    def go(f):
        d, s, n = f.pop(), f.pop(), f.pop()
        f.charge_mem(3 + 3 * words(n), (d, n))
        f.mwrite(d, pad_read(src(f), s, n) if n else b"")
    return go


def op_extcodecopy(f):
    x = addr_of(f.pop())
    d, s, n = f.pop(), f.pop(), f.pop()
    c = f.acct_cost(x, 20 if f.fork < TANGERINE else 700)
    f.charge_mem(c + 3 * words(n), (d, n))
    f.mwrite(d, pad_read(f.w.code(x), s, n) if n else b"")


def op_returndatacopy(f):
    d, s, n = f.pop(), f.pop(), f.pop()
    f.charge_mem(3 + 3 * words(n), (d, n))
    if s + n > len(f.ret):
        raise Halt("oob")
    f.mwrite(d, f.ret[s:s + n])


def op_blockhash(f):
    n = f.pop()
    f.use(20)
    cur = f.t.blk.number
    hs = f.t.blk.hashes
    d = cur - n
    if n >= cur or d > 256 or d > len(hs):
        f.push(0)
    else:
        f.push(int.from_bytes(hs[-d], "big"))


def op_blobhash(f):
    i = f.pop()
    f.use(3)
    hs = f.t.blob_hashes
    f.push(int.from_bytes(hs[i], "big") if i < len(hs) else 0)


def op_mload(f):
    a = f.pop()
    f.charge_mem(3, (a, 32))
    f.push(int.from_bytes(f.mread(a, 32), "big"))


def op_mstore(f):
    a, v = f.pop(), f.pop()
    f.charge_mem(3, (a, 32))
    f.mwrite(a, v.to_bytes(32, "big"))


def op_mstore8(f):
    a, v = f.pop(), f.pop()
    f.charge_mem(3, (a, 1))
    f.mwrite(a, bytes([v & 0xFF]))


def op_mcopy(f):
    d, s, n = f.pop(), f.pop(), f.pop()
    f.charge_mem(3 + 3 * words(n), (d, n), (s, n))
    f.mwrite(d, f.mread(s, n))


def op_jump(f):
    d = f.pop()
    f.use(8)
    f.jump(d)


def op_jumpi(f):
    d, c = f.pop(), f.pop()
    f.use(10)
    if c:
        f.jump(d)


def op_push(n):
    def go(f):
        f.use(3)
        f.push(int.from_bytes(pad_read(f.code, f.pc, n), "big"))
        f.pc += n
    return go


def op_dup(n):
    def go(f):
        f.use(3)
        if len(f.stack) < n:
            raise Halt("underflow")
        f.push(f.stack[-n])
    return go


def op_swap(n):
    def go(f):
        f.use(3)
        if len(f.stack) < n + 1:
            raise Halt("underflow")
        s = f.stack
        s[-1], s[-1 - n] = s[-1 - n], s[-1]
    return go


def op_pop(f):
    f.pop()
    f.use(2)


def op_stop(f):
    f.done = True


def op_return(f):
    a, n = f.pop(), f.pop()
    f.charge_mem(0, (a, n))
    f.out = f.mread(a, n)
    f.done = True


def op_revert(f):
    a, n = f.pop(), f.pop()
    f.charge_mem(0, (a, n))
    f.out = f.mread(a, n)
    raise RevertEx()


def op_tload(f):
    k = f.pop()
    f.use(100)
    f.push(f.t.transient.get((f.addr, k), 0))


def op_tstore(f):
    k, v = f.pop(), f.pop()
    f.use(100)
    f.no_static()
    f.t.set_transient(f.addr, k, v)


def op_not(f):
    a = f.pop()
    f.use(3)
    f.push(a ^ MASK)


def op_iszero(f):
    a = f.pop()
    f.use(3)
    f.push(int(a == 0))


def op_clz(f):
    a = f.pop()
    f.use(5)
    f.push(256 - a.bit_length())


def _i(b):
    return int.from_bytes(b, "big")


def op_blobbasefee(f):
    from .rules import blob_price
    f.use(2)
    f.push(blob_price(f.fork, f.t.blk.excess_blob_gas))


# (opcode, first fork, handler)
TABLE = [
    (0x00, 0, op_stop),
    (0x01, 0, _bin(3, lambda a, b: a + b)),
    (0x02, 0, _bin(5, lambda a, b: a * b)),
    (0x03, 0, _bin(3, lambda a, b: a - b)),
    (0x04, 0, _bin(5, lambda a, b: a // b if b else 0)),
    (0x05, 0, _bin(5, _sdiv)),
    (0x06, 0, _bin(5, lambda a, b: a % b if b else 0)),
    (0x07, 0, _bin(5, _smod)),
    (0x08, 0, op_ter(lambda a, b: a + b)),
    (0x09, 0, op_ter(lambda a, b: a * b)),
    (0x0A, 0, op_exp),
    (0x0B, 0, _bin(5, _signext)),
    (0x10, 0, _bin(3, lambda a, b: int(a < b))),
    (0x11, 0, _bin(3, lambda a, b: int(a > b))),
    (0x12, 0, _bin(3, lambda a, b: int(to_signed(a) < to_signed(b)))),
    (0x13, 0, _bin(3, lambda a, b: int(to_signed(a) > to_signed(b)))),
    (0x14, 0, _bin(3, lambda a, b: int(a == b))),
    (0x15, 0, op_iszero),
    (0x16, 0, _bin(3, lambda a, b: a & b)),
    (0x17, 0, _bin(3, lambda a, b: a | b)),
    (0x18, 0, _bin(3, lambda a, b: a ^ b)),
    (0x19, 0, op_not),
    (0x1A, 0, _bin(3, _byte)),
    (0x1B, CONSTANTINOPLE, _bin(3, lambda s, v: v << s if s < 256 else 0)),
    (0x1C, CONSTANTINOPLE, _bin(3, lambda s, v: v >> s if s < 256 else 0)),
    (0x1D, CONSTANTINOPLE,
     _bin(3, lambda s, v: to_signed(v) >> (s if s < 256 else 256))),
    (0x1E, OSAKA, op_clz),
    (0x20, 0, op_sha3),
    (0x30, 0, _env(2, lambda f: _i(f.addr))),
    (0x31, 0, _acct(lambda k: 20 if k < TANGERINE else
                    400 if k < ISTANBUL else 700,
                    lambda w, x: w.balance(x))),
    (0x32, 0, _env(2, lambda f: _i(f.t.origin))),
    (0x33, 0, _env(2, lambda f: _i(f.caller))),
    (0x34, 0, _env(2, lambda f: f.value)),
    (0x35, 0, op_calldataload),
    (0x36, 0, _env(2, lambda f: len(f.data))),
    (0x37, 0, _copy(lambda f: f.data)),
    (0x38, 0, _env(2, lambda f: len(f.code))),
    (0x39, 0, _copy(lambda f: f.code)),
    (0x3A, 0, _env(2, lambda f: f.t.gas_price)),
    (0x3B, 0, _acct(lambda k: 20 if k < TANGERINE else 700,
                    lambda w, x: len(w.code(x)))),
    (0x3C, 0, op_extcodecopy),
    (0x3D, BYZANTIUM, _env(2, lambda f: len(f.ret))),
    (0x3E, BYZANTIUM, op_returndatacopy),
    (0x3F, CONSTANTINOPLE, _acct(lambda k: 400 if k < ISTANBUL else 700,
                                 _exthash)),
    (0x40, 0, op_blockhash),
    (0x41, 0, _env(2, lambda f: _i(f.t.blk.coinbase))),
    (0x42, 0, _env(2, lambda f: f.t.blk.time)),
    (0x43, 0, _env(2, lambda f: f.t.blk.number)),
    (0x44, 0, _env(2, lambda f: f.t.blk.difficulty if f.fork < PARIS
                   else _i(f.t.blk.prev_randao))),
    (0x45, 0, _env(2, lambda f: f.t.blk.gas_limit)),
    (0x46, ISTANBUL, _env(2, lambda f: f.t.blk.chain_id)),
    (0x47, ISTANBUL, _env(5, lambda f: f.w.balance(f.addr))),
    (0x48, LONDON, _env(2, lambda f: f.t.blk.base_fee)),
    (0x49, CANCUN, op_blobhash),
    (0x4A, CANCUN, op_blobbasefee),
    (0x50, 0, op_pop),
    (0x51, 0, op_mload),
    (0x52, 0, op_mstore),
    (0x53, 0, op_mstore8),
    (0x54, 0, op_sload),
    (0x55, 0, op_sstore),
    (0x56, 0, op_jump),
    (0x57, 0, op_jumpi),
    (0x58, 0, _env(2, lambda f: f.pc - 1)),
    (0x59, 0, _env(2, lambda f: len(f.mem))),
    (0x5A, 0, _env(2, lambda f: f.gas)),
    (0x5B, 0, lambda f: f.use(1)),
    (0x5C, CANCUN, op_tload),
    (0x5D, CANCUN, op_tstore),
    (0x5E, CANCUN, op_mcopy),
    (0x5F, SHANGHAI, _env(2, lambda f: 0)),
    (0xF0, 0, lambda f: op_create(f, False)),
    (0xF1, 0, lambda f: op_call(f, "call")),
    (0xF2, 0, lambda f: op_call(f, "callcode")),
    (0xF3, 0, op_return),
    (0xF4, HOMESTEAD, lambda f: op_call(f, "delegatecall")),
    (0xF5, CONSTANTINOPLE, lambda f: op_create(f, True)),
    (0xFA, BYZANTIUM, lambda f: op_call(f, "staticcall")),
    (0xFD, BYZANTIUM, op_revert),
    (0xFF, 0, op_selfdestruct),
] + [(0x5F + n, 0, op_push(n)) for n in range(1, 33)] \
  + [(0x7F + n, 0, op_dup(n)) for n in range(1, 17)] \
  + [(0x8F + n, 0, op_swap(n)) for n in range(1, 17)] \
  + [(0xA0 + n, 0, op_log(n)) for n in range(5)]

OPS = [{o: h for o, first, h in TABLE if first <= k} for k in range(18)]
