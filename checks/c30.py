"""Tracing: neutrality, well-formed event streams, faithful EIP-3155 rows."""
import io, json, os, shutil, tempfile
from lib.suites import *
from lib import pre as P
from refspec import evm as E
from refspec.prim import keccak
import ethereum.trace as ET
from ethereum_spec_tools.evm_tools.t8n.evm_trace import count as TC
from ethereum_spec_tools.evm_tools.t8n.evm_trace import eip3155 as T3
from ethereum_spec_tools.evm_tools.t8n.evm_trace import group as TG

CALLS = {0xF0, 0xF1, 0xF2, 0xF4, 0xF5, 0xFA}
MEM_LIMIT = 3000


# ------------------------------------------------- rows of the reference EVM
class Row:
    __slots__ = ("depth", "pc", "op", "gas", "cost", "stack", "msize", "mem",
                 "ret", "r0", "r1", "err", "implicit")


class Log:
    def __init__(self):
        self.rows = {}            # Tx -> [Row]
        self.open = []            # (frame, row)
        self.msgs = []            # (Tx, gas, result) of real transactions
        self.pre = {}             # Tx -> [address]


LOG = None


def install():
    use0, msg0, run0 = E.Frame.use, RB.message, E.Frame.run
    look0 = E.precompiles.lookup

    def use(self, g):
        if LOG and LOG.open and LOG.open[-1][0] is self:
            LOG.open[-1][1].cost += g
        use0(self, g)

    def start(f, op):
        r = Row()
        r.depth, r.pc, r.op, r.gas, r.cost = f.depth + 1, f.pc, op, f.gas, 0
        r.stack, r.msize, r.ret = list(f.stack), len(f.mem), f.ret
        r.mem = bytes(f.mem) if len(f.mem) <= MEM_LIMIT else None
        r.r0 = r.r1 = f.t.refund
        r.err = None
        r.implicit = False
        LOG.rows.setdefault(f.t, []).append(r)
        return r

    def run(self):
        if LOG is None:
            return run0(self)
        ops, code = E.OPS[self.fork], self.code
        while not self.done and self.pc < len(code):
            r = start(self, code[self.pc])
            fn = ops.get(r.op)
            if fn is None:
                r.err = "InvalidOpcode"
                raise E.Halt("invalid")
            self.pc += 1
            LOG.open.append((self, r))
            try:
                fn(self)
            except E.RevertEx:
                r.err = "Revert"
                raise
            except E.Halt:
                r.err = "*"
                raise
            finally:
                LOG.open.pop()
                r.r1 = self.t.refund
        if not self.done and len(code):
            start(self, 0).implicit = True   # running off the end

    def message(t, sender, to, value, data, gas, *a, **k):
        m = msg0(t, sender, to, value, data, gas, *a, **k)
        if LOG:
            LOG.msgs.append((t, gas, m))
        return m

    E.Frame.use, E.Frame.run, RB.message = use, run, message


install()


# ------------------------------------------------------- recording tracer
KIND = {ET.TransactionStart: "tstart", ET.TransactionEnd: "tend",
        ET.PrecompileStart: "pstart", ET.PrecompileEnd: "pend",
        ET.OpStart: "start", ET.OpEnd: "end", ET.OpException: "exc",
        ET.EvmStop: "stop", ET.GasAndRefund: "gas"}


class Recorder:
    def __init__(self):
        self.ev = []

    def __call__(self, evm, e):
        self.ev.append((KIND[type(e)], evm, int(evm.message.depth),
                        int(evm.gas_left), e))


def split(ev):
    """Events per transaction, in order; system calls are left out."""
    out, cur, n = [], None, 0
    for x in ev:
        env = x[1].message.tx_env
        if env.index_in_block is None:
            n += 1
            continue
        if env is not cur:
            out.append((env, []))
            cur = env
        out[-1][1].append(x)
    return out, n


class Fr:
    def __init__(self, evm, depth):
        self.evm, self.depth = evm, depth
        self.op = None
        self.closed = False
        self.gas0 = self.spent = 0
        self.child = False
        self.pre = False


def automaton(ev, res):
    """Check one transaction's events for form; returns precompiles run."""
    def bad(sig, msg):
        res.fail("stream:" + sig, msg)
    st, ended, pres = [], 0, []
    for kind, evm, depth, gas, e in ev:
        if ended:
            bad("after-end", "%s after TransactionEnd" % kind)
            return pres
        if kind == "tstart":
            continue
        if kind == "tend":
            ended += 1
            for f in st:
                if not f.closed:
                    bad("unclosed", "frame at depth %d still open at "
                        "TransactionEnd" % f.depth)
            if depth != 0:
                bad("end-depth", "TransactionEnd at depth %d" % depth)
            continue
        if any(f.evm is evm for f in st):
            while st[-1].evm is not evm:
                f = st.pop()
                if not f.closed:
                    bad("nesting", "depth %d event while depth %d is open" % (
                        depth, f.depth))
        else:
            while st and st[-1].depth >= depth:
                f = st.pop()
                if not f.closed:
                    bad("nesting", "new frame at depth %d while depth %d is "
                        "open" % (depth, f.depth))
            want = st[-1].depth + 1 if st else 0
            # a frame without code emits nothing, so depths may not skip
            if depth != want:
                bad("depth", "frame at depth %d inside depth %d" % (
                    depth, want - 1))
            if st:
                p = st[-1]
                if p.closed or p.op is None or p.op not in CALLS:
                    bad("orphan", "child frame outside a call opcode")
                p.child = True
            st.append(Fr(evm, depth))
        f = st[-1]
        if kind == "gas":
            f.spent += e.gas_cost
            if e.gas_cost < 0:
                bad("gas-negative", "%d" % e.gas_cost)
            continue
        if f.closed:
            bad("closed", "%s in a closed frame" % kind)
            continue
        if kind == "start":
            if f.op is not None:
                bad("op-open", "OpStart while another opcode is open")
            f.op, f.gas0, f.spent, f.child = int(e.op.value), gas, 0, False
        elif kind == "end":
            if f.op is None or f.pre:
                bad("op-end", "OpEnd without OpStart")
            elif f.op not in CALLS and f.gas0 - gas != f.spent:
                bad("gas-sum", "opcode %02x took %d gas, events sum to %d" % (
                    f.op, f.gas0 - gas, f.spent))
            f.op = None
        elif kind == "exc":
            f.closed = True
            f.op = None
        elif kind == "stop":
            if f.op is not None:
                bad("stop-open", "EvmStop inside an opcode")
            f.closed = True
        elif kind == "pstart":
            f.pre, f.gas0, f.spent = True, gas, 0
            pres.append(bytes(e.address))
        elif kind == "pend":
            if not f.pre:
                bad("pend", "PrecompileEnd without start")
            elif f.gas0 - gas != f.spent:
                bad("gas-sum", "precompile took %d gas, events sum to %d" % (
                    f.gas0 - gas, f.spent))
            f.closed = True
    if ended != 1:
        bad("tx-end", "%d TransactionEnd events" % ended)
    return pres


# --------------------------------------------------------------- comparing
def observe(F, out, st):
    r = [int(out.block_gas_used), [F.log(l) for l in out.block_logs],
         F.receipts(out), bytes(F.state.state_root(st))]
    if F.k >= CANCUN:
        r.append(int(out.blob_gas_used))
    if F.k >= PRAGUE:
        r.append([bytes(x) for x in out.requests])
    return r


def run(c, res):
    global LOG
    F = Fork(c["fork"])
    opt = c["opt"]
    blk, world = blk_of(c["blk"]), world_of(c["pre"])
    LOG = Log()
    try:
        want = RB.run_body(F.k, world.copy(), blk, c["txs"], c["wds"])
    except RB.Reject:
        want = None
    log, LOG = LOG, None
    res.tag(c["fork"])
    if want is None:
        res.tag("rejected")
        return
    if sum(map(len, log.rows.values())) > c.get("limit", 1500):
        res.tag("too-long")
        return
    st0 = F.make_state(world)
    try:
        plain = observe(F, F.apply_body(F.block_env(blk, st0), c["txs"],
                                        c["wds"]), st0)
    except REJECTS as e:
        res.fail("untraced-reject", repr(e))
        return
    rec, cnt = Recorder(), TC.CountTracer()
    tmp = tempfile.mkdtemp(prefix="c30-") if opt["file"] else None
    sink = tmp or io.StringIO()
    t3 = T3.Eip3155Tracer(trace_memory=opt["mem"], trace_stack=opt["stack"],
                          trace_return_data=opt["ret"], output_basedir=sink)
    grp = TG.GroupTracer()
    for t in (rec, cnt, t3):
        grp.add(t)
    st = F.make_state(world)
    old = ET.set_evm_trace(grp)
    try:
        try:
            out = F.apply_body(F.block_env(blk, st), c["txs"], c["wds"])
        except REJECTS as e:
            res.fail("traced-reject", repr(e))
            return
        finally:
            prev = ET.set_evm_trace(old)
        if prev is not grp:
            res.fail("set-trace", "set_evm_trace did not return the tracer")
        if observe(F, out, st) != plain:
            res.fail("not-neutral", "results differ with tracers installed")
        nev = len(rec.ev)
        again = F.make_state(world)
        F.apply_body(F.block_env(blk, again), c["txs"], c["wds"])
        if len(rec.ev) != nev:
            res.fail("still-tracing", "events after the tracer was removed")
        check(F, c, res, log, want, rec, cnt, sink, tmp)
    finally:
        if tmp:
            shutil.rmtree(tmp)


def check(F, c, res, log, want, rec, cnt, sink, tmp):
    txs, nsys = split(rec.ev)
    if nsys:
        res.tag("system-events")
    live = [i for i, m in enumerate(log.msgs)
            if m[2].get("error") != "collision"]
    if len(live) < len(log.msgs):
        res.tag("collision")
    got = [int(env.index_in_block) for env, _ in txs]
    if got != live:
        res.fail("tx-index", "traced transactions %r, expected %r" % (
            got, live))
        return
    for env, ev in txs:
        i = int(env.index_in_block)
        t, gas, m = log.msgs[i]
        if bytes(env.tx_hash) != keccak(want.tx_bytes[i]):
            res.fail("tx-hash", "transaction %d" % i)
        pres = automaton(ev, res)
        res.eq("precompiles-run", len(pres), t.stats.get("precompile", 0))
        if pres:
            res.tag("precompile")
        if ev[-1][0] != "tend":
            continue
        e = ev[-1][4]
        res.eq("end-gas", int(e.gas_used), gas - m["gas_left"])
        # Homestead to Spurious Dragon keep the returned code as output when
        # its deposit cannot be paid for; nothing says otherwise.
        if m["ok"] or F.k >= BYZANTIUM or m["created"] is None:
            res.eq("end-output", bytes(e.output), bytes(m["out"]))
        res.eq("end-error", e.error is None, m["ok"])
        rows = log.rows.get(t, [])
        starts = [int(x[4].op.value) for x in ev if x[0] == "start"]
        res.eq("op-sequence", starts, [
            r.op for r in rows
            if r.err != "InvalidOpcode" and not r.implicit])
        if rows:
            res.nontrivial = True
            if max(r.depth for r in rows) > 1:
                res.tag("nested")
    check_rows(F, c, res, log, want, txs, sink, tmp)
    check_last_count(F, res, cnt, rec)


def check_last_count(F, res, cnt, rec):
    """CountTracer holds the opcode counts of the last environment seen."""
    tally, cur = {}, None
    for kind, evm, _, _, e in rec.ev:
        if kind != "start":
            continue
        if evm.message.tx_env is not cur:
            cur, tally = evm.message.tx_env, {}
        n = e.op.name
        tally[n] = tally.get(n, 0) + 1
    res.eq("count-tracer", dict(cnt.results()), tally)
    res.eq("count-cleared", dict(cnt.results()), {})


def check_rows(F, c, res, log, want, txs, sink, tmp):
    opt = c["opt"]
    if tmp:
        text = {}
        for f in os.listdir(tmp):
            with open(os.path.join(tmp, f)) as h:
                text[f] = h.read()
        exp = ["trace-%d-0x%s.jsonl" % (
            int(e.index_in_block), keccak(
                want.tx_bytes[int(e.index_in_block)]).hex())
            for e, _ in txs]
        if sorted(text) != sorted(exp):
            res.fail("files", "%r, expected %r" % (sorted(text), sorted(exp)))
            return
        lines = [l for f in exp for l in text[f].splitlines()]
    else:
        lines = sink.getvalue().splitlines()
    it = iter(json.loads(l) for l in lines)
    ops = F.mod("vm.instructions").Ops
    for env, ev in txs:
        t, gas, m = log.msgs[int(env.index_in_block)]
        for n, r in enumerate(log.rows.get(t, [])):
            g = next(it, None)
            if g is None or "pc" not in g:
                res.fail("row-missing", "row %d (pc %d op %02x) is missing"
                         % (n, r.pc, r.op))
                return
            if not row_eq(F, res, opt, n, g, r, ops):
                return
        g = next(it, None)
        if g is None or "gasUsed" not in g:
            res.fail("row-extra", "no summary where expected: %r" % (g,))
            return
        if ev[-1][0] == "tend":
            res.eq("final-output", g["output"],
                   bytes(ev[-1][4].output).hex())
        res.eq("final-gas", g["gasUsed"], hex(gas - m["gas_left"]))
        res.eq("final-error", "error" not in g, m["ok"])
        if ev[-1][0] == "tend" and ev[-1][4].error is not None:
            res.eq("final-error-name", g.get("error"),
                   type(ev[-1][4].error).__name__)
    if next(it, None) is not None:
        res.fail("row-extra", "lines after the last transaction")


def row_eq(F, res, opt, n, g, r, ops):
    ok = True

    def eq(k, got, want):
        nonlocal ok
        if got != want:
            ok = False
            res.fail("row:" + k, "row %d (pc %d op %02x depth %d): %s %r, "
                     "expected %r" % (n, r.pc, r.op, r.depth, k, got, want))
    eq("pc", g["pc"], r.pc)
    eq("op", g["op"], r.op)
    eq("depth", g["depth"], r.depth)
    eq("gas", g.get("gas"), hex(r.gas) if r.gas < 2**64 else None)
    eq("memSize", g["memSize"], r.msize)
    eq("stack", g.get("stack"),
       [hex(x) for x in r.stack] if opt["stack"] else None)
    if r.err is None:
        eq("gasCost", g.get("gasCost"),
           hex(r.cost) if r.cost < 2**64 else None)
    if r.mem is not None:
        eq("memory", g.get("memory"),
           "0x" + r.mem.hex() if opt["mem"] and r.mem else None)
    if opt["ret"] and F.k >= BYZANTIUM:
        eq("returnData", g.get("returnData"), "0x" + bytes(r.ret).hex())
    else:
        eq("returnData", g.get("returnData"), None)
    if r.err is None or r.op not in (0x55, 0xFF):
        if g["refund"] not in (r.r0, r.r1):
            eq("refund", g["refund"], r.r0)
        if r.op not in (0x55, 0xFF) and r.op not in CALLS:
            eq("refund", g["refund"], r.r0)
    if r.err == "*":
        eq("error", g.get("error") is None, False)
        eq("error-name", g.get("error") in ("Revert", "InvalidOpcode"), False)
    else:
        eq("error", g.get("error"), r.err)
    if r.err == "InvalidOpcode":
        eq("opName", g["opName"], "InvalidOpcode")
    else:
        eq("opName", g["opName"], ops(r.op).name)
    return ok


# --------------------------------------------------------------- generators
def options(s, c):
    c["opt"] = dict(mem=s.chance(30), stack=s.chance(75), ret=s.chance(40),
                    file=s.chance(25))
    return c


MIX = dict(call=8, create=4, revert=2, store=4, refund=3, precompile=3,
           log=1, mem=3, copy=2, hash=1, acct=2, env=2, expr=4, branch=2,
           loop=1, transient=2, sd=1, ret=2, stop=1, invalid=1, raw=2,
           sload=2)


def make_prog(s):
    return options(s, G.gen_body(s, G.pick_fork(s), MIX,
                                 ntx=s.int(1, 3)))


def make_any(s):
    return options(s, G.gen_body(s, G.pick_fork(s), None, ntx=1,
                                 nstmt=lambda s: s.int(1, 4)))


def make_pre(s):
    fork = s.int(0, 17)
    names = [n for n in P.ADDR if P.FROM[n] <= fork and n not in (
        "kzg", "bls_pair", "bn_pair", "g1msm", "g2msm", "map2", "modexp")]
    calls = [(P.ADDR[s.pick(names)], s.bytes(s.pick([0, 1, 32, 64, 128,
                                                     160, 213, 256])))
             for _ in range(s.int(1, 4))]
    return options(s, P.precompile_case(s, fork, calls, direct=True))


def make_edge(s):
    """Straight-line snippets around the tracer's special cases: an error in
    the first opcode of a frame, implicit stops, empty frames, creation with
    empty or failing init code, delegated and self-calling frames."""
    fork = s.int(0, 17)
    leafs = [b"", b"\xfe", b"\x0c", b"\x01", b"\x00", b"\x5b", b"\x60",
             b"\x60\x00", b"\x60\x00\x56", b"\x63\x00", b"\x30\xff",
             b"\x60\x00\x60\x00\xf3", b"\x60\x00\x60\x00\xfd",
             b"\x60\x20\x60\x00\xfd", b"\x63\xff\xff\xff\xff\x51",
             b"\x60\x00\x60\x00\x55", b"\x60\x01\x60\x00\x55",
             b"\x60\x05\x60\x00\xf3", b"\x61\x60\x01\x60\x00\xf3",
             b"\x60\xef\x60\x00\x53\x60\x01\x60\x00\xf3"]
    pre = {EOA[i]: dict(nonce=0, balance=10**24) for i in range(3)}
    if fork >= PRAGUE:
        for x in (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ):
            pre[x] = dict(nonce=1, code=b"\x00")
    kinds = [0xF1, 0xF1, 0xF2]
    if fork >= HOMESTEAD:
        kinds.append(0xF4)
    if fork >= BYZANTIUM:
        kinds.append(0xFA)
    for i in range(3):
        a = Asm(fork)
        for _ in range(s.int(1, 4)):
            k = s.below(10)
            if k < 5:
                kd = s.pick(kinds)
                a.push(0).push(0).push(0).push(0)
                if kd in (0xF1, 0xF2):
                    a.push(s.pick([0, 0, 1, 10**20]))
                to = s.pick([CON[i + 1 if i < 2 else 3], CON[3], EOA[1],
                             FRESH[0], num_addr(s.int(1, 4)), CON[0]])
                a.push(int.from_bytes(to, "big"))
                a.push(s.pick([100_000, 30_000, 3_000, 100, 0]))
                a.op(kd, 0x50)
            elif k < 8:
                init = s.pick(leafs)
                if init:
                    a.load_data(init, 0)
                two = fork >= CONSTANTINOPLE and s.bool()
                if two:
                    a.push(s.below(2))
                a.push(len(init)).push(0).push(s.pick([0, 0, 1]))
                a.op(0xF5 if two else 0xF0, 0x50)
            else:
                a.push(s.below(2)).push(s.below(2)).op(0x55)
        code = a.build()
        code = code[:-1] if code.endswith(b"\x00") and s.bool() else code
        if not a.__dict__.get("data"):
            code += s.pick(leafs)
        pre[CON[i]] = dict(nonce=1, balance=50, code=code,
                           storage={0: s.below(2), 1: 1})
    pre[CON[3]] = dict(nonce=1, balance=1, code=s.pick(leafs))
    if fork >= PRAGUE and s.chance(40):
        pre[CON[3]]["code"] = b"\xef\x01\x00" + s.pick(
            [CON[2], num_addr(2), EOA[1], CON[3]])
    blk = gen_blk(s, fork)
    nn, txs = {}, []
    for _ in range(s.int(1, 3)):
        if s.chance(25):
            txs.append(gen_tx(s, fork, blk, nn, [CON[0]], to="create",
                              types=[t for t in tx_types(fork) if t < 3],
                              data=s.pick(leafs)))
        else:
            txs.append(gen_tx(s, fork, blk, nn, [
                CON[0], CON[0], CON[1], CON[3], EOA[1],
                num_addr(s.int(1, 9))]))
    return bound_gas(s, fork, options(s, G.case(fork, blk, pre, txs)),
                     pct=30, i=s.below(len(txs)))


def make_deep(s):
    """Self-recursion towards the depth limit (pre-150 gas rules) or as deep
    as the 63/64 rule goes."""
    fork = s.int(0, 17)
    a = Asm(fork)
    a.push(0).push(0).push(0).push(0).push(0).op(0x30)
    if fork < TANGERINE:
        a.push(300).op(0x5A, 0x03)
    else:
        a.op(0x5A)
    a.op(0xF1)
    if s.bool():
        a.push(0).op(0x55)
    pre = {EOA[0]: dict(nonce=0, balance=10**24),
           CON[0]: dict(nonce=1, balance=50, code=a.build())}
    if fork >= PRAGUE:
        for x in (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ):
            pre[x] = dict(nonce=1, code=b"\x00")
    blk = gen_blk(s, fork)
    blk["gas_limit"] = 30_000_000
    tx = simple_tx(s, fork, blk, gas=s.pick([200_000, 600_000, 1_000_000]))
    c = options(s, G.case(fork, blk, pre, [tx]))
    c["opt"]["mem"] = False
    c["limit"] = 10**6
    return c


def make_full(s):
    """The stack filled to its limit and emptied again, with an opcode of
    every arity class tried at the top."""
    fork = s.int(0, 17)
    a = Asm(fork)
    n = s.pick([1022, 1023, 1024, 1024, 1024, 1025])
    for i in range(n):
        a.push(s.pick([0, 1, i, 2**256 - 1]))
    for _ in range(s.int(0, 4)):
        a.op(s.pick([0x01, 0x08, 0x19, 0x8F, 0x9F, 0x80, 0x30, 0x50, 0x5A,
                     0xF1, 0x20]))
    k = s.pick([0, 1000, 1020, 1021, 1022, 1023])
    for _ in range(k):
        a.op(0x50)
    for _ in range(s.int(0, 3)):
        a.op(0x55)
    pre = {EOA[0]: dict(nonce=0, balance=10**24),
           CON[0]: dict(nonce=1, balance=50, code=a.build())}
    if fork >= PRAGUE:
        for x in (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ):
            pre[x] = dict(nonce=1, code=b"\x00")
    blk = gen_blk(s, fork)
    blk["gas_limit"] = 30_000_000
    c = options(s, G.case(fork, blk, pre, [
        simple_tx(s, fork, blk, gas=1_000_000)]))
    c["opt"].update(mem=False, stack=True)
    c["limit"] = 10**4
    return c


RULE = "; non-trivial: at least one opcode was executed"
# share of the larger suites' cases that the quick tier runs
QUICK_SCALE = 0.75
SUITES = [
    Suite("edge", make_edge, run, 6000, None,
          "1-3 transactions over snippets at the tracer's special cases"
          + RULE),
    Suite("programs", make_prog, run, 2600, None,
          "call- and create-heavy structured programs" + RULE),
    Suite("mixed", make_any, run, 1600, None,
          "programs over every statement kind" + RULE),
    Suite("precompiles", make_pre, run, 2500, None,
          "precompiles called by proxy and directly, with failing input and "
          "short gas" + RULE),
    Suite("deep", make_deep, run, 32, 600,
          "self-recursion down to the gas or depth limit" + RULE),
    Suite("full-stack", make_full, run, 16, 600,
          "the stack filled to 1022-1025 items and emptied again" + RULE),
]
