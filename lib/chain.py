"""Model chains: generation of valid children, mutations, transitions.

A chain case is plain data: ``anc`` is a list of [fork index, header, ommers]
(oldest first, properly linked), ``pre`` the state after the last of them.
"""
import contextlib, os, traceback
from lib import gen as G
from lib.gen import *
from lib.adapt import (Fork, REJECTS, state_diff, _rlp, U64, Uint)
from refspec import block as RB, rules
from refspec.forks import *
from refspec.prim import keccak, rlp

NULL = b"\0" * 32
FORK_BLOCK = {LONDON: 12_965_000, DAO: 1_920_000}
DAO_EXTRA = b"dao-hard-fork"


# ------------------------------------------------------------ ancestors
def blank_header(fork, **kw):
    h = dict(parent_hash=NULL, ommers_hash=RB.EMPTY_OMMERS,
             coinbase=COINBASE, state_root=keccak(b"state"),
             transactions_root=RB.EMPTY_ROOT, receipt_root=RB.EMPTY_ROOT,
             bloom=b"\0" * 256,
             difficulty=0 if fork >= PARIS else 2**20,
             number=0, gas_limit=30_000_000, gas_used=0, timestamp=1000,
             extra_data=b"", mix=NULL, nonce=b"\0" * 8, base_fee=1000,
             withdrawals_root=RB.EMPTY_ROOT, blob_gas_used=0,
             excess_blob_gas=0, beacon_root=NULL, requests_hash=NULL)
    h.update(kw)
    return h


def tip_number(s, fork):
    """Parent number; near fork or bomb boundaries now and then."""
    c = [0, 1, 5, 300, 99_999, 199_998, 199_999, 200_000, 1_500_000,
         12_000_000,
         # difficulty stays a word
         s.below(2**24 if fork < PARIS else 2**34)]
    if fork in BOMB_DELAY:
        d = BOMB_DELAY[fork]
        c += [d - 2, d - 1, d, d + 199_998, d + 199_999, d + 299_999,
              d + 1_000_000 + s.below(5_000_000)]
    if fork in FORK_BLOCK:
        f = FORK_BLOCK[fork]
        c += [f - 2, f - 1, f, f + 8, f + 9, f + 10]
    return s.pick(c)


def gen_tip(s, fork, number=None, parent_fork=None, roomy=True):
    """A plausible parent header of a block of ``fork``."""
    pf = fork if parent_fork is None else parent_fork
    limit = s.pick([30_000_000, 36_000_000, 10_000_000, 12_345_678]) \
        if roomy else s.weighted([
            (4, 30_000_000), (1, 5000), (1, 5001), (1, 5119), (1, 5120),
            (1, 6000), (1, 1_000_003), (1, s.int(5000, 2**40)),
            (1, 2**63 - 1)])
    h = blank_header(pf, gas_limit=limit)
    t = limit // 2
    used = s.weighted([(2, 0), (2, t), (2, limit), (1, t + 1),
                       (1, max(t - 1, 0)), (3, s.below(limit + 1))])
    h.update(
        number=tip_number(s, fork) if number is None else number,
        gas_used=used,
        timestamp=s.pick([1000, 1_438_269_988, 2**32 - 3, 1_700_000_000]),
        coinbase=s.pick([COINBASE, EOA[1]]),
        base_fee=s.pick([7, 0, 1, 8, 9, 1000, 10**9, 10**9 + 7]),
        state_root=s.bytes(32) if s.bool() else keccak(b"state"))
    if pf < PARIS:
        h["difficulty"] = s.weighted([
            (3, 2**20), (2, 131072), (1, 131073), (1, 131072 + 2048),
            (1, 2048 * 99), (1, 17_179_869_184), (1, s.int(131072, 2**60))])
        h["nonce"] = s.bytes(8)
        h["mix"] = s.bytes(32)
        if s.chance(25):
            h["ommers_hash"] = keccak(b"some ommers")
    if pf >= CANCUN:
        h["blob_gas_used"] = 131072 * s.below(rules.BLOB[pf][1] + 1)
        tg = rules.BLOB[fork][0] * 131072
        h["excess_blob_gas"] = s.weighted([
            (3, 0), (1, tg - 131072), (1, tg), (1, tg - 1),
            (1, tg + 131072), (1, s.below(40_000_000)), (1, 30_000_000),
            (1, 131072 * s.below(100))])
    return h


def gen_anc(s, fork, n, tip, parent_fork=None, ommers=()):
    """n linked ancestors ending in ``tip`` (which gets its parent hash)."""
    pf = fork if parent_fork is None else parent_fork
    n = max(1, min(n, tip["number"] + 1))
    anc = []
    ph = NULL if tip["number"] - n + 1 == 0 else keccak(b"older")
    for i in range(n - 1):
        h = blank_header(
            pf, number=tip["number"] - n + 1 + i, parent_hash=ph,
            timestamp=max(tip["timestamp"] - 13 * (n - 1 - i), 1 + i),
            difficulty=tip["difficulty"] if pf < PARIS else 0,
            gas_limit=tip["gas_limit"], base_fee=tip["base_fee"])
        anc.append([pf, h, []])
        ph = RB.header_hash(pf, h)
    tip["parent_hash"] = ph
    if anc and tip["timestamp"] <= anc[-1][1]["timestamp"]:
        tip["timestamp"] = anc[-1][1]["timestamp"] + 1
    anc.append([pf, tip, []])
    return anc


# ------------------------------------------------------------ children
def gen_limit(s, fork, parent_limit, first):
    p = parent_limit * (2 if fork == LONDON and first else 1)
    d = p // 1024 - 1
    lim = p + s.weighted([(6, 0), (1, 1), (1, -1), (2, d), (2, -d)])
    return max(lim, 5000) if p >= 5004 else max(p, 5000)


def child_header(s, fork, pf, parent, first=False, dt=None):
    """A header valid with respect to its parent (commitments blank)."""
    h = blank_header(fork)
    if dt is None:
        dt = s.weighted([
            (3, 13), (1, 1), (1, 8), (1, 9), (1, 10), (1, 12), (1, 17),
            (1, 18), (1, 19), (1, 20), (1, 900), (1, 990), (1, 1000),
            (1, 1800), (1, s.int(1, 3000))])
    h.update(
        number=parent["number"] + 1, timestamp=parent["timestamp"] + dt,
        parent_hash=RB.header_hash(pf, parent),
        coinbase=s.weighted([(5, COINBASE), (1, EOA[0]), (1, FRESH[1])]),
        gas_limit=gen_limit(s, fork, parent["gas_limit"], first),
        extra_data=s.weighted([(3, b""), (1, b"\x01" * 32),
                               (1, s.blob(32))]))
    if fork < PARIS:
        h["difficulty"] = rules.difficulty(
            fork, h["number"], h["timestamp"], parent["timestamp"],
            parent["difficulty"], parent["ommers_hash"] != RB.EMPTY_OMMERS)
        h["nonce"] = s.bytes(8)
        h["mix"] = s.bytes(32)
        if fork == DAO and 0 <= h["number"] - FORK_BLOCK[DAO] < 10:
            h["extra_data"] = DAO_EXTRA
    else:
        h["mix"] = s.bytes(32)
    if fork >= LONDON:
        if fork == LONDON and first:
            h["base_fee"] = 10**9
        else:
            h["base_fee"] = rules.next_base_fee(
                parent["gas_limit"], parent["gas_used"], parent["base_fee"])
    if fork >= CANCUN:
        pre = pf < CANCUN
        h["excess_blob_gas"] = rules.next_excess(
            fork, 0 if pre else parent["excess_blob_gas"],
            0 if pre else parent["blob_gas_used"],
            0 if pre else parent["base_fee"])
        h["beacon_root"] = s.bytes(32)
        h["blob_gas_used"] = 0
    return h


def is_first(fork, number):
    return FORK_BLOCK.get(fork) == number


# ------------------------------------------------------------ model chain
class Chain:
    """Reference chain: (fork, header, hash, ommers) list and world."""

    def __init__(self, anc, world, chain_id=1):
        self.blocks = [(f, h, RB.header_hash(f, h), o) for f, h, o in anc]
        self.w = world
        self.chain_id = chain_id

    def hashes(self):
        r = self.blocks[-255:]
        return [b[1]["parent_hash"] for b in r] + [r[-1][2]]

    def check(self, fork, h, pow_ok):
        """Header rules, the parent being looked up as the protocol does."""
        if h["number"] < 1:
            raise RB.Reject("number")
        i = h["number"] - 1 - self.blocks[0][1]["number"]
        if fork >= PARIS:
            i = len(self.blocks) - 1
        if not 0 <= i < len(self.blocks):
            raise RB.Reject("no parent")
        pf, p, ph, _ = self.blocks[i]
        RB.check_header(fork, pf, p, h, FORK_BLOCK.get(fork), pow_ok, ph)

    def admit(self, fork, b, pow_ok):
        """Everything that needs no execution."""
        h = b["h"]
        if fork >= OSAKA and len(block_rlp(fork, b)) > RB.MAX_RLP_BLOCK:
            raise RB.Reject("block size")
        self.check(fork, h, pow_ok)
        if h["number"] != self.blocks[-1][1]["number"] + 1:
            raise RB.Reject("not on tip")
        if fork >= PARIS:
            if b["ommers"]:
                raise RB.Reject("ommers in proof of stake")
        else:
            RB.check_ommers(fork, b["ommers"], h, self.view(),
                            lambda o: self.check(fork, o, pow_ok))

    def view(self):
        return [(h, hh, []) if not o else (h, hh, o)
                for _, h, hh, o in self.blocks]

    def run(self, fork, b):
        ctx = RB.blk_ctx(fork, b["h"], self.chain_id, self.hashes())
        return RB.run_body(fork, self.w, ctx, b["txs"], b["wds"],
                           b["ommers"])

    def apply(self, fork, b, pow_ok):
        """Extend or raise Reject; world is only committed on success."""
        self.admit(fork, b, pow_ok)
        keep = self.w
        self.w = keep.copy()
        try:
            out = self.run(fork, b)
            for k, v in RB.commitments(fork, self.w, out).items():
                if b["h"][k] != v:
                    raise RB.Reject("commitment " + k)
        except BaseException:
            self.w = keep
            raise
        self.blocks.append((fork, b["h"], RB.header_hash(fork, b["h"]),
                            list(b["ommers"])))
        return out

    def accepts(self, fork, b):
        c = Chain.__new__(Chain)
        c.blocks, c.chain_id, c.w = list(self.blocks), self.chain_id, \
            self.w.copy()
        try:
            c.apply(fork, b, lambda f, h: True)
            return True
        except RB.Reject:
            return False


def block_rlp(fork, b):
    txs = [RB.tx_encode(t) if t["type"] else
           RB.tx_fields(t) + [t["v"], t["r"], t["s"]] for t in b["txs"]]
    f = [RB.header_fields(fork, b["h"]), txs,
         [RB.header_fields(fork, o) for o in b["ommers"]]]
    if fork >= SHANGHAI:
        f.append([[x["index"], x["validator"], x["address"], x["amount"]]
                  for x in b["wds"]])
    return rlp(f)


def gen_wds(s, n=None):
    if n is None:
        n = s.weighted([(4, 0), (3, 1), (2, 3), (1, 16)])
    return [dict(index=s.below(2**64), validator=s.below(2**20),
                 address=s.pick([FRESH[2], EOA[0], CON[0], COINBASE,
                                 num_addr(3), FRESH[3]]),
                 amount=s.weighted([(2, 1), (2, 32 * 10**9), (2, 0),
                                    (1, 2**64 - 1), (1, s.below(2**40))]))
            for _ in range(n)]


def gen_child(s, fork, ch, txs=None, ommers=(), ntx=None, dt=None, wds=None,
              targets=None, types=None):
    """A block valid on ``ch``; executed on a copy to fill commitments.
    Returns (block, chain extended by it)."""
    pf, parent, _, _ = ch.blocks[-1]
    h = child_header(s, fork, pf, parent,
                     is_first(fork, parent["number"] + 1), dt)
    h["ommers_hash"] = RB.ommers_hash(fork, list(ommers))
    b = dict(h=h, ommers=list(ommers), wds=[], txs=[])
    if fork >= SHANGHAI:
        b["wds"] = gen_wds(s) if wds is None else wds
    if txs is None:
        blk = dict(chain_id=ch.chain_id, base_fee=h["base_fee"]
                   if fork >= LONDON else None,
                   excess=h["excess_blob_gas"])
        nonces = {a: ch.w.nonce(a) for a in EOA}
        room = h["gas_limit"]
        tg = targets or [a for a in CON if ch.w.code(a)] * 3 + [
            EOA[1], FRESH[0]]
        tt = [t for t in (types or tx_types(fork))]
        if fork >= CANCUN and rules.blob_price(
                fork, h["excess_blob_gas"]) > 10**9:
            tt = [t for t in tt if t != 3]
        for _ in range(s.int(0, 3) if ntx is None else ntx):
            gas = s.pick([1_000_000, 300_000, 100_000])
            if room < gas:
                break
            room -= gas
            b["txs"].append(G.gen_tx(s, fork, blk, nonces, tg, types=tt,
                                     gas=gas))
    else:
        b["txs"] = txs
    ch2 = Chain.__new__(Chain)
    ch2.blocks, ch2.chain_id, ch2.w = list(ch.blocks), ch.chain_id, \
        ch.w.copy()
    while True:
        try:
            # ommers of impossible age get the block refused anyway
            out = ch2.run(fork, dict(b, ommers=[
                o for o in ommers if 0 <= h["number"] - o["number"] <= 8]))
            break
        except RB.Reject:
            ch2.w = ch.w.copy()
            if b["txs"]:
                b["txs"] = b["txs"][:-1]
            else:
                raise
    h.update(RB.commitments(fork, ch2.w, out))
    ch2.blocks.append((fork, h, RB.header_hash(fork, h), list(ommers)))
    return b, ch2


# ------------------------------------------------------------ mutations
def header_targets(fork):
    f = ["parent_hash", "ommers_hash", "difficulty", "number", "gas_limit",
         "gas_used", "timestamp", "extra_data", "nonce", "mix", "coinbase",
         "bloom", "state_root", "receipt_root", "transactions_root"]
    if fork >= LONDON:
        f.append("base_fee")
    if fork >= SHANGHAI:
        f.append("withdrawals_root")
    if fork >= CANCUN:
        f += ["blob_gas_used", "excess_blob_gas", "beacon_root"]
    if fork >= PRAGUE:
        f.append("requests_hash")
    return f


def flip(s, b):
    i = s.below(len(b))
    return b[:i] + bytes([b[i] ^ (1 << s.below(8))]) + b[i + 1:]


def mutate_field(s, fork, h, parent, k):
    """Change one header field (near its boundary where it has one)."""
    v = h[k]
    pl = parent["gas_limit"]
    if k == "gas_limit":
        d = pl // 1024
        h[k] = s.pick([pl + d, pl - d, pl + d - 1, pl - d + 1, pl + d + 1,
                       max(pl - d - 1, 0), 4999, 5000, 0, 2 * pl, pl // 2,
                       2 * pl + 2 * pl // 1024, 2 * pl - 2 * pl // 1024,
                       2 * pl + 2 * pl // 1024 - 1,
                       2 * pl - 2 * pl // 1024 + 1, 3 * pl, 2**64])
    elif k == "gas_used":
        h[k] = s.pick([h["gas_limit"], h["gas_limit"] + 1, v + 1,
                       max(v - 1, 0), 0, 2**64])
    elif k == "timestamp":
        h[k] = s.pick([parent["timestamp"], parent["timestamp"] + 1,
                       max(parent["timestamp"] - 1, 0), 0, v + 1,
                       v + 9, v + 10, 2**64, 2**256 - 1])
    elif k == "number":
        h[k] = s.pick([v + 1, v + 256, max(v - 1, 0), max(v - 2, 0), 0, v + 2])
        if fork == LONDON and is_first(fork, v) and h[k] < v:
            h[k] = v + 1    # a London header always has a London number
    elif k == "extra_data":
        h[k] = s.pick([b"\0" * 33, b"\0" * 32, DAO_EXTRA, b"dao-hard-forl",
                       b"", b"x" * 1024])
    elif k in ("difficulty", "base_fee", "excess_blob_gas",
               "blob_gas_used"):
        h[k] = s.pick([v + 1, max(v - 1, 0), 0, v * 2, 131072, v + 2048,
                       max(v - 2048, 0), 10**9])
        if k in ("excess_blob_gas", "blob_gas_used"):
            h[k] = min(h[k], 2**63)
    elif k == "nonce":
        h[k] = s.pick([b"\0" * 7 + b"\1", b"\1" + b"\0" * 7, flip(s, v)])
    elif k == "ommers_hash":
        h[k] = s.pick([keccak(b""), keccak(rlp([])), flip(s, v), NULL])
    elif k == "parent_hash":
        h[k] = s.pick([flip(s, v), parent["parent_hash"], NULL])
    else:
        h[k] = flip(s, v) if v else b"\1"


# ------------------------------------------------------------ DAO
DAO_RECOVERY = bytes.fromhex("bf4ed7b27f1d666546e30d74d50d173d20bca754")
with open(os.path.join(os.path.dirname(os.path.abspath(RB.__file__)),
                       "dao_accounts.txt")) as _f:
    DAO_ACCOUNTS = [bytes.fromhex(x) for x in _f.read().split()]


def dao_moves(w):
    for a in DAO_ACCOUNTS:
        v = w.balance(a)
        w.set_balance(a, 0)
        w.add_balance(DAO_RECOVERY, v)
    w.undo.clear()


# ------------------------------------------------------------ impl side
class PowStub:
    """Stands in for the proof-of-work check (decided by C26)."""

    def __init__(self, bad=()):
        self.bad = set(bad)           # model header hashes that fail
        self.seen = []


@contextlib.contextmanager
def pow_stub(F, bad=()):
    """While active, only headers whose hash is in ``bad`` fail."""
    if F.k >= PARIS:
        yield None
        return
    from ethereum.exceptions import InvalidBlock
    seen = []

    def check(header):
        hh = keccak(bytes(_rlp.encode(header)))
        seen.append(hh)
        if hh in bad:
            raise InvalidBlock("proof of work")
    old = F.fork.validate_proof_of_work
    F.fork.validate_proof_of_work = check
    try:
        yield seen
    finally:
        F.fork.validate_proof_of_work = old


def impl_chain(anc, st, chain_id, fork=None, mk=None):
    mk = mk or Fork
    blocks = []
    for f, h, o in anc:
        A = mk(f)
        blocks.append(A.block(h, ommers=o))
    return mk(anc[-1][0] if fork is None else fork).chain(
        blocks, st, chain_id)


def attempt(f, res, where=""):
    """Run f; returns (accepted?, error text or None).  Crash -> failure."""
    try:
        f()
        return True, None
    except REJECTS as e:
        return False, "%s: %s" % (type(e).__name__, e)
    except RecursionError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res.fail(where + "crash", "%s: %s at %s:%d" % (
            type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        return None, None


def run_history(c, res, state=None, mk=None, between=None):
    """Apply the blocks of a case to the implementation and the model.

    c: anc, pre, chain_id, blocks=[{fork,h,txs,ommers,wds,pow}]"""
    mk = mk or Fork
    world = world_of(c["pre"])
    ch = Chain(c["anc"], world, c["chain_id"])
    # with "cross", the chain starts under the fork of its last ancestor and
    # passes through apply_fork of every fork up to that of the next block
    cross = c.get("cross", False)
    fork0 = cur = c["anc"][-1][0] if cross else c["blocks"][0]["fork"]
    F = mk(fork0)
    st = F.make_state(world) if state is None else state
    chain = impl_chain(c["anc"], st, c["chain_id"], fork0, mk)
    accepted = 0
    for n, b in enumerate(c["blocks"]):
        if between:
            between(n, chain)
        fork = b["fork"]
        while cross and cur < fork:
            cur += 1
            chain = mk(cur).fork.apply_fork(chain)
            if cur == DAO:
                dao_moves(ch.w)
            res.tag("into:" + NAMES[cur])
        F = mk(fork)
        bad = set()
        if not b.get("pow", True):
            bad.add(RB.header_hash(fork, b["h"]))
        for i in b.get("bad_ommers", ()):
            bad.add(RB.header_hash(fork, b["ommers"][i]))
        pow_ok = lambda f, h: RB.header_hash(f, h) not in bad  # noqa: E731
        executed = False
        try:
            ch.admit(fork, b, pow_ok)
            executed = True
            ch.apply(fork, b, pow_ok)
            why = None
        except RB.Reject as e:
            why = str(e)
        before = list(chain.blocks)
        blk = F.block(b["h"], b["txs"], b["ommers"], b["wds"])
        with pow_stub(F, bad):
            ok, err = attempt(
                lambda: F.fork.state_transition(chain, blk), res)
        if ok is None:
            return
        if ok and why is not None:
            res.fail("accepted-invalid", "block %d accepted, but must be "
                     "rejected (%s)" % (n, why))
            return
        if not ok and why is None:
            res.fail("rejected-valid", "block %d rejected (%s), but is "
                     "valid" % (n, err))
            return
        if ok:
            accepted += 1
            want = (before + [blk])[-255:] if len(before) + 1 > 255 \
                else before + [blk]
            if len(chain.blocks) != len(want) or any(
                    x is not y for x, y in zip(chain.blocks, want)):
                res.fail("history", "chain.blocks is not the old history "
                         "plus the block (%d blocks, expected %d)" % (
                             len(chain.blocks), len(want)))
            if len(ch.blocks) > 255:
                ch.blocks = ch.blocks[-255:]
            for d in state_diff(F, chain.state, ch.w)[:4]:
                res.fail("state", "after block %d: %s" % (n, d))
            res.tag("accepted")
        else:
            if len(chain.blocks) != len(before) or any(
                    x is not y for x, y in zip(chain.blocks, before)):
                res.fail("history", "a rejected block changed chain.blocks")
            res.tag("rejected:" + why)
            if executed:
                break             # state is undefined after a failed body
    res.tag(NAMES[fork0])
    return accepted
