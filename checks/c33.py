"""C33: the sync tool rebuilds and applies the chain a provider serves."""
import contextlib, http.server, importlib, json, logging, os, pickle, random
import importlib.machinery, shutil, signal, socketserver, sys, tempfile
import threading, time, traceback
from lib.pbt import Suite, HarnessError
from lib import chain as LC, gen as G
from lib.chain import *
from lib.adapt import (Fork, preload, _rlp, Bytes, Bytes8, U64, U256, Uint)
from ethereum import fork_criteria as FC, genesis as GEN
from ethereum_spec_tools.forks import Hardfork
from ethereum_spec_tools import sync as T

logging.getLogger("ethereum_spec_tools.sync").setLevel(logging.CRITICAL)
logging.getLogger("ethereum_optimized").setLevel(logging.CRITICAL)

ASSUME = ("The provider is an HTTP JSON-RPC server on the loopback that "
          "answers correctly, in any order within a batch; blocks not yet "
          "there are null (standard endpoints) or, at the end, error -32000. "
          "Seals are stubbed (C26); the DAO fork is not crossed; every fork "
          "of the schedule gets at least one block and only the DAO and "
          "glacier forks are left out of one.  Ommers have the header "
          "format of the including fork.")


# ---------------------------------------------------------------- provider
def q(n):
    return hex(n)


def hx(b):
    return "0x" + bytes(b).hex()


def header_json(fork, h):
    j = dict(
        parentHash=hx(h["parent_hash"]), sha3Uncles=hx(h["ommers_hash"]),
        miner=hx(h["coinbase"]), stateRoot=hx(h["state_root"]),
        transactionsRoot=hx(h["transactions_root"]),
        receiptsRoot=hx(h["receipt_root"]), logsBloom=hx(h["bloom"]),
        difficulty=q(h["difficulty"]), number=q(h["number"]),
        gasLimit=q(h["gas_limit"]), gasUsed=q(h["gas_used"]),
        timestamp=q(h["timestamp"]), extraData=hx(h["extra_data"]),
        mixHash=hx(h["mix"]), nonce=hx(h["nonce"]),
        hash=hx(RB.header_hash(fork, h)), size="0x220")
    if fork >= LONDON:
        j["baseFeePerGas"] = q(h["base_fee"])
    if fork >= SHANGHAI:
        j["withdrawalsRoot"] = hx(h["withdrawals_root"])
    if fork >= CANCUN:
        j.update(blobGasUsed=q(h["blob_gas_used"]),
                 excessBlobGas=q(h["excess_blob_gas"]),
                 parentBeaconBlockRoot=hx(h["beacon_root"]))
    if fork >= PRAGUE:
        j["requestsHash"] = hx(h["requests_hash"])
    return j


def tx_json(tx, i, number):
    t = tx["type"]
    j = {"blockNumber": q(number), "transactionIndex": q(i),
         "hash": hx(keccak(RB.tx_encode(tx))), "type": q(t),
         "nonce": q(tx["nonce"]), "gas": q(tx["gas"]),
         "to": None if tx["to"] is None else hx(tx["to"]),
         "value": q(tx["value"]), "input": hx(tx["data"]),
         "v": q(tx["v"]), "r": q(tx["r"]), "s": q(tx["s"])}
    if t < 2:
        j["gasPrice"] = q(tx["gas_price"])
    else:
        j.update(gasPrice=q(tx["prio"]), maxFeePerGas=q(tx["max_fee"]),
                 maxPriorityFeePerGas=q(tx["prio"]))
    if t:
        j.update(chainId=q(tx["chain_id"]), yParity=q(tx["v"]), accessList=[
            dict(address=hx(a), storageKeys=["0x%064x" % k for k in ks])
            for a, ks in tx["access"]])
    if t == 3:
        j.update(maxFeePerBlobGas=q(tx["blob_fee"]),
                 blobVersionedHashes=[hx(b) for b in tx["blobs"]])
    if t == 4:
        j["authorizationList"] = [
            dict(chainId=q(a["chain_id"]), address=hx(a["address"]),
                 nonce=q(a["nonce"]), yParity=q(a["y"]), r=q(a["r"]),
                 s=q(a["s"])) for a in tx["auths"]]
    return j


def block_json(b):
    fork, h = b["fork"], b["h"]
    j = header_json(fork, h)
    j["transactions"] = [tx_json(t, i, h["number"])
                         for i, t in enumerate(b["txs"])]
    j["uncles"] = [hx(RB.header_hash(fork, o)) for o in b["ommers"]]
    if fork < PARIS:
        j["totalDifficulty"] = q(h["difficulty"] + 2**70)
    if fork >= SHANGHAI:
        j["withdrawals"] = [
            dict(index=q(x["index"]), validatorIndex=q(x["validator"]),
                 address=hx(x["address"]), amount=q(x["amount"]))
            for x in b["wds"]]
    return j


class Provider:
    """What one case serves: blocks by number, reply order, growing head."""

    def __init__(self, blocks, order=0, heads=()):
        self.blocks = {b["h"]["number"]: b for b in blocks}
        self.top = max(self.blocks)
        self.rng = random.Random(order)
        self.order, self.heads = order, list(heads)
        self.batches, self.strange = 0, []

    def batch(self, calls):
        self.batches += 1
        head = self.heads.pop(0) if self.heads else None
        if not isinstance(calls, list):
            self.strange.append("not a batch: %r" % (calls,))
            return {}
        ids = [c.get("id") for c in calls]
        if len(set(ids)) != len(ids):
            self.strange.append("ids repeat in a batch")
        out = [self.one(c, head) for c in calls]
        if self.order == 1:
            out.reverse()
        elif self.order:
            self.rng.shuffle(out)
        return out

    def one(self, c, head):
        r = {"jsonrpc": "2.0", "id": c["id"]}
        m, p = c["method"], c["params"]
        n = int(p[0], 16)
        b = self.blocks.get(n)
        if m == "eth_getUncleByBlockNumberAndIndex":
            i = int(p[1], 16)
            r["result"] = None if b is None or i >= len(b["ommers"]) else \
                header_json(b["fork"], b["ommers"][i])
        elif m not in ("debug_getRawBlock", "eth_getBlockByNumber"):
            r["error"] = {"code": -32601, "message": "no method " + m}
        elif head is not None and n > head:
            r["result"] = None
        elif b is None:
            if n <= self.top:
                self.strange.append("asked for block %d" % n)
            r["error"] = {"code": -32000, "message": "header not found"}
        elif m == "debug_getRawBlock":
            r["result"] = hx(block_rlp(b["fork"], b))
        else:
            j = block_json(b)
            if p[1:] != [True]:
                j["transactions"] = [t["hash"] for t in j["transactions"]]
            r["result"] = j
        return r


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.0"

    def do_POST(self):
        body = self.rfile.read(int(self.headers["Content-Length"]))
        try:
            out = json.dumps(CUR[0].batch(json.loads(body))).encode()
            self.send_response(200)
        except Exception as e:
            CUR[0].strange.append("request %r: %r" % (body[:200], e))
            out = b"{}"
            self.send_response(400)
        self.send_header("Content-Type", "application/json")
        self.send_header("Content-Length", str(len(out)))
        self.end_headers()
        self.wfile.write(out)

    def log_message(self, *a):
        pass


class Server(socketserver.ThreadingMixIn, http.server.HTTPServer):
    daemon_threads = True
    request_queue_size = 16

    def server_bind(self):
        socketserver.TCPServer.server_bind(self)
        self.server_name, self.server_port = self.server_address[:2]

    def handle_error(self, request, client_address):
        pass


CUR = [None]
_URL = {}


def url():
    """One server per process."""
    me = os.getpid()
    if me not in _URL:
        srv = Server(("127.0.0.1", 0), Handler)
        threading.Thread(target=srv.serve_forever, daemon=True,
                         kwargs=dict(poll_interval=60)).start()
        _URL.clear()
        _URL[me] = "http://127.0.0.1:%d/" % srv.server_address[1]
    return _URL[me]


# ---------------------------------------------------------------- schedule
def crit(x):
    k, v = x
    return (FC.ByBlockNumber(Uint(v)) if k == 0 else
            FC.ByTimestamp(U256(v)) if k == 1 else FC.Unscheduled())


def hardfork(fork, x):
    m = importlib.import_module("ethereum." + NAMES[fork])

    class M:                    # the package with another schedule
        __name__ = m.__name__
        __path__ = m.__path__
        FORK_CRITERIA = crit(x)
    return Hardfork(M())


def walk(sched, number, ts, at=0):
    """Forks activate in order; none can be skipped over."""
    while at + 1 < len(sched):
        k, v = sched[at + 1][1:]
        if (k == 0 and number >= v) or (k == 1 and ts >= v):
            at += 1
        else:
            break
    return at


# ---------------------------------------------------------------- download
WORDS = [0, 1, 127, 128, 255, 256, 2**63, 2**64 - 1, 2**64, 2**255,
         2**256 - 1]


def word(s, bits=256):
    return s.weighted([(3, s.below(1000)), (3, s.below(2**bits)),
                       (2, s.pick(WORDS) % 2**bits)])


def rand_access(s):
    return [[s.bytes(20), [s.below(2**256) if s.bool() else s.below(3)
                           for _ in range(s.below(3))]]
            for _ in range(s.weighted([(3, 0), (2, 1), (1, 3)]))]


def rand_tx(s, fork):
    t = s.pick(tx_types(fork))
    tx = dict(type=t, nonce=word(s, 64 if t == 4 else 256),
              gas=word(s), value=word(s),
              data=s.pick([b"", b"\0", b"\0" * 3 + b"\1", s.blob(60)]),
              to=None if t < 3 and s.chance(25) else
              s.pick([b"\0" * 20, s.bytes(20), b"\0" * 19 + b"\1"]),
              v=word(s) if t == 0 else s.pick([0, 1, word(s)]),
              r=word(s), s=word(s))
    if t < 2:
        tx["gas_price"] = word(s)
    else:
        tx.update(prio=word(s), max_fee=word(s))
    if t:
        tx.update(chain_id=word(s, 64), access=rand_access(s))
    if t == 3:
        tx.update(blob_fee=word(s), blobs=[s.bytes(32) for _ in
                                           range(s.below(4))])
    if t == 4:
        tx["auths"] = [dict(chain_id=word(s), address=s.bytes(20),
                            nonce=word(s, 64), y=s.below(256), r=word(s),
                            s=word(s)) for _ in range(s.below(3))]
    return tx


def rand_header(s, fork, number, ts, small):
    h = blank_header(fork, number=number, timestamp=ts)
    if small:
        return h
    for k in ("parent_hash", "ommers_hash", "state_root", "mix",
              "transactions_root", "receipt_root", "withdrawals_root",
              "beacon_root", "requests_hash"):
        h[k] = s.weighted([(4, s.bytes(32)), (1, NULL),
                           (1, b"\0" * 31 + b"\1")])
    h["coinbase"] = s.pick([s.bytes(20), b"\0" * 20, b"\0" * 19 + b"\7"])
    h["nonce"] = s.pick([s.bytes(8), b"\0" * 8, b"\0" * 7 + b"\x42"])
    h["bloom"] = s.pick([b"\0" * 256, s.bytes(256), b"\0" * 255 + b"\1"])
    h["extra_data"] = s.pick([b"", b"\0", b"\0" * 32, s.blob(32)])
    for k in ("difficulty", "gas_limit", "gas_used", "base_fee"):
        h[k] = word(s)
    for k in ("blob_gas_used", "excess_blob_gas"):
        h[k] = word(s, 64)
    return h


def make_sched(s, start, ts):
    fs = sorted(s.sample([k for k in range(len(NAMES))], s.int(1, 5)))
    out = [[fs[0], 0, 0]]
    n, t, timed = start, ts, False
    for f in fs[1:]:
        timed = timed or s.chance(25)
        if timed:
            t += s.pick([0, 1, 7, 13, 20, 40])
            out.append([f, 1, t])
        else:
            n += s.pick([0, 0, 1, 1, 2, 3, 5])
            out.append([f, 0, n])
    return out


def make_dl(s):
    start = s.weighted([(4, 0), (1, 1), (2, s.below(400)),
                        (1, s.below(2**33))])
    n = s.weighted([(30, s.int(1, 8)), (6, s.int(9, 40)), (1, 256),
                    (1, 257), (1, s.int(250, 620))])
    ts = s.weighted([(3, s.below(1000)), (1, 1_700_000_000),
                     (1, 2**40)])
    sched = make_sched(s, start, ts)
    blocks, at, t = [], 0, ts
    for i in range(n):
        num = start + 1 + i
        t += s.pick([1, 2, 7, 13, 30])
        at = walk(sched, num, t, at)
        fork = sched[at][0]
        small = n > 40 or s.chance(15)
        b = dict(fork=fork, h=rand_header(s, fork, num, t, small),
                 ommers=[], txs=[], wds=[])
        if not small or s.chance(3):
            b["txs"] = [rand_tx(s, fork) for _ in range(
                s.weighted([(2, 0), (3, 1), (2, 3)]))]
            if fork >= SHANGHAI:
                b["wds"] = [dict(index=word(s, 64), validator=word(s, 64),
                                 address=s.bytes(20), amount=word(s))
                            for _ in range(s.pick([0, 1, 2, 16]))]
        if s.chance(2 if small else 30):
            b["ommers"] = [rand_header(s, fork, num - 1, max(0, t - s.below(
                30)), False) for _ in range(s.int(1, 2))]
        blocks.append(b)
    geth = s.bool()
    heads = []
    if not geth and s.chance(30):
        h = start
        for _ in range(s.int(1, 4)):
            h = min(start + n, h + s.below(1 + max(3, n // 2)))
            heads += [h, h]
    # resuming: the first block asked for lies up to 255 before the last
    # one processed
    ahead = s.weighted([(2, 0), (1, min(n, 255)),
                        (1, s.below(min(n, 255) + 1))])
    return dict(start=start, ts=ts, sched=sched, blocks=blocks, geth=geth,
                order=s.weighted([(3, 0), (1, 1), (2, 2 + s.below(1000))]),
                heads=heads, ahead=ahead)


@contextlib.contextmanager
def thread_errors():
    got, keep = [], threading.excepthook
    threading.excepthook = lambda a: got.append(a)
    try:
        yield got
    finally:
        threading.excepthook = keep


REAL_SLEEP = time.sleep


def run_dl(c, res):
    blocks, sched = c["blocks"], [tuple(x) for x in c["sched"]]
    # uncle requests are batches of their own; give each its own head entry
    CUR[0] = p = Provider(blocks, c["order"], c["heads"])
    at = url()
    forks = [hardfork(f, (k, v)) for f, k, v in sched]
    last_ts = ([c["ts"]] + [b["h"]["timestamp"] for b in blocks])[c["ahead"]]
    before = set(threading.enumerate())
    time.sleep = lambda x: None if x >= 5 else REAL_SLEEP(x)
    try:
        with thread_errors() as errs:
            dl = T.BlockDownloader(
                forks, logging.getLogger("ethereum_spec_tools.sync"), at,
                c["geth"], Uint(c["start"]), U256(last_ts))
            mine = [t for t in threading.enumerate() if t not in before
                    and t.name == "download"]
            got, end = [], time.time() + 300
            while True:
                if not dl.queue.empty():
                    b = dl.take_block()
                    if b is None:
                        break
                    got.append(b)
                    if len(got) > len(blocks):
                        break
                elif errs or not any(t.is_alive() for t in mine):
                    if dl.queue.empty():
                        break
                elif time.time() > end:
                    res.fail("stalled", "no block, no end and no error")
                    break
                else:
                    REAL_SLEEP(0.0005)
            while mine and mine[0].is_alive() and not errs:
                # let it finish: nothing may be left running
                with contextlib.suppress(Exception):
                    dl.queue.get_nowait()
                REAL_SLEEP(0.0005)
                if time.time() > end:
                    break
    finally:
        time.sleep = REAL_SLEEP
    if errs:
        e = errs[0]
        res.fail("failed", "the download of valid blocks stopped after %d: "
                 "%s: %s" % (len(got), e.exc_type.__name__, e.exc_value))
        return
    for x in p.strange[:2]:
        res.fail("request", x)
    for i, (g, b) in enumerate(zip(got, blocks)):
        want = importlib.import_module(
            "ethereum.%s.blocks" % NAMES[b["fork"]]).Block
        if type(g) is not want:
            res.fail("fork", "block %d decoded as %s.%s, scheduled %s" % (
                b["h"]["number"], type(g).__module__, type(g).__name__,
                NAMES[b["fork"]]))
            return
        if bytes(_rlp.encode(g)) != block_rlp(b["fork"], b):
            res.fail("block", "block %d differs: %s" % (
                b["h"]["number"], first_diff(g, b)))
            return
    res.eq("count", len(got), len(blocks))
    res.nontrivial = any(b["txs"] or b["ommers"] for b in blocks)
    res.tag("geth" if c["geth"] else "eth",
            "batches>1" if len(blocks) > 256 else "batches:1",
            "order:%d" % min(2, c["order"]))
    res.tag(*sorted({"fork:" + NAMES[b["fork"]] for b in blocks}))
    res.tag(*sorted({"tx:%d" % t["type"] for b in blocks
                     for t in b["txs"]}))
    if c["heads"]:
        res.tag("growing-head")
    if len({b["fork"] for b in blocks}) > 1:
        res.tag("crosses-fork")
        if any(b["ommers"] for b in blocks):
            res.tag("ommers-and-fork")


def first_diff(g, b):
    w = Fork(b["fork"]).block(b["h"], b["txs"], b["ommers"], b["wds"])
    for o, x, y in [("header.", g.header, w.header), ("", g, w)]:
        for f in y.__dataclass_fields__:
            if f != "header" and getattr(x, f, None) != getattr(y, f):
                return "%s%s is %.200r, expected %.200r" % (
                    o, f, getattr(x, f, None), getattr(y, f))
    return "encoding"


# ---------------------------------------------------------------- sync
MIXS = dict(store=6, expr=3, env=5, acct=3, call=3, create=2, sd=2, log=2,
            copy=1, ret=1, revert=1, stop=1)
# number where BLOCKHASH goes: one of the last 256 blocks, into storage
HASHER = bytes.fromhex("60003543034043554300")


@contextlib.contextmanager
def london_at(n):
    keep = dict(LC.FORK_BLOCK)
    if n is not None:
        LC.FORK_BLOCK[LONDON] = n
    try:
        yield
    finally:
        LC.FORK_BLOCK.clear()
        LC.FORK_BLOCK.update(keep)


def make_sync(s):
    usable = [k for k in range(len(NAMES)) if k != DAO]
    opt = s.chance(70)
    f = s.pick(usable)
    nb = s.weighted([(12, s.int(1, 9)), (1, s.int(257, 270) if opt else 3)])
    long = nb > 20
    forks = []
    for i in range(nb):
        if i and f < OSAKA and s.chance(2 if long else 35):
            new = f + 1 + s.chance(20)
            # only these are ever left out of a schedule
            while NAMES[new - 1] not in ("dao_fork", "muir_glacier",
                                         "arrow_glacier", "gray_glacier") \
                    and new > f + 1:
                new -= 1
            new += new == DAO
            f = new
        forks.append(f)
    f0 = forks[0]
    first = next((i for i, x in enumerate(forks) if x == LONDON), None)
    london = first + 1 if f0 < LONDON and first is not None else None
    ts = s.pick([0, 1000, 1_600_000_000])
    chain_id = s.pick([1, 5, 2**40])
    pre = {EOA[i]: dict(nonce=0, balance=10**21) for i in range(3)}
    pre[CON[0]] = dict(nonce=1, balance=0, code=HASHER)
    for a in CON[1:3]:
        pre[a] = dict(nonce=1, balance=s.pick([0, 7]), code=Prog(
            s, f0, MIXS, [CON[0], CON[1], EOA[1], FRESH[0]], 3).code(),
            storage={1: 1})
    if forks[-1] >= PRAGUE:
        for a in (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ):
            pre[a] = dict(nonce=1, code=b"\x00")
    w = world_of(pre)
    g = dict(difficulty=0 if f0 >= PARIS else s.pick([2**20, 131072]),
             gas_limit=30_000_000, extra=s.blob(32), nonce=s.bytes(8),
             timestamp=ts, chain_id=chain_id)
    gen = blank_header(
        f0, number=0, difficulty=g["difficulty"], gas_limit=g["gas_limit"],
        extra_data=g["extra"], nonce=g["nonce"], timestamp=ts,
        coinbase=b"\0" * 20, base_fee=10**9, state_root=w.root(), mix=NULL)
    ch = Chain([[f0, gen, []]], w, chain_id)
    persist = opt and s.chance(80)
    blocks = []
    with london_at(london):
        for i, fork in enumerate(forks):
            oms = []
            if fork < PARIS and i and s.chance(20):
                # a sibling of a recent block of the same fork
                k = s.int(max(0, i - 6), i - 1)
                if forks[k] == fork and (k or not persist) and not (
                        london and k + 1 == london):
                    oms = [LC.child_header(s, fork, fork,
                                           ch.blocks[k][1])]
                    oms[0]["state_root"] = s.bytes(32)
                    if ch.blocks[k][0] != fork:
                        oms = []
            empty = long and not s.chance(5)
            b, ch2 = gen_child(
                s, fork, ch, ntx=0 if empty else s.below(3), ommers=oms,
                dt=13 if long else None, wds=[] if empty else None,
                targets=[CON[0], CON[0], CON[1], CON[2], FRESH[0]])
            b["fork"] = fork
            if oms and not ch.accepts(fork, b):
                b, ch2 = gen_child(s, fork, ch, ntx=0, wds=[])
                b["fork"] = fork
            blocks.append(b)
            ch = ch2
    # the schedule those forks follow
    sched, prev_n, prev_t = [[f0, 0, 0]], 0, ts
    timed = f0 > PARIS
    for b in blocks:
        n, t = b["h"]["number"], b["h"]["timestamp"]
        if b["fork"] != sched[-1][0]:
            timed = b["fork"] > PARIS
            sched.append([b["fork"], 1, prev_t + 1 + s.below(t - prev_t)]
                         if timed else [b["fork"], 0, n])
        prev_n, prev_t = n, t
    bad = None
    if s.chance(12):
        bad = s.below(nb)
    runs = []
    if persist:
        for _ in range(s.weighted([(2, 0), (5, 1), (3, 2)])):
            stop = s.int(1, nb)
            runs.append([s.weighted([(2, "stop"), (2, "crash")]), stop])
    return dict(opt=opt, g=g, pre=pre, blocks=blocks, sched=sched,
                london=london, geth=s.bool(), persist=persist, bad=bad,
                order=s.weighted([(3, 0), (1, 1), (2, 2 + s.below(1000))]),
                gas=s.pick([10**9, 0, 29_999, 30_000, 59_999, 60_000,
                            150_000]), runs=runs,
                copy=persist and s.chance(25) and s.int(1, 3), reset=persist and s.chance(5))


# the hashes of the oldest blocks in reach, and just beyond, into storage
WINDOW = b"".join(bytes.fromhex("61%04x430340" "61%04x430155" % (d, d))
                  for d in (256, 255, 257, 254)) + b"\0"


def make_window(s):
    """Resumed above block 255; the blocks after that use BLOCKHASH as far
    back as it reaches."""
    f0 = s.pick([k for k in range(len(NAMES)) if k != DAO])
    stop = s.int(255, 262)
    pre = {EOA[i]: dict(nonce=0, balance=10**21) for i in range(3)}
    pre[CON[0]] = dict(nonce=1, balance=0, code=WINDOW)
    if f0 >= PRAGUE:
        for a in (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ):
            pre[a] = dict(nonce=1, code=b"\x00")
    w = world_of(pre)
    g = dict(difficulty=0 if f0 >= PARIS else 131072, gas_limit=30_000_000,
             extra=b"", nonce=b"\0" * 8, timestamp=0, chain_id=1)
    gen = blank_header(f0, number=0, timestamp=0, coinbase=b"\0" * 20,
                       difficulty=g["difficulty"], base_fee=10**9,
                       state_root=w.root(), mix=NULL)
    ch = Chain([[f0, gen, []]], w, 1)
    blocks = []
    with london_at(None):
        for i in range(stop + s.int(1, 3)):
            b, ch = gen_child(s, f0, ch, ntx=int(i >= stop), dt=13, wds=[],
                              targets=[CON[0]], types=[0])
            b["fork"] = f0
            blocks.append(b)
    return dict(opt=True, g=g, pre=pre, blocks=blocks, sched=[[f0, 0, 0]],
                london=None, geth=s.bool(), persist=True, bad=None, order=0,
                gas=s.pick([10**9, 0]), runs=[[s.pick(["stop", "crash"]),
                                               stop]],
                copy=False, reset=False)


def make_genom(s):
    """Resumed within six blocks of genesis, then a child of genesis comes
    in as an ommer."""
    f0 = s.pick([k for k in range(PARIS) if k != DAO])
    pre = {EOA[0]: dict(nonce=0, balance=10**21)}
    w = world_of(pre)
    g = dict(difficulty=2**20, gas_limit=30_000_000, extra=b"",
             nonce=b"\0" * 8, timestamp=0, chain_id=1)
    gen = blank_header(f0, number=0, timestamp=0, coinbase=b"\0" * 20,
                       base_fee=10**9, state_root=w.root(), mix=NULL)
    ch = Chain([[f0, gen, []]], w, 1)
    blocks = []
    stop = s.int(1, 5)
    with london_at(None):
        for i in range(stop + 1):
            oms = []
            if i == stop:
                o = LC.child_header(s, f0, f0, gen)
                o["state_root"] = s.bytes(32)
                oms = [o]
            b, ch = gen_child(s, f0, ch, ntx=0, ommers=oms)
            b["fork"] = f0
            blocks.append(b)
    return dict(opt=True, g=g, pre=pre, blocks=blocks, sched=[[f0, 0, 0]],
                london=None, geth=s.bool(), persist=True, bad=None, order=0,
                gas=10**9, runs=[["stop", stop]], copy=False, reset=False,
                genom=True)


def run_genom(c, res):
    run_sync(dict(c, runs=[]), res)
    if res.bad:
        return
    r2 = type(res)()
    run_sync(c, r2)
    for sig, msg in r2.bad:
        if sig == "outcome" and "run last" in msg and "InvalidBlock" in msg:
            res.fail("resumed-without-genesis", "a resumed sync refuses a "
                     "block with an ommer that is a child of genesis")
        else:
            res.fail(sig, msg)
    res.nontrivial = True


def damaged(c):
    """The blocks served when one of them must be refused."""
    if c["bad"] is None:
        return c["blocks"]
    out = list(c["blocks"])
    b = dict(out[c["bad"]])
    b["h"] = dict(b["h"], state_root=keccak(b["h"]["state_root"]))
    out[c["bad"]] = b
    return out


def child(c, argv, stop, crash, at, fd):
    """One run of the tool in its own process; the answer goes to fd."""
    def answer(**kw):
        with os.fdopen(fd, "wb") as f:
            pickle.dump(kw, f)
        os._exit(0)

    threading.excepthook = lambda a: answer(
        status="download", error="%s: %s" % (a.exc_type.__name__,
                                             a.exc_value))
    sys.argv = ["ethereum-spec-sync", "--rpc-url", at] + argv
    if c["opt"]:
        for m in list(sys.modules):
            p = m.split(".")
            if len(p) > 1 and p[0] == "ethereum" and p[1] in IDX:
                del sys.modules[m]
    forks = [hardfork(f, (k, v)) for f, k, v in c["sched"]]
    # the schedule and the genesis stand in for mainnet's
    Hardfork.discover = classmethod(lambda cls, base=None: list(forks))
    alloc = {}
    for a, d in c["pre"].items():
        alloc[hx(a)] = dict(
            balance=q(d.get("balance", 0)), nonce=str(d.get("nonce", 0)),
            code=hx(d.get("code", b"")),
            storage={"0x%064x" % k: "0x%064x" % v
                     for k, v in d.get("storage", {}).items()})
    g = c["g"]
    conf = GEN.GenesisConfiguration(
        chain_id=U64(g["chain_id"]), difficulty=Uint(g["difficulty"]),
        extra_data=Bytes(g["extra"]), gas_limit=Uint(g["gas_limit"]),
        nonce=Bytes8(g["nonce"]), timestamp=U256(g["timestamp"]),
        initial_accounts=alloc)
    GEN.get_genesis_configuration = lambda name: conf
    status, err = "ok", None
    sync = T.Sync()
    for f, k, v in c["sched"]:
        if f < PARIS:
            importlib.import_module("ethereum.%s.fork" % NAMES[f]) \
                .validate_proof_of_work = lambda header: None
    if c["london"] is not None:
        importlib.import_module("ethereum.london.fork").FORK_CRITERIA = \
            FC.ByBlockNumber(Uint(c["london"]))
    start = int(sync.block_number)
    tip0 = sync.chain.blocks[-1].header.number if sync.chain.blocks else None
    if crash:
        real = sync.process_block

        def process_block(block):
            if int(block.header.number) > stop:
                answer(status="crash", start=start)
            real(block)
        sync.process_block = process_block
    try:
        sync.process_blocks()
    except Exception as e:
        status, err = "error", "%s: %s" % (type(e).__name__, e)
    k = sync.active_fork.short_name
    S = importlib.import_module("ethereum.%s.state" % k)
    answer(status=status, error=err, start=start, tip0=tip0,
           number=int(sync.block_number), fork=k,
           chain_id=int(sync.chain.chain_id),
           root=None if status == "error" else
           bytes(S.state_root(sync.chain.state)),
           blocks=[bytes(_rlp.encode(b)) for b in sync.chain.blocks])


def spawn(c, argv, stop=None, crash=False):
    at = url()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 0)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            child(c, argv, stop, crash, at, w)
        except SystemExit as e:
            os._exit(3)
        except BaseException as e:
            try:
                with os.fdopen(w, "wb") as f:
                    tb = traceback.extract_tb(e.__traceback__)[-1]
                    pickle.dump(dict(
                        status="crashed", error="%s: %s at %s:%d" % (
                            type(e).__name__, e,
                            os.path.basename(tb.filename), tb.lineno)), f)
            finally:
                os._exit(4)
    os.close(w)
    data = b""
    end = time.time() + 300
    import select
    with os.fdopen(r, "rb", 0) as f:
        while True:
            if not select.select([f], [], [], 1.0)[0]:
                if time.time() > end:
                    os.kill(pid, signal.SIGKILL)
                    break
                continue
            x = f.read(1 << 16)
            if not x:
                break
            data += x
    os.waitpid(pid, 0)
    if not data:
        return dict(status="stalled", error="no answer")
    return pickle.loads(data)


def commits(c, start, stop):
    """Last block of [start+1, stop] after which the tool commits."""
    gas, last = 0, start
    for b in c["blocks"][start:stop]:
        gas += 30000 + b["h"]["gas_used"]
        if gas > c["gas"]:
            last, gas = b["h"]["number"], 0
    return last


def run_sync(c, res):
    CUR[0] = p = Provider(damaged(c), c["order"])
    blocks = c["blocks"]
    nb = len(blocks)
    good = nb if c["bad"] is None else c["bad"]
    tmp = tempfile.mkdtemp(prefix="pbt-sync-")
    try:
        base = ["--gas-per-commit", str(c["gas"])]
        if c["geth"]:
            base.append("--geth")
        if not c["opt"]:
            base.append("--unoptimized")
        db = os.path.join(tmp, "db")
        if c["persist"]:
            os.mkdir(db)
            base += ["--persist", db]
        at = 0                       # the block the database stands at
        for how, stop in c["runs"]:
            argv = list(base)
            if how == "stop":
                argv += ["--stop-at", str(stop)]
            r = spawn(c, argv, stop, how == "crash")
            end = max(stop, at) if how == "crash" else \
                stop if stop > at else nb
            if how == "crash" and end < nb and end <= good:
                want = "crash"
            elif end > good:
                want, end = "error", good
            else:
                want = "ok"
            to = end if want == "ok" and how == "stop" and end == stop \
                and stop > at else commits(c, at, end)
            if not check_run(c, res, r, want, at, how):
                return
            at = to
            res.tag("run:" + how)
        if c["copy"] and c["runs"]:
            db2 = os.path.join(tmp, "db2")
            base[base.index(db)] = db2
            base += ["--initial-state", db]
            if c["copy"] > 1:
                os.mkdir(db2)
            res.tag("initial-state")
            if c["copy"] > 2 and at + 1 <= good:
                # the second run finds the first one's copy, and keeps it
                r = spawn(c, base + ["--stop-at", str(at + 1)], at + 1)
                if not check_run(c, res, r, "ok", at, "copy"):
                    return
                at += 1
                res.tag("copied-once")
        elif c["reset"]:
            base.append("--reset")
            at = 0
            res.tag("reset")
        r = spawn(c, base)
        if not check_run(c, res, r, "ok" if good == nb else "error", at,
                         "last"):
            return
        for x in p.strange[:2]:
            res.fail("request", x)
        if r["status"] == "ok":
            check_end(c, res, r, nb)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    res.nontrivial = nb > 1
    res.tag("optimised" if c["opt"] else "plain",
            "geth" if c["geth"] else "eth")
    if at:
        res.tag("resumed")
    if len({b["fork"] for b in blocks}) > 1:
        res.tag("crosses-fork")
    if nb > 256:
        res.tag("long")
    if c["bad"] is not None:
        res.tag("invalid-block")
    if any(b["ommers"] for b in blocks):
        res.tag("ommers")


def check_run(c, res, r, want, at, how):
    if r["status"] != want:
        res.fail("outcome", "run %s from block %d ended with %s (%s), "
                 "expected %s" % (how, at, r["status"], r.get("error"),
                                  want))
        return False
    if not res.eq("start", r["start"], at, "(run %s)" % how):
        return False
    if want == "error":
        good = c["bad"]
        tip = [keccak(x) for x in r["blocks"][-1:]]
        if good > 0 and tip != [keccak(block_rlp(
                c["blocks"][good - 1]["fork"], c["blocks"][good - 1]))]:
            res.fail("kept-invalid", "the history does not end at the last "
                     "valid block")
            return False
    return True


def check_end(c, res, r, nb):
    b = c["blocks"][-1]
    res.eq("number", r["number"], nb)
    res.eq("fork", r["fork"], NAMES[b["fork"]])
    res.eq("chain_id", r["chain_id"], c["g"]["chain_id"])
    res.eq("root", r["root"], b["h"]["state_root"])
    want = [block_rlp(x["fork"], x) for x in c["blocks"][-255:]]
    got = r["blocks"][-len(want):]
    if got != want:
        res.fail("history", "%d blocks, not those served" % len(got))


_real_get_code = importlib.machinery.SourceFileLoader.get_code
_code = {}


def _get_code(self, fullname):
    """Compile each module once; child processes import them afresh."""
    k = (fullname, self.path)
    if k not in _code:
        _code[k] = _real_get_code(self, fullname)
    return _code[k]


importlib.machinery.SourceFileLoader.get_code = _get_code
for _m in [m for m in sys.modules if m.split(".")[0] == "ethereum"
           and m.split(".")[1:2] and m.split(".")[1] in IDX]:
    del sys.modules[_m]
Fork._cache.clear()
preload()
# share of the larger suites' cases that the quick tier runs
QUICK_SCALE = 0.9
SUITES = [
    Suite("download", make_dl, run_dl, 2500, None,
          "chains of 1-620 blocks of random content under random schedules, "
          "downloaded through both interfaces with shuffled replies and a "
          "growing head; non-trivial: some transaction or ommer"),
    Suite("sync", make_sync, run_sync, 400, None,
          "valid chains of 1-270 blocks over 1-9 forks processed by the "
          "whole tool, plain and optimised, with 0-2 earlier runs stopped "
          "or killed and resumed from the database, invalid blocks, copied "
          "and reset databases; non-trivial: two or more blocks"),
    Suite("window", make_window, run_sync, 32, None,
          "chains of 256-265 blocks resumed above block 255, whose last "
          "blocks use BLOCKHASH at the edge of its reach"),
    Suite("near-genesis", make_genom, run_genom, 40, None,
          "proof-of-work chains processed at once and resumed within six "
          "blocks of genesis, then met by an ommer that is genesis' child"),
]
