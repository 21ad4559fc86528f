"""t8n, statetest, b11r, the daemon and the loaders against the reference."""
import copy, glob, http.client, io, json, logging, os, shutil, socket
import sys, tempfile, threading, time
from contextlib import redirect_stderr
import coincurve
from lib.suites import *
from lib.chain import DAO_ACCOUNTS, dao_moves
from refspec import evm as E
from refspec.prim import keccak, rlp, unrlp
from ethereum_spec_tools import evm_tools as ET
from ethereum_spec_tools.evm_tools.t8n import T8N
from ethereum_spec_tools.evm_tools.b11r import B11R
from ethereum_spec_tools.evm_tools.statetest import StateTest
from ethereum_spec_tools.evm_tools.loaders.fixture_loader import Load
from ethereum_spec_tools.evm_tools.loaders.transaction_loader import (
    TransactionLoad)
from lib.adapt import _rlp

ASSUME = ("Well-formed JSON inputs as the callers of the tools produce them: "
          "blockHashes holds every hash BLOCKHASH may reach, fork-specific "
          "env fields are present, ommer deltas are 1..6, rewards are -1 or "
          "at least 8 wei, keys and signatures are those of the reference. "
          "Results after a blockException are not compared.")
logging.disable(logging.CRITICAL)

PARSER = ET.create_parser()
TITLE = {DAO: "DaoFork", TANGERINE: "TangerineWhistle",
         SPURIOUS: "SpuriousDragon", MUIR: "MuirGlacier",
         ARROW: "ArrowGlacier", GRAY: "GrayGlacier"}
ALIAS = {TANGERINE: ["EIP150"], SPURIOUS: ["EIP158"], PARIS: ["Merge"],
         CONSTANTINOPLE: ["ConstantinopleFix"]}
AT5 = [("FrontierToHomesteadAt5", FRONTIER, HOMESTEAD),
       ("HomesteadToDaoAt5", HOMESTEAD, DAO),
       ("HomesteadToEIP150At5", HOMESTEAD, TANGERINE),
       ("EIP158ToByzantiumAt5", SPURIOUS, BYZANTIUM),
       ("ByzantiumToConstantinopleAt5", BYZANTIUM, CONSTANTINOPLE),
       ("ConstantinopleToIstanbulAt5", CONSTANTINOPLE, ISTANBUL),
       ("BerlinToLondonAt5", BERLIN, LONDON)]


def names_of(fork):
    own = [] if fork == CONSTANTINOPLE else [
        TITLE.get(fork, NAMES[fork].title())]
    return own + ALIAS.get(fork, [])


_TMP = []


def scratch():
    """This process's scratch directory (removed by the parent at exit)."""
    if not _TMP or _TMP[0] != os.getpid():
        _TMP[:] = [os.getpid(), tempfile.mkdtemp(dir=ROOT)]
    return _TMP[1]


ROOT = tempfile.mkdtemp(prefix="c31-")


def _cleanup(pid=os.getpid()):
    if os.getpid() == pid:
        shutil.rmtree(ROOT, ignore_errors=True)


import atexit
atexit.register(_cleanup)


# ------------------------------------------------------------- rendering
def hx(b):
    return "0x" + bytes(b).hex()


def num(v, style=0):
    """A number as the tools accept it in env and alloc."""
    return (hex(v), str(v), "0x%08x" % v)[style % 3]


def tx_json(tx, r, blk):
    """Transaction as t8n JSON; r: rendering choices."""
    st = r.get("style", 0)
    j = dict(nonce=hex(tx["nonce"]), gas=hex(tx["gas"]),
             value="0x" if not tx["value"] and st & 1 else hex(tx["value"]),
             input=hx(tx["data"]))
    if tx["to"] is not None:
        j["to"] = hx(tx["to"])
    elif st % 3:
        j["to"] = ("", None)[st % 3 - 1]
    t = tx["type"]
    if t < 2:
        j["gasPrice"] = hex(tx["gas_price"])
    else:
        j["maxFeePerGas"] = hex(tx["max_fee"])
        j["maxPriorityFeePerGas"] = hex(tx["prio"])
    if t:
        j["chainId"] = (hex(tx["chain_id"]), str(tx["chain_id"]),
                        tx["chain_id"])[st % 3]
        j["accessList"] = [
            dict(address=hx(a),
                 storageKeys=[hx(k.to_bytes(32, "big")) for k in ks])
            for a, ks in tx["access"]]
    elif st & 4:
        j["chainId"] = hex(blk["chain_id"])
    if t == 3:
        j["maxFeePerBlobGas"] = hex(tx["blob_fee"])
        j["blobVersionedHashes"] = [hx(b) for b in tx["blobs"]]
    if t == 4:
        j["authorizationList"] = [
            dict(chainId=hex(a["chain_id"]), nonce=hex(a["nonce"]),
                 address=hx(a["address"]), v=hex(a["y"]), r=hex(a["r"]),
                 s=hex(a["s"])) for a in tx["auths"]]
    if t or r.get("typed"):
        if r.get("typed", True):
            j["type"] = (hex(t), str(t))[st & 1]
    if r.get("key"):
        j["secretKey"] = "0x%064x" % r["key"]
        if r.get("protected") is not None and t == 0:
            j["protected"] = r["protected"]
        if st & 8:
            j.update(v="0x0", r="0x0", s=None)
    else:
        j["v"] = hex(tx["v"])
        j["r"], j["s"] = hex(tx["r"]), hex(tx["s"])
        if t and st & 1:
            j["y_parity"] = j["v"]
            if st & 2:
                del j["v"]
    return j


def sign_std(tx, key, protected):
    """Sign with the standard deterministic nonce (what the tool does)."""
    cid = tx["chain_id"] if protected else None
    h = RB.signing_hash(dict(tx, chain_id=cid) if tx["type"] == 0 else tx)
    g = coincurve.PrivateKey.from_int(key).sign_recoverable(h, hasher=None)
    tx["r"] = int.from_bytes(g[:32], "big")
    tx["s"] = int.from_bytes(g[32:64], "big")
    tx["v"] = g[64]
    if tx["type"] == 0:
        tx["v"] += 27 if cid is None else 35 + 2 * cid
    return tx


def tx_item(tx):
    """Transaction as an item of the RLP list."""
    b = RB.tx_encode(tx)
    return unrlp(b) if tx["type"] == 0 else b


def alloc_json(pre, st=0):
    out = {}
    for a, c in pre.items():
        j = {}
        if c.get("balance") or st & 1:
            j["balance"] = num(c.get("balance", 0), st)
        if c.get("nonce") or st & 2:
            j["nonce"] = num(c.get("nonce", 0), st)
        if c.get("code") or st & 4:
            j["code"] = hx(c.get("code", b""))
        if c.get("storage") or st & 2:
            j["storage"] = {
                (hex(k) if st & 1 else hx(k.to_bytes(32, "big"))):
                hex(v) for k, v in c.get("storage", {}).items()}
        out[hx(a)] = j
    return out


def hashes_of(blk):
    return G._HASHES[:min(blk["number"], 256)]


def ctx_of(blk):
    b = blk_of(blk)
    b.hashes = hashes_of(blk)
    return b


def env_json(c):
    fork, b, e = IDX[c["fork"]], c["blk"], c["env"]
    st = e["style"]
    hs = hashes_of(b)
    n0 = b["number"] - len(hs)
    j = dict(currentCoinbase=hx(b["coinbase"]),
             currentGasLimit=num(b["gas_limit"], st),
             currentNumber=num(b["number"], st >> 1),
             currentTimestamp=num(b["time"], st >> 2),
             blockHashes={("%x" if st & 1 else "0x%x") % (n0 + i): hx(h)
                          for i, h in enumerate(hs)})
    if n0 > 0 and st & 2:
        j["blockHashes"]["0x%x" % (n0 - 1)] = hx(b"\xee" * 32)
    if fork < PARIS:
        p = e.get("pdiff")
        if p:
            j["parentDifficulty"] = num(p[0], st)
            j["parentTimestamp"] = num(p[1], st)
            if p[2] is not None:
                j["parentUncleHash"] = hx(p[2])
        else:
            j["currentDifficulty"] = num(b["difficulty"], st)
        if e["ommers"] or st & 1:
            j["ommers"] = [dict(delta=(d, str(d), hex(d))[st % 3],
                                address=hx(a)) for d, a in e["ommers"]]
    else:
        r = b["randao"].hex()
        if st & 1:
            r = r.lstrip("0") or "0"
        j["currentRandom"] = r if st & 4 else "0x" + r
    if fork >= LONDON:
        p = e.get("pfee")
        if p:
            j["parentGasLimit"] = num(p[0], st)
            j["parentGasUsed"] = num(p[1], st)
            j["parentBaseFee"] = num(p[2], st)
        if not p or e.get("both"):
            j["currentBaseFee"] = num(b["base_fee"], st)
    if fork >= SHANGHAI:
        j["withdrawals"] = [
            dict(index=hex(x["index"]), validatorIndex=hex(x["validator"]),
                 address=hx(x["address"]), amount=hex(x["amount"]))
            for x in c["wds"]]
    if fork >= CANCUN:
        j["parentBeaconBlockRoot"] = hx(b["beacon_root"])
        p = e.get("pblob")
        if p:
            j["parentExcessBlobGas"] = num(p[0], st)
            j["parentBlobGasUsed"] = num(p[1], st)
        if not p or e.get("both"):
            j["currentExcessBlobGas"] = num(b["excess"], st)
    if fork >= PRAGUE:
        j["parentHash"] = hx(hs[-1])
    return j


def txs_json(c):
    if c["form"] == "rlp":
        return hx(rlp([tx_item(t) for t in c["txs"]]))
    if not c["txs"] and c["form"] == "null":
        return None
    return [tx_json(t, r, c["blk"]) for t, r in zip(c["txs"], c["ren"])]


# ------------------------------------------------------------- running
class Bad(Exception):
    pass


def t8n(name, blk, env, alloc, txs, *extra, reward=None, files=False,
        basedir=None, out=None):
    """Run the tool; returns its JSON output."""
    d = basedir or scratch()
    args = ["t8n", "--output.basedir=" + d, "--state.fork=" + name,
            "--state.chainid=%d" % blk["chain_id"]]
    if reward is not None:
        args.append("--state.reward=%d" % reward)
    data = dict(env=env, alloc=alloc, txs=txs)
    if files:
        for k in data:
            p = os.path.join(d, "in-%s.json" % k)
            with open(p, "w") as f:
                json.dump(data[k], f)
            args.append("--input.%s=%s" % (k, p))
        args += ["--output.result=r.json", "--output.body=b.rlp",
                 "--output.alloc=a.json"]
        stdin = io.StringIO("")
    else:
        args += ["--input.%s=stdin" % k for k in data]
        args += ["--output.%s=stdout" % k
                 for k in ("result", "body", "alloc")]
        stdin = io.StringIO(json.dumps(data))
    stdout = io.StringIO()
    try:
        tool = T8N(PARSER.parse_args(args + list(extra)), stdout, stdin)
        rc = tool.run()
    except SystemExit as e:
        raise Bad("exit: %s" % e)
    except RecursionError:
        raise
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Bad("%s: %s at %s:%d" % (type(e).__name__, e, os.path.basename(
            tb.filename), tb.lineno))
    if rc:
        raise Bad("returned %r" % rc)
    if not files:
        return json.loads(stdout.getvalue())
    o = {}
    for k, n in (("result", "r.json"), ("body", "b.rlp"),
                 ("alloc", "a.json")):
        with open(os.path.join(d, n)) as f:
            o[k] = json.load(f)
    if stdout.getvalue():
        o["stdout"] = stdout.getvalue()
    return o


def read_alloc(j):
    out = {}
    for a, c in j.items():
        out[bytes.fromhex(a[2:])] = (
            int(c.get("nonce", "0x0"), 16), int(c.get("balance", "0x0"), 16),
            bytes.fromhex(c.get("code", "0x")[2:]),
            {int(k, 16): int(v, 16)
             for k, v in c.get("storage", {}).items()})
    return out


def model_alloc(w):
    return {a: (c.nonce, c.balance, bytes(c.code), dict(c.storage))
            for a, c in w.a.items()}


class Want:
    pass


def parses(fork, tx):
    """Whether the tool can represent the transaction at all."""
    return fork >= RB.TYPE_FROM[tx["type"]] and not (
        tx["type"] >= 3 and tx["to"] is None)


def dao_all(w):
    for a in DAO_ACCOUNTS:
        w.ensure(a)
    dao_moves(w)


def model(c, state_test=False):
    fork, blk = IDX[c["fork"]], ctx_of(c["blk"])
    o = Want()
    o.w = w = world_of(c["pre"])
    if fork == DAO:
        dao_all(w)
        w.undo.clear()
    o.out = out = RB.Output()
    o.rejected, o.accepted, o.why, o.block = [], [], [], None
    if not state_test:
        if fork >= CANCUN:
            RB.system_call(fork, w, blk, RB.BEACON_ROOTS, blk.beacon_root)
        if fork >= PRAGUE:
            RB.system_call(fork, w, blk, RB.HISTORY, blk.hashes[-1])
    for i, tx in enumerate(c["txs"]):
        try:
            RB.process_tx(fork, w, blk, out, tx)
            o.accepted.append(i)
        except RB.Reject as e:
            o.rejected.append(i)
            o.why.append(str(e))
    if not state_test:
        R = c.get("reward")
        if fork < PARIS and R != -1:
            if R is None:
                R = BLOCK_REWARD[NAMES[fork]]
            om = c["env"]["ommers"]
            w.add_balance(blk.coinbase, R + len(om) * (R // 32))
            for d, a in om:
                w.add_balance(a, R * (8 - d) // 8)
        try:
            if fork >= SHANGHAI:
                RB.pay_withdrawals(w, out, c["wds"])
            if fork >= PRAGUE:
                RB.collect_requests(fork, w, blk, out)
        except RB.Reject as e:
            o.block = str(e)
    w.undo.clear()
    o.root = w.root()
    return o


def check_output(c, got, o, res, pfx="", body=True):
    fork = IDX[c["fork"]]
    r = got["result"]
    rej = [x["index"] for x in r["rejected"]]
    res.eq(pfx + "rejected", sorted(rej), o.rejected, str(o.why) + " tool: "
           + str(r["rejected"])[:300])
    if o.block is not None:
        if "blockException" not in r:
            res.fail(pfx + "block-exception", "missing: " + o.block)
        return
    if "blockException" in r:
        res.fail(pfx + "block-exception", r["blockException"])
        return
    if rej and not all(isinstance(x["error"], str) and x["error"]
                       for x in r["rejected"]):
        res.fail(pfx + "error-text", str(r["rejected"])[:200])
    out = o.out
    want = dict(
        stateRoot=hx(o.root), txRoot=hx(RB.ordered_root(out.tx_bytes)),
        receiptsRoot=hx(RB.ordered_root(
            [RB.receipt_encode(x) for x in out.receipts])),
        logsHash=hx(keccak(rlp(RB.rlp_logs(out.logs)))),
        logsBloom=hx(RB.bloom_of(out.logs)), gasUsed=hex(out.gas_used))
    if fork >= SHANGHAI:
        want["withdrawalsRoot"] = hx(RB.ordered_root(out.withdrawals))
    if fork >= CANCUN:
        want["blobGasUsed"] = hex(out.blob_gas)
        want["currentExcessBlobGas"] = hex(c["blk"]["excess"])
    if fork >= PRAGUE:
        want["requests"] = [hx(x) for x in out.requests]
        want["requestsHash"] = hx(RB.requests_hash(out.requests))
    for k, v in want.items():
        res.eq(pfx + k, r.get(k), v)
    for k, v in (("currentBaseFee", c["blk"]["base_fee"]
                  if fork >= LONDON else None),
                 ("currentDifficulty", c["blk"]["difficulty"]
                  if fork < PARIS else None)):
        g = r.get(k)
        res.eq(pfx + k, int(g, 16) if g is not None else 0, v or 0)
    rec = []
    for x, b in zip(out.receipts, out.tx_bytes):
        d = dict(transactionHash=hx(keccak(b)), gasUsed=hex(x["gas"]),
                 bloom=hx(x["bloom"]))
        if x["root"] is not None:
            d["post_state"] = hx(x["root"])
        else:
            d["succeeded"] = bool(x["ok"])
        rec.append(d)
    res.eq(pfx + "receipt-count", len(r["receipts"]), len(rec))
    for i, (a, b) in enumerate(zip(r["receipts"], rec)):
        for k in b:
            res.eq(pfx + "receipt." + k, a.get(k), b[k], "receipt %d" % i)
    ga, wa = read_alloc(got["alloc"]), model_alloc(o.w)
    if ga != wa:
        for a in sorted(set(ga) | set(wa)):
            if ga.get(a) != wa.get(a):
                res.fail(pfx + "alloc", "%s: %s, expected %s" % (
                    a.hex(), str(ga.get(a))[:200], str(wa.get(a))[:200]))
                break
    if body and all(parses(fork, t) for t in c["txs"]):
        res.eq(pfx + "body", got["body"],
               hx(rlp([tx_item(t) for t in c["txs"]])))


# ------------------------------------------------------------- generators
def damage(s, fork, blk, tx, key):
    """Make (mostly) invalid; the reference decides."""
    k = s.weighted([(3, "nonce"), (2, "value"), (2, "lowgas"), (2, "biggas"),
                    (2, "sig"), (1, "range"), (1, "v"), (2, "chain"),
                    (2, "fee"), (2, "type"), (1, "create"), (1, "initcode")])
    prot = tx["type"] == 0 and tx["v"] > 28
    if k == "nonce":
        tx["nonce"] = max(0, tx["nonce"] + s.pick([1, -1, 5]))
    elif k == "value":
        tx["value"] = s.pick([10**24, 2**255, 2**256 - 1])
    elif k == "lowgas":
        tx["gas"] = s.pick([20999, 0, 21000])
    elif k == "biggas":
        tx["gas"] = s.pick([blk["gas_limit"] + 1, 2**24 + 1, 2**63])
    elif k == "fee":
        if tx["type"] < 2:
            tx["gas_price"] = max(0, (blk["base_fee"] or 0) - 1)
        elif s.bool():
            tx["max_fee"] = max(0, (blk["base_fee"] or 0) - 1)
            tx["prio"] = 0
        else:
            tx["prio"] = tx["max_fee"] + 1
    elif k == "type":
        t = s.int(0, 4)
        tx = dict(tx, type=t)
        tx.setdefault("gas_price", 10**9 + 20)
        tx.setdefault("max_fee", 10**9 + 20)
        tx.setdefault("prio", 1)
        for f, lo, hi, v in (("access", 1, 4, []), ("blob_fee", 3, 3, 100),
                             ("blobs", 3, 3, [b"\x01" + b"\2" * 31]),
                             ("auths", 4, 4, [])):
            if lo <= t <= hi:
                tx.setdefault(f, v)
            else:
                tx.pop(f, None)
    elif k == "create":
        tx["to"] = None
    elif k == "initcode":
        tx["to"], tx["data"] = None, b"\0" * s.pick([49152, 49153])
    if k == "chain":
        tx["chain_id"] += s.pick([1, 2])
        prot = True
    sign_tx(tx, key, prot and fork >= SPURIOUS)
    if k == "sig":
        tx["s"] = s.pick([tx["s"] - 1, SECP_N - tx["s"], 1])
    elif k == "range":
        tx[s.pick(["r", "s"])] = s.pick([0, SECP_N, 2**256 - 1])
    elif k == "v":
        tx["v"] = s.pick([0, 1, 2, 26, 27, 28, 29, 35, 36, 37, 38, 2**64])
    return tx


def gen_env(s, fork, blk, env):
    """Parent fields from which block fields are derived."""
    if fork < PARIS and s.chance(35):
        pd = s.pick([131072, 2**20, 10**15, 140000])
        pt = blk["time"] - min(blk["time"], s.pick(
            [1, 8, 9, 10, 12, 13, 17, 18, 100, 999]))
        uh = None
        if fork >= BYZANTIUM:
            uh = s.pick([None, RB.EMPTY_OMMERS, b"\x55" * 32])
        env["pdiff"] = [pd, pt, uh]
        blk["difficulty"] = rules.difficulty(
            fork, blk["number"], blk["time"], pt, pd,
            uh is not None and uh != RB.EMPTY_OMMERS)
    if fork >= LONDON and s.chance(40):
        pl = blk["gas_limit"] + s.pick([0, 0, 1, -1, 29000, -29000])
        pu = s.pick([0, pl, pl // 2, pl // 2 + 1, pl // 2 - 1,
                     s.below(pl + 1)])
        pf = s.pick([7, 8, 9, 1, 15, 16, 17, 32, 1000, 10**9])
        env["pfee"] = [pl, pu, pf]
        blk["base_fee"] = rules.next_base_fee(pl, pu, pf)
    if fork >= CANCUN and s.chance(40):
        if fork >= OSAKA and not env.get("pfee"):
            return
        tgt, mx, _ = rules.BLOB[fork]
        pe = s.pick([0, 131072, 393216, 786432, 10**6, 30_000_000])
        pu = 131072 * s.int(0, mx)
        if s.chance(30):
            pe = max(0, 131072 * tgt - pu + s.pick([-1, 0, 1]))
        pf = env["pfee"][2] if env.get("pfee") else 0
        env["pblob"] = [pe, pu]
        blk["excess"] = rules.next_excess(fork, pe, pu, pf)


def gen_case(s, fork, weights=None, ntx=None, invalid=35, nstmt=None,
             state_test=False):
    blk = gen_blk(s, fork)
    blk["number"] = s.pick([1, 2, 4, 5, 6, 255, 256, 257, 300, 1_150_000])
    if s.chance(25):
        blk["randao"] = s.pick([0, 1, 0xabc, 0x123456, 2**251 + 5]).to_bytes(
            32, "big")
    env = dict(style=s.below(16), ommers=[])
    gen_env(s, fork, blk, env)
    pre = G.gen_pre(s, fork, weights, nstmt=nstmt)
    if fork >= PRAGUE and s.chance(4):
        pre.pop(s.pick([RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ]))
    cons = [a for a in CON if a in pre]
    targets = cons * 4 + [EOA[1], FRESH[0], num_addr(s.int(1, 5))]
    nonces = {a: c.get("nonce", 0) for a, c in pre.items()}
    txs, ren = [], []
    for _ in range(s.int(0, 4) if ntx is None else ntx):
        before = dict(nonces)
        i = s.below(3)
        if s.chance(12):
            p = Prog(s, fork, weights, cons + [EOA[0], FRESH[0]], 4)
            tx = gen_tx(s, fork, blk, nonces, targets, to="create", sender=i,
                        types=[t for t in tx_types(fork) if t < 3],
                        data=p.initcode())
        else:
            tx = gen_tx(s, fork, blk, nonces, targets, sender=i)
        r = dict(style=s.below(16), typed=s.bool())
        if s.chance(invalid):
            nonces = before
            tx = damage(s, fork, blk, tx, KEYS[i])
        elif s.chance(40):
            prot = s.pick([None, True, False])
            r.update(key=KEYS[i], protected=prot)
            sign_std(tx, KEYS[i], fork >= SPURIOUS and prot is not False)
        txs.append(tx)
        ren.append(r)
    wds = []
    if fork >= SHANGHAI:
        for _ in range(s.below(4)):
            wds.append(dict(
                index=s.pick([0, 1, 2**64 - 1, s.below(1000)]),
                validator=s.pick([0, 5, 2**64 - 1]),
                address=s.pick(targets + FRESH),
                amount=s.pick([0, 1, 32 * 10**9, 2**64 - 1])))
    if fork < PARIS:
        for _ in range(s.weighted([(4, 0), (2, 1), (2, 2)])):
            env["ommers"].append([s.int(1, 6), s.pick(
                [FRESH[2], FRESH[3], blk["coinbase"], EOA[1]])])
    return dict(
        fork=NAMES[fork], blk=blk, env=env, pre=pre, txs=txs, ren=ren,
        wds=wds, form=s.pick(["json", "json", "json", "rlp", "null"])
        if not any(r.get("key") for r in ren) or s.chance(30) else "json",
        reward=s.weighted([(5, None), (1, -1), (1, 0), (2, 8), (1, 31),
                           (1, 10**18 + 7)]),
        alloc=s.below(8), name=pick_name(s, fork, blk),
        also=s.pick(ALSO))


def pick_name(s, fork, blk):
    """A network name that selects the fork at this block number."""
    ns = list(names_of(fork))
    for n, a, b in AT5:
        if fork == (a if blk["number"] < 5 else b):
            ns.append(n)
    return s.pick(ns)


ALSO = ["none", "none", "drop", "feed", "sign", "trace", "files", "main"]


def run_t8n(c, res):
    fork = IDX[c["fork"]]
    o = model(c)
    env, alloc = env_json(c), alloc_json(c["pre"], c["alloc"])
    args = (c["name"], c["blk"], env)
    try:
        got = t8n(*args, copy.deepcopy(alloc), txs_json(c),
                  reward=c["reward"])
    except Bad as e:
        res.fail("crash", e)
        return
    check_output(c, got, o, res)
    res.tag(c["fork"], "form:" + c["form"])
    if "At5" in c["name"]:
        res.tag("transition-name")
    for x in o.why:
        res.tag("rejected:" + x)
    if o.rejected and o.accepted and o.rejected[0] < o.accepted[-1]:
        res.tag("rejected-before-accepted")
    if c["env"]["ommers"]:
        res.tag("ommers")
    for k in ("pdiff", "pfee", "pblob"):
        if c["env"].get(k):
            res.tag("derived:" + k)
    if o.block:
        res.tag("block-exception")
    res.nontrivial = bool(o.accepted or o.rejected)
    if res.bad or o.block:
        return
    also(c, res, o, got, args, alloc, fork)


def strip(got):
    g = copy.deepcopy(got)
    g["result"].pop("rejected")
    g.pop("body", None)
    g.pop("opcodeCount", None)
    return g


def also(c, res, o, got, args, alloc, fork):
    k = c["also"]
    try:
        if k == "drop" and o.rejected:
            c2 = dict(c, txs=[c["txs"][i] for i in o.accepted],
                      ren=[c["ren"][i] for i in o.accepted])
            g2 = t8n(*args, copy.deepcopy(alloc), txs_json(c2),
                     reward=c["reward"])
            res.eq("drop", strip(g2), strip(got))
            res.tag("also:drop")
        elif k == "feed":
            e2 = dict(args[2], ommers=[], withdrawals=[])
            g2 = t8n(c["name"], c["blk"], e2, copy.deepcopy(got["alloc"]),
                     [], "--state-test")
            res.eq("feed.root", g2["result"]["stateRoot"],
                   got["result"]["stateRoot"])
            res.eq("feed.alloc", read_alloc(g2["alloc"]),
                   read_alloc(got["alloc"]))
            res.tag("also:feed")
        elif k == "sign" and c["form"] == "json" and all(
                parses(fork, t) for t in c["txs"]):
            g2 = t8n(*args, copy.deepcopy(alloc), got["body"],
                     reward=c["reward"])
            res.eq("sign.rejected",
                   [x["index"] for x in g2["result"]["rejected"]],
                   [x["index"] for x in got["result"]["rejected"]])
            res.eq("sign", strip(g2), strip(got))
            res.eq("sign.body", g2["body"], got["body"])
            res.tag("also:sign")
        elif k == "trace":
            run_traced(c, res, o, got, args, alloc)
        elif k == "files":
            d = tempfile.mkdtemp(dir=scratch())
            try:
                g2 = t8n(*args, copy.deepcopy(alloc), txs_json(c),
                         reward=c["reward"], files=True, basedir=d)
                res.eq("files", g2, got)
            finally:
                shutil.rmtree(d)
            res.tag("also:files")
        elif k == "main":
            out = io.StringIO()
            a = ["t8n", "--output.basedir=" + scratch(),
                 "--state.fork=" + c["name"],
                 "--state.chainid=%d" % c["blk"]["chain_id"]]
            if c["reward"] is not None:
                a.append("--state.reward=%d" % c["reward"])
            a += ["--input.%s=stdin" % x for x in ("env", "alloc", "txs")]
            a += ["--output.%s=stdout" % x for x in ("result", "alloc")]
            rc = ET.main(a, out, io.StringIO(json.dumps(dict(
                env=args[2], alloc=alloc, txs=txs_json(c)))))
            g2 = json.loads(out.getvalue())
            res.eq("main.rc", rc, 0)
            res.eq("main", g2, {x: got[x] for x in ("result", "alloc")})
            res.tag("also:main")
    except Bad as e:
        res.fail(k + ".crash", e)


def run_traced(c, res, o, got, args, alloc):
    d = tempfile.mkdtemp(dir=scratch())
    try:
        run = lambda *x: t8n(*args, copy.deepcopy(alloc), txs_json(c), *x,
                             reward=c["reward"], basedir=d)
        g2 = run("--trace", "--trace.memory", "--trace.returndata",
                 "--opcode.count=stdout")
        res.eq("traced", strip(g2), strip(got))
        names = [os.path.basename(f) for f in
                 glob.glob(os.path.join(d, "trace-*.jsonl"))]
        hs = [keccak(b).hex() for b in o.out.tx_bytes]
        for n in names:
            i, h = n[6:-6].split("-")
            h = h[2:] if h.startswith("0x") else h
            if int(i) >= len(hs) or hs[int(i)] != h:
                res.fail("trace-name", "%s of %s" % (n, hs))
        ran = [i for i, t in enumerate(o.out.traces)
               if o.out.receipts[i]["ok"]]
        have = {int(n[6:].split("-")[0]) for n in names}
        if not set(ran) <= have:
            res.fail("trace-missing", "traces %s, executed %s" % (
                sorted(have), ran))
        oc = g2.get("opcodeCount")
        if not isinstance(oc, dict) or any(
                not isinstance(v, int) or v < 1 for v in oc.values()):
            res.fail("opcode-count", repr(oc)[:200])
        g3 = run("--opcode.count=stdout")
        res.eq("opcode-count-alone", g3.get("opcodeCount"), oc)
        left = glob.glob(os.path.join(d, "trace-*"))
        if left:
            res.fail("trace-left", "untraced run leaves %s" % left[:2])
        g4 = run()
        if "opcodeCount" in g4:
            res.fail("opcode-count-extra", "")
        res.eq("untraced", strip(g4), strip(got))
        res.tag("also:trace")
    finally:
        shutil.rmtree(d)


def make_t8n(s):
    return gen_case(s, G.pick_fork(s))


MIX_PLAIN = dict(store=6, expr=3, log=6, call=4, create=2, sd=2, revert=1,
                 refund=2, env=4, acct=2)


def make_short(s):
    """Small programs, many transactions, about half of them damaged."""
    return gen_case(s, s.int(0, 17), MIX_PLAIN, ntx=s.int(2, 6), invalid=50,
                    nstmt=lambda s_: s_.int(1, 3))


# --------------------------------------------------------- state-test mode
def make_st(s):
    fork = s.int(0, 17)
    c = gen_case(s, fork, MIX_PLAIN, ntx=1, invalid=25)
    c["wds"] = []
    return c


def run_st(c, res):
    o = model(c, state_test=True)
    env = env_json(c)
    if c["env"]["style"] & 1:
        for k in ("parentBeaconBlockRoot", "parentHash"):
            env.pop(k, None)
    env["withdrawals"] = []
    try:
        got = t8n(c["name"], c["blk"], env, alloc_json(c["pre"], c["alloc"]),
                  txs_json(c), "--state-test", reward=c["reward"])
    except Bad as e:
        res.fail("crash", e)
        return
    check_output(c, got, o, res)
    res.tag(c["fork"])
    res.nontrivial = bool(o.accepted)


# --------------------------------------------------------- statetest tool
def make_tests(s):
    tests = []
    for i in range(s.int(1, 3)):
        fork = s.int(0, 17)
        b = gen_blk(s, fork, number=1, chain_id=1)
        if b["base_fee"] is None:
            b["base_fee"] = 7
        pre = G.gen_pre(s, fork, MIX_PLAIN, nstmt=lambda s_: s_.int(1, 4))
        t = s.pick(tx_types(fork))
        tx = gen_tx(s, fork, b, {a: x.get("nonce", 0)
                                 for a, x in pre.items()},
                    [a for a in CON if a in pre], sender=0, types=[t])
        if s.chance(15) and t < 3:
            tx["to"] = None
        lists = dict(
            data=[s.pick([b"", b"\x00" * 4, s.blob(40), b"\x60\x01\x60\x00"
                          b"\x55"]) for _ in range(s.int(1, 3))],
            gas=[s.pick([1_000_000, 21000, 100_000, 30_000_001, 60_000])
                 for _ in range(s.int(1, 2))],
            value=[s.pick([0, 1, 10**15, 10**24])
                   for _ in range(s.int(1, 2))],
            access=[None if s.chance(20) else gen_access(s, fork)
                    for _ in range(3)])
        forks = [fork]
        for _ in range(s.below(3)):
            k = s.int(RB.TYPE_FROM[t], 17)
            # the accounts of one fork must be usable by the other
            if k not in forks and (k < PARIS or not any(
                    not (x.get("nonce") or x.get("balance") or x.get("code"))
                    for x in pre.values())):
                forks.append(k)
        posts = []
        for k in forks:
            posts.append([s.pick(names_of(k)), NAMES[k], [
                dict(d=s.below(len(lists["data"])),
                     g=s.below(len(lists["gas"])),
                     v=s.below(len(lists["value"])),
                     wrong=s.chance(30)) for _ in range(s.int(1, 3))]])
        if s.chance(20):
            posts.append([s.pick(["Constantinople", "Amsterdam"]), None, [
                dict(d=0, g=0, v=0, wrong=False)]])
        tests.append(dict(blk=b, pre=pre, tx=tx, lists=lists, posts=posts,
                          key=KEYS[0]))
    return dict(tests=tests, files=s.int(1, 2), trace=s.chance(25),
                style=s.below(8))


def run_tests(c, res):
    d = tempfile.mkdtemp(dir=scratch())
    try:
        _run_tests(c, res, d)
    finally:
        shutil.rmtree(d)


def _run_tests(c, res, d):
    files = [{} for _ in range(c["files"])]
    want = [[] for _ in files]
    for i, t in enumerate(c["tests"]):
        b, tx, L = t["blk"], t["tx"], t["lists"]
        hs = hashes_of(b)
        env = dict(currentCoinbase=hx(b["coinbase"]),
                   currentGasLimit=hex(b["gas_limit"]), currentNumber="0x1",
                   currentTimestamp=hex(b["time"]),
                   currentDifficulty=hex(b["difficulty"]),
                   currentRandom=hx(b["randao"]),
                   currentBaseFee=hex(b["base_fee"]),
                   currentExcessBlobGas=hex(b["excess"]),
                   previousHash=hx(hs[0]))
        j = tx_json(tx, dict(key=t["key"], typed=False, style=0), b)
        j.pop("gas"), j.pop("input"), j.pop("accessList", None)
        j.setdefault("to", "")
        j["data"] = [hx(x) for x in L["data"]]
        j["gasLimit"] = [hex(x) for x in L["gas"]]
        j["value"] = [hex(x) for x in L["value"]]
        if tx["type"]:
            al = [L["access"][k % 3] for k in range(len(L["data"]))]
            if tx["type"] == 1:
                al = [x or [] for x in al]
            j["accessLists"] = [x if x is None else [
                dict(address=hx(a), storageKeys=[
                    hx(k.to_bytes(32, "big")) for k in ks])
                for a, ks in x] for x in al]
        post = {}
        n = i % len(files)
        for name, fk, ps in t["posts"]:
            lst = []
            for p in ps:
                idx = dict(data=p["d"], gas=p["g"], value=p["v"])
                if fk is None:
                    lst.append(dict(indexes=idx, hash=hx(b"\1" * 32)))
                    continue
                fork = IDX[fk]
                m = dict(tx, data=L["data"][p["d"]], gas=L["gas"][p["g"]],
                         value=L["value"][p["v"]])
                if tx["type"]:
                    m["access"] = al[p["d"]] or []
                sign_std(m, t["key"], fork >= SPURIOUS)
                o = model(dict(fork=fk, blk=b, pre=t["pre"], txs=[m]), True)
                root = o.root
                exp = (bytes([root[0] ^ 1]) + root[1:]) if p["wrong"] \
                    else root
                lst.append(dict(indexes=idx, hash=hx(exp),
                                logs=hx(b"\0" * 32)))
                want[n].append(dict(stateRoot=hx(root), fork=name,
                                    name="t%d" % i, ok=not p["wrong"]))
                res.tag("rejected" if o.rejected else "executed", fk,
                        "wrong" if p["wrong"] else "right")
            post[name] = lst
        files[n]["t%d" % i] = dict(
            env=env, pre=alloc_json(t["pre"], 6),
            transaction=j, post=post, _info={})
    paths = []
    for i, f in enumerate(files):
        p = os.path.join(d, "f%d.json" % i)
        with open(p, "w") as fh:
            json.dump(f, fh)
        paths.append(p)
    extra = ["--json"] if c["trace"] else []
    for bit, a in ((1, "--nostack"), (2, "--nomemory"),
                   (4, "--noreturndata")):
        if c["style"] & bit:
            extra.append(a)
    log = logging.getLogger("T8N")
    before = list(log.handlers)
    err, outs = io.StringIO(), []
    try:
        with redirect_stderr(err):
            if len(paths) == 1:
                o = io.StringIO()
                rc = StateTest(PARSER.parse_args(
                    ["statetest", *extra, paths[0]]), o, io.StringIO()).run()
            else:
                o = io.StringIO()
                rc = StateTest(PARSER.parse_args(["statetest", *extra]), o,
                               io.StringIO("".join(
                                   p + "\n" for p in paths))).run()
    except SystemExit as e:
        res.fail("exit", e)
        return
    except RecursionError:
        raise
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res.fail("crash", "%s: %s at %s:%d" % (
            type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        return
    finally:
        for h in list(log.handlers):
            if h not in before:
                log.removeHandler(h)
    res.eq("rc", rc, 0)
    dec, txt, got = json.JSONDecoder(), o.getvalue().strip(), []
    while txt:
        v, k = dec.raw_decode(txt)
        got.append(v)
        txt = txt[k:].strip()
    if len(got) != len(paths):
        res.fail("outputs", "%d result lists of %d files" % (
            len(got), len(paths)))
        return
    roots = []
    for g, w in zip(got, want):
        gg = [dict(stateRoot=x["stateRoot"], fork=x["fork"], name=x["name"],
                   ok=x["pass"]) for x in g]
        res.eq("results", gg, w)
        for x in g:
            if ("error" in x) == x["pass"]:
                res.fail("error-field", x)
        roots += [x["stateRoot"] for x in w]
    lines = [json.loads(x) for x in err.getvalue().splitlines()
             if x.startswith('{"stateRoot"') and x.count(":") == 1]
    res.eq("stderr-roots", [x["stateRoot"] for x in lines], roots)
    if not c["trace"] and len(err.getvalue().splitlines()) != len(lines):
        res.fail("stderr-noise", err.getvalue()[:300])
    res.nontrivial = bool(roots)


# ------------------------------------------------------------------- b11r
def rnd_header(s, fork):
    h = dict(parent_hash=s.bytes(32), ommers_hash=s.bytes(32),
             coinbase=s.pick([s.bytes(20), b"\0" * 20]),
             state_root=s.bytes(32), transactions_root=s.bytes(32),
             receipt_root=s.bytes(32), bloom=s.pick(
                 [b"\0" * 256, s.bytes(256)]),
             difficulty=s.pick([0, 1, 131072, 2**70]),
             number=s.pick([0, 1, 2**32, s.below(10**7)]),
             gas_limit=s.pick([5000, 30_000_000, 2**63 - 1]),
             gas_used=s.pick([0, 21000, 2**40]),
             timestamp=s.pick([0, 1, 2**32, 2**64]),
             extra_data=s.blob(32), mix=s.pick([b"\0" * 32, s.bytes(32)]),
             nonce=s.pick([b"\0" * 8, s.bytes(8)]))
    if fork >= LONDON:
        h["base_fee"] = s.pick([0, 7, 10**9, 2**64])
    if fork >= SHANGHAI:
        h["withdrawals_root"] = s.bytes(32)
    if fork >= CANCUN:
        h["blob_gas_used"] = s.pick([0, 131072, 2**64 - 1])
        h["excess_blob_gas"] = s.pick([0, 1, 2**64 - 1])
        h["beacon_root"] = s.bytes(32)
    if fork >= PRAGUE:
        h["requests_hash"] = s.bytes(32)
    return h


def rnd_txs(s, fork):
    blk = gen_blk(s, fork)
    nonces = {}
    return [gen_tx(s, fork, blk, nonces, CON[:2] + [FRESH[0]])
            for _ in range(s.weighted([(2, 0), (2, 1), (1, 3)]))]


def make_b11r(s):
    fork = s.int(0, 17)
    return dict(
        fork=NAMES[fork], h=rnd_header(s, fork), txs=rnd_txs(s, fork),
        ommers=[rnd_header(s, fork) for _ in range(s.below(3))]
        if fork < PARIS else [],
        wds=[dict(index=s.pick([0, 3, 2**64 - 1]),
                  validator=s.pick([0, 2**64 - 1]), address=s.bytes(20),
                  amount=s.pick([0, 1, 2**64 - 1]))
             for _ in range(s.below(4))] if fork >= SHANGHAI else None,
        style=s.below(16), src=[s.below(2) for _ in range(4)],
        omit=s.below(64), out=s.bool())


def run_b11r(c, res):
    d = tempfile.mkdtemp(dir=scratch())
    try:
        _run_b11r(c, res, d)
    finally:
        shutil.rmtree(d)


DEFAULTS = dict(miner=("coinbase", b"\0" * 20),
                transactionsRoot=("transactions_root", None),
                receiptsRoot=("receipt_root", None),
                difficulty=("difficulty", 0), extraData=("extra_data", b""),
                nonce=("nonce", b"\0" * 8))


def _run_b11r(c, res, d):
    fork, h, st = IDX[c["fork"]], dict(c["h"]), c["style"]
    j = dict(parentHash=hx(h["parent_hash"]), ommersHash=hx(h["ommers_hash"]),
             miner=hx(h["coinbase"]), stateRoot=hx(h["state_root"]),
             transactionsRoot=hx(h["transactions_root"]),
             receiptsRoot=hx(h["receipt_root"]), logsBloom=hx(h["bloom"]),
             difficulty=num(h["difficulty"], st),
             number=num(h["number"], st), gasLimit=num(h["gas_limit"], st),
             gasUsed=num(h["gas_used"], st),
             timestamp=num(h["timestamp"], st),
             extraData=hx(h["extra_data"]), mixHash=hx(h["mix"]),
             nonce=hx(h["nonce"]))
    if fork >= LONDON:
        j["baseFeePerGas"] = num(h["base_fee"], st >> 1)
    if fork >= SHANGHAI:
        j["withdrawalsRoot"] = hx(h["withdrawals_root"])
    if fork >= CANCUN:
        j["blobGasUsed"] = num(h["blob_gas_used"], st)
        j["excessBlobGas"] = num(h["excess_blob_gas"], st)
        j["parentBeaconBlockRoot"] = hx(h["beacon_root"])
    if fork >= PRAGUE:
        j["requestsHash"] = hx(h["requests_hash"])
    om = [RB.header_fields(fork, o) for o in c["ommers"]]
    for i, (k, (f, v)) in enumerate(DEFAULTS.items()):
        if c["omit"] >> i & 1 and st & 8:
            del j[k]
            h[f] = RB.EMPTY_ROOT if v is None else v
            res.tag("omitted")
    if fork >= SHANGHAI and st & 8 and c["omit"] % 5 == 0:
        # a header with a withdrawals root cannot be without a base fee
        del j["baseFeePerGas"]
        h["base_fee"] = 0
        res.tag("omitted-base-fee")
    if st & 4:
        del j["ommersHash"]
        h["ommers_hash"] = keccak(rlp(om))
    data = dict(header=j)
    items = [tx_item(t) for t in c["txs"]]
    data["txs"] = "" if not items and st & 1 else hx(rlp(items))
    args = ["b11r"]
    if c["ommers"] or st & 2:
        data["uncles" if st & 1 and c["src"][1] == 0 else "ommers"] = [
            hx(rlp([o, [], []])) for o in om]
    if c["wds"] is not None:
        if c["wds"] or st & 1 or c["src"][2]:
            data["withdrawals"] = [
                dict(index=num(x["index"], st),
                     validatorIndex=num(x["validator"], st >> 1),
                     address=hx(x["address"]), amount=num(x["amount"], st))
                for x in c["wds"]]
        args.append("--input.withdrawals=" + ("stdin" if not c["src"][2]
                                              else d + "/w.json"))
        if c["src"][2]:
            with open(d + "/w.json", "w") as f:
                json.dump(data.pop("withdrawals"), f)
    names = [("header", 0)] + ([("ommers", 1)] if "ommers" in data or
                               "uncles" in data else []) + [("txs", 3)]
    for k, i in names:
        if c["src"][i]:
            p = "%s/%s.json" % (d, k)
            with open(p, "w") as f:
                json.dump(data.pop(k), f)
            args.append("--input.%s=%s" % (k, p))
        else:
            args.append("--input.%s=stdin" % k)
    args.append("--output.block=" + (d + "/o.json" if c["out"]
                                     else "stdout"))
    out = io.StringIO()
    try:
        rc = B11R(PARSER.parse_args(args), out,
                  io.StringIO(json.dumps(data))).run()
        got = json.loads(out.getvalue()) if not c["out"] else json.load(
            open(d + "/o.json"))
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res.fail("crash", "%s: %s at %s:%d" % (
            type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        return
    hf = RB.header_fields(fork, h)
    block = [hf, items, om]
    if c["wds"] is not None:
        block.append([[x["index"], x["validator"], x["address"],
                       x["amount"]] for x in c["wds"]])
    raw = rlp(block)
    res.eq("rc", rc, 0)
    res.eq("rlp", got.get("rlp"), hx(raw))
    res.eq("hash", got.get("hash"), hx(keccak(rlp(hf))))
    res.tag(c["fork"])
    if got.get("rlp") == hx(raw) and all(len(c["h"][k]) <= 2**20 for k in
                                         ("extra_data",)):
        # the library reads the block back and agrees on the hash
        F = Fork(fork)
        try:
            b = _rlp.decode_to(F.blocks.Block, raw)
            res.eq("lib-hash", bytes(keccak(bytes(_rlp.encode(b.header)))),
                   keccak(rlp(hf)))
            res.eq("lib-rlp", bytes(_rlp.encode(b)), raw)
        except Exception as e:
            res.fail("lib-decode", "%s: %s" % (type(e).__name__, e))
    res.nontrivial = bool(items or om or c["wds"])


# ---------------------------------------------------------------- loaders
def make_load(s):
    fork = s.int(0, 17)
    c = dict(fork=NAMES[fork], h=rnd_header(s, fork), txs=rnd_txs(s, fork),
             ommers=[rnd_header(s, fork) for _ in range(s.below(2))]
             if fork < PARIS else [],
             wds=[dict(index=s.below(2**64), validator=s.below(2**64),
                       address=s.bytes(20), amount=s.below(2**64))
                  for _ in range(s.below(3))] if fork >= SHANGHAI else [],
             style=s.below(8), pre=G.gen_pre(s, fork, MIX_PLAIN))
    return c


def header_json(fork, h, st):
    j = dict(parentHash=hx(h["parent_hash"]), stateRoot=hx(h["state_root"]),
             difficulty=hex(h["difficulty"]), number=hex(h["number"]),
             gasLimit=hex(h["gas_limit"]), gasUsed=hex(h["gas_used"]),
             timestamp=hex(h["timestamp"]), extraData=hx(h["extra_data"]),
             mixHash=hx(h["mix"]), nonce=hx(h["nonce"]))
    j["uncleHash" if st & 1 else "sha3Uncles"] = hx(h["ommers_hash"])
    j["coinbase" if st & 1 else "miner"] = hx(h["coinbase"])
    j["transactionsTrie" if st & 2 else "transactionsRoot"] = hx(
        h["transactions_root"])
    j["receiptTrie" if st & 2 else "receiptsRoot"] = hx(h["receipt_root"])
    j["bloom" if st & 4 else "logsBloom"] = hx(h["bloom"])
    if fork >= LONDON:
        j["baseFeePerGas"] = hex(h["base_fee"])
    if fork >= SHANGHAI:
        j["withdrawalsRoot"] = hx(h["withdrawals_root"])
    if fork >= CANCUN:
        j["blobGasUsed"] = hex(h["blob_gas_used"])
        j["excessBlobGas"] = hex(h["excess_blob_gas"])
        j["parentBeaconBlockRoot"] = hx(h["beacon_root"])
    if fork >= PRAGUE:
        j["requestsHash"] = hx(h["requests_hash"])
    return j


def run_load(c, res):
    fork, h, st = IDX[c["fork"]], c["h"], c["style"]
    F = Fork(fork)
    L = Load(names_of(fork)[0], c["fork"])
    try:
        o = L.json_to_header(header_json(fork, h, st))
        res.eq("header", bytes(_rlp.encode(o)),
               rlp(RB.header_fields(fork, h)))
        raw = rlp([RB.header_fields(fork, h), [tx_item(t) for t in c["txs"]],
                   [RB.header_fields(fork, x) for x in c["ommers"]]]
                  + ([[[x["index"], x["validator"], x["address"],
                        x["amount"]] for x in c["wds"]]]
                     if fork >= SHANGHAI else []))
        b, hh, rr = L.json_to_block(dict(rlp=hx(raw), blockHeader=header_json(
            fork, c["h"], st)))
        res.eq("block", bytes(_rlp.encode(b)), raw)
        res.eq("block.rlp", bytes(rr), raw)
        res.eq("block.hash", bytes(hh), keccak(rlp(RB.header_fields(
            fork, h))))
        for x in c["wds"]:
            w = L.json_to_withdrawals(dict(
                index=hex(x["index"]), validatorIndex=hex(x["validator"]),
                address=hx(x["address"]), amount=hex(x["amount"])))
            res.eq("withdrawal", bytes(_rlp.encode(w)), rlp(
                [x["index"], x["validator"], x["address"], x["amount"]]))
        for t in c["txs"]:
            j = tx_json(t, dict(style=st & 3, typed=bool(st & 4)), {})
            j["gasLimit"], j["data"] = j.pop("gas"), j.pop("input")
            j.setdefault("to", "")
            if t["type"] and "v" not in j:
                j["v"] = j["y_parity"]
            x = TransactionLoad(j, L.fork).read()
            if fork >= BERLIN:
                x = L.fork.encode_transaction(x)
                x = x if isinstance(x, bytes) else bytes(_rlp.encode(x))
            else:
                x = bytes(_rlp.encode(x))
            res.eq("tx", x, RB.tx_encode(t))
        s_ = L.json_to_state(alloc_json(c["pre"], 6))
        res.eq("state", bytes(F.state.state_root(s_)),
               world_of(c["pre"]).root())
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res.fail("crash", "%s: %s at %s:%d" % (
            type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
    res.tag(c["fork"])
    res.nontrivial = True


# ----------------------------------------------------------------- daemon
_SRV = []


def server():
    if not _SRV or _SRV[0] != os.getpid():
        p = os.path.join(scratch(), "d.sock")
        o = PARSER.parse_args(["daemon", "--uds", p, "--timeout", "0"])
        t = threading.Thread(target=ET.Daemon(o).run, daemon=True)
        t.start()
        for _ in range(200):
            if os.path.exists(p):
                break
            time.sleep(0.02)
        _SRV[:] = [os.getpid(), p]
    return _SRV[1]


class Conn(http.client.HTTPConnection):
    def __init__(self, path):
        super().__init__("localhost", timeout=60)
        self.path = path

    def connect(self):
        self.sock = socket.socket(socket.AF_UNIX)
        self.sock.settimeout(60)
        for _ in range(100):
            try:
                return self.sock.connect(self.path)
            except OSError:
                time.sleep(0.02)
        self.sock.connect(self.path)


def make_daemon(s):
    reqs = []
    for _ in range(s.int(1, 3)):
        fork = s.int(0, 17)
        c = gen_case(s, fork, MIX_PLAIN, ntx=s.int(0, 2),
                     nstmt=lambda s_: s_.int(1, 3))
        c["reward"] = s.pick([-1, 8, 2 * 10**18])
        c["mode"] = s.weighted([(5, "plain"), (2, "trace"), (2, "count"),
                                (1, "bad")])
        reqs.append(c)
    return dict(reqs=reqs)


def run_daemon(c, res):
    path = server()
    cwd = os.getcwd()
    work = os.path.join(scratch(), "work")
    os.makedirs(work, exist_ok=True)
    os.chdir(work)                 # the tool's default output directory
    try:
        with redirect_stderr(io.StringIO()):
            for q in c["reqs"]:
                one_request(q, res, path)
                if res.bad:
                    return
    finally:
        os.chdir(cwd)
    res.nontrivial = True


def one_request(q, res, path):
    d = tempfile.mkdtemp(dir=scratch())
    try:
        body = dict(input=dict(env=env_json(q), alloc=alloc_json(
            q["pre"], q["alloc"]), txs=txs_json(q)),
            state=dict(fork=q["name"], chainid=q["blk"]["chain_id"],
                       reward=q["reward"]))
        m = q["mode"]
        if m == "trace":
            body["trace"], body["output-basedir"] = True, d
        if m == "count":
            body["count-opcodes"] = True
        if m == "bad":
            body.pop("state")
        k = Conn(path)
        k.request("POST", "/run", body=json.dumps(body))
        r = k.getresponse()
        raw = r.read()
        k.close()
        if m == "bad":
            if r.status < 400:
                res.fail("bad-status", r.status)
            res.tag("mode:bad")
            return
        if not res.eq("status", r.status, 200):
            return
        try:
            got = json.loads(raw)
        except ValueError:
            res.fail("response", raw[:200])
            return
        o = model(q)
        check_output(q, got, o, res)
        if m == "trace" and not o.block:
            n = len(glob.glob(d + "/trace-*.jsonl"))
            if n < sum(x["ok"] for x in o.out.receipts):
                res.fail("trace-files", n)
        if (m == "count") != ("opcodeCount" in got):
            res.fail("count", m)
        res.tag("mode:" + m, q["fork"])
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ names
NAME_CASES = [dict(name=n, number=k) for n, _, _ in AT5
              for k in (0, 1, 4, 5, 6, 100)] + [
    dict(name=n, number=1) for k in range(18) for n in names_of(k)] + [
    dict(name=n, number=1) for n in (
        "Constantinople", "constantinople", "Bogus", "", "Amsterdam")]


def run_names(c, res):
    n, k = c["name"], c["number"]
    want = None
    for f in range(18):
        if n in names_of(f):
            want = NAMES[f]
    for x, a, b in AT5:
        if x == n:
            want = NAMES[a if k < 5 else b]
    fork = IDX[want] if want else 0
    blk = dict(chain_id=1, coinbase=COINBASE, number=k, time=1000,
               gas_limit=10**7, difficulty=131072, randao=b"\1" * 32,
               base_fee=7, excess=0, beacon_root=b"\2" * 32)
    env = env_json(dict(fork=NAMES[fork], blk=dict(blk, number=max(k, 1)),
                        env=dict(style=0, ommers=[]), wds=[]))
    env["currentNumber"] = hex(k)
    alloc = {hx(EOA[0]): dict(balance="0x1")}
    if fork >= PRAGUE:
        for a in (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ):
            alloc[hx(a)] = dict(code="0x00", nonce="0x1")
    try:
        got = t8n(n, blk, env, alloc, [])
    except Bad as e:
        if want is not None or not str(e).startswith("exit"):
            res.fail("name", "%s at %d: %s" % (n, k, e))
        res.tag("refused")
        return
    if want is None:
        res.fail("accepted", n)
        return
    R = BLOCK_REWARD[want]
    a = read_alloc(got["alloc"])
    res.eq("reward", a.get(COINBASE, (0, 0))[1], R)
    res.eq("dao", len(a) > 20, fork == DAO)
    for key, f in (("currentBaseFee", LONDON), ("withdrawalsRoot", SHANGHAI),
                   ("blobGasUsed", CANCUN), ("requestsHash", PRAGUE)):
        res.eq(key, got["result"].get(key) is not None, fork >= f)
    res.nontrivial = True
    res.tag(want)


# share of the larger suites' cases that the quick tier runs
QUICK_SCALE = 0.75
SUITES = [
    Suite("names", lambda s: s.pick(NAME_CASES), run_names, len(NAME_CASES),
          400, "supported network name", exhaustive=NAME_CASES),
    Suite("t8n", make_t8n, run_t8n, 2000,
          rule="at least one transaction submitted"),
    Suite("short", make_short, run_t8n, 1600,
          rule="at least one transaction submitted"),
    Suite("state-test", make_st, run_st, 2000,
          rule="the transaction is accepted"),
    Suite("statetest-tool", make_tests, run_tests, 500,
          rule="a supported fork is tested"),
    Suite("b11r", make_b11r, run_b11r, 5000,
          rule="transactions, ommers or withdrawals"),
    Suite("loaders", make_load, run_load, 2500, rule="all"),
    Suite("daemon", make_daemon, run_daemon, 200, rule="all answered"),
]
