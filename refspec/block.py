"""Reference transactions, receipts, block bodies, headers and chains."""
import hashlib
from .forks import *
from .prim import keccak, rlp, unrlp, be, k1_recover, SECP_N, \
    ordered_root, EMPTY_ROOT, RLPError
from .world import World
from . import evm, precompiles, rules

H = bytes.fromhex
SYSTEM = b"\xff" * 19 + b"\xfe"
BEACON_ROOTS = H("000f3df6d732807ef1319fb7b8bb8522d0beac02")
HISTORY = H("0000f90827f1c53a10cb7a02335b175320002935")
WITHDRAWAL_REQ = H("00000961ef480eb55e80d19ad83579a64c007002")
CONSOLIDATION_REQ = H("0000bbddc7ce488642fb579f8b00f3a590007251")
DEPOSIT = H("00000000219ab540356cbb839cbe05303d7705fa")
DEPOSIT_TOPIC = H(
    "649bbc62d0e31342afea4e5cd82d4049e7e1ee912fc0889aa790803be39038c5")
EMPTY_OMMERS = keccak(b"\xc0")
MAX_RLP_BLOCK = 8 * 2**20      # EIP-7934: 10 MiB - 2 MiB margin
TYPE_FROM = {0: 0, 1: BERLIN, 2: LONDON, 3: CANCUN, 4: PRAGUE}


class Reject(Exception):
    """The block (or the transaction in it) is invalid."""


# ---------------------------------------------------------------- tx codec
def _to(tx):
    return tx["to"] if tx["to"] is not None else b""


def _access(tx):
    return [[a, [k.to_bytes(32, "big") for k in ks]]
            for a, ks in tx["access"]]


def _auths(tx):
    return [[a["chain_id"], a["address"], a["nonce"], a["y"], a["r"], a["s"]]
            for a in tx["auths"]]


def tx_fields(tx):
    """Unsigned field list."""
    t = tx["type"]
    if t == 0:
        return [tx["nonce"], tx["gas_price"], tx["gas"], _to(tx),
                tx["value"], tx["data"]]
    if t == 1:
        return [tx["chain_id"], tx["nonce"], tx["gas_price"], tx["gas"],
                _to(tx), tx["value"], tx["data"], _access(tx)]
    f = [tx["chain_id"], tx["nonce"], tx["prio"], tx["max_fee"], tx["gas"],
         _to(tx), tx["value"], tx["data"], _access(tx)]
    if t == 3:
        f += [tx["blob_fee"], list(tx["blobs"])]
    if t == 4:
        f += [_auths(tx)]
    return f


def tx_encode(tx):
    """Bytes as committed to the transactions trie."""
    body = rlp(tx_fields(tx) + [tx["v"], tx["r"], tx["s"]])
    return body if tx["type"] == 0 else bytes([tx["type"]]) + body


def signing_hash(tx):
    t = tx["type"]
    f = tx_fields(tx)
    if t == 0:
        if tx.get("chain_id") is not None:
            f = f + [tx["chain_id"], 0, 0]
        return keccak(rlp(f))
    return keccak(bytes([t]) + rlp(f))


def sender_of(fork, chain_id, tx):
    """Signer address or Reject."""
    r, s, v = tx["r"], tx["s"], tx["v"]
    if not 0 < r < SECP_N or not 0 < s < SECP_N:
        raise Reject("sig range")
    if fork >= HOMESTEAD and s > SECP_N // 2:
        raise Reject("high s")
    if tx["type"] == 0:
        if v in (27, 28):
            h = signing_hash(dict(tx, chain_id=None))
            par = v - 27
        elif fork >= SPURIOUS and v in (35 + 2 * chain_id, 36 + 2 * chain_id):
            h = signing_hash(dict(tx, chain_id=chain_id))
            par = v - 35 - 2 * chain_id
        else:
            raise Reject("v")
    else:
        if tx["chain_id"] != chain_id:
            raise Reject("chain id")
        if v not in (0, 1):
            raise Reject("parity")
        h, par = signing_hash(tx), v
    a = k1_recover(h, par, r, s)
    if a is None:
        raise Reject("unrecoverable")
    return a


# ---------------------------------------------------------------- logs
def bloom_of(logs):
    b = 0
    for a, topics, _ in logs:
        for x in [a] + list(topics):
            h = keccak(x)
            for i in (0, 2, 4):
                b |= 1 << (int.from_bytes(h[i:i + 2], "big") & 2047)
    return b.to_bytes(256, "big")


def rlp_logs(logs):
    return [[a, list(t), d] for a, t, d in logs]


def receipt_encode(r):
    body = rlp([r["root"] if r["root"] is not None else int(r["ok"]),
                r["gas"], r["bloom"], rlp_logs(r["logs"])])
    return body if r["type"] == 0 else bytes([r["type"]]) + body


# ---------------------------------------------------------------- tx exec
def max_cost(tx):
    price = tx["gas_price"] if tx["type"] < 2 else tx["max_fee"]
    c = tx["gas"] * price
    if tx["type"] == 3:
        c += rules.GAS_PER_BLOB * len(tx["blobs"]) * tx["blob_fee"]
    return c + tx["value"]


def admit(fork, w, blk, gas_used, blob_used, tx):
    """All validity rules; returns (sender, price per gas, intrinsic, floor)."""
    if fork < TYPE_FROM[tx["type"]]:
        raise Reject("type")
    intrinsic, floor = rules.intrinsic(fork, tx)
    if tx["gas"] < max(intrinsic, floor):
        raise Reject("intrinsic")
    if tx["nonce"] >= 2**64 - 1:
        raise Reject("nonce overflow")
    if fork >= SHANGHAI and tx["to"] is None and len(tx["data"]) > 49152:
        raise Reject("initcode")
    if fork >= OSAKA and tx["gas"] > rules.TX_GAS_CAP:
        raise Reject("gas cap")
    if tx["gas"] > blk.gas_limit - gas_used:
        raise Reject("block gas")
    sender = sender_of(fork, blk.chain_id, tx)
    base = blk.base_fee if fork >= LONDON else 0
    if tx["type"] >= 2:
        if tx["max_fee"] < tx["prio"]:
            raise Reject("prio > max")
        if tx["max_fee"] < base:
            raise Reject("max < base")
        price = min(tx["max_fee"], base + tx["prio"])
    else:
        if tx["gas_price"] < base:
            raise Reject("price < base")
        price = tx["gas_price"]
    if tx["type"] == 3:
        n = len(tx["blobs"])
        _, mx, _ = rules.BLOB[fork]
        if n == 0:
            raise Reject("no blobs")
        if fork >= OSAKA and n > 6:
            raise Reject("blob count")
        if blob_used + n * rules.GAS_PER_BLOB > mx * rules.GAS_PER_BLOB:
            raise Reject("blob gas")
        if any(b[0] != 1 for b in tx["blobs"]):
            raise Reject("blob version")
        if tx["blob_fee"] < rules.blob_price(fork, blk.excess_blob_gas):
            raise Reject("blob fee")
    if tx["type"] >= 3 and tx["to"] is None:
        raise Reject("create type")
    if tx["type"] == 4 and not tx["auths"]:
        raise Reject("no auths")
    if tx["nonce"] != w.nonce(sender):
        raise Reject("nonce")
    if w.balance(sender) < max_cost(tx):
        raise Reject("balance")
    code = w.code(sender)
    if code and not (fork >= PRAGUE and evm.is_delegation(code)):
        raise Reject("not eoa")
    return sender, price, intrinsic, floor


def apply_auths(t, auths):
    """EIP-7702 processing; returns the refund."""
    w, refund = t.w, 0
    for a in auths:
        if a["chain_id"] not in (0, t.blk.chain_id):
            continue
        if a["nonce"] >= 2**64 - 1:
            continue
        if a["s"] > SECP_N // 2:
            continue
        h = keccak(b"\x05" + rlp([a["chain_id"], a["address"], a["nonce"]]))
        who = k1_recover(h, a["y"], a["r"], a["s"])
        if who is None:
            continue
        t.warm_addr(who)
        c = w.code(who)
        if c and not evm.is_delegation(c):
            continue
        if w.nonce(who) != a["nonce"]:
            continue
        if w.exists(who):
            refund += 12500
        w.set_code(who, b"" if a["address"] == b"\0" * 20
                   else b"\xef\x01\x00" + a["address"])
        w.set_nonce(who, w.nonce(who) + 1)
        t.bump("auth_applied")
    return refund


def message(t, sender, to, value, data, gas, auths=(), code=None,
            transfer=True):
    """Outermost message of a transaction.

    Returns dict(ok, gas_left, out, refund)."""
    w, fork = t.w, t.fork
    base_refund = 0
    if to is None:
        new = keccak(rlp([sender, w.nonce(sender) - 1]))[12:]
        if evm.collides(w, new):
            t.bump("tx_collision")
            return dict(ok=False, gas_left=0, out=b"", refund=0,
                        created=new, error="collision")
        f = evm.Frame(t, new, sender, value, b"", data, gas, 0, False)
        t.warm_addr(new)
        ok, left, out = evm.create_frame(t, f)
        created = new
    else:
        t.warm_addr(to)
        if auths:
            base_refund = apply_auths(t, auths)
        c, delegated, target = evm.resolve_code(t, to)
        if delegated:
            t.warm_addr(target)
            t.bump("delegated_tx")
        f = evm.Frame(t, to, sender, value, data, c if code is None else code,
                      gas, 0, False)
        ok, left, out = evm.enter(t, f, transfer, to,
                                  no_precompile=delegated)
        created = None
    if not ok:
        t.logs.clear()
        t.dead.clear()
        t.touched.clear()
        t.refund = 0
    return dict(ok=ok, gas_left=left, out=out,
                refund=base_refund + t.refund, created=created)


class Output:
    def __init__(self):
        self.gas_used = 0
        self.blob_gas = 0
        self.receipts = []
        self.logs = []
        self.requests = []
        self.tx_bytes = []
        self.withdrawals = []
        self.stats = {}
        self.traces = []       # per tx: dict of observations


def process_tx(fork, w, blk, out, tx):
    sender, price, intrinsic, floor = admit(
        fork, w, blk, out.gas_used, out.blob_gas, tx)
    base = blk.base_fee if fork >= LONDON else 0
    blob_gas = rules.GAS_PER_BLOB * len(tx["blobs"]) if tx["type"] == 3 else 0
    blob_fee = blob_gas * rules.blob_price(fork, blk.excess_blob_gas) \
        if blob_gas else 0
    pre_total = w.total()
    w.set_nonce(sender, w.nonce(sender) + 1)
    w.set_balance(sender, w.balance(sender) - tx["gas"] * price - blob_fee)
    t = evm.Tx(fork, w, blk, sender, price,
               tx["blobs"] if tx["type"] == 3 else ())
    if fork >= BERLIN:
        t.warm_addr(sender)
        for a in precompiles.addresses(fork):
            t.warm_addr(a)
        for a, ks in tx.get("access", ()):
            t.warm_addr(a)
            for k in ks:
                t.warm_slot(a, k)
        if fork >= SHANGHAI:
            t.warm_addr(blk.coinbase)
    m = message(t, sender, tx["to"], tx["value"], tx["data"],
                tx["gas"] - intrinsic, tx.get("auths", ()))
    used = tx["gas"] - m["gas_left"]
    cap = used // (2 if fork < LONDON else 5)
    used -= min(cap, m["refund"])
    used = max(used, floor)
    w.add_balance(sender, (tx["gas"] - used) * price)
    fee = used * (price - base)
    cb = blk.coinbase
    if fork < SPURIOUS or w.balance(cb) + fee:
        w.add_balance(cb, fee)
    elif w.exists(cb) and not w.alive(cb):
        w.delete(cb)
    burnt_dead = sum(w.balance(x) for x in t.dead)
    for x in t.dead:
        w.delete(x)
    if fork >= SPURIOUS:
        for x in list(t.touched):
            if w.exists(x) and not w.alive(x):
                w.delete(x)
    w.undo.clear()
    out.gas_used += used
    out.blob_gas += blob_gas
    r = dict(type=tx["type"], ok=m["ok"], gas=out.gas_used,
             logs=list(t.logs), bloom=bloom_of(t.logs),
             root=w.root() if fork < BYZANTIUM else None)
    out.receipts.append(r)
    out.logs += r["logs"]
    out.tx_bytes.append(tx_encode(tx))
    for k, v in t.stats.items():
        out.stats[k] = out.stats.get(k, 0) + v
    out.stats["max_depth"] = max(out.stats.get("max_depth", 0), t.max_depth)
    out.traces.append(dict(
        sender=sender, used=used, ok=m["ok"], output=m["out"],
        refund=min(cap, m["refund"]), price=price, blob_fee=blob_fee,
        burnt=used * base + blob_fee, destroyed=burnt_dead,
        pre_total=pre_total, post_total=w.total(), created=m["created"],
        intrinsic=intrinsic, floor=floor))
    return t


def system_call(fork, w, blk, to, data):
    t = evm.Tx(fork, w, blk, SYSTEM, blk.base_fee)
    f = evm.Frame(t, to, SYSTEM, 0, data, w.code(to), 30_000_000, 0, False)
    code, delegated, target = evm.resolve_code(t, to)
    if delegated:
        f.code = code
    ok, left, out = evm.enter(t, f, False, to, no_precompile=delegated)
    if ok:
        for x in t.dead:
            w.delete(x)
    for x in list(t.touched):
        if w.exists(x) and not w.alive(x):
            w.delete(x)
    w.undo.clear()
    return ok, out


def deposit_request(data):
    if len(data) != 576:
        raise Reject("deposit length")
    wd = [int.from_bytes(data[i:i + 32], "big") for i in range(0, 576, 32)]
    if wd[:5] != [160, 256, 320, 384, 512]:
        raise Reject("deposit offsets")
    if (wd[5], wd[8], wd[10], wd[12], wd[16]) != (48, 32, 8, 96, 8):
        raise Reject("deposit sizes")
    return (data[192:240] + data[288:320] + data[352:360] + data[416:512]
            + data[544:552])


def run_body(fork, w, blk, txs, withdrawals=(), ommers=()):
    """Execute a block body on world w (mutated); Reject if invalid."""
    out = Output()
    if fork >= CANCUN:
        system_call(fork, w, blk, BEACON_ROOTS, blk.beacon_root)
    if fork >= PRAGUE:
        system_call(fork, w, blk, HISTORY, blk.hashes[-1])
    for tx in txs:
        process_tx(fork, w, blk, out, tx)
    pay_withdrawals(w, out, withdrawals)
    if fork < PARIS:
        pay_rewards(fork, w, blk, ommers)
    if fork >= PRAGUE:
        collect_requests(fork, w, blk, out)
    w.undo.clear()
    return out


def pay_withdrawals(w, out, withdrawals):
    for x in withdrawals:
        out.withdrawals.append(rlp(
            [x["index"], x["validator"], x["address"], x["amount"]]))
        w.add_balance(x["address"], x["amount"] * 10**9)
        if not w.alive(x["address"]):
            w.delete(x["address"])


def collect_requests(fork, w, blk, out):
    dep = b"".join(
        deposit_request(d) for r in out.receipts
        for a, topics, d in r["logs"]
        if a == DEPOSIT and topics[:1] == [DEPOSIT_TOPIC])
    reqs = [b"\x00" + dep] if dep else []
    for n, addr in ((1, WITHDRAWAL_REQ), (2, CONSOLIDATION_REQ)):
        if not w.code(addr):
            raise Reject("no system contract")
        ok, ret = system_call(fork, w, blk, addr, b"")
        if not ok:
            raise Reject("system call failed")
        if ret:
            reqs.append(bytes([n]) + ret)
    out.requests = reqs


def pay_rewards(fork, w, blk, ommers):
    R = BLOCK_REWARD[NAMES[fork]]
    w.add_balance(blk.coinbase, R + len(ommers) * (R // 32))
    for o in ommers:
        w.add_balance(o["coinbase"], R * (8 - (blk.number - o["number"])) // 8)


def requests_hash(reqs):
    return hashlib.sha256(b"".join(
        hashlib.sha256(r).digest() for r in reqs)).digest()


# ---------------------------------------------------------------- headers
def header_fields(fork, h, sealed=True):
    f = [h["parent_hash"], h["ommers_hash"], h["coinbase"], h["state_root"],
         h["transactions_root"], h["receipt_root"], h["bloom"],
         h["difficulty"], h["number"], h["gas_limit"], h["gas_used"],
         h["timestamp"], h["extra_data"]]
    if sealed:
        f += [h["mix"], h["nonce"]]
    if fork >= LONDON:
        f.append(h["base_fee"])
    if fork >= SHANGHAI:
        f.append(h["withdrawals_root"])
    if fork >= CANCUN:
        f += [h["blob_gas_used"], h["excess_blob_gas"], h["beacon_root"]]
    if fork >= PRAGUE:
        f.append(h["requests_hash"])
    return f


def header_hash(fork, h):
    return keccak(rlp(header_fields(fork, h)))


def pow_hash(fork, h):
    return keccak(rlp(header_fields(fork, h, sealed=False)))


def blk_ctx(fork, h, chain_id, hashes):
    return evm.BlockCtx(
        chain_id=chain_id, coinbase=h["coinbase"], number=h["number"],
        time=h["timestamp"], gas_limit=h["gas_limit"],
        difficulty=h["difficulty"], prev_randao=h["mix"],
        base_fee=h.get("base_fee"), hashes=hashes,
        excess_blob_gas=h.get("excess_blob_gas", 0),
        beacon_root=h.get("beacon_root", b"\0" * 32))


def commitments(fork, w, out, ommers=()):
    """Header fields that the execution result determines."""
    c = dict(state_root=w.root(), gas_used=out.gas_used,
             transactions_root=ordered_root(out.tx_bytes),
             receipt_root=ordered_root(
                 [receipt_encode(r) for r in out.receipts]),
             bloom=bloom_of(out.logs))
    if fork >= SHANGHAI:
        c["withdrawals_root"] = ordered_root(out.withdrawals)
    if fork >= CANCUN:
        c["blob_gas_used"] = out.blob_gas
    if fork >= PRAGUE:
        c["requests_hash"] = requests_hash(out.requests)
    return c


def ommers_hash(fork, ommers):
    return keccak(rlp([header_fields(fork, o) for o in ommers]))


def check_header(fork, parent_fork, parent, h, fork_block=None, pow_ok=None,
                 parent_hash=None):
    """Every header rule relative to its parent; Reject on violation.

    fork_block: number of the first block of the fork (London, DAO rules).
    pow_ok: function(fork, header) -> bool for proof-of-work forks."""
    if h["number"] != parent["number"] + 1:
        raise Reject("number")
    if h["timestamp"] <= parent["timestamp"]:
        raise Reject("time")
    if h["gas_used"] > h["gas_limit"]:
        raise Reject("gas used")
    if len(h["extra_data"]) > 32:
        raise Reject("extra")
    first = fork_block is not None and h["number"] == fork_block
    pl = parent["gas_limit"]
    if fork == LONDON and first:
        pl *= 2                      # EIP-1559 elasticity at the fork block
    if not rules.gas_limit_ok(h["gas_limit"], pl):
        raise Reject("gas limit")
    if fork >= LONDON:
        if fork == LONDON and first:
            want = 10**9
        else:
            want = rules.next_base_fee(parent["gas_limit"],
                                       parent["gas_used"],
                                       parent["base_fee"])
        if h["base_fee"] != want:
            raise Reject("base fee")
    if h["parent_hash"] != (parent_hash or header_hash(parent_fork, parent)):
        raise Reject("parent hash")
    if fork < PARIS:
        want = rules.difficulty(
            fork, h["number"], h["timestamp"], parent["timestamp"],
            parent["difficulty"], parent["ommers_hash"] != EMPTY_OMMERS)
        if h["difficulty"] != want:
            raise Reject("difficulty")
        if fork == DAO and fork_block is not None and \
                0 <= h["number"] - fork_block < 10 and \
                h["extra_data"] != b"dao-hard-fork":
            raise Reject("dao extra")
        if pow_ok is not None and not pow_ok(fork, h):
            raise Reject("pow")
    else:
        if h["difficulty"] != 0 or h["nonce"] != b"\0" * 8 \
                or h["ommers_hash"] != EMPTY_OMMERS:
            raise Reject("pos fields")
    if fork >= CANCUN:
        pre = parent_fork < CANCUN
        want = rules.next_excess(
            fork, 0 if pre else parent["excess_blob_gas"],
            0 if pre else parent["blob_gas_used"],
            0 if pre else parent["base_fee"])
        if h["excess_blob_gas"] != want:
            raise Reject("excess blob")


def check_ommers(fork, ommers, h, chain, check):
    """chain: list of (header, hash, ommer list), oldest first.
    check(ommer): header validity against the chain (raises Reject)."""
    if ommers_hash(fork, ommers) != h["ommers_hash"]:
        raise Reject("ommers hash")
    if len(ommers) > 2:
        raise Reject("too many ommers")
    hs = [header_hash(fork, o) for o in ommers]
    if len(set(hs)) != len(hs):
        raise Reject("duplicate ommers")
    recent = chain[-7:]
    anc = {x[1] for x in recent}
    seen = {header_hash(fork, o) for x in recent for o in x[2]}
    for o, oh in zip(ommers, hs):
        if not 1 <= h["number"] - o["number"] <= 6:
            raise Reject("ommer age")
        if oh in anc or oh in seen:
            raise Reject("ommer known")
        if o["parent_hash"] not in anc or \
                o["parent_hash"] == h["parent_hash"]:
            raise Reject("ommer parent")
        check(o)
