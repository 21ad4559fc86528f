"""C29: optimised state and proof-of-work against the plain ones."""
import contextlib, importlib, os, shutil, sys, tempfile
from lib.pbt import Suite
from lib import gen as G, stateops as SO
from lib.suites import any_fork
from lib.chain import *
from lib.adapt import (Fork, preload, REJECTS, Bytes, Bytes20, Bytes32,
                       U256, Uint)
from checks.c20 import make_hist as c20_hist
import ethash
import ethereum

ASSUME = ("Operation histories respect the documented protocol: database "
          "operations outside transactions, storage set on existing "
          "accounts only.  Proof of work is compared at difficulties of at "
          "least 2 (the protocol's minimum is 131072) ; "
          "the installed ethash library is taken as correct (C26 decides "
          "the Python one), the glue around it is what is checked.")


# ------------------------------------------------- private optimised copy
class OptFork(Fork):
    """A fork package with the optimised parts patched in, imported aside
    so that the plain packages stay as they are."""

    def __new__(cls, name):
        return OPT[name if isinstance(name, int) else IDX[name]]

    def __reduce__(self):
        return (OptFork, (self.name,))

    def mod(self, path):
        return self._m[path]

    @contextlib.contextmanager
    def active(self):
        """Functions that import when called find the private modules."""
        keep = {m: sys.modules.get(m) for m in self.all}
        sys.modules.update(self.all)
        try:
            yield
        finally:
            for m, x in keep.items():
                if x is None:
                    del sys.modules[m]
                else:
                    sys.modules[m] = x


def load_optimised():
    def ours(m):
        return any(m == "ethereum." + n or m.startswith("ethereum.%s." % n)
                   for n in NAMES)
    keep = {m: x for m, x in sys.modules.items() if ours(m)}
    attrs = {n: getattr(ethereum, n) for n in NAMES if hasattr(ethereum, n)}
    for m in keep:
        del sys.modules[m]
    out = []
    try:
        import ethereum_optimized
        ethereum_optimized.monkey_patch(None)
        for k, n in enumerate(NAMES):
            o = object.__new__(OptFork)
            o.name, o.k, o._m = n, k, {}
            for sub in ("", "fork", "state", "blocks", "transactions",
                        "trie", "fork_types", "vm", "vm.gas", "bloom",
                        "vm.interpreter"):
                o._m[sub] = importlib.import_module(
                    "ethereum.%s%s" % (n, "." + sub if sub else ""))
            out.append(o)
        for o in out:
            p = "ethereum." + o.name
            o.all = {m: x for m, x in sys.modules.items()
                     if m == p or m.startswith(p + ".")}
    finally:
        for m in [m for m in sys.modules if ours(m)]:
            del sys.modules[m]
        sys.modules.update(keep)
        for n, x in attrs.items():
            setattr(ethereum, n, x)
    return out


preload()
OPT = load_optimised()


# ---------------------------------------------------------------- API
def make_api(s):
    k = any_fork(s)
    return dict(fork=k, ops=SO.gen_ops(s, k, s.int(3, 40), marks_any=True))


def make_db(s):
    k = any_fork(s)
    return dict(fork=k, ops=SO.gen_ops(s, k, s.int(3, 40), marks_any=True,
                                       db=True))


def check_obs(api, m, res, where, meta):
    got, want = api.observe(meta), SO.expect(m, meta)
    bad = SO.diff(got, want)
    # the recorded deviations, precisely
    for x in m.kept:
        n = "has_storage " + x.hex()[:2]
        if (got[n], want[n]) == (True, False) and m.snaps:
            bad = [b for b in bad if not b.startswith(n)]
            res.fail("has-storage-after-zeroing", "account_has_storage "
                     "stays true when every stored slot of the account was "
                     "set to zero")
    if not m.snaps:
        m.settle()
    if m.tainted:
        for n in ["root"] + ["storage_root " + x.hex()[:2]
                             for x in m.tainted]:
            if n in want and got.get(n) != want[n]:
                bad = [b for b in bad if not b.startswith(n + ":")]
                res.fail("root-after-db-rollback", "after a database "
                         "rollback the storage root computed in the dropped "
                         "transaction is still used")
    if bad:
        res.fail("state-api", "%s: %s" % (where, "; ".join(bad[:4])))
        return False
    return True


def run_api(c, res):
    F = OPT[c["fork"]]
    db = any(o[0] in ("db_commit", "db_rollback", "reopen", "crash", "meta")
             for o in c["ops"])
    d = tempfile.mkdtemp(prefix="c29-") if db else None
    api = None
    try:
        api = SO.Api(F, F.state, d)
        R = None if db else SO.Api(Fork(c["fork"]), Fork(c["fork"]).state)
        m = SO.Model(F.k)
        depth = 0
        for i, o in enumerate(c["ops"]):
            for which, x in (("optimised", api), ("reference", R)):
                if x is None:
                    continue
                try:
                    x.do(o)
                except Exception as e:
                    res.fail("crash", "%s, op %d %s: %s: %s" % (
                        which, i, o[0], type(e).__name__, e))
                    return
            SO.apply_model(m, o)
            depth = max(depth, len(m.snaps))
            if o[0] in ("commit", "rollback", "observe", "begin", "reopen",
                        "crash", "db_rollback", "destroy_storage",
                        "destroy_account") or i == len(c["ops"]) - 1:
                where = "after op %d %s" % (i, o[0])
                if not check_obs(api, m, res, where, db):
                    return
                if R is not None:
                    bad = SO.diff(R.observe(), SO.expect(m))
                    if bad:
                        res.fail("reference", "%s: %s" % (where, bad[:4]))
                        return
            res.tag("op:" + o[0])
        if not m.snaps and not m.tainted:
            # equality is equality of roots
            st2 = F.make_state(m.world())
            if not (api.st == st2):
                res.fail("eq", "states with equal content differ")
            F.state.set_account(st2, Bytes20(b"\x77" * 20), F.types.Account(
                nonce=Uint(1), balance=U256(0), code=Bytes(b"")))
            if api.st == st2:
                res.fail("eq", "states with other content are equal")
            F.state.close_state(st2)
        res.nontrivial = any(o[0] in ("rollback", "db_rollback", "crash",
                                      "reopen") for o in c["ops"])
        res.tag(F.name)
    finally:
        if api is not None:
            F.state.close_state(api.st)
        if d:
            shutil.rmtree(d)


# ------------------------------------------------- killed process
def make_kill(s):
    c = make_db(s)
    c["at"] = s.below(len(c["ops"]) + 1)
    return c


def run_kill(c, res):
    """The process dies at some operation: committed work, no more no less,
    is found on reopening."""
    F = OPT[c["fork"]]
    d = tempfile.mkdtemp(prefix="c29-")
    try:
        m = SO.Model(F.k)
        for o in c["ops"][:c["at"]]:
            SO.apply_model(m, o)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                api = SO.Api(F, F.state, d)
                for o in c["ops"][:c["at"]]:
                    api.do(o)
                code = 9
            finally:
                os._exit(code)
        st = os.waitpid(pid, 0)[1]
        if os.waitstatus_to_exitcode(st) != 9:
            res.fail("crash", "the operations raised")
            return
        SO.apply_model(m, ["crash"])
        api = SO.Api(F, F.state, d)
        try:
            check_obs(api, m, res, "after reopening", True)
        finally:
            F.state.close_state(api.st)
        res.nontrivial = bool(m.a or m.meta)
    finally:
        shutil.rmtree(d)


# ---------------------------------------------------------------- blocks
MIX = dict(store=8, expr=2, env=3, acct=3, call=7, create=5, sd=4, log=2,
           transient=3, copy=1, ret=2, revert=3, stop=1, invalid=1)


def make_body(s):
    return G.gen_body(s, G.pick_fork(s), MIX, ntx=s.int(1, 4))


def run_body(c, res):
    F = OPT[IDX[c["fork"]]]
    with F.active():
        want, w, got, st = G.run_case_body(F, c, res)
    if st is not None:
        F.state.close_state(st)
    res.tag(c["fork"])
    if want is not None:
        for k in want.stats:
            if k != "max_depth":
                res.tag("did:" + k)
        res.nontrivial = True


def make_chain(s):
    c = c20_hist(s)
    c["between"] = [s.pick(["", "commit", "reopen"])
                    for _ in range(len(c["blocks"]))]
    return c


def run_chain(c, res):
    fork = c["blocks"][0]["fork"]
    F = OPT[fork]
    S = F.state
    d = tempfile.mkdtemp(prefix="c29-")
    live = [None]
    try:
        src = world_of(c["pre"])
        S.State.default_path = d
        try:
            st = F.make_state(src)
        finally:
            S.State.default_path = None
        live[0] = st

        def between(n, chain):
            k = c["between"][n]
            if k == "commit":
                S.commit_db_transaction(chain.state)
                S.begin_db_transaction(chain.state)
            elif k == "reopen":
                S.commit_db_transaction(chain.state)
                S.close_state(chain.state)
                live[0] = chain.state = S.State(d)
            res.tag("between:" + k)
        with F.active():
            n = run_history(c, res, state=st, mk=lambda k: OPT[k],
                            between=between)
        res.nontrivial = bool(n)
    finally:
        if live[0] is not None and live[0].db is not None:
            S.close_state(live[0])
        shutil.rmtree(d)


# ---------------------------------------------------------------- proof of work
def make_fake(s):
    return make_pow(s, True)


def make_pow(s, fake=False):
    fork = s.int(0, PARIS - 1)
    tip = gen_tip(s, fork, s.pick(
        [0, 29_998, 29_999, 30_000, 59_999, s.below(2**24)] if fake else
        [0, 1, s.below(29_990)]))
    h = child_header(s, fork, fork, tip)
    for k in ("state_root", "transactions_root", "receipt_root"):
        h[k] = s.bytes(32)
    h["gas_used"] = s.below(h["gas_limit"])
    return dict(fork=fork, h=h, tip=tip, salt=s.bytes(8), bit=s.below(256),
                fake=fake,
                mode=s.weighted([(4, "edge"), (3, "field"), (2, "nonce"),
                                 (2, "mix")] + [(1, "number")] * fake),
                field=s.pick([f for f in header_targets(fork)
                              if f not in ("nonce", "mix")
                              and (fake or f != "number")]),
                delta=s.pick([-1, 0, 0, 1, 2]))


def fake_hash(epoch, hh, nonce):
    t = bytes(hh) + b"%d/%d" % (epoch, nonce)
    return keccak(b"r" + t), keccak(b"m" + t)


def hm(c, number, hh, nonce):
    """(mix, result) of the native library or of its stand-in."""
    f = fake_hash if c["fake"] else ethash.hash
    r, m = f(number // 30000, bytes(hh), int.from_bytes(bytes(nonce), "big"))
    return bytes(m), bytes(r)


def solve(c, h):
    m, r = hm(c, h["number"], RB.pow_hash(c["fork"], h), h["nonce"])
    return m, int.from_bytes(r, "big")


def run_pow(c, res):
    fork, h, mode = c["fork"], dict(c["h"]), c["mode"]
    F, P = OPT[fork], Fork(fork)
    lim = 2**256
    if mode in ("edge", "field", "mix", "number"):
        # the difficulty is sealed: iterate to one on its own boundary
        d = 2
        for i in range(60):
            h["nonce"] = keccak(c["salt"] + bytes([i]))[:8]
            h["difficulty"] = max(2, d)
            r = solve(c, h)[1]
            d = lim // max(1, r)
            if r <= lim // h["difficulty"] and i > 4:
                break
        if mode == "edge":
            h["difficulty"] = max(2, h["difficulty"] + c["delta"])
    h["mix"] = solve(c, h)[0]
    if mode == "mix":
        h["mix"] = (int.from_bytes(h["mix"], "big")
                    ^ (1 << c["bit"])).to_bytes(32, "big")
    elif mode == "nonce":
        h["nonce"] = (int.from_bytes(h["nonce"], "big")
                      ^ (1 << c["bit"] % 64)).to_bytes(8, "big")
    elif mode == "number":
        h["number"] += 30000
    elif mode == "field":
        from lib.pbt import Src
        import random
        keep = h["nonce"], h["mix"]
        mutate_field(Src(random.Random(c["salt"])), fork, h, c["tip"],
                     c["field"])
        h["nonce"], h["mix"] = keep
        h["difficulty"] = max(2, h["difficulty"])
        h["number"] %= 90000
    mix, r = solve(c, h)
    ok = mix == h["mix"] and r <= lim // h["difficulty"]

    def verdict(G_, header):
        try:
            G_.fork.validate_proof_of_work(header)
            return True
        except REJECTS:
            return False
    called = []

    def verify(epoch, hh, m, nonce, boundary):
        called.append(1)
        r_, m_ = fake_hash(epoch, hh, nonce)
        if len(boundary) != 32:
            raise ValueError("boundary")
        return m_ == bytes(m) and r_ <= bytes(boundary)
    keep_v = ethash.verify
    if c["fake"]:
        ethash.verify = verify
    try:
        got = verdict(F, F.header(h))
    finally:
        ethash.verify = keep_v
    if c["fake"] and not called:
        res.tag("stand-in unused")
        return
    # the plain check over the same Hashimoto
    names = dict(generate_cache=lambda n: None,
                 dataset_size=lambda n: Uint(128),
                 hashimoto_light=lambda hh, nonce, cache, size: (
                     Bytes(hm(c, h["number"], hh, nonce)[0]), Bytes32(
                         hm(c, h["number"], hh, nonce)[1])))
    old = {k: getattr(P.fork, k) for k in names if hasattr(P.fork, k)}
    if len(old) == len(names):
        for k in old:
            setattr(P.fork, k, names[k])
        try:
            plain = verdict(P, P.header(h))
        finally:
            for k, v in old.items():
                setattr(P.fork, k, v)
        if plain != ok:
            res.fail("plain", "the plain check says %s" % plain)
    if got != ok:
        res.fail("verdict", "mode %s: optimised check says %s, expected %s"
                 % (mode, got, ok))
    res.tag(mode, "valid" if ok else "invalid", F.name)
    res.nontrivial = True


# share of the larger suites' cases that the quick tier runs
QUICK_SCALE = 0.8
SUITES = [
    Suite("api", make_api, run_api, 10000, None,
          "3-40 state operations with nested transactions on the optimised "
          "state, the plain state and a dictionary model; non-trivial: "
          "some rollback or reopening"),
    Suite("database", make_db, run_api, 6000, None,
          "the same with database commits, rollbacks, reopenings, losses "
          "of the process and metadata, against the model"),
    Suite("killed", make_kill, run_kill, 800, None,
          "a child process killed after some operation; the parent reopens "
          "the database; non-trivial: something had been committed"),
    Suite("bodies", make_body, run_body, 4000, None,
          "block bodies of 1-4 transactions executed on the optimised "
          "state against the model"),
    Suite("chains", make_chain, run_chain, 2000, None,
          "chains of 1-3 blocks (some invalid) on the optimised state with "
          "database commits and reopenings between blocks"),
    Suite("pow-native", make_pow, run_pow, 700, None,
          "headers of the first epoch decided by the native library, on and "
          "off the boundary"),
    Suite("pow", make_fake, run_pow, 3000, None,
          "headers with proof of work on the boundary, then one field, the "
          "nonce, the mix or the epoch changed, the native verifier being "
          "replaced by a stand-in over its documented arguments"),
]
