"""C27: fork schedule, discovery and transitions."""
import importlib, os, shutil, tempfile
from pathlib import Path
from lib.pbt import Suite
from lib.chain import *
from lib.adapt import preload, U256
from ethereum import fork_criteria as FC
from ethereum_spec_tools.forks import Hardfork, ConsensusType

ASSUME = ("Schedules are the documented ones: block numbers, timestamps or "
          "unscheduled; on the DAO transition every listed account exists, "
          "as on mainnet.  The mainnet schedule is written down in the "
          "check.  Several forks may activate at one block, except that "
          "London has its mainnet number and Prague at least one block.")
MAINNET = [
    ("frontier", 0, 0), ("homestead", 0, 1150000), ("dao_fork", 0, 1920000),
    ("tangerine_whistle", 0, 2463000), ("spurious_dragon", 0, 2675000),
    ("byzantium", 0, 4370000), ("constantinople", 0, 7280000),
    ("istanbul", 0, 9069000), ("muir_glacier", 0, 9200000),
    ("berlin", 0, 12244000), ("london", 0, 12965000),
    ("arrow_glacier", 0, 13773000), ("gray_glacier", 0, 15050000),
    ("paris", 0, 15537394), ("shanghai", 1, 1681338455),
    ("cancun", 1, 1710338135), ("prague", 1, 1746612311),
    ("osaka", 2, 0)]


# ---------------------------------------------------------------- criteria
def gen_crit(s):
    k = s.weighted([(4, 0), (4, 1), (1, 2)])
    return [k, 0 if k == 2 else s.weighted(
        [(3, s.below(4)), (2, s.below(2**20)), (1, 2**64), (1, 2**256 - 1),
         (1, 15537394)])]


def crit(x):
    k, v = x
    return (FC.ByBlockNumber(v) if k == 0 else FC.ByTimestamp(v) if k == 1
            else FC.Unscheduled())


def active(x, number, time):
    return (number >= x[1] if x[0] == 0 else time >= x[1] if x[0] == 1
            else False)


def make_crit(s):
    cs = [gen_crit(s) for _ in range(s.int(2, 6))]
    pts = []
    for _ in range(5):
        c = s.pick(cs)
        pts.append([max(0, c[1] + s.int(-1, 1)) if s.bool() else
                    s.below(2**20),
                    min(2**256 - 1, max(0, c[1] + s.int(-1, 1)))
                    if s.bool() else s.below(2**20)])
    return dict(cs=cs, pts=pts)


def run_crit(c, res):
    cs = [tuple(x) for x in c["cs"]]
    ob = [crit(x) for x in cs]
    for x, a in zip(cs, ob):
        for y, b in zip(cs, ob):
            for n, f in (("==", lambda p, q: p == q),
                         ("!=", lambda p, q: p != q),
                         ("<", lambda p, q: p < q),
                         ("<=", lambda p, q: p <= q),
                         (">", lambda p, q: p > q),
                         (">=", lambda p, q: p >= q)):
                if bool(f(a, b)) != f(x, y):
                    res.fail("order", "%s %s %s is %s" % (x, n, y, f(a, b)))
            if x == y and hash(a) != hash(b):
                res.fail("hash", "equal criteria, different hashes")
    order = [o for o in sorted(ob)]
    want = sorted(cs)
    if [repr(o) for o in order] != [repr(crit(x)) for x in want]:
        res.fail("sorted", "%r" % order)
    for n, t in c["pts"]:
        for x, a in zip(cs, ob):
            if bool(a.check(Uint(n), U256(t))) != active(x, n, t):
                res.fail("check", "%s at (%d, %d)" % (x, n, t))
    res.nontrivial = len(set(cs)) > 1
    for k in {x[0] for x in cs}:
        res.tag("kind:%d" % k)


# ---------------------------------------------------------------- mainnet
_found = []


def found():
    if not _found:
        _found.extend(Hardfork.discover())
    return _found


def make_walk(s):
    """A chain's (number, time) history, sometimes jumping to boundaries."""
    n, t = s.pick([0, 0, 1149990, s.below(16 * 10**6)]), s.pick(
        [1438269973, 1681338000, 1500000000, 0])
    steps = [[n, t]]
    for _ in range(s.int(3, 25)):
        k = s.below(4)
        if k == 0:
            n, t = n + 1, t + s.int(1, 30)
        elif k == 1:
            b = [x[2] for x in MAINNET if x[1] == 0 and x[2] > n]
            n = max(n + 1, s.pick(b) + s.int(-1, 1)) if b else n + 1
            t += s.int(1, 10**6)
        elif k == 2:
            b = [x[2] for x in MAINNET if x[1] == 1 and x[2] > t]
            t = max(t + 1, s.pick(b) + s.int(-1, 1)) if b else t + 12
            n += 1
        else:
            n, t = n + s.below(3 * 10**6), t + s.below(10**8)
        steps.append([n, t])
    return dict(steps=steps)


def run_walk(c, res):
    fs = found()
    last = -1
    for n, t in c["steps"]:
        got = [f.short_name for f in fs if f.has_activated(Uint(n), U256(t))]
        want = [x[0] for x in MAINNET if active(x[1:], n, t)]
        if got != want:
            res.fail("active", "at (%d, %d): %s, expected %s" % (
                n, t, got[-2:], want[-2:]))
            return
        # block-number forks all precede; on a real chain the set is a
        # prefix of the schedule once the merge has been passed
        i = max(j for j, x in enumerate(MAINNET) if x[0] in got)
        if i < last:
            res.fail("regress", "fork %d after %d" % (i, last))
        last = i
    res.nontrivial = len(c["steps"]) > 3
    res.tag("ends:" + MAINNET[last][0])


def run_disc(c, res):
    fs = found() if c["cached"] else Hardfork.discover()
    res.eq("names", [f.short_name for f in fs], [x[0] for x in MAINNET])
    for f, (name, k, v) in zip(fs, MAINNET):
        if not f.criteria == crit((k, v)):
            res.fail("criteria", "%s: %r" % (name, f.criteria))
        res.eq("consensus", f.consensus, ConsensusType.PROOF_OF_WORK
               if IDX[name] < PARIS else ConsensusType.PROOF_OF_STAKE)
        res.eq("is_pow", (f.consensus.is_pow(), f.consensus.is_pos()),
               (IDX[name] < PARIS, IDX[name] >= PARIS))
        for attr, kk in (("block", 0), ("timestamp", 1)):
            try:
                g = int(getattr(f, attr))
            except AttributeError:
                g = None
            res.eq(attr, g, v if k == kk else None)
        res.eq("name", f.name, "ethereum." + name)
        res.eq("title", f.title_case_name, name.replace("_", " ").title())
        res.eq("path", os.path.basename(f.path), name)
        mods = {m.name for m in f.iter_modules()}
        for need in ("fork", "state", "trie", "blocks", "vm", "fork_types",
                     "transactions"):
            if f.name + "." + need not in mods:
                res.fail("modules", "%s lacks %s" % (name, need))
        if f.module("fork") is not Fork(name).fork:
            res.fail("module", name)
    res.nontrivial = True


# ------------------------------------------------- discovery elsewhere
def make_tree(s):
    used, pk = set(), []
    for i in range(s.int(0, 6)):
        c = tuple(gen_crit(s))
        if c in used:
            continue
        used.add(c)
        pk.append([s.pick(["alpha", "beta", "gam_ma", "d", "zz", "frontier"])
                   + str(i), list(c)])
    return dict(packages=pk, plain=s.below(3), modules=s.below(2),
                nested=s.bool())


def run_tree(c, res):
    d = tempfile.mkdtemp(prefix="c27-")
    try:
        base = Path(d) / "ethereum"
        base.mkdir()
        (base / "__init__.py").write_text("")
        for name, (k, v) in c["packages"]:
            p = base / name
            p.mkdir()
            (p / "__init__.py").write_text(
                "from ethereum.fork_criteria import *\nFORK_CRITERIA = %s\n"
                % ("ByBlockNumber(%d)" % v if k == 0 else
                   "ByTimestamp(%d)" % v if k == 1 else "Unscheduled()"))
            (p / "blocks.py").write_text("")
            (p / "vm").mkdir()
            (p / "vm" / "__init__.py").write_text("")
            (p / "vm" / "gas.py").write_text("")
        for i in range(c["plain"]):
            (base / ("util%d" % i)).mkdir()
            (base / ("util%d" % i) / "__init__.py").write_text("X = 1\n")
        for i in range(c["modules"]):
            (base / ("file%d.py" % i)).write_text(
                "from ethereum.fork_criteria import *\n"
                "FORK_CRITERIA = ByBlockNumber(3)\n")
        fs = Hardfork.discover(base)
        want = sorted(c["packages"], key=lambda x: tuple(x[1]))
        res.eq("names", [f.short_name for f in fs], [x[0] for x in want])
        for f, (name, x) in zip(fs, want):
            if not f.criteria == crit(tuple(x)):
                res.fail("criteria", name)
            res.eq("path", os.path.realpath(f.path),
                   os.path.realpath(base / name))
            res.eq("iter", sorted(m.name for m in f.iter_modules()),
                   ["ethereum.%s.blocks" % name, "ethereum.%s.vm" % name])
    finally:
        shutil.rmtree(d)
    res.nontrivial = len(c["packages"]) > 1
    res.tag("packages:%d" % len(c["packages"]))


# ---------------------------------------------------------------- load
def make_load(s):
    names = s.sample(NAMES, s.int(1, len(NAMES)))
    used, cfg = set(), []
    for n in names:
        c = tuple(gen_crit(s))
        if c in used:
            continue
        used.add(c)
        cfg.append([n, list(c)])
    j = sorted(s.below(1000) for _ in range(9))
    return dict(cfg=cfg, pts=[[s.below(1000), s.below(1000)]
                              for _ in range(4)], json=s.chance(40), j=j,
                time=s.below(1000), track=s.bool())


KEYS_ = ["homesteadBlock", "eip150Block", "eip155Block", "byzantiumBlock",
         "constantinopleBlock", "istanbulBlock", "berlinBlock",
         "londonBlock", "mergeForkBlock"]
GETH = ["homestead", "tangerine_whistle", "spurious_dragon", "byzantium",
        "constantinople", "istanbul", "berlin", "london", "paris"]


def run_load(c, res):
    keep = {n: importlib.import_module("ethereum." + n).FORK_CRITERIA
            for n in NAMES}
    try:
        if c["json"]:
            # distinct activation blocks, as the loader's mapping needs
            vals = [v * 10 + i + 1 for i, v in enumerate(c["j"])]
            cfg = [("frontier", (0, 0))] + [
                (n, (0, v)) for n, v in zip(GETH, vals)] + [
                ("shanghai", (1, c["time"]))]
            fs = Hardfork.load_from_json(dict(config=dict(
                list(zip(KEYS_, vals)) + [("shanghaiTime", c["time"])])))
            res.tag("json")
        else:
            cfg = [(n, tuple(x)) for n, x in c["cfg"]]
            fs = Hardfork.load({crit(x): n for n, x in cfg})
        want = sorted(cfg, key=lambda x: x[1])
        res.eq("names", [f.short_name for f in fs], [n for n, _ in want])
        for f, (n, x) in zip(fs, want):
            if not f.criteria == crit(x) or not (
                    importlib.import_module("ethereum." + n).FORK_CRITERIA
                    == crit(x)):
                res.fail("criteria", "%s: %r" % (n, f.criteria))
            for num, t in c["pts"]:
                res.eq("has_activated", bool(f.has_activated(
                    Uint(num), U256(t))), active(x, num, t))
        for n in NAMES:
            if n not in dict(cfg) and importlib.import_module(
                    "ethereum." + n).FORK_CRITERIA is not keep[n]:
                res.fail("others", "%s was rescheduled" % n)
    finally:
        for n, v in keep.items():
            importlib.import_module("ethereum." + n).FORK_CRITERIA = v
    res.nontrivial = len(cfg) > 1


# ---------------------------------------------------------- tracking
def make_track(s):
    used, cs = set(), []
    for _ in range(s.int(1, 6)):
        c = tuple(gen_crit(s)[:1] + [s.below(40)])
        if c[0] == 2:
            c = (2, 0)
        if c not in used:
            used.add(c)
            cs.append(list(c))
    cs.sort()
    return dict(cs=[[0, 0]] + [c for c in cs if c != [0, 0]],
                start=[s.below(20), s.below(20)],
                times=[s.below(6) for _ in range(s.int(1, 25))])


def run_track(c, res):
    try:
        from ethereum_spec_tools.sync import ForkTracking
    except ImportError:
        res.tag("no-sync")
        return

    class M:
        def __init__(self, x):
            self.FORK_CRITERIA = crit(x)
            self.__name__ = "ethereum.x%d_%d" % tuple(x)
    cs = [tuple(x) for x in c["cs"]]
    fs = [Hardfork(M(x)) for x in cs]
    n, t = c["start"]

    def want(n, t, at):
        # forks activate in order: the chain cannot skip one
        while at + 1 < len(cs) and active(cs[at + 1], n, t):
            at += 1
        return at
    tr = ForkTracking(fs, Uint(n), U256(t))
    at = want(n, t, 0)
    res.eq("start", tr.active_fork_index, at)
    for d in c["times"]:
        n, t = n + 1, t + d
        new = want(n, t, at)
        ch = tr.advance_block(U256(t))
        res.eq("changed", bool(ch), new != at)
        at = new
        res.eq("index", tr.active_fork_index, at)
        res.eq("number", int(tr.block_number), n)
        if tr.active_fork is not fs[at]:
            res.fail("active_fork", "%r" % tr.active_fork)
        nx = tr.next_fork
        if nx is not (fs[at + 1] if at + 1 < len(fs) else None):
            res.fail("next_fork", "%r" % nx)
    res.nontrivial = at > 0
    res.tag("forks:%d" % len(cs))


# ---------------------------------------------------------- transitions
def dao_pre(s, pre):
    for a in DAO_ACCOUNTS:
        v = s.weighted([(3, 0), (3, 1), (2, s.below(10**20)), (1, 10**24)])
        pre[a] = dict(nonce=1 if not v else s.below(2), balance=v)
        if s.chance(10):
            pre[a]["code"] = b"\x00"
            pre[a]["storage"] = {1: 2}
    if s.chance(70):
        pre[DAO_RECOVERY] = dict(nonce=s.below(2), balance=s.int(1, 100))
    for _ in range(s.below(4)):
        pre[s.bytes(20)] = dict(balance=s.int(1, 10**18))


def make_trans(s):
    fork = s.weighted([(3, DAO)] + [(1, k) for k in range(1, len(NAMES))])
    tip = gen_tip(s, fork, s.pick([0, 3, 10]), fork - 1)
    anc = gen_anc(s, fork, s.int(1, 4), tip, fork - 1)
    pre = {EOA[0]: dict(nonce=3, balance=10**18), CON[0]: dict(
        nonce=1, balance=5, code=b"\x01\x02", storage={1: 7, 2**255: 3}),
        num_addr(3): dict(balance=1)}
    if fork == DAO:
        dao_pre(s, pre)
    return dict(fork=fork, anc=anc, pre=pre, chain_id=s.pick([1, 5, 2**40]))


def run_trans(c, res):
    fork = c["fork"]
    A, B = Fork(fork - 1), Fork(fork)
    w = world_of(c["pre"])
    st = A.make_state(w)
    chain = impl_chain(c["anc"], st, c["chain_id"], fork - 1)
    before = list(chain.blocks)
    new = B.fork.apply_fork(chain)
    if fork == DAO:
        dao_moves(w)
    res.eq("chain_id", int(new.chain_id), c["chain_id"])
    if len(new.blocks) != len(before) or any(
            x is not y for x, y in zip(new.blocks, before)):
        res.fail("blocks", "the history changed")
    for d in state_diff(B, new.state, w)[:4]:
        res.fail("state", d)
    res.tag("into:" + B.name)
    res.nontrivial = True


# ---------------------------------------------------------- whole histories
MIXH = dict(store=6, expr=4, env=5, acct=4, call=5, create=3, sd=2, log=2,
            transient=2, copy=2, ret=1, revert=1, stop=1)


def make_hist(s):
    f0 = s.int(0, len(NAMES) - 2)
    nb = s.int(1, 4)
    forks, f = [], f0
    for i in range(nb):
        if f < len(NAMES) - 1 and (s.chance(65) or i == 0):
            step = s.weighted([(6, 1), (2, 2), (1, 4)])
            f = min(len(NAMES) - 1, f + step)
        if f == OSAKA and (forks[-1] if forks else f0) == CANCUN:
            f = PRAGUE        # each blob-fee fork has at least one block
        forks.append(f)
    # London's first block has a fixed number; nothing may enter it midway
    if f0 < LONDON <= forks[-1]:
        i = next(j for j, x in enumerate(forks) if x >= LONDON)
        forks[i:] = [max(x, LONDON) for x in forks[i:]]
        forks[i] = LONDON
        base = FORK_BLOCK[LONDON] - 1 - i
    elif f0 < DAO <= forks[-1]:
        i = next(j for j, x in enumerate(forks) if x >= DAO)
        base = FORK_BLOCK[DAO] - 1 - i if s.chance(70) else s.below(100)
    else:
        base = s.pick([0, 1, 5, 14_000_000, 199_998, 300])
    n = min(base + 1, 256) if base < 300 else s.pick([256, 256, 300])
    tip = gen_tip(s, f0, base, f0)
    # wall-clock, so that difficulty stays in range
    anc = gen_anc(s, f0, n, tip, f0)
    pre = {EOA[i]: dict(nonce=0, balance=10**21) for i in range(3)}
    for a in CON[:2]:
        pre[a] = dict(nonce=1, balance=s.pick([0, 7]), code=Prog(
            s, f0, MIXH, [CON[0], CON[1], EOA[1], FRESH[0]], 3).code(),
            storage={1: 1})
    if f0 < DAO <= forks[-1]:
        dao_pre(s, pre)
    if forks[-1] >= PRAGUE:
        for a in (RB.WITHDRAWAL_REQ, RB.CONSOLIDATION_REQ):
            pre[a] = dict(nonce=1, code=b"\x00")
    ch = Chain(anc, world_of(pre))
    blocks, cur = [], f0
    for fork in forks:
        if cur < DAO <= fork:
            dao_moves(ch.w)
        if cur < fork and s.chance(12):
            # a block still (or already) following another fork's rules
            b, _ = gen_child(s, fork, ch, ntx=0)
            b["fork"] = fork
            mutate_field(s, fork, b["h"], ch.blocks[-1][1],
                         s.pick(header_targets(fork)))
            # were it valid, the blocks below would not extend the tip
            if not ch.accepts(fork, b):
                blocks.append(b)
        b, ch2 = gen_child(s, fork, ch, ntx=s.below(3), targets=[
            CON[0], CON[1], FRESH[0]])
        b["fork"] = fork
        blocks.append(b)
        ch, cur = ch2, fork
    return dict(anc=anc, pre=pre, chain_id=1, blocks=blocks, cross=True,
                forks=[f0] + forks)


def run_hist(c, res):
    n = run_history(c, res)
    res.nontrivial = bool(n)
    fs = c["forks"]
    res.tags = [t for t in res.tags if t not in NAMES]
    for a, b in zip(fs, fs[1:]):
        if b > a + 1:
            res.tag("skipped-forks")


preload()
# share of the larger suites' cases that the quick tier runs
QUICK_SCALE = 0.9
SUITES = [
    Suite("criteria", make_crit, run_crit, 6000, None,
          "2-6 criteria compared pairwise, sorted, hashed and checked at "
          "points around them; non-trivial: at least two distinct"),
    Suite("mainnet", make_walk, run_walk, 3000, None,
          "number/time histories of 3-25 blocks over the discovered forks"),
    Suite("discover", lambda s: dict(cached=s.bool()), run_disc, 8, 20,
          "properties of the discovered forks",
          [dict(cached=False), dict(cached=True)]),
    Suite("trees", make_tree, run_tree, 500, None,
          "discovery over generated package trees with forks, other "
          "packages and modules; non-trivial: two or more forks"),
    Suite("load", make_load, run_load, 3000, None,
          "schedules loaded from dictionaries and geth configurations"),
    Suite("tracking", make_track, run_track, 3000, None,
          "chains followed by the fork tracker over generated schedules; "
          "non-trivial: at least one fork passed"),
    Suite("transitions", make_trans, run_trans, 1500, None,
          "apply_fork into every fork on generated chains and states, the "
          "DAO fork with all listed accounts funded variously"),
    Suite("histories", make_hist, run_hist, 2500, None,
          "1-4 blocks crossing one or more fork boundaries on one chain "
          "object; non-trivial: at least one block accepted"),
]
