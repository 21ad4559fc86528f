"""A small property-based-testing engine.

Generators are functions of a choice source ``Src``; every random decision is
one bounded integer recorded in a sequence.  A failing case is shrunk by
editing that sequence (as in Hypothesis / minithesis) and regenerating, so
generators never have to know about shrinking.  Every case is a pure function
of (VERIF_SEED, property, suite, index).  Cases are plain JSON-able data
(ints, bytes, str, lists, dicts), which is what replay files hold.
"""
import hashlib, json, os, pickle, random, resource, signal, sys, tempfile, time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ------------------------------------------------------------------ source
class Src:
    __slots__ = ("rng", "prefix", "pos", "out")

    def __init__(self, rng=None, prefix=()):
        self.rng = rng
        self.prefix = prefix
        self.pos = 0
        self.out = []

    def below(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            if v >= n:
                v = n - 1
        elif self.rng is not None:
            v = self.rng.randrange(n)
        else:
            v = 0
        self.pos += 1
        self.out.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def bool(self):
        return self.below(2) == 1

    def chance(self, pct):
        """True with roughly pct percent (False is the simple choice)."""
        return self.below(100) >= 100 - pct

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, table):
        """table: list of (weight, value); the first entry is the simplest."""
        tot = sum(w for w, _ in table)
        k = self.below(tot)
        for w, v in table:
            if k < w:
                return v
            k -= w
        raise AssertionError

    def bytes(self, n):
        if n == 0:
            return b""
        return self.below(256 ** n).to_bytes(n, "big")

    def blob(self, maxlen):
        return self.bytes(self.below(maxlen + 1))

    def list(self, f, lo, hi):
        return [f(self) for _ in range(self.int(lo, hi))]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.below(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k):
        return self.shuffle(seq)[:k]


# ------------------------------------------------------------------ codec
def enc(x):
    if isinstance(x, (bytes, bytearray)):
        return {"$b": bytes(x).hex()}
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, int):
        return int(x) if abs(x) < 2 ** 53 else {"$i": hex(x)}
    if isinstance(x, (list, tuple)):
        return [enc(y) for y in x]
    if isinstance(x, dict):
        if all(isinstance(k, str) for k in x):
            return {k: enc(v) for k, v in x.items()}
        return {"$d": [[enc(k), enc(v)] for k, v in x.items()]}
    raise TypeError(type(x))


def dec(x):
    if isinstance(x, list):
        return [dec(y) for y in x]
    if isinstance(x, dict):
        if len(x) == 1:
            if "$b" in x:
                return bytes.fromhex(x["$b"])
            if "$i" in x:
                return int(x["$i"], 16)
            if "$d" in x:
                return {dec(k): dec(v) for k, v in x["$d"]}
        return {k: dec(v) for k, v in x.items()}
    return x


def short(x, lim=60):
    """Readable, truncated form of a case for evidence samples."""
    if isinstance(x, (bytes, bytearray)):
        h = bytes(x).hex()
        return "0x" + (h if len(h) <= lim else h[:lim] + "..(%dB)" % len(x))
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, int):
        return x if abs(x) < 2 ** 53 else hex(x)
    if isinstance(x, (list, tuple)):
        r = [short(y, lim) for y in x[:8]]
        if len(x) > 8:
            r.append("..(%d items)" % len(x))
        return r
    if isinstance(x, dict):
        return {
            (k if isinstance(k, str) else str(short(k))): short(v, lim)
            for k, v in list(x.items())[:24]
        }
    return repr(x)[:lim]


# ------------------------------------------------------------------ suites
class Result:
    """Outcome of one case. ``bad``: list of (signature, message)."""

    __slots__ = ("bad", "nontrivial", "tags")

    def __init__(self):
        self.bad = []
        self.nontrivial = False
        self.tags = []

    def fail(self, sig, msg=""):
        self.bad.append((sig, str(msg)))

    def tag(self, *t):
        self.tags.extend(t)

    def eq(self, sig, got, want, extra=""):
        if got != want:
            self.fail(sig, "%s: got %s, expected %s %s" % (
                sig, _r(got), _r(want), extra))
            return False
        return True


def _r(x):
    s = repr(short(x)) if not isinstance(x, (int, bytes)) else str(short(x))
    return s if len(s) < 400 else s[:400] + ".."


class Suite:
    def __init__(self, name, make, run, quick, thorough=None, rule="",
                 exhaustive=None):
        self.name, self.make, self.run = name, make, run
        self.n = {"quick": quick, "thorough": thorough or quick * 40}
        self.rule = rule
        # exhaustive: optional list of cases always run first
        self.fixed = exhaustive or []


class CaseTimeout(BaseException):
    pass


class HarnessError(Exception):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(suite, case, cpu_s=90):
    """Run one case under a CPU-time limit (not wall clock)."""
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, cpu_s)
    try:
        res = Result()
        suite.run(case, res)
        return res
    except (CaseTimeout, HarnessError, KeyboardInterrupt, SystemExit):
        if not isinstance(sys.exc_info()[1], CaseTimeout):
            raise
        res = Result()
        res.fail("nontermination",
                 "case did not finish within %d s of CPU time" % cpu_s)
        return res
    except BaseException as e:
        # An exception that escaped from the code under test (not one of
        # the harness's own) is an observation, not a harness error.
        at = _repo_frame(e)
        if at is not None:
            res.fail("crash", "%s: %s (at %s)" % (type(e).__name__, e, at))
            return res
        if isinstance(e, (OSError, MemoryError, ImportError)):
            raise
        # What the code under test returned is not of the kind the oracle
        # can look into (a missing receipt, say).
        fr = traceback.extract_tb(e.__traceback__)[-1]
        res.fail("malformed", "%s: %s (at %s:%d)" % (
            type(e).__name__, e, os.path.basename(fr.filename), fr.lineno))
        return res
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


REPO_SRC = os.path.realpath(os.path.join(
    os.environ.get("VERIF_REPO", "/repo"), "src")) + os.sep


def _repo_frame(e):
    """Innermost frame of the code under test the exception went through."""
    at = None
    for fr in traceback.extract_tb(e.__traceback__):
        if os.path.realpath(fr.filename).startswith(REPO_SRC):
            at = "%s:%d %s" % (os.path.relpath(fr.filename, REPO_SRC),
                               fr.lineno, fr.name)
    return at


def gen(suite, seed, prop, idx):
    if idx < len(suite.fixed):
        return suite.fixed[idx], None
    h = hashlib.sha256(
        ("%d/%s/%s/%d" % (seed, prop, suite.name, idx)).encode()).digest()
    s = Src(random.Random(int.from_bytes(h, "big")))
    return suite.make(s), s.out


def case_key(case):
    return hashlib.blake2b(
        json.dumps(enc(case), sort_keys=True).encode(), digest_size=10
    ).digest()


# ------------------------------------------------------------------ shrink
def shrink(suite, choices, sigs, deadline, known):
    best = list(choices)
    tries = 0

    def ok(seq):
        nonlocal tries, best
        if time.time() > deadline or tries > 3000:
            return False
        tries += 1
        s = Src(None, seq)
        try:
            case = suite.make(s)
            r = run_case(suite, case, 30)
        except CaseTimeout:
            return False
        except Exception:
            return False
        new = [b[0] for b in r.bad if b[0] not in known]
        if any(x in sigs for x in new):
            out = s.out
            if (len(out), out) < (len(best), best):
                best = list(out)
                return True
        return False

    improved = True
    while improved and time.time() < deadline:
        improved = False
        for size in (64, 32, 16, 8, 4, 2, 1):
            i = len(best) - size
            while i >= 0:
                if ok(best[:i] + best[i + size:]):
                    improved = True
                i -= max(1, size // 2)
                if i > len(best) - size:
                    i = len(best) - size
                if time.time() > deadline:
                    return best
        for size in (8, 4, 2):
            i = 0
            while i + size <= len(best):
                if any(best[i:i + size]):
                    if ok(best[:i] + [0] * size + best[i + size:]):
                        improved = True
                i += size
        i = 0
        while i < len(best):
            v = best[i]
            if v:
                for nv in (0, 1, v >> 64, v >> 8, v // 2, v - 1):
                    if nv < v and ok(best[:i] + [nv] + best[i + 1:]):
                        improved = True
                        break
            i += 1
            if time.time() > deadline:
                return best
    return best


# ------------------------------------------------------------------ worker
def _worker(w, nw, suites, prop, tier, seed, t_end, stop_path, out_path,
            known):
    stats = {
        s.name: {"evals": 0, "nontrivial": set(), "tags": Counter(),
                 "samples": [], "timeouts": 0} for s in suites}
    known_hits = Counter()
    viol = None
    err = None
    idx = {s.name: w for s in suites}
    complete = True
    try:
        total = {s.name: s.n[tier] + len(s.fixed) for s in suites}
        # interleave suites so a time cut-off affects all of them equally
        while viol is None:
            live = [s for s in suites if idx[s.name] < total[s.name]]
            if not live:
                break
            if time.time() > t_end or os.path.exists(stop_path):
                complete = False
                break
            s = min(live, key=lambda s: idx[s.name] / total[s.name])
            i = idx[s.name]
            idx[s.name] += nw
            st = stats[s.name]
            case, choices = gen(s, seed, prop, i)
            r = run_case(s, case)
            st["evals"] += 1
            for t in r.tags:
                st["tags"][t] += 1
            if r.nontrivial:
                st["nontrivial"].add(case_key(case))
                if len(st["samples"]) < 2:
                    st["samples"].append(short(case))
            new = []
            for b in r.bad:
                if b[0] in known:
                    known_hits[b[0]] += 1
                else:
                    new.append(b)
            if new:
                # confirm, then shrink
                r2 = run_case(s, case, 180)
                new2 = [b for b in r2.bad if b[0] not in known]
                if not new2:
                    if any(b[0] == "nontermination" for b in new):
                        st["timeouts"] += 1
                        continue
                    # The code under test failed this case only after the
                    # earlier ones: it keeps state between cases.  The
                    # replay repeats this worker's whole history.
                    open(stop_path, "w").close()
                    viol = {"suite": s.name, "index": i, "case": case,
                            "bad": new, "history": {
                                "worker": w, "workers": nw, "seed": seed,
                                "tier": tier,
                                "suites": [x.name for x in suites]}}
                    break
                open(stop_path, "w").close()
                final = case
                if choices is not None and new2[0][0] != "nontermination":
                    budget = float(os.environ.get("VERIF_SHRINK_S", "25"))
                    best = shrink(s, choices, {b[0] for b in new2},
                                  time.time() + budget, known)
                    final = s.make(Src(None, best))
                    r3 = run_case(s, final, 180)
                    new3 = [b for b in r3.bad if b[0] not in known]
                    if new3:
                        new2 = new3
                    else:
                        final = case
                viol = {"suite": s.name, "index": i, "case": final,
                        "bad": new2}
    except BaseException:
        err = traceback.format_exc()
        open(stop_path, "w").close()
    with open(out_path, "wb") as f:
        pickle.dump({"stats": stats, "viol": viol, "err": err,
                     "known": known_hits, "complete": complete}, f)


# ------------------------------------------------------------------ known
def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {k["signature"]: k for k in d.get("findings", [])
            if k["property"] == prop}


# ------------------------------------------------------------------ main
def write_replay(prop, viol):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    blob = json.dumps({"property": prop, "suite": viol["suite"],
                       "violations": [list(b) for b in viol["bad"]],
                       "index": viol["index"],
                       "history": viol.get("history"),
                       "case": enc(viol["case"])}, indent=1)
    path = os.path.join(d, "%s-%s.json" % (
        prop, hashlib.sha256(blob.encode()).hexdigest()[:12]))
    with open(path, "w") as f:
        f.write(blob)
    return path


def main(prop, suites, level="exploration", assumptions="", argv=None):
    argv = sys.argv[1:] if argv is None else argv
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = os.environ.get("VERIF_SUITE")
    if argv and argv[0] == "replay":
        return replay(prop, suites, argv[1])
    if argv and argv[0] in ("quick", "thorough"):
        tier = argv[0]
    if only:
        suites = [s for s in suites if s.name in only.split(",")]
    nw = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))
    budget = float(os.environ.get(
        "VERIF_BUDGET_S", "150" if tier == "quick" else "3000"))
    t0 = time.time()
    known = load_known(prop)
    tmp = tempfile.mkdtemp(prefix="pbt-%s-" % prop)
    stop = os.path.join(tmp, "stop")
    pids = {}
    try:
        sys.stdout.flush()
        for w in range(nw):
            out = os.path.join(tmp, "w%d" % w)
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    lim = 6 << 30
                    # private memory only: databases map large files
                    resource.setrlimit(resource.RLIMIT_DATA, (lim, lim))
                    _worker(w, nw, suites, prop, tier, seed, t0 + budget,
                            stop, out, known)
                    rc = 0
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(rc)
            pids[pid] = out
        # hard ceiling well past the budget: no answer is a harness error
        hard = t0 + budget + 400
        left = dict(pids)
        while left:
            for pid in list(left):
                p, _ = os.waitpid(pid, os.WNOHANG)
                if p:
                    left.pop(pid)
            if left:
                if time.time() > hard:
                    for pid in left:
                        os.kill(pid, signal.SIGKILL)
                    for pid in left:
                        os.waitpid(pid, 0)
                    break
                time.sleep(0.05)
        outs = []
        dead = 0
        for out in pids.values():
            try:
                outs.append(pickle.load(open(out, "rb")))
            except Exception:
                dead += 1
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)

    wall = time.time() - t0
    cov = {"suites": {}}
    ev = nt = 0
    rules = []
    samples = []
    for s in suites:
        st = [o["stats"][s.name] for o in outs]
        n = sum(x["evals"] for x in st)
        d = len(set().union(*[x["nontrivial"] for x in st])) if st else 0
        tags = Counter()
        for x in st:
            tags.update(x["tags"])
        cov["suites"][s.name] = {
            "evaluations": n, "distinct_nontrivial": d, "rule": s.rule,
            "classes": dict(sorted(tags.items(), key=lambda kv: -kv[1])[:60]),
            "timeouts": sum(x["timeouts"] for x in st),
        }
        ev += n
        nt += d
        rules.append("%s: %s" % (s.name, s.rule))
        for x in st:
            for c in x["samples"]:
                if len([q for q in samples if q["suite"] == s.name]) < 2:
                    samples.append({"suite": s.name, "case": c})
    khits = Counter()
    for o in outs:
        khits.update(o["known"])
    cov.update({
        "evaluations": ev, "distinct_nontrivial": nt,
        "rule": " | ".join(rules), "samples": samples,
        "completed_all_cases": bool(outs) and dead == 0 and all(
            o["complete"] for o in outs),
        "known_finding_hits": dict(khits),
        "workers": nw,
    })
    evd = {"property": prop, "tier": tier, "seed": seed, "level": level,
           "coverage": cov, "wall_s": round(wall, 2)}
    if assumptions:
        evd["assumptions"] = ([assumptions] if isinstance(assumptions, str)
                              else list(assumptions))
    viols = [o["viol"] for o in outs if o["viol"]]
    errs = [o["err"] for o in outs if o["err"]]
    if not viols and dead:
        errs.append("%d worker(s) died without a result" % dead)
    evd["coverage"]["outcome"] = (
        "violation" if viols else "error" if errs else "held")
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evd, f, indent=1, sort_keys=True)
    for sig, k in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if viols:
        v = min(viols, key=lambda v: len(json.dumps(enc(v["case"]))))
        path = write_replay(prop, v)
        for sig, msg in v["bad"][:12]:
            print("  %s: %s" % (sig, msg[:2000]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errs:
        print("HARNESS ERROR in %s:\n%s" % (prop, errs[0]), file=sys.stderr)
        return 2
    print("%s %s: held on %d cases (%d distinct non-trivial) in %.1f s%s" % (
        prop, tier, ev, nt, wall,
        "" if cov["completed_all_cases"] else " [time budget reached]"))
    return 0


def replay(prop, suites, path):
    d = json.load(open(path))
    s = {x.name: x for x in suites}[d["suite"]]
    case = dec(d["case"])
    h = d.get("history")
    if h:
        order = [{x.name: x for x in suites}[n] for n in h["suites"]]
        idx = {x.name: h["worker"] for x in order}
        tot = {x.name: x.n[h["tier"]] + len(x.fixed) for x in order}
        while True:
            x = min((y for y in order if idx[y.name] < tot[y.name]),
                    key=lambda y: idx[y.name] / tot[y.name])
            i = idx[x.name]
            idx[x.name] += h["workers"]
            if x is s and i == d["index"]:
                break
            run_case(x, gen(x, h["seed"], prop, i)[0])
    r = run_case(s, case, 300)
    for sig, msg in r.bad:
        print("  %s: %s" % (sig, msg))
    known = load_known(prop)
    new = [b for b in r.bad if b[0] not in known]
    if new:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("replay: property holds on this case")
    return 0
