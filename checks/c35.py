"""C35: the tools that maintain the forks: linter, new-fork and patch."""
import contextlib, importlib, io, os, shutil, subprocess, sys, tempfile
from pathlib import Path
from lib.pbt import Suite
from lib.adapt import preload  # noqa: F401  (puts /repo/src on the path)
import ethereum
import ethereum.fork_criteria
from ethereum_spec_tools import new_fork as NF
from ethereum_spec_tools.forks import Hardfork
from ethereum_spec_tools.lint import Linter, walk_sources

ASSUME = ("Modules are importable Python in the style of the specification: "
          "an identifier is bound once per scope, module level is "
          "definitions, assignments to names, imports and docstrings, and no "
          "module is empty.  The "
          "package files of the forks themselves (src/ethereum/FORK/"
          "__init__.py) are not linted.  Fork names given to new-fork are "
          "capitalised.  patch(1) and git are the installed ones.")
REPO = os.environ.get("VERIF_REPO", "/repo")
LINTS = ["GlacierForksHygiene", "ImportHygiene", "PatchHygiene"]


@contextlib.contextmanager
def world(files):
    """An `ethereum` package whose forks are the given sources."""
    d = tempfile.mkdtemp(prefix="c35-")
    keep = {k: v for k, v in sys.modules.items() if k.startswith("ethereum.")}
    path = list(ethereum.__path__)
    had = dict(vars(ethereum))
    try:
        for f, text in files.items():
            p = Path(d) / "ethereum" / f
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_text(text or '"""Nothing."""\n')
        tops = {f.split("/")[0] for f in files}
        for k in keep:
            if k.split(".")[1] in tops:
                del sys.modules[k]
        ethereum.__path__[:] = [os.path.join(d, "ethereum")]
        importlib.invalidate_caches()
        yield Path(d)
    finally:
        ethereum.__path__[:] = path
        for k in list(sys.modules):
            if k.startswith("ethereum.") and k not in keep:
                del sys.modules[k]
        sys.modules.update(keep)
        for k in list(vars(ethereum)):
            if k not in had:
                delattr(ethereum, k)
        vars(ethereum).update(had)
        importlib.invalidate_caches()
        shutil.rmtree(d)


def init(i):
    return ("from ethereum.fork_criteria import ByBlockNumber\n\n"
            "FORK_CRITERIA = ByBlockNumber(%d)\n" % (i * 10))


def lint(name, res, want):
    """Run one lint at every position; want: {position: bool}."""
    ls = [x for x in Linter.discover_lints()
          if type(x).__name__ == name]
    if len(ls) != 1:
        res.fail("lint-missing", "%s: %r" % (name, ls))
        return {}
    forks = Hardfork.discover()
    out, said = {}, io.StringIO()
    with contextlib.redirect_stdout(said):
        for i in range(len(forks)):
            out[i] = [x.message for x in ls[0].lint(forks, i)]
        rc = Linter(ls).run()
    for i, f in enumerate(forks):
        if bool(out[i]) != want[i]:
            res.fail("silent" if want[i] else "alarm", "%s: %s: %r" % (
                name, f.short_name, out[i]))
        if want[i] and f.name + " - " + name not in said.getvalue():
            res.fail("report", "%s not in %r" % (f.name, said.getvalue()))
    res.eq("exit", rc, 1 if any(want.values()) else 0)
    return out


# ------------------------------------------------------------------ imports
FORKS = ["alpha", "beta", "gamma", "delta", "alpha_two", "beta2", "gam"]
SHARED = ["utils", "alphabet", "state", "exceptions", "betatron"]


def gen_import(s, forks, pos):
    """A module path, and what it is imported for."""
    k = s.weighted([(4, "other"), (3, "prev"), (3, "rel"), (1, "self"),
                    (1, "past"), (1, "future")])
    if k == "prev" and pos > 0:
        t = forks[pos - 1]
    elif k == "self":
        t = forks[pos]
    elif k == "past" and pos > 1:
        t = forks[s.below(pos - 1)]
    elif k == "future" and pos + 1 < len(forks):
        t = forks[s.int(pos + 1, len(forks) - 1)]
    elif k == "rel":
        return [".", s.pick(["state", "vm", "vm.gas"])]
    else:
        return ["ethereum", s.pick(SHARED)]
    return ["ethereum", t] + s.pick([[], ["state"], ["vm"], ["vm", "gas"]])


def make_imp(s):
    forks = s.sample(FORKS, s.int(2, 6))
    mods = []
    for i in range(len(forks)):
        for m in ("state.py", "vm/__init__.py", "vm/gas.py"):
            ims = []
            for _ in range(s.weighted([(6, 0), (4, 1), (3, 2), (1, 4)])):
                # a statement: one module, a from, or several modules at once
                ims.append(dict(form=s.below(5), where=s.below(4),
                                mods=[gen_import(s, forks, i)
                                      for _ in range(s.int(1, 3))],
                                what=s.pick(["name", "vm", "state"])))
            mods.append([i, m, ims])
    return dict(forks=forks, mods=mods)


def stmt(im, depth):
    """The statement and the modules it names."""
    ms = [x for x in im["mods"] if x[0] != "."]
    f = im["form"]
    if not ms:
        dots = "." * (depth + 1)
        m = im["mods"][0][1]
        if f == 0:
            return "from %s import %s" % (dots, m.split(".")[0]), []
        return "from %s%s import %s" % (dots, m, im["what"]), []
    if f == 0:
        return "import " + ms[0][0] + "." + ".".join(ms[0][1:]), ms[:1]
    if f == 1:
        return "from %s import %s as x" % (".".join(ms[0]), im["what"]), ms[:1]
    if f == 2:
        return "import " + ", ".join(".".join(m) for m in ms), ms
    if f == 3:
        return "import %s as y" % ", ".join(".".join(m) for m in ms), ms
    return ("from ethereum import (\n        %s,\n    )" % ",\n        ".join(
        m[1] for m in ms), [m[:2] for m in ms])


def run_imp(c, res):
    forks = c["forks"]
    files, want = {}, {i: False for i in range(len(forks))}
    bad = set()
    for i, f in enumerate(forks):
        files[f + "/__init__.py"] = init(i)
    for x in SHARED:
        files[x + ".py"] = ""
    for i, m, ims in c["mods"]:
        out = ['"""Module."""', "from typing import TYPE_CHECKING", ""]
        for n, im in enumerate(ims):
            text, mods = stmt(im, m.count("/"))
            w = im["where"]
            if w == 0:
                out += ["def f%d():" % n, '    """F."""', "    " + text, ""]
            elif w == 1:
                out += ["if TYPE_CHECKING:", "    " + text, ""]
            elif w == 2:
                out += ["class C%d:" % n, "    def f(self):",
                        "        if self:",
                        "            " + text.replace("\n", "\n        "), ""]
            else:
                out += ["async def f%d():" % n, "    " + text, ""]
            for t in mods:
                if t[1] in forks and forks.index(t[1]) != i - 1:
                    bad.add((i, m))
                    res.tag("self" if t[1] == forks[i] else "future"
                            if forks.index(t[1]) > i else "past")
        files[forks[i] + "/" + m] = "\n".join(out) + "\n"
    for i, _ in bad:
        want[i] = True
    with world(files):
        got = lint("ImportHygiene", res, want)
    for i, m in bad:
        name = "." + m.replace("/__init__.py", "")[:None].replace(
            ".py", "").replace("/", ".")
        if not any("`%s`" % name in x for x in got.get(i, [])):
            res.fail("module", "%s of %s: %r" % (name, forks[i], got.get(i)))
    res.tag("forks:%d" % len(forks))
    res.nontrivial = bool(bad) or any(x[2] for x in c["mods"])


# -------------------------------------------------------------------- order
def gen_items(s, depth=0):
    """A list of definitions: [name, kind, body]."""
    names = s.sample(["a", "b", "c", "d", "e", "f_", "Z", "Y"],
                     s.int(0, 5 if depth == 0 else 3))
    out = []
    for n in names:
        k = s.weighted([(4, "def"), (3, "const"), (2, "ann"), (1, "async"),
                        (2 if depth < 2 else 0, "class"), (1, "pair"),
                        (1, "bare")])
        out.append([n, k, gen_items(s, depth + 1) if k == "class" else
                    s.below(3)])
    return out


def edit(s, items):
    items = [list(x) for x in items]
    for _ in range(s.weighted([(4, 0), (4, 1), (2, 2), (1, 3)])):
        k = s.pick(["swap", "del", "add", "body", "in", "move"])
        if k == "add":
            n = s.pick(["n1", "n2", "n3"])
            if n not in [x[0] for x in items]:
                items.insert(s.below(len(items) + 1), [n, "def", 0])
        if not items:
            continue
        i = s.below(len(items))
        if k == "swap" and i + 1 < len(items):
            items[i], items[i + 1] = items[i + 1], items[i]
        elif k == "del":
            del items[i]
        elif k == "body" and not isinstance(items[i][2], list):
            items[i][2] = s.below(3)
            items[i][1] = s.pick(["def", "const", "ann", "async", "pair",
                                  "bare"])
        elif k == "in" and isinstance(items[i][2], list):
            items[i][2] = edit(s, items[i][2])
        elif k == "move":
            x = items.pop(i)
            items.insert(s.below(len(items) + 1), x)
    return items


def text(items, ind=""):
    out = []
    for n, k, b in items:
        if k == "class":
            body = text(b, ind + "    ")
            out += [ind + "class %s:" % n, ind + '    """A class."""'] + body
        elif k == "def":
            out += [ind + "def %s(x=0):" % n,
                    ind + "    # %d" % b, ind + "    inner = %d" % b,
                    ind + "    def inside():", ind + "        y = 1",
                    ind + "    return inner"]
        elif k == "async":
            out += [ind + "async def %s(x: int = 0):" % n,
                    ind + "    return x + %d" % b]
        elif k == "const":
            out += [ind + "%s = [t for t in range(%d)]" % (n, b)]
        elif k == "ann":
            out += [ind + "%s: int = %d" % (n, b)]
        elif k == "bare":
            out += [ind + "%s: int" % n]
        elif k == "pair":
            out += [ind + "%s, %s_2 = %d, 1" % (n, n, b)]
    return out


def names(items, at=()):
    """Identifiers, in order."""
    out = []
    for n, k, b in items:
        out.append(at + (n,))
        if k == "class":
            out += names(b, at + (n,))
        elif k == "pair":
            out.append(at + (n + "_2",))
    return out


def make_order(s):
    n = s.int(2, 4)
    forks = s.sample(FORKS, n)
    mods = {m: [gen_items(s)] for m in s.sample(
        ["state.py", "vm/gas.py", "vm/__init__.py", "blocks.py"],
        s.int(1, 3))}
    for m in mods:
        for _ in range(n - 1):
            k = s.weighted([(8, 0), (1, 1)])
            mods[m].append(None if k else edit(s, next(
                x for x in reversed(mods[m]) if x is not None)))
    return dict(forks=forks, mods=mods)


def run_order(c, res):
    forks = c["forks"]
    files, want = {}, {}
    for i, f in enumerate(forks):
        files[f + "/__init__.py"] = init(i)
        want[i] = False
        for m, v in c["mods"].items():
            if m.startswith("vm/"):
                files.setdefault(f + "/vm/__init__.py", "")
        for m, v in c["mods"].items():
            if v[i] is None:
                continue
            files[f + "/" + m] = "\n".join(text(v[i])) + "\n"
            if i and v[i - 1] is not None:
                a, b = names(v[i - 1]), names(v[i])
                x = [t for t in a if t in b]
                y = [t for t in b if t in a]
                if x != y:
                    want[i] = True
                    res.tag("moved")
                elif a != b:
                    res.tag("same-order")
    with world(files):
        lint("PatchHygiene", res, want)
    res.nontrivial = any(len(v) > 1 for v in c["mods"].values())


# ----------------------------------------------------------------- glaciers
GLACIERS = {"muir_glacier": 9000000, "arrow_glacier": 10700000,
            "gray_glacier": 11400000}
PARTS = ["doc", "comment", "import", "value", "default", "deco", "annot",
         "body", "inner", "add", "del", "delay", "order", "file", "nofile",
         "const", "type", "loop", "keyword", "name",
         "longer", "shorter", "base", "bound"]


def glacier(v, delay, fork):
    """A module of a fork in which the given parts are changed."""
    x = {k: (k in v) for k in PARTS}
    items = []
    items.append('def one(a: %s, b=%s):\n    """%s"""\n    # %s\n    c = %s\n'
                 '    for i in range(%s):\n        c += i\n%s    return c\n%s' % (
                     "str" if x["annot"] else "int",
                     "5" if x["default"] else "4",
                     "Changed." if x["doc"] else "One.",
                     "other" if x["comment"] else "same",
                     "a - b" if x["body"] else "a + b",
                     "b" if x["loop"] else "a",
                     "" if x["shorter"] else "    c += 1\n",
                     "    c += 2\n" if x["longer"] else ""))
    items.append('%sclass Two%s:\n    """%s"""\n\n    z: int = 1\n\n'
                 '    def inner(self):\n        return dict(k=[1, 2%s], m=%s, %s=2)\n' % (
                     "@staticmethod\n" if x["deco"] else "",
                     "(dict)" if x["base"] else "(list)",
                     "Two!" if x["doc"] else "Two",
                     ", 3" if x["bound"] else "",
                     "8" if x["inner"] else "9",
                     "y" if x["keyword"] else "x"))
    items.append("THREE = %s\n" % (
        "True" if x["type"] else "31" if x["value"] else "1"))
    items.append("FOUR: int = %s\n" % ("4" if x["const"] else "3"))
    items.append("async def five(a):\n    return %s\n" % (
        "b" if x["name"] else "a"))
    if x["add"]:
        items.append("SIX = 6\n")
    if x["del"]:
        del items[3]
    if x["order"]:
        items.reverse()
    if delay is not None:
        items.append("BOMB_DELAY_BLOCKS = %d\n" % (
            delay + (1 if x["delay"] else 0)))
    head = '"""%s."""\n' % ("Other" if x["doc"] else "Module")
    head += "from ethereum import %s\n" % (
        "sharedb" if x["import"] else "shareda")
    return head + "\n\n".join(items)


def make_glacier(s):
    after = s.pick(sorted(GLACIERS) + ["dao_fork", "alpha"])
    n = s.weighted([(2, 0), (6, 1), (2, 2)])
    return dict(fork=after, parts=s.sample(PARTS, n), mod=s.below(3),
                delay=s.int(1, 2**24), prior=s.bool(),
                special=s.below(4))


QUIET = {"doc", "comment", "import", "order"}
SPECIAL = {("dao_fork", "apply_fork"), ("dao_fork", "validate_header"),
           ("arrow_glacier", "calculate_base_fee_per_gas"),
           ("arrow_glacier", "validate_header"),
           ("arrow_glacier", "INITIAL_BASE_FEE")}


def run_glacier(c, res):
    fork, parts = c["fork"], set(c["parts"])
    mod = ["fork.py", "vm/gas.py", "dao.py"][c["mod"]]
    delay = GLACIERS.get(fork)
    if delay is None or c["mod"] != 0:
        parts.discard("delay")
    forks = (["zeta"] if c["prior"] else []) + ["eta", fork]
    files = {}
    for i, f in enumerate(forks):
        last = f == fork
        files[f + "/__init__.py"] = init(i)
        files[f + "/vm/__init__.py"] = ""
        here = glacier(parts if last else (), (delay if last else c["delay"])
                       if c["mod"] == 0 and delay is not None else None, f)
        if c["special"]:
            # a definition that may differ in one fork only
            n = ["apply_fork", "validate_header", "INITIAL_BASE_FEE"][
                c["special"] - 1]
            here += ("\n%s = %d\n" % (n, last) if n.isupper() else
                     "\n\ndef %s():\n    return %d\n" % (n, last))
        files[f + "/" + mod] = here
        files[f + "/same.py"] = "X = 1\n"
        if last and "file" in parts:
            files[f + "/more.py"] = "X = 1\n"
        if not (last and "nofile" in parts):
            files[f + "/less.py"] = "X = 1\n"
    files["shareda.py"] = files["sharedb.py"] = ""
    changed = parts - QUIET
    if c["mod"] == 2 and fork == "dao_fork":
        changed &= {"file", "nofile"}
    if c["special"] and not (c["mod"] == 0 and (
            fork, n) in SPECIAL) and not (
            c["mod"] == 2 and fork == "dao_fork"):
        changed.add("special")
    # a type and a value change of the same constant are one change, and a
    # deleted definition hides a change of it
    want = {i: False for i in range(len(forks))}
    want[len(forks) - 1] = fork != "alpha" and bool(changed)
    with world(files):
        lint("GlacierForksHygiene", res, want)
    res.tag(fork, *(sorted(parts) or ["nothing"]))
    res.nontrivial = True


# --------------------------------------------------------- the tree as it is
def make_tree(s):
    return dict(ix=s.below(64))


def run_tree(c, res):
    """What the linter is given is every module of a fork, once."""
    forks = Hardfork.discover()
    f = forks[c["ix"] % len(forks)]
    got = {}
    for name, src in walk_sources(f):
        if name in got:
            res.fail("twice", name)
        got[name] = src
    want = {}
    base = Path(f.path)
    for p in base.rglob("*.py"):
        parts = list(p.relative_to(base).with_suffix("").parts)
        if parts[-1] == "__init__":
            parts.pop()
        if parts:
            want["".join("." + x for x in parts)] = p.read_text()
    res.eq("modules", sorted(got), sorted(want))
    for k in want:
        if k in got and got[k] != want[k]:
            res.fail("source", k)
    res.eq("lints", sorted(type(x).__name__
                           for x in Linter.discover_lints()), LINTS)
    res.tag(f.short_name)
    res.nontrivial = True


# ----------------------------------------------------------------- new fork
FROM = ["London", "Gray Glacier", "Tangerine Whistle", "Paris", "A B C"]
TO = ["Osaka", "Muir Glacier", "New Fork Two", "Londoner", "London Two", "X",
      "Gray Glacier Again", "Verkle2", "B"]


def gen_line(s, a, b):
    w = [a, a.lower(), a.replace(" ", "_").lower(), a.upper(), a.split()[0],
         b, b.lower(), b.replace(" ", "_").lower(), "berlin", "Berlin"]
    out = []
    for _ in range(s.int(0, 4)):
        x = s.pick(w)
        pre, post = s.pick([("", ""), (".", "."), ("`", "`"), ("_", ""),
                            ("", "_"), ("x", ""), ("", "er"), ("1", ""),
                            ("", "'s"), ("-", "-"), ("\u00e9", "\u00e9"),
                            ('"', '"'), ("/", "/"), ("", "2")])
        out.append(pre + x + post)
    return s.pick(["", "# ", "from ethereum.", '"""'])\
        + s.pick([" ", "  ", ", ", "\t", "."]).join(out)


def make_new(s):
    a, b = s.pick(FROM), s.pick(TO)
    files = {}
    for f in s.sample(["__init__.py", "fork.py", "vm/__init__.py",
                       "vm/gas.py", "vm/instructions/log.py", "notes.md",
                       "data.json", "vm/x.pyi"], s.int(1, 5)):
        files[f] = [gen_line(s, a, b) for _ in range(s.int(0, 6))]
    tests = {}
    if s.chance(40):
        for f in s.sample(["__init__.py", "test_a.py", "sub/test_b.py",
                           "x.json"], s.int(1, 3)):
            tests[f] = [gen_line(s, a, b) for _ in range(s.int(0, 4))]
    return dict(a=a, b=b, files=files, tests=tests or None,
                ta=s.pick([None, "EIP150", "Frontier"]) if tests else None,
                tb=s.pick([None, "EIP158", "Homestead"]) if tests else None,
                eol=s.pick(["\n", "\r\n"]), end=s.bool())


WORD = frozenset(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
                 b"0123456789_")


def swap(text, a, b):
    """Replace the whole-word occurrences of a."""
    a, b = a.encode(), b.encode()
    out, i = b"", 0
    while i < len(text):
        if text.startswith(a, i) and not (i and text[i - 1] in WORD) and not (
                i + len(a) < len(text) and text[i + len(a)] in WORD):
            out += b
            i += len(a)
        else:
            out += text[i:i + 1]
            i += 1
    return out


def snapshot(d):
    return {str(p.relative_to(d)): p.read_bytes()
            for p in Path(d).rglob("*") if p.is_file()}


def run_new(c, res):
    a, b = c["a"], c["b"]
    pa, pb = (x.replace(" ", "_").lower() for x in (a, b))
    d = tempfile.mkdtemp(prefix="c35-")
    cwd, argv = os.getcwd(), sys.argv
    try:
        src = Path(d) / "src" / "ethereum"
        tst = Path(d) / "tests"
        tst.mkdir()
        for base, fs in ((src, c["files"]), (tst, c["tests"] or {})):
            for f, lines in fs.items():
                p = base / pa / f
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_bytes((c["eol"].join(lines) + (
                    c["eol"] if c["end"] else "")).encode())
        (src / "other.py").write_text("x = '%s %s'\n" % (a, pa))
        before = snapshot(d)
        os.chdir(d)
        sys.argv = ["new-fork", "--from_fork", a, "--to_fork=" + b]
        if c["ta"]:
            sys.argv += ["--from_test", c["ta"]]
        if c["tb"]:
            sys.argv += ["--to_test=" + c["tb"]]
        with contextlib.redirect_stdout(io.StringIO()):
            NF.main()
        after = snapshot(d)
    finally:
        os.chdir(cwd)
        sys.argv = argv
        shutil.rmtree(d)
    want = dict(before)
    for top in ("src/ethereum/", "tests/"):
        for f, v in before.items():
            if not f.startswith(top + pa + "/"):
                continue
            if f.endswith(".py"):
                if top == "tests/":
                    v = swap(v, c["ta"] or a, c["tb"] or b)
                v = swap(swap(swap(v, a, b), pa, pb), a.lower(), b.lower())
            want[top + pb + f[len(top + pa):]] = v
    res.eq("files", sorted(after), sorted(want))
    for f in want:
        if f in after and after[f] != want[f]:
            res.fail("content", "%s: %r, not %r" % (f, after[f], want[f]))
    res.tag("tests" if c["tests"] else "no-tests")
    res.nontrivial = any(want.get(f) != before.get(f) for f in want)


# -------------------------------------------------------------------- patch
def make_patch(s):
    files = {}
    for f in s.sample(["fork.py", "vm/gas.py", "vm/instructions/log.py",
                       "state.py"], s.int(1, 3)):
        n = s.int(12, 40)
        eds = []
        for _ in range(s.weighted([(1, 0), (4, 1), (2, 2)])):
            eds.append([s.below(n), s.pick(["del", "ins", "mod"]),
                        s.int(1, 3)])
        files[f] = dict(n=n, edits=eds, differs=[
            [s.below(n), s.below(2)] for _ in range(s.below(3))])
    return dict(files=files, targets=s.weighted(
        [(3, ["beta"]), (3, ["beta", "gamma"]), (1, []), (1, ["gamma"])]),
        tests=s.chance(30), src=s.pick(["alpha", "alp_ha"]),
        odd=s.chance(20))


def apply_edits(lines, eds, tag):
    """lines: list of (id, text); edits apply at ids."""
    out = []
    dele, ins, mod = set(), {}, set()
    for at, k, m in eds:
        for j in range(at, at + m):
            if k == "del":
                dele.add(j)
            elif k == "mod":
                mod.add(j)
        if k == "ins":
            ins.setdefault(at, m)
    for i, t in lines:
        if i in ins:
            out += [(None, "    new_%d_%d = %s" % (i, j, tag))
                    for j in range(ins[i])]
        if i in dele:
            continue
        out.append((i, t + "  # changed" if i in mod else t))
    return out


def run_patch(c, res):
    d = tempfile.mkdtemp(prefix="c35-")
    try:
        base = "tests" if c["tests"] else "src/ethereum"
        src = c["src"]
        env = dict(os.environ, GIT_CONFIG_GLOBAL="/dev/null",
                   GIT_CONFIG_SYSTEM="/dev/null", HOME=d,
                   PYTHONPATH=os.path.join(REPO, "src"),
                   PYTHONDONTWRITEBYTECODE="1")

        def git(*a):
            subprocess.run(("git", "-C", d, "-c", "user.name=x", "-c",
                            "user.email=x@x") + a, check=True, env=env,
                           capture_output=True)

        def put(f, lines):
            p = Path(d) / base / f
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_text("\n".join(t for _, t in lines) + "\n")

        model, edited = {}, {}
        for f, x in c["files"].items():
            lines = [(i, "    v%d = '%s'" % (i, f) if i % 5 else
                      ("-- a/%d" % i if c["odd"] and i == 10 else
                       "def f%d():" % i)) for i in range(x["n"])]
            near = set()
            for at, _, m in x["edits"]:
                near |= set(range(at - 7, at + m + 7))
            mine = []
            for i, t in lines:
                k = [q for at, q in x["differs"] if at == i]
                if k and i not in near:
                    res.tag("differs")
                    if k[0]:
                        mine.append((i, t + "  # own"))
                else:
                    mine.append((i, t))
            for fork in (src, "beta", "gamma", src + "_b"):
                model[fork, f] = lines if fork == src else mine
                put("%s/%s" % (fork, f), model[fork, f])
            edited[f] = x["edits"]
        git("init", "-q")
        git("add", "-A")
        git("commit", "-q", "-m", "x")
        for f, eds in edited.items():
            model[src, f] = apply_edits(model[src, f], eds, "1")
            put("%s/%s" % (src, f), model[src, f])
        # an unrelated edit that is not part of the fork
        f0 = sorted(edited)[0]
        model[src + "_b", f0] = model[src + "_b", f0] + [(None, "# own")]
        put("%s_b/%s" % (src, f0), model[src + "_b", f0])
        for t in c["targets"]:
            for f, eds in edited.items():
                model[t, f] = apply_edits(model[t, f], eds, "1")
        p = subprocess.run(
            [sys.executable, "-c",
             "import sys; from ethereum_spec_tools.patch_tool import main; "
             "sys.argv[0] = 'patch'; main()", src] + c["targets"]
            + (["--tests"] if c["tests"] else []),
            cwd=d, env=env, capture_output=True, text=True, timeout=60)
        if p.returncode:
            res.fail("crash", p.stderr[-400:])
            return
        got = {k: v for k, v in snapshot(d).items()
               if not k.startswith(".git/")}
    finally:
        shutil.rmtree(d)
    want = {"%s/%s/%s" % (base, k, f): (
        "\n".join(t for _, t in v) + "\n").encode()
        for (k, f), v in model.items()}
    res.eq("files", sorted(got), sorted(want), p.stdout[-300:])
    for f in want:
        if f in got and got[f] != want[f]:
            res.fail("content", "%s: %s, not %s" % (f, got[f], want[f]))
    res.tag("targets:%d" % len(c["targets"]))
    res.nontrivial = bool(c["targets"]) and any(edited.values())


SUITES = [
    Suite("imports", make_imp, run_imp, 1500, None,
          "2-6 forks whose modules import relatively and absolutely from "
          "shared modules, their own, earlier and later forks, at any depth "
          "and in every form of the statement; non-trivial: some import"),
    Suite("order", make_order, run_order, 1500, None,
          "modules of 2-4 forks whose definitions are added, deleted, "
          "changed and moved; non-trivial: a module in two forks"),
    Suite("glacier", make_glacier, run_glacier, 1500, None,
          "a glacier, the DAO or another fork after one that it equals but "
          "for 0-2 changes of 24 kinds"),
    Suite("tree", make_tree, run_tree, 20, 40,
          "the modules of the repository's forks as the linter reads them"),
    Suite("new-fork", make_new, run_new, 1500, None,
          "packages whose files mention both forks in every case and next "
          "to every kind of character; non-trivial: something is renamed"),
    Suite("patch", make_patch, run_patch, 150, None,
          "git repositories with forks that differ from each other away "
          "from the edits to be carried over; non-trivial: an edit and a "
          "target"),
]
