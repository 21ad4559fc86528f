"""C34: the documentation's fork-to-fork diffs are faithful."""
import dataclasses, functools, logging, os, shutil, tempfile
from pathlib import Path, PurePath
from lib.pbt import Suite
from lib.adapt import preload  # noqa: F401  (puts /repo/src on the path)
from docc.context import Context
from docc.document import BlankNode, Document, ListNode, Node, Visit, Visitor
from docc.plugins import html, mistletoe, python, references, verbatim
from docc.plugins.python import PythonBuilder, PythonDiscover
from docc.plugins.python.cst import PythonTransform
from docc.settings import Settings
from docc.source import Source
from libcst._batched_visitor import BatchableCSTVisitor
import ethereum_spec_tools.docc as D
from ethereum_spec_tools.forks import Hardfork

logging.disable(logging.CRITICAL)


# libcst looks up a visitor's methods again for every file; remember them.
def _visitors(self, real=BatchableCSTVisitor.get_visitors, memo={}):
    names = memo.get(type(self))
    if names is None:
        names = memo[type(self)] = list(real(self))
    return {n: getattr(self, n) for n in names}


BatchableCSTVisitor.get_visitors = _visitors
# docc builds its template environment and looks up its plugins again for
# every node; remember those too.
html.entry_points = functools.cache(html.entry_points)
html.PackageLoader = functools.cache(html.PackageLoader)


def _environment(real=html.Environment, memo={}, **kw):
    loader = kw["loader"]
    if loader not in memo:
        memo[loader] = real(**kw)
    return memo[loader]


html.Environment = _environment
ASSUME = ("Sources are Python that docc itself can document (its own limits, "
          "such as escape sequences in prose, are not claimed); definitions "
          "have one name each; annotations, docstrings and bodies are those "
          "the specification's style uses.  References to modules outside "
          "the two forks need not be links.  Line numbers of unchanged lines "
          "are those of the later fork.")
REPO = os.environ.get("VERIF_REPO", "/repo")
FORK_INIT = ('"""%s"""\n\nfrom ethereum.fork_criteria import %s\n\n'
             'FORK_CRITERIA = %s\n%s')
SHARED = '"""Shared."""\n\nclass Hash:\n    """A hash."""\n'


# --------------------------------------------------------------- generator
TYPES = ["int", "str", "bytes", "bool", "None", "Foo", "Bar", "Hash", "Baz", "Other", "Prev"]
WORDS = ["gas", "the", "block", "of", "is", "state", "0x01", "transfers",
         "EIP-1559", "snake_case", "a", "1.5", "cost;", "(see", "below)"]
NAMES_ = ["foo", "bar", "alpha", "beta", "gamma", "delta", "step", "apply"]
CLASSES = ["Foo", "Bar", "Baz"]
CONSTS = ["GAS", "LIMIT", "TABLE", "MASK", "EMPTY"]


def gen_type(s, depth=2):
    k = s.weighted([(6, 0), (3 if depth else 0, 1), (3 if depth else 0, 2),
                    (1 if depth else 0, 3), (1, 4), (1 if depth else 0, 5),
                    (1, 6)])
    if k == 0:
        return s.pick(TYPES)
    if k == 1:
        return "%s[%s]" % (s.pick(["List", "Optional", "Tuple", "Dict"]),
                           ", ".join(gen_type(s, depth - 1)
                                     for _ in range(s.int(1, 3))))
    if k == 2:
        return " | ".join(gen_type(s, 0) for _ in range(s.int(2, 4)))
    if k == 3:
        return "Callable[[%s], %s]" % (
            ", ".join(gen_type(s, 0) for _ in range(s.below(3))),
            gen_type(s, 0))
    if k == 4:
        return '"%s"' % s.pick(CLASSES)
    if k == 5:
        return "Tuple[%s, ...]" % gen_type(s, 0)
    return "typing.Any"


def words(s, hi=8):
    return " ".join(s.pick(WORDS) for _ in range(s.int(1, hi)))


def inline(s):
    out = []
    for _ in range(s.int(1, 4)):
        k = s.weighted([(8, 0), (2, 1), (2, 2), (1, 3), (2, 4), (1, 5),
                        (1, 6), (1, 7)])
        w = words(s, 4)
        out.append({0: w, 1: "`%s`" % w, 2: "*%s*" % w, 3: "**%s**" % w,
                    4: "[`%s`]" % s.pick(NAMES_ + CLASSES),
                    5: "[%s](https://example.org/%d)" % (w, s.below(3)),
                    6: "<https://example.org/%d>" % s.below(3),
                    7: "~~%s~~" % w}[k])
    return " ".join(out)


def gen_doc(s):
    """A docstring: a list of blocks, each a list of lines."""
    out = []
    for _ in range(s.weighted([(5, 1), (3, 2), (2, 3), (1, 5)])):
        k = s.weighted([(6, 0), (2, 1), (2, 2), (1, 3), (1, 4), (1, 5),
                        (1, 6), (1, 7), (1, 8), (1, 9)])
        if k == 0:
            b = [inline(s) for _ in range(s.int(1, 3))]
        elif k == 1:
            b = ["- " + inline(s) for _ in range(s.int(1, 4))]
        elif k == 2:
            b = ["%d. %s" % (i + 1, inline(s)) for i in range(s.int(1, 4))]
        elif k == 3:
            b = ["```" + s.pick(["", "python", "text"])] + [
                words(s) for _ in range(s.int(1, 3))] + ["```"]
        elif k == 4:
            b = ["#" * s.int(1, 3) + " " + words(s)]
        elif k == 5:
            b = [words(s, 3), "-" * 10]
        elif k == 6:
            b = ["> " + inline(s)]
        elif k == 7:
            n = s.int(1, 3)
            row = lambda: "| " + " | ".join(
                words(s, 2) for _ in range(n)) + " |"
            b = [row(), "|" + "|".join(
                s.pick(["---", ":-:"]) for _ in range(n)) + "|"] + [
                row() for _ in range(s.int(1, 3))]
        elif k == 8:
            b = ["    " + words(s) for _ in range(s.int(1, 3))]
        else:
            b = ["[`%s`]: ref:ethereum.%s.%s" % (
                s.pick(NAMES_ + CLASSES), s.pick(["@", "@.mod", "shared"]),
                s.pick(NAMES_ + CLASSES))]
        out.append(b)
    return out


def maybe_doc(s, pct):
    return gen_doc(s) if s.chance(pct) else None


def gen_line(s):
    return s.weighted([
        (4, "%s = %s + %d" % (s.pick(NAMES_), s.pick(NAMES_), s.below(9))),
        (3, "%s(%s)" % (s.pick(NAMES_), s.pick(NAMES_))),
        (2, "# %s" % words(s)),
        (1, "assert %s, %r" % (s.pick(NAMES_), words(s, 3))),
        (1, ""),
        (1, "if %s:\n    %s += 1\nelse:\n    pass" % (s.pick(NAMES_),
                                                     s.pick(NAMES_))),
        (1, "for x in %s:\n    print(x)" % s.pick(NAMES_)),
        (1, "%s = (\n    %d,\n    %d,\n)" % (s.pick(NAMES_), s.below(5),
                                            s.below(5))),
        (1, "def inner(y: int) -> int:\n    return y"),
    ])


def gen_param(s, i):
    return [s.pick(["a", "b", "c", "d", "evm", "tx"]) + "%d" % i
            if s.chance(20) else "abcdefgh"[i],
            gen_type(s) if s.chance(85) else None,
            s.pick(["None", "0"]) if s.chance(10) else None]


def gen_func(s, name, method=False):
    return dict(k="func", name=name, dec=[s.pick(["final", "wrap(3)"])
                                          for _ in range(s.weighted(
                                              [(6, 0), (2, 1), (1, 2)]))],
                params=(["self"] if method else []) + [
                    gen_param(s, i) for i in range(s.below(4))],
                star=s.chance(8), ret=gen_type(s) if s.chance(80) else None,
                doc=maybe_doc(s, 80),
                body=[gen_line(s) for _ in range(s.int(0, 5))]
                + ["return " + s.pick(NAMES_)])


def gen_const(s, name):
    return dict(k="const", name=name, ann=gen_type(s) if s.chance(40)
                else None, value=s.weighted([
                    (3, str(s.below(1000))), (2, "Hash(%d)" % s.below(9)),
                    (1, "{\n    1: %d,\n    2: Foo,\n}" % s.below(9)),
                    (1, "b'%s'" % s.pick(WORDS))]), doc=maybe_doc(s, 50))


def gen_class(s, name):
    ms = []
    for n in s.sample(NAMES_, s.below(4)):
        ms.append(gen_func(s, n, True) if s.bool() else gen_const(s, n))
    return dict(k="class", name=name, dec=["dataclass"] if s.bool() else [],
                base=s.pick(["", "", "(Hash)"]), doc=maybe_doc(s, 80),
                members=ms)


def gen_member(s, used):
    k = s.weighted([(3, 0), (2, 1), (2, 2)])
    pool = [n for n in (NAMES_, CONSTS, CLASSES)[k] if n not in used]
    if not pool:
        return None
    n = s.pick(pool)
    used.add(n)
    return (gen_func, gen_const, gen_class)[k](s, n)


def gen_module(s):
    used, ms = set(), []
    for _ in range(s.weighted([(4, s.int(1, 4)), (1, 0), (1, s.int(5, 9))])):
        m = gen_member(s, used)
        if m:
            ms.append(m)
    return dict(doc=maybe_doc(s, 85), imports=s.below(4), members=ms)


def clone(x):
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    return [clone(v) for v in x] if isinstance(x, list) else x


def edit_doc(s, d):
    if d is None:
        return gen_doc(s)
    k = s.below(5)
    if k == 0:
        return None
    if k == 1:
        return gen_doc(s)
    d = clone(d)
    i = s.below(len(d))
    if k == 2:
        d[i:i] = gen_doc(s)[:1]
    elif k == 3 and len(d) > 1:
        del d[i]
    else:
        b = d[i]
        j = s.below(len(b))
        b[j] = b[j] + " " + s.pick(WORDS) if not b[j].startswith(
            ("|", "[`", "```", "---")) else b[j]
        if b[j].startswith("|") and "--" not in b[j]:
            cells = b[j].strip("| ").split(" | ")
            cells[s.below(len(cells))] = words(s, 2)
            b[j] = "| " + " | ".join(cells) + " |"
    return d


def edit_type(s, t):
    if t and " | " in t and "[" not in t and s.chance(70):
        parts = t.split(" | ")
        k = s.below(4)
        if k == 0:
            parts = s.shuffle(parts)
        elif k == 1:
            parts.insert(s.below(len(parts) + 1), s.pick(TYPES))
        elif k == 2:
            parts.pop(s.below(len(parts)))
        else:
            parts = parts[1:] + [s.pick(TYPES)]
        return " | ".join(parts)
    return gen_type(s) if s.chance(85) else None


def edit_member(s, m):
    """Change one definition, keeping its name and kind."""
    if m["k"] == "func":
        k = s.below(7)
        if k == 0:
            m["doc"] = edit_doc(s, m["doc"])
        elif k == 1:
            m["ret"] = edit_type(s, m["ret"])
        elif k == 2:
            ps = m["params"]
            ks = [i for i, p in enumerate(ps) if p != "self"]
            if ks and s.chance(70):
                p = ps[s.pick(ks)]
                p[1] = edit_type(s, p[1])
            elif ks and s.bool():
                del ps[s.pick(ks)]
            else:
                ps.insert(len(ps), gen_param(s, len(ps)))
        elif k == 3:
            m["dec"] = [] if m["dec"] and s.bool() else m["dec"] + ["final"]
        elif k == 4:
            m["ret"], m["doc"] = edit_type(s, m["ret"]), edit_doc(
                s, m["doc"])
        else:
            b = m["body"]
            for _ in range(s.int(1, 3)):
                i = s.below(len(b))
                j = s.below(3)
                if j == 0:
                    b.insert(i, gen_line(s))
                elif j == 1 and len(b) > 1:
                    del b[i]
                else:
                    b[i] = gen_line(s)
            if all(not x or x.startswith("#") for x in b):
                b.append("return foo")
    elif m["k"] == "const":
        n = gen_const(s, m["name"])
        f = s.pick(["value", "ann", "doc"])
        m[f] = edit_doc(s, m["doc"]) if f == "doc" else n[f]
    else:
        ms = m["members"]
        k = s.below(5)
        if k == 0:
            m["doc"] = edit_doc(s, m["doc"])
        elif k == 1 and ms:
            del ms[s.below(len(ms))]
        elif k == 2 and ms:
            edit_member(s, s.pick(ms))
        elif k == 3:
            m["dec"] = [] if m["dec"] else ["dataclass"]
        else:
            free = [n for n in NAMES_ if n not in {x["name"] for x in ms}]
            ms.insert(s.below(len(ms) + 1), gen_const(s, s.pick(free)))


def edit_module(s, m):
    ms = m["members"]
    k = s.weighted([(6, 0), (2, 1), (2, 2), (1, 3), (1, 4), (1, 5)])
    if k == 0 and ms:
        edit_member(s, s.pick(ms))
    elif k == 1 and ms:
        del ms[s.below(len(ms))]
    elif k == 2:
        n = gen_member(s, {x["name"] for x in ms})
        if n:
            ms.insert(s.below(len(ms) + 1), n)
    elif k == 3:
        m["doc"] = edit_doc(s, m["doc"])
    elif k == 4:
        m["members"] = s.shuffle(ms)
    else:
        m["imports"] = s.below(4)


# ---------------------------------------------------------------- rendering
def indent(text, n):
    return "\n".join((" " * n + x) if x else x for x in text.split("\n"))


def doc_text(d, pkg):
    if d is None:
        return ""
    t = "\n\n".join("\n".join(b) for b in d).replace("ethereum.@",
                                                      "ethereum." + pkg)
    return '"""\n%s\n"""' % t


def member_text(m, pkg):
    out = ["@" + d for d in m.get("dec", [])]
    if m["k"] == "const":
        out.append(m["name"] + (": " + m["ann"] if m["ann"] else "") + " = "
                   + m["value"])
        if m["doc"]:
            out.append(doc_text(m["doc"], pkg))
    elif m["k"] == "func":
        ps = []
        for p in m["params"]:
            if p == "self":
                ps.append(p)
            else:
                ps.append(p[0] + (": " + p[1] if p[1] else "")
                          + (" = " + p[2] if p[2] else ""))
        if m["star"]:
            ps = [p for p in ps if "=" not in p] + ["*"] + [
                "last: int"] + [p for p in ps if "=" in p]
        else:
            ps = [p for p in ps if "=" not in p] + [
                p for p in ps if "=" in p]
        out.append("def %s(%s)%s:" % (m["name"], ", ".join(ps),
                                      " -> " + m["ret"] if m["ret"] else ""))
        if m["doc"]:
            out.append(indent(doc_text(m["doc"], pkg), 4))
        out.append(indent("\n".join(m["body"]), 4))
    else:
        out.append("class %s%s:" % (m["name"], m["base"]))
        if m["doc"]:
            out.append(indent(doc_text(m["doc"], pkg), 4))
        for x in m["members"]:
            out.append("")
            out.append(indent(member_text(x, pkg), 4))
        if not m["members"]:
            out.append("    pass")
    return "\n".join(out)


def module_text(m, pkg, prev):
    out = []
    if m["doc"]:
        out.append(doc_text(m["doc"], pkg))
    out.append("import typing\nfrom ethereum.shared import Hash")
    if m["imports"] & 1:
        out.append("from .other import Foo as Other")
    if m["imports"] & 2 and prev:
        out.append("from ethereum.%s.mod import Baz as Prev" % prev)
    for x in m["members"]:
        out.append("\n" + member_text(x, pkg))
    return "\n".join(out) + "\n"


PKGS = ["aaa", "bbb", "zz_top", "aaa_two", "mid"]


def make(s):
    n = s.weighted([(4, 2), (1, 3)])
    pkgs = s.sample(PKGS, n)
    base = gen_module(s)
    files = [{} for _ in pkgs]
    for path in ["mod.py"] + (["vm/other.py"] if s.chance(30) else []):
        m = base if path == "mod.py" else gen_module(s)
        for i in range(n):
            if i:
                m = clone(m)
                for _ in range(s.weighted([(5, 1), (1, 0), (3, 2), (1, 5)])):
                    edit_module(s, m)
            if not s.chance(6):
                files[i][path] = module_text(m, pkgs[i],
                                             pkgs[i - 1] if i > 1 else None)
    inits = []
    for i in range(n):
        crit = s.weighted([(2, 0), (1, 1)]) if i else 0
        inits.append([doc_text(maybe_doc(s, 60), pkgs[i]) or '"""F."""',
                      crit])
    if all(not f for f in files):
        files[0]["mod.py"] = '"""Doc."""\n'
    return dict(pkgs=pkgs, files=files, inits=inits,
                at=s.int(1, 2**20), html=s.chance(40))


def make_one(s):
    """One definition of a module changes."""
    a = gen_module(s)
    if not a["members"]:
        a["members"].append(gen_const(s, "GAS"))
    b = clone(a)
    i = s.below(len(a["members"]))
    for _ in range(s.int(1, 2)):
        edit_member(s, b["members"][i])
    # no reference to the fork's own package in this suite's first file, so
    # that untouched text is the same text
    pkgs = s.sample(PKGS, 2)
    return dict(pkgs=pkgs, files=[{"mod.py": module_text(a, "old", None)},
                                  {"mod.py": module_text(b, "old", None)}],
                inits=[['"""F."""', 0]] * 2, at=s.int(1, 2**20),
                changed=a["members"][i]["name"], html=s.chance(20))


# ------------------------------------------------------------------- running
class Tree:
    """A scratch source tree holding the case's forks."""

    def __init__(self, c):
        self.dir = Path(tempfile.mkdtemp(prefix="pbt-c34-"))
        self.c = c

    def __enter__(self):
        c, root = self.c, self.dir / "src" / "ethereum"
        self.put(self.dir / "pyproject.toml",
                 '[tool.docc.plugins."docc.python.discover"]\n'
                 'paths = ["src"]\n')
        self.put(root / "__init__.py", '"""Top."""\n')
        self.put(root / "shared.py", SHARED)
        at = c["at"]
        for i, p in enumerate(c["pkgs"]):
            if "raw" in c:
                break
            doc, k = c["inits"][i]
            k = k or (i and c["inits"][i - 1][1] and 1) or 0
            if any(x[1] for x in c["inits"][:i]):
                k = 1
            name = ["ByBlockNumber", "ByTimestamp"][k]
            self.put(root / p / "__init__.py",
                     "%s\nfrom ethereum.fork_criteria import %s\n\n"
                     "FORK_CRITERIA = %s(%d)\n" % (doc, name, name,
                                                   at + 10 * i))
        for p, fs in zip(c["pkgs"], c["files"]):
            for f, t in fs.items():
                self.put(root / p / f, t)
                d = (root / p / f).parent
                if d != root / p and not (d / "__init__.py").exists():
                    self.put(d / "__init__.py", "")
        return self

    def put(self, p, t):
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text(t)

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def mapped(x, b, a):
    for p in (b, a):
        if x == p or x.startswith(p + "."):
            return "diff(%s,%s)%s" % (b, a, x[len(p):])
    return x


def token_attrs(t):
    out = {}
    for k, v in sorted(vars(t).items()):
        if k.startswith("_") or k in ("line_number", "position", "footnotes",
                                      "children", "span", "parent", "root"):
            continue
        if isinstance(v, (str, int, bool, type(None))):
            out[k] = v
        elif isinstance(v, list) and all(
                isinstance(x, (str, int, type(None))) for x in v):
            out[k] = list(v)
    return out


class Bad(Exception):
    pass


class Canon:
    """A tree as plain data, seen from one side of a diff (or from none)."""

    def __init__(self, side, b, a, lines):
        self.side, self.b, self.a, self.lines = side, b, a, lines
        self.diffs = []          # names of the definitions holding a diff
        self.path = []

    def name(self, x):
        return mapped(x, self.b, self.a) if x is not None else None

    def many(self, nodes):
        out = []
        for n in nodes:
            out += self.one(n)
        return out

    def own(self, ident):
        m = self.name(ident)
        return m.startswith("diff(")

    def one(self, n):
        if isinstance(n, D.DiffNode):
            if self.side is None:
                raise Bad("a DiffNode outside a diff")
            if (n.before_name, n.after_name) != (self.b, self.a):
                raise Bad("DiffNode between %s and %s" % (n.before_name,
                                                          n.after_name))
            self.diffs.append(list(self.path))
            x = n.before if self.side == "before" else n.after
            if isinstance(x, BlankNode):
                return []
            if not isinstance(x, D.BeforeNode if self.side == "before"
                              else D.AfterNode):
                raise Bad("%r on the %s side" % (x, self.side))
            return self.one(x.child)
        if isinstance(n, (D.BeforeNode, D.AfterNode)):
            raise Bad("%r outside a DiffNode" % n)
        if isinstance(n, BlankNode):
            return []
        if isinstance(n, ListNode):
            return self.many(n.children)
        if isinstance(n, references.Definition):
            self.path.append(self.name(n.identifier))
            x = ["def", self.name(n.identifier), n.specifier,
                 self.one(n.child)]
            self.path.pop()
            return [x]
        if isinstance(n, references.Reference):
            if not self.own(n.identifier):
                return self.one(n.child)
            return [["ref", self.name(n.identifier), self.one(n.child)]]
        if isinstance(n, python.PythonNode):
            out = [type(n).__name__]
            for f in dataclasses.fields(n):
                v = getattr(n, f.name)
                out.append([f.name, self.one(v) if isinstance(v, Node)
                            else v])
            return [out]
        if isinstance(n, python.Name):
            return [["name", n.name, self.name(n.full_name)]]
        if isinstance(n, mistletoe.MarkdownNode):
            h = getattr(n.token, "header", None)
            return [[type(n.token).__name__, token_attrs(n.token),
                     [] if h is None else self.many(
                         mistletoe.MarkdownNode(h).children),
                     self.many(n.children)]]
        if isinstance(n, verbatim.Transcribed):
            return [["code", self.many(n.children)]]
        if isinstance(n, verbatim.Line):
            return [["line", n.number if self.lines else None,
                     self.many(n.children)]]
        if isinstance(n, verbatim.Highlight):
            return [["hi", list(n.highlights), self.many(n.children)]]
        if isinstance(n, verbatim.Text):
            return [n.text]
        raise Bad("unexpected node %r" % type(n))


def first_difference(x, y, path=""):
    if type(x) is not type(y):
        return "%s: %.80r / %.80r" % (path, x, y)
    if isinstance(x, list):
        for i, (p, q) in enumerate(zip(x, y)):
            if p != q:
                return first_difference(p, q, path + "/%d" % i)
        return "%s: lengths %d / %d: %.80r %.80r" % (
            path, len(x), len(y), x[len(y):], y[len(x):])
    return "%s: %.80r / %.80r" % (path, x, y)


class Idents(Visitor):
    def __init__(self):
        self.seen = []

    def enter(self, n):
        if isinstance(n, (references.Definition, references.Reference)):
            self.seen.append(n.identifier)
        elif isinstance(n, python.Name) and n.full_name:
            self.seen.append(n.full_name)
        return Visit.TraverseChildren

    def exit(self, n):
        pass


def contexts(docs):
    return {k: Context({Document: v, Source: k}) for k, v in docs.items()}


def transform(st, ctx, own):
    t = [PythonTransform, verbatim.Transcribe, mistletoe.DocstringTransform,
         mistletoe.ReferenceTransform]
    if own:
        t += [D.FixIndexTransform, D.MinimizeDiffsTransform]
    for cls in t:
        x = cls(st.for_plugin("t"))
        for c in ctx.values():
            x.transform(c)


def run(c, res):
    with Tree(c) as tree:
        run_in(c, res, tree)


def run_in(c, res, tree):
    st = Settings(tree.dir)
    known = set(PythonDiscover(st.for_plugin(
        "docc.python.discover")).discover(frozenset()))
    sources = sorted(known, key=lambda x: str(x.relative_path))
    disc = D.EthereumDiscover(st.for_plugin("d"))
    diffs = list(disc.discover(frozenset(known)))
    pkgs = c["pkgs"]
    at = {PurePath(x.relative_path).relative_to("src/ethereum"): x
          for x in sources}
    by = {p: {PurePath(*k.parts[1:]): v for k, v in at.items()
              if k.parts[0] == p} for p in pkgs}
    # -- which diffs exist
    want = {}
    for b, a in zip(pkgs, pkgs[1:]):
        for path in sorted(set(by[b]) | set(by[a])):
            want[PurePath("diffs") / b / a / path] = (
                "ethereum." + b, by[b].get(path), "ethereum." + a,
                by[a].get(path))
    got = {}
    for d in diffs:
        if d.output_path in got:
            res.fail("discover", "two diffs at %s" % d.output_path)
        got[d.output_path] = (d.before_name, d.before, d.after_name, d.after)
        if not d.show_in_listing or d.relative_path is not None:
            res.fail("discover", "listing or path of %s" % d.output_path)
    if got != want:
        for k in sorted(set(got) | set(want)):
            if got.get(k) != want.get(k):
                res.fail("discover", "%s: %s, expected %s" % (
                    k, show(got.get(k)), show(want.get(k))))
        return
    # -- the documents, by docc alone and with this repository's plugins
    ref = {}
    PythonBuilder(st.for_plugin("b")).build(set(sources), ref)
    ref = contexts(ref)
    transform(st, ref, False)
    docs = {}
    todo = set(sources) | set(diffs)
    D.EthereumBuilder(st.for_plugin("b")).build(todo, docs)
    if todo:
        res.fail("build", "%d sources left unprocessed" % len(todo))
    if set(docs) != set(sources) | set(diffs):
        return res.fail("build", "documents for other sources")
    ctx = contexts(docs)
    transform(st, ctx, True)
    for x in sources:
        u = Canon(None, "-", "-", True).one(ref[x][Document].root)
        v = Canon(None, "-", "-", True).one(ctx[x][Document].root)
        if u != v:
            res.fail("plain", "%s: %s" % (x.relative_path,
                                          first_difference(v, u)))
    for d in diffs:
        root = ctx[d][Document].root
        b, a = d.before_name, d.after_name
        ids = Idents()
        root.visit(ids)
        for i in ids.seen:
            if mapped(i, b, a) != i:
                res.fail("identifier", "%s in %s" % (i, d.output_path))
        for side, src in (("before", d.before), ("after", d.after)):
            lines = side == "after"
            try:
                k = Canon(side, b, a, lines)
                x = k.one(root)
            except Bad as e:
                res.fail("shape", "%s, %s side: %s" % (d.output_path, side,
                                                       e))
                continue
            y = [] if src is None else Canon(None, b, a, lines).one(
                ref[src][Document].root)
            if x != y:
                res.fail(side, "%s: shown / real: %s" % (
                    d.output_path, first_difference(x, y)))
            if src is None:
                res.tag("absent-" + side)
        if d.before is not None and d.after is not None:
            res.nontrivial = True
            res.tag("diffs<=%d" % (5 * (1 + len(k.diffs) // 5)))
            ch = c.get("changed")
            if ch is not None and d.output_path.name == "mod.py":
                top = "diff(%s,%s).mod" % (b, a)
                for p in k.diffs:
                    if len(p) < 2 and p[:1] == [top]:
                        continue    # the module's own name and docstring
                    if p[:1] != [top] or p[1] != top + "." + ch:
                        res.fail("spread", "%s changed, diff inside %s" % (
                            ch, p))
                n = sum(len(p) < 2 for p in k.diffs)
                if n > 1:
                    res.fail("spread", "%d diffs outside %s" % (n, ch))
                res.tag("changed" if len(k.diffs) > n else "unchanged")
    if c.get("html") and not res.bad:
        render(c, res, st, ref, ctx, diffs)
    res.tag("forks%d" % len(pkgs))


# ------------------------------------------------------------ rendered pages
class AnyIndex(references.Index):
    """An index in which every reference leads somewhere."""

    def __init__(self, source):
        super().__init__()
        self.source = source

    def lookup(self, identifier):
        try:
            return super().lookup(identifier)
        except references.ReferenceError:
            return [references.Location(self.source, identifier, 0)]


class Page:
    """Names, docstrings and source lines of a page, one side of it."""

    def __init__(self, side):
        self.side, self.out = side, []
        self.marked = 0

    def hidden(self, tag):
        cls = (tag.attributes.get("class") or "").split()
        b, a = "diff-before" in cls, "diff-after" in cls
        if b or a:
            self.marked += 1
            if self.side is None or (b and a) or tag.tag_name not in (
                    ("del", "tr") if b else ("ins", "tr")):
                raise Bad("%r in a page" % tag)
        return (b and self.side == "after") or (a and self.side == "before")

    def text(self, tag):
        if isinstance(tag, html.TextNode):
            return tag._value
        cls = tag.attributes.get("class") or ""
        if self.hidden(tag) or "tooltip-content" in cls:
            return ""
        return "".join(self.text(x) for x in tag.children)

    def row(self, tr):
        if self.hidden(tr):
            return
        if (tr.attributes.get("class") or "").replace(
                "diff-before", "").replace("diff-after", "").strip():
            raise Bad("%r in a page" % tr)
        cells = [x for x in tr.children if isinstance(x, html.HTMLTag)]
        if [x.tag_name for x in cells] != ["th", "td"]:
            raise Bad("a source line of %d cells" % len(cells))
        self.out.append(("line", self.text(cells[0]), self.text(cells[1])))

    def walk(self, tag):
        if isinstance(tag, html.TextNode) or self.hidden(tag):
            return
        cls = (tag.attributes.get("class") or "").split()
        if tag.tag_name == "h3" or "docstring" in cls:
            t = "".join(self.text(tag).split())
            if t:
                self.out.append((tag.tag_name, t))
        elif tag.tag_name == "table" and "verbatim" in cls:
            for x in tag.children:
                if x.tag_name == "tbody":
                    for y in x.children:
                        self.row(y)
                else:
                    self.row(x)
        else:
            for x in tag.children:
                self.walk(x)

    def lines(self, numbers):
        return [x if numbers or x[0] != "line" else ("line", "", x[2])
                for x in self.out]


def rendered(st, ctx, source):
    old = ctx[source]
    c = Context({Document: old[Document], Source: source,
                 references.Index: AnyIndex(source)})
    references.IndexTransform(st.for_plugin("i")).transform(c)
    html.HTMLTransform(st.for_plugin("h")).transform(c)
    return c[Document].root


def read(root, side):
    p = Page(side)
    for x in root.children:
        p.walk(x)
    return p


def render(c, res, st, ref, ctx, diffs):
    pages = {}
    for d in diffs:
        root = rendered(st, ctx, d)
        for side, src in (("before", d.before), ("after", d.after)):
            if src is None:
                continue
            if src not in pages:
                pages[src] = read(rendered(st, ref, src), None)
            try:
                got = read(root, side)
            except Bad as e:
                res.fail("page", "%s: %s" % (d.output_path, e))
                continue
            n = side == "after"
            x, y = got.lines(n), pages[src].lines(n)
            if x != y:
                res.fail("page-" + side, "%s: shown / real: %s" % (
                    d.output_path, first_difference(
                        [list(q) for q in x], [list(q) for q in y])))
            if got.marked:
                res.tag("page")


def show(x):
    return x and "%s:%s -> %s:%s" % (x[0], x[1] and x[1].relative_path, x[2],
                                     x[3] and x[3].relative_path)


# -------------------------------------------------- the repository's own pages
REAL = None


def real():
    global REAL
    if REAL is None:
        base = Path(REPO) / "src" / "ethereum"
        forks = [f.short_name for f in Hardfork.discover(base=base)]
        REAL = []
        for b, a in zip(forks, forks[1:]):
            fs = {p.relative_to(base / x) for x in (b, a)
                  for p in (base / x).rglob("*.py")}
            for f in sorted(fs):
                REAL.append((b, a, str(f)))
    return REAL


def make_real(s):
    r = real()
    return dict(pick=s.below(len(r)))


def run_real(c, res):
    r = real()
    b, a, f = r[c["pick"] % len(r)]
    base = Path(REPO) / "src" / "ethereum"
    # an earlier fork, so that both forks are the later one of some pair
    files = [{"__init__.py": '"""First."""\nfrom ethereum.fork_criteria '
              'import ByBlockNumber\n\nFORK_CRITERIA = ByBlockNumber(0)\n'}]
    for x in (b, a):
        d = {"__init__.py": (base / x / "__init__.py").read_text()}
        if (base / x / f).exists():
            d[f] = (base / x / f).read_text()
        files.append(d)
    res.tag(b)
    run(dict(pkgs=["aaa", b, a], files=files, raw=1, at=1, inits=[]), res)


preload()
# share of the larger suites' cases that the quick tier runs
QUICK_SCALE = 0.55
SUITES = [
    Suite("diff", make, run, 500, None,
          "2-3 generated forks with 1-2 modules (constants, functions, "
          "classes, annotations, Markdown docstrings) that differ by 0-5 "
          "edits; non-trivial: a module present in both forks"),
    Suite("one-change", make_one, run, 250, None,
          "a single definition changes; the diff stays inside it"),
    Suite("real", make_real, run_real, 24, None,
          "a module of the specification in two consecutive forks"),
]
