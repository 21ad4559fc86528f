"""Create /verif/seeded/<id> from a description file (dev tool, not a check).

usage: mkbug.py SPEC.py      SPEC defines ID, PROP, NEEDS, BREAKS, EDITS, DEMO
EDITS: list of (path, old, new) with optional 4th item: occurrence count.
Verifies: patch applies, demo passes on /repo and fails on a patched copy.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = os.path.join(V, "seeded", ns["ID"])
tmp = tempfile.mkdtemp(prefix="mkbug-", dir="/tmp")
try:
    wt = os.path.join(tmp, "repo")
    shutil.copytree("/repo", wt, symlinks=True, ignore=shutil.ignore_patterns(
        "eest_tests", "node_modules", "docs"))
    for e in ns["EDITS"]:
        p = os.path.join(wt, e[0])
        s = open(p).read()
        n = e[3] if len(e) > 3 else 1
        assert s.count(e[1]) == n, (e[0], s.count(e[1]))
        open(p, "w").write(s.replace(e[1], e[2]))
    files = sorted({e[0] for e in ns["EDITS"]})
    diff = subprocess.run(["git", "-C", wt, "diff", "--"] + files,
                          capture_output=True, text=True, check=True).stdout
    assert diff
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    demo = ns["DEMO"]
    open(os.path.join(d, "demo.py"), "w").write(
        'import os, sys\nsys.path.insert(0, os.path.join(os.getcwd(), "src"))'
        '\n' + demo.lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\ncd "${DEMO_REPO:-/repo}" || exit 2\n'
        'export PYTHONDONTWRITEBYTECODE=1\n'
        'exec /opt/venv/bin/python "$(dirname "$(realpath "$0")")/demo.py"\n'
        .replace('cd "${DEMO_REPO:-/repo}" || exit 2\n',
                 'SELF="$(realpath "$0")"\n').replace(
        '"$(dirname "$(realpath "$0")")/demo.py"',
        '"$(dirname "$SELF")/demo.py"'))
    if "import h" in demo or "from h" in demo:
        shutil.copy(os.path.join(V, "tools", "demohelp.py"),
                    os.path.join(d, "h.py"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"],
               "what_it_breaks": ns["BREAKS"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo",
                       capture_output=True, text=True)
    b = subprocess.run(["bash", d + "/demo.sh"], cwd=wt,
                       capture_output=True, text=True)
    print(ns["ID"], "clean rc", a.returncode, "patched rc", b.returncode)
    print((a.stdout + a.stderr)[-600:])
    print((b.stdout + b.stderr)[-600:])
    subprocess.run(["git", "-C", "/repo", "apply", "--check",
                    d + "/patch.diff"], check=True)
    assert a.returncode == 0 and b.returncode != 0
finally:
    shutil.rmtree(tmp)
