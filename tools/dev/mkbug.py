#!/usr/bin/env python3
"""mkbug.py ID...: makes seeded/<ID> from bugs/<ID>.py (PROP, EDITS, NEEDS, BREAKS, DEMO, [DEFS]) after confirming it in a scratch copy."""
import importlib.util, json, os, shutil, subprocess, sys
D = os.path.dirname(os.path.abspath(__file__)); V = "/verif"
WT = "/tmp/wt_bug"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main(i):
    sp = importlib.util.spec_from_file_location(i, f"{D}/bugs/{i}.py"); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    out = f"{V}/seeded/{i}"
    sh(f"git -C /repo worktree remove --force {WT}; git -C /repo worktree prune; git -C /repo worktree add -f --detach {WT} HEAD")
    orig = "5927993"
    for f, old, new in m.EDITS:
        p = f"{WT}/{f}"
        b = open(p, encoding="latin-1", newline="").read()
        crlf = "\r\n" in b
        if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert b.count(old) == 1, (f, b.count(old), old)
        open(p, "w", encoding="latin-1", newline="").write(b.replace(old, new))
    os.makedirs(out, exist_ok=True)
    diff = subprocess.run(f"git -C {WT} diff", shell=True, stdout=subprocess.PIPE).stdout
    open(f"{out}/patch.diff", "wb").write(diff)
    # removed lines must be of the original repository
    base = subprocess.run(f"git -C {WT} blame -s HEAD -- " + " ".join({f for f, _, _ in m.EDITS}), shell=True, stdout=subprocess.PIPE).stdout
    open(f"{out}/demo.cpp", "w").write(m.DEMO); shutil.copy(f"{D}/bugs/demo.h", out)
    srcs = getattr(m, "SRCS", None) or "src/CCommMgr.cpp src/CEvent.cpp src/Utils.cpp"
    fl = getattr(m, "FLAGS", "")
    open(f"{out}/demo.sh", "w").write(f"""#!/bin/bash
# cwd: the repository. Exit 0 where the property holds.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d)
B() {{ g++ -std=gnu++11 -w -O1 -g {fl} -I"$D" -Iinclude "$D/demo.cpp" "$@" -o "$T/demo" -lpthread -lrt; }}
B {srcs} 2>/dev/null || B $(ls src/*.cpp | grep -v CMysql) || {{ rm -rf "$T"; exit 2; }}
(cd "$T" && timeout 120 ./demo); R=$?
rm -rf "$T"
exit $R
""")
    os.chmod(f"{out}/demo.sh", 0o755)
    json.dump({"property": m.PROP, "needs": m.NEEDS, "what_it_breaks": m.BREAKS}, open(f"{out}/meta.json", "w"), indent=1)
    ok = True
    # demo on both
    sh(f"git -C /repo worktree remove --force /tmp/wt_ok; git -C /repo worktree add -f --detach /tmp/wt_ok HEAD")
    for k in range(2):
        r = sh(f"bash {out}/demo.sh", cwd="/tmp/wt_ok")
        if r.returncode != 0: ok = False; print(i, "demo fails on the unchanged tree:", r.stdout[-200:])
    for k in range(2):
        r = sh(f"bash {out}/demo.sh", cwd=WT)
        if r.returncode in (0, 2): ok = False; print(i, "demo does not fail with the patch", r.returncode, r.stdout[-200:])
    if k == 1 and r.returncode not in (0, 2): print(i, "with patch:", r.returncode, r.stdout[-150:].strip())
    sh("git -C /repo worktree remove --force /tmp/wt_ok")
    # stable tests with the patch, in /repo itself
    assert sh("git -C /repo status --porcelain -uno").stdout.strip() == ""
    r = sh(f"git -C /repo apply {out}/patch.diff")
    try:
        assert r.returncode == 0, r.stdout
        r = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/o.json")
        o = json.load(open("/tmp/o.json")); st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        bad = [t for t in st if t not in o["passed"]] if isinstance(o.get("passed"), list) else [t for t in st if o.get("tests", o).get(t) not in ("pass", "passed", True)]
        if bad: ok = False; print(i, "tests fail:", bad)
    finally:
        sh("git -C /repo checkout -- .")
    sh(f"git -C /repo worktree remove --force {WT}; git -C /repo worktree prune")
    print(i, m.PROP, "KEPT" if ok else "NOT OK")
    if not ok: open("/tmp/badbugs", "a").write(i + "\n")


for a in sys.argv[1:]:
    try: main(a)
    except Exception as e:
        print(a, "ERROR", repr(e)); sh("git -C /repo checkout -- .")
