#!/usr/bin/env python3
"""mkseeds.py [ID...]: writes /verif/seeded/<id>/ from tools/seeds/*.py (SEEDS: dicts id, prop, edits, needs, breaks, main)."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
BASE = subprocess.check_output(["git", "-C", R, "log", "--format=%H", "--grep=^base$"], text=True).split()[-1]


def seeds():
    out = []
    for f in sorted(glob.glob(os.path.join(V, "tools/seeds/*.py"))):
        spec = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.SEEDS
    ids = [s["id"] for s in out]
    assert len(ids) == len(set(ids)), "duplicate ids"
    return out


def patch(s):
    """the diff of the seed's edits against /repo's HEAD; warns when only added lines or lines of our own are changed"""
    w = tempfile.mkdtemp()
    try:
        files = sorted({e[0] for e in s["edits"]})
        for side in "ab":
            for f in files:
                d = os.path.join(w, side, f)
                os.makedirs(os.path.dirname(d), exist_ok=True)
                open(d, "wb").write(subprocess.check_output(["git", "-C", R, "show", "HEAD:" + f]))
        for f, old, new in s["edits"]:
            p = os.path.join(w, "b", f)
            t = open(p).read()
            if t.count(old) != 1:
                sys.exit(f"{s['id']}: {f}: text found {t.count(old)} times:\n{old}")
            open(p, "w").write(t.replace(old, new))
        d = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=w, capture_output=True, text=True).stdout
        # which old lines are touched
        removed = 0
        for f in files:
            blame = subprocess.check_output(["git", "-C", R, "blame", "-l", "-s", "HEAD", "--", f], text=True).splitlines()
            ours = {i + 1 for i, l in enumerate(blame) if BASE[:39] not in l.split()[0].lstrip("^") and l.split()[0].lstrip("^") not in BASE}
            u = subprocess.run(["git", "diff", "--no-index", "-U0", "a/" + f, "b/" + f], cwd=w, capture_output=True, text=True).stdout
            for l in u.splitlines():
                if l.startswith("@@"):
                    a = l.split()[1][1:]
                    st, n = (a.split(",") + ["1"])[:2]
                    for x in range(int(st), int(st) + int(n)):
                        removed += 1
                        if x in ours:
                            print(f"WARNING {s['id']}: {f}:{x} is a line of our own")
        if not removed:
            print(f"WARNING {s['id']}: only adds lines")
        return d
    finally:
        shutil.rmtree(w)


def write(s):
    d = os.path.join(V, "seeded", s["id"])
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    p = patch(s)
    # --no-prefix over a/ and b/ gives the usual prefixes
    open(os.path.join(d, "patch.diff"), "w").write(p)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if "demo" in s:
        shutil.copytree(os.path.join(V, "tools", s["demo"]), os.path.join(d, "demo"), ignore=shutil.ignore_patterns("target", "demo.sh", "__pycache__"))
        shutil.copy(os.path.join(V, "tools", s["demo"], "demo.sh"), d)
        for n, t in s.get("files", {}).items():
            open(os.path.join(d, "demo", n), "w").write(t)
        return
    K = os.path.join(V, "tools/demokit")
    os.makedirs(os.path.join(d, "demo/src"))
    for f in ["Cargo.toml", "Cargo.lock", "src/svm.rs", "src/wire.rs", "src/kit.rs"]:
        shutil.copy(os.path.join(K, f), os.path.join(d, "demo", f))
    shutil.copy(os.path.join(K, "demo.sh"), d)
    if s.get("cov"):
        shutil.copy(os.path.join(V, "harness/cov-rustc.sh"), os.path.join(d, "demo/cov.sh"))
    body = "\n".join("    " + l if l.strip() else "" for l in s["main"].strip("\n").splitlines())
    open(os.path.join(d, "demo/src/main.rs"), "w").write(
        "//! " + s["breaks"].replace("\n", " ") + "\n#![allow(dead_code, unused_imports)]\nmod kit;\nmod svm;\nmod wire;\nuse kit::*;\nuse wire::DAY;\n\nfn main() {\n" + body + '\n    println!("ok");\n}\n')


if __name__ == "__main__":
    want = sys.argv[1:]
    for s in seeds():
        if not want or s["id"] in want:
            write(s)
