"""Create and confirm a planted bug: python tools/plant.py SPEC.py [check ids]

SPEC.py defines id, prop, needs, breaks, edits = [(file, old, new), ...] and demo (python source).
Everything happens in a scratch copy of /repo; the result is /verif/seeded/<id>/.
"""
import json, os, pathlib, re, shutil, subprocess, sys, tempfile
root = pathlib.Path(__file__).resolve().parent.parent
ns = {}
exec(pathlib.Path(sys.argv[1]).read_text(), ns)
out = root / "seeded" / ns["id"]
out.mkdir(parents=True, exist_ok=True)
(out / "demo.py").write_text("import os, sys\nsys.path.insert(0, os.getcwd())\n" + ns["demo"].lstrip())
(out / "demo.sh").write_text('#!/bin/bash\n# exit 0: the property holds; anything else: it does not\nexec /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
(out / "demo.sh").chmod(0o755)
(out / "meta.json").write_text(json.dumps({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, indent=1) + "\n")
tmp = pathlib.Path(tempfile.mkdtemp(prefix="plant", dir="/tmp"))
try:
    cp = tmp / "repo"
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
    subprocess.run(["git", "clone", "-q", "/repo", str(cp)], check=True)
    env = dict(os.environ, PYTHONPATH=str(cp), MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")

    def demo():
        p = subprocess.run([str(out / "demo.sh")], cwd=cp, env={k: v for k, v in os.environ.items()}, capture_output=True, text=True, timeout=300)
        return p.returncode, (p.stdout + p.stderr)[-600:]

    c0, o0 = demo()
    for f, old, new in ns["edits"]:
        p = cp / f
        s = p.read_text()
        assert s.count(old) >= 1, f"not found in {f}: {old!r}"
        assert s.count(old) == 1 or ns.get("first"), f"ambiguous in {f}: {old!r}"
        p.write_text(s.replace(old, new, 1))
    diff = subprocess.run(["git", "diff"], cwd=cp, capture_output=True, text=True, check=True).stdout
    (out / "patch.diff").write_text(diff)
    c1, o1 = demo()
    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "vp_seed_rng", "-p", "no:cacheprovider", "-p", "no:xdist", "--continue-on-collection-errors", "tests"],
                       cwd=cp, env=dict(env, PYTHONPATH=f"/opt/vp/plugins:{cp}"), capture_output=True, text=True)
    tests = t.stdout.strip().splitlines()[-1]
    ok = c0 == 0 and c1 != 0 and "26 passed" in tests
    print(f"{ns['id']}: demo {c0} -> {c1}; {tests}; {'CONFIRMED' if ok else 'NOT CONFIRMED'}")
    if not ok:
        print("--- before:", o0, "--- after:", o1)
    else:
        print("   demo says:", o1.strip().splitlines()[-1][:200] if o1.strip() else "")
    for c in sys.argv[2:] or [ns["prop"]]:
        p = subprocess.run([str(root / "check"), c], env=dict(os.environ, VERIF_REPO=str(cp), VERIF_EVIDENCE=str(tmp / "ev")), capture_output=True, text=True)
        print(f"   check {c}: exit {p.returncode}; " + " | ".join(l[:220] for l in p.stdout.strip().splitlines() if not l.startswith("repeat"))[:700])
        if p.returncode not in {0, 1}:
            print(p.stderr[-800:])
finally:
    shutil.rmtree(tmp)
