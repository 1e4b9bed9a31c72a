"""mkseed.py: write /verif/seeded/<id>/ from (edits, demo). Usage: from a spec file defining SEEDS."""
import importlib.util, json, pathlib, shutil, subprocess, sys, tempfile
def make(id, prop, edits, needs, breaks, demo):
    d = pathlib.Path("/verif/seeded") / id
    d.mkdir(parents=True, exist_ok=True)
    w = pathlib.Path(tempfile.mkdtemp(prefix="mkseed_"))
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=False)
    subprocess.run(f"git -C /repo archive HEAD kmcpy | tar -x -C {w}", shell=True, check=True)
    subprocess.run("git init -q . && git add -A && git -c user.email=a@b -c user.name=x commit -qm b", shell=True, cwd=w, check=True)
    for f, old, new in edits:
        p = w / f
        s = p.read_text()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        p.write_text(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
    (d / "patch.diff").write_text(diff)
    shutil.rmtree(w)
    (d / "demo.py").write_text(demo)
    (d / "demo.sh").write_text('#!/bin/bash\n# exit 0 when the property holds in the tree at the current directory\nd=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python -W ignore "$d/demo.py"\n')
    (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1))
if __name__ == "__main__":
    sp = importlib.util.spec_from_file_location("spec", sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    only = sys.argv[2:]
    for s in m.SEEDS:
        if not only or s[0] in only: make(*s); print(s[0])
