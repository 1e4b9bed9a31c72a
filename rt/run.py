import argparse, importlib, json, os, pathlib, sys, logging
here = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(here.parent))
sys.path.insert(0, os.environ.get("KMCPY_REPO", "/repo"))
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)
ap = argparse.ArgumentParser()
ap.add_argument("pid")
ap.add_argument("--tier", default="quick")
ap.add_argument("--seed", default="1")
ap.add_argument("--budget", type=float, default=60)
ap.add_argument("--out")
ap.add_argument("--case")
ap.add_argument("--case-seed")
a = ap.parse_args()
from rt import common
import kmcpy
assert str(pathlib.Path(kmcpy.__file__).resolve()).startswith(str(common.REPO.resolve())), kmcpy.__file__
for p in sorted(here.glob("r_*.py")):
    importlib.import_module("rt." + p.stem)
res = common.run(a.pid, a.seed, a.tier, a.budget, a.case, a.case_seed)
s = json.dumps(res, indent=1)
if a.out:
    pathlib.Path(a.out).write_text(s)
else:
    print(s)
sys.exit(1 if res["failures"] else 0)
