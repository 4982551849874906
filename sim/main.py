import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
p = argparse.ArgumentParser()
p.add_argument("property")
p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
p.add_argument("--replay")
a = p.parse_args()
if a.property == "setup":
    import kernel
    kernel.build_shim()
    sys.exit(0)
import framework
try:
    rc = framework.main(a.property, a.tier, a.seed, a.replay)
except Exception:
    import traceback
    traceback.print_exc(file=sys.stdout)
    rc = 2
sys.stdout.flush()
os._exit(rc)
