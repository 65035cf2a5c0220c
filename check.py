#!/opt/venv/bin/python
"""Run the check of one property: check.py ID [quick|thorough]."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
# the checks decide /repo; MC_REPO_SRC is for development on scratch copies
sys.path.insert(0, os.environ.get("MC_REPO_SRC", "/repo/src"))
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("TZ", "UTC")
if os.environ.get("PYTHONHASHSEED") != "0":
    # sets of strings in the same order in every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, *sys.argv])


def main() -> int:
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from mc.core import Check

    check = Check(pid, tier, seed)
    try:
        module = importlib.import_module(f"mc.checks.{pid.lower()}")
        module.main(check)
    except Exception as e:
        check.crashed(e)
    return check.finish()


if __name__ == "__main__":
    sys.exit(main())
