"""Write MANIFEST.json from the table of checks (tools/checks_table.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from checks_table import CHECKS, NOT_APPLICABLE, NOTES
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{ROOT}/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c 'import v8serialize' && node --version",
    "checks": [
        {
            "property": i,
            "quick_cmd": f"/verif/check.py {i} quick",
            "thorough_cmd": f"/verif/check.py {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": t,
            "level": "model_checking",
            "level_note": n,
        }
        for i, (t, n) in CHECKS.items()
    ],
    "not_applicable": [
        {"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")}
        for i in ids if i not in CHECKS
    ],
    "notes": NOTES,
}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
