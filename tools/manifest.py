"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = json.load(open(os.path.join(HERE, "tools", "checks.json"), encoding="utf-8"))
props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
checks, missing = [], []
for prop in props:
    entry = CHECKS.get(prop["id"])
    if entry is None:
        missing.append({"property": prop["id"], "reason": "no check built yet"})
    elif "not_applicable" in entry:
        missing.append({"property": prop["id"], "reason": entry["not_applicable"]})
    else:
        checks.append({
            "property": prop["id"],
            "quick_cmd": "VERIF_TIER=quick ./run.sh " + entry["script"],
            "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + entry["script"],
            "evidence_file": "evidence/{}.json".format(prop["id"]),
            "technique": entry["technique"],
            "level": entry["level"],
            "level_note": entry["level_note"],
        })
manifest = {
    "version": 1,
    "setup_cmd": "g++ --version >/dev/null && /opt/venv/bin/python -c 'import pynini' && mkdir -p evidence",
    "checks": checks,
    "not_applicable": missing,
    "notes": "No hooks: every check imports the unmodified sources of /repo's working tree and builds the graphs in memory (cache_dir=False) or in a scratch directory of its own; C05 compiles the C++ sources into that scratch directory.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as out:
    json.dump(manifest, out, ensure_ascii=False, indent=1)
    out.write("\n")
