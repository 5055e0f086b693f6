"""Writes MANIFEST.json from harness.txt (what is claimed), properties.jsonl (what exists) and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
claimed = {p: l.split()[0] for l in open(f"{V}/tools/harness.txt") for p in l.split()[1:]}
notes = {}
for l in open(f"{V}/tools/notes.txt"):
    l = l.rstrip("\n")
    if not l.strip():
        continue
    i, kind, technique, note = l.split("|")
    notes[i] = (kind, technique.strip(), note.strip())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        _, t, n = notes[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 tools/check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": t,
            "level": "exploration",
            "level_note": n,
        })
    else:
        na.append({"property": i, "reason": notes[i][2] if i in notes and notes[i][0] == "na" else
                   "The technique applies, but no check has been built yet."})
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup",
     "hooks": {"guard": "mintlayer_verif (rustc cfg)", "enable": "tools/mirror.py adds --cfg mintlayer_verif to the rustflags of its workspace",
               "source_commits": ["ba0c2cd8e87ae98f14a54a09d471ab06bac07442"]},
     "checks": checks, "not_applicable": na}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
