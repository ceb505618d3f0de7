#!/usr/bin/env python3
"""Runs the check of each planted bug's property against it, in a copy of /repo and /verif:
sens.py [--all] [--seeds 1,2,3] [ID...]. --all: every check, at a fifth of its quick size."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
every = "--all" in a
seeds = a[a.index("--seeds") + 1].split(",") if "--seeds" in a else ["1"]
D = {x: d for d in ("seeded", "seeded_grammar") for x in os.listdir(f"{V}/{d}")}
ids = [x for x in a if not x.startswith("--") and not x[0].isdigit()] or sorted(D)
props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
L = "/tmp/sens"
sh(f"rm -rf {L}; mkdir {L}; git clone -q /repo {L}/repo; cp -a {V} {L}/verif; rm -rf {L}/verif/seeded; sed -i 's#/repo\"#{L}/repo\"#' {L}/verif/harness*/Cargo.toml; sed -i 's#cd /repo #cd {L}/repo #' {L}/verif/check.sh")
assert "/tmp/sens/repo" in open(f"{L}/verif/harness/Cargo.toml").read()
for i in ids:
    p = json.load(open(f"{V}/{D[i]}/{i}/meta.json"))["property"]
    assert sh(f"git -C {L}/repo apply {V}/{D[i]}/{i}/patch.diff").returncode == 0, i
    try:
        res = []
        for q in (props if every else [p]):
            for s in seeds:
                t = time.time()
                r = sh(f"{L}/verif/check.sh {q} --seed {s}")
                hit = r.returncode == 1 and f"VIOLATION property={q} " in r.stdout
                case = next((l.split(":")[0] for l in r.stdout.splitlines() if l.startswith("case ")), "")
                if not every or r.returncode:
                    res.append(f"{q}/{s}:{'CAUGHT' if hit else 'exit %d' % r.returncode} {case} {time.time()-t:.0f}s")
        print(i, p, " | ".join(res), flush=True)
    finally:
        sh(f"git -C {L}/repo checkout -- .")
