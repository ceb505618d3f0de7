#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": ("property-based testing and text fuzzing: invariant (answer, determinism, agreement of both entry points)", "random text, token soup, framed fragments, mutated and large documents; panics are caught, kills of the process found again through a journal"),
 "C09": ("property-based testing: differential against an independent reference parser on mutated documents", "the reference parser was written from the documentation and the pinned behaviour, separately from dbml.pest"),
 "C08": ("property-based testing: metamorphic (two layouts of one token sequence)", "layouts drawn independently; both the AST without ranges and the checked verdict compared"),
 "C10": ("property-based testing: metamorphic (concatenation and single blocks)", "ranges compared after shifting"),
 "C21": ("property-based testing: differential against a reference semantics", "all rules at once; a verdict is compared only where the statements define it"),
 "C22": ("property-based testing: metamorphic (equivalent spellings)", "pairs of documents related by composed rewrites"),
 "C23": ("property-based testing: metamorphic (reorderings)", "pairs of documents related by permutations"),
 "C24": ("property-based testing: validity predicate on error locations", "the reference semantics lists for every violation where an error may point"),
 "C25": ("property-based testing: model of the relations of every table", "multisets of relations compared for every declared table"),
 "C26": ("property-based testing: invariant over parsed and assembled block lists", "object identity compared"),
 "C27": ("property-based testing: exact table of vocabulary words against generated words and near misses", "all words of the vocabulary plus generated near misses"),
}
for i in range(2, 8):
    T[f"C{i:02}"] = ("property-based testing: documents written from a model, AST compared with the model", "the model knows every token's text and range; the writer is checked against an independent reference parser on every case")
for i in range(11, 21):
    T[f"C{i}"] = ("property-based testing: verdict against a reference semantics on changed valid documents", "change operators aim at this property's rules and at near misses of them; cases whose verdict the statements leave open are skipped and counted")
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    t, n = T[i]
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"./check.sh {i} --tier thorough",
        evidence_file=f"evidence/{i}.json", technique=t, level="exploration",
        level_note="Holds on every generated case of the run, nothing beyond. " + n[0].upper() + n[1:] + ". Trusts the harness's model; see DESIGN.md."))
m = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="cfg(dbml_verif)", enable="C25 only: RUSTFLAGS='--cfg dbml_verif' and feature utils, set by check.sh; all other checks use the public API of an unmodified build", source_commits=["a853421"]),
    checks=checks, not_applicable=[],
    notes="Every command builds from /repo's working tree into /verif/target (ignored by git). Options after the property id: --cases N, --seed N, --replay FILE, --show N.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
