#!/usr/bin/env python3
"""Mutation testing of the checks: small systematic changes to /repo's sources, each built in a scratch
copy, kept if the stable tests still pass, and put to the checks (fewer cases than the quick tier).
mutants.py [--lanes 4] [--cases 20000] [--sample N] [--seed N] [--files a,b]; results in /tmp/mut/results.jsonl."""
import json, os, queue, random, re, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
def opt(k, d): return a[a.index(k) + 1] if k in a else d
LANES, CASES, SAMPLE = int(opt("--lanes", 4)), int(opt("--cases", 20000)), int(opt("--sample", 0))
random.seed(int(opt("--seed", 1)))
R = "/tmp/mut"
FILES = opt("--files", "src/parser/mod.rs,src/analyzer/mod.rs,src/analyzer/indexer.rs,src/analyzer/helper.rs,src/analyzer/err.rs,src/parser/helper.rs,src/parser/err.rs,src/ast/table.rs,src/ast/refs.rs,src/ast/unit.rs,src/ast/schema.rs,src/ast/project.rs,src/ast/indexes.rs,src/ast/enums.rs,src/utils/mod.rs,src/lib.rs,src/dbml.pest").split(",")
def sh(c, t=900):
    try: return subprocess.run(["bash", "-c", c], capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        class T: returncode, stdout, stderr = 99, "", "timeout"
        return T
RS = [
 (r" == ", [" != "]), (r" != ", [" == "]), (r" > ", [" >= ", " < "]), (r" < ", [" <= ", " > "]), (r" && ", [" || "]), (r" \|\| (?=[a-zA-Z!&(])", [" && "]),
 (r"\bif !", ["if "]), (r"\bif (?=[a-z(&*])(?!let)", ["if !"]),
 (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])2(?![\w.])", ["1", "3"]),
 (r"\.any\(", [".all("]), (r"\.all\(", [".any("]), (r"\.first\(\)", [".last()"]), (r"\.max\(", [".min("]), (r"\.iter\(\)", [".iter().skip(1)", ".iter().take(1)", ".iter().rev()", ".iter().take(2)"]), (r"\.into_iter\(\)", [".into_iter().rev()", ".into_iter().take(1)", ".into_iter().skip(1)"]),
 (r"into_inner\(\)", ["into_inner().skip(1)", "into_inner().take(1)", "into_inner().take(2)", "into_inner().rev()"]),
 (r"\.push\(", [".insert(0, "]), (r"\bis_some_and\b", ["is_none_or"]), (r"\bis_none\(\)", ["is_some()"]), (r"\bis_some\(\)", ["is_none()"]),
 (r"\blhs\b", ["rhs"]), (r"\brhs\b", ["lhs"]), (r"\bl_(?=\w)", ["r_"]), (r"\br_(?=\w)", ["l_"]), (r"\.raw\b", [".to_string"]), (r"\.to_string\b(?!\()", [".raw"]),
 (r"\bstart\b", ["end"]), (r"\bend\b", ["start"]), (r"\bSome\((?=[a-z])[^()]*(\([^()]*\)[^()]*)*\)", ["None"]), (r"&[a-z_.]+\.span_range", ["&(0..0)", "&(0..1)"]),
 (r'"([a-z ]+)"', [r'"\1x"', r'"X\1"']), (r"\bpush_str\b", ["clear(); let _ = ("]), (r"\.cloned\(\)\b", [".cloned().take(1)"]),
 (r"\bi64\b", ["i32", "i16", "u8"]), (r"\bu32\b", ["u16", "u8"]), (r"\bi16\b", ["i8"]), (r"\bf64\b", ["f32"]),
 (r"\.trim\(\)", [""]), (r"\.chars\(\)\.count\(\)", [".len()"]), (r"len\(\)", ["len() + 1", "len().min(2)", "len() as u8 as usize"]), (r"\.rsplit_once", [".split_once"]),
 (r"\.filter\(", [".skip_while("]), (r"\bunwrap_or_default\(\)", ["unwrap_or(true)"]),
]
VARS = ["One2One","One2Many","Many2One","Many2Many"]
GROUPS = [VARS, ["Null","NotNull"], ["VarChar","Char","Time","Timestamp","Timetz","Timestamptz","Bit","Varbit","Decimal","SmallInt","Integer","BigInt"], ["is_pk","is_unique"], ["on_update","on_delete"], ["l_col","r_col"], ["lhs_ident","rhs_ident"], ["lhs_table","rhs_table"], ["self_lhs","self_rhs"], ["other_lhs","other_rhs"], ["schema","name"], ["cols","rows"], ["pk_list","unique_list"], ["self","other"], ["ref_to","ref_by","ref_self"]]
def mutants(f):
    lines = open("/repo/" + f).read().split("\n")
    out = []
    for n, l in enumerate(lines):
        code = l.split("//")[0] if f.endswith(".rs") else l
        if not code.strip() or code.strip().startswith(("///", "#[", "use ", "//", "pub struct", "mod ")): continue
        if f.endswith(".pest"):
            for r, reps in [(r"\*", ["+", "?"]), (r"\+", ["*", ""]), (r"\?", ["", "*"]), (r" \| [^|]*?(?= [|}])", [""]), (r"~ [^~|}]+ ~", ["~"]), (r"= @", ["= "]), (r"= _", ["= "]), (r"\^\"", ["\""]), (r"!", [""]), (r'"(.)"', [r'"\1\1"'])]:
                for m in re.finditer(r, code):
                    for x in reps: out.append((n, code[:m.start()] + m.expand(x) + code[m.end():]))
            continue
        for r, reps in RS:
            for m in re.finditer(r, code):
                for x in reps: out.append((n, code[:m.start()] + m.expand(x) + code[m.end():]))
        for g in GROUPS:
            for m in re.finditer(r"\b(" + "|".join(g) + r")\b", code):
                i = g.index(m.group(1))
                for x in {g[(i + 1) % len(g)], g[i - 1]}:
                    if x != m.group(1): out.append((n, code[:m.start()] + x + code[m.end():]))
        s = code.strip()
        if re.match(r"^(acc|out|init|settings|self|indexer|tmp_\w+|throw_err|check_\w+|indexed_refs)\b.*;$", s): out.append((n, "();"))
        if re.match(r"^[A-Z\"].* => .*,$", s) : out.append((n, ""))
        if re.match(r"^\| ", s): out.append((n, ""))
        if re.match(r"^(&&|\|\|) ", s): out.append((n, ""))
        if re.match(r"^\.\w+\(.*\)$", s): out.append((n, ""))
        if re.match(r"^Rule::.* => (acc|settings)\..*,$", s): out.append((n, re.sub(r"=> .*", "=> (),", code)))
        if re.match(r"^\"[a-z ]+\"( \| \"[a-z ]+\")* => ", s): out.append((n, re.sub(r"=> .*", "=> (),", code)))
    # multi-line statements: an if block taken as never or always
    seen, res = set(), []
    for n, c in out:
        if c == lines[n] or (n, c) in seen: continue
        seen.add((n, c)); res.append((f, n, lines[n], c))
    return res
PARSER = ["C02","C03","C04","C05","C06","C07","C09","C01","C10","C08","C21","C24","C26","C27"]
SEM = ["C21","C24","C11","C12","C13","C14","C15","C16","C17","C18","C19","C20","C22","C23","C01","C08","C02"]
def order(f):
    if "utils" in f: return ["C25"]
    if "analyzer" in f: return SEM + ["C25"]
    return PARSER + SEM[2:14] + ["C25"]
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []))
def lane(k, q, log):
    L = f"{R}/lane{k}"
    sh(f"rm -rf {L}; mkdir -p {L}; git clone -q /repo {L}/repo; git clone -q {V} {L}/verif; rm -rf {L}/verif/seeded; cp -a /repo/target {L}/repo/ 2>/dev/null; sed -i 's#/repo\"#{L}/repo\"#' {L}/verif/harness*/Cargo.toml; sed -i 's#cd /repo #cd {L}/repo #' {L}/verif/check.sh")
    cores = f"{2*k}-{2*k+1}"
    pre = f". /opt/vp/env.sh; cd {L}/repo; export CARGO_TARGET_DIR={L}/t; taskset -c {cores} "
    sh(pre + "cargo test --workspace --offline --no-run", 1800)
    while True:
        try: f, n, old, new = q.get_nowait()
        except queue.Empty: return
        p = f"{L}/repo/{f}"
        src = open("/repo/" + f).read().split("\n")
        if src[n] != old: continue
        src[n] = new
        open(p, "w").write("\n".join(src))
        if f.endswith(".pest"): os.utime(f"{L}/repo/src/parser/mod.rs")
        t = time.time()
        r = sh(pre + "timeout -k 5 60 cargo test --workspace --offline", 600)
        st, by = None, ""
        if r.returncode: st = "nobuild" if "could not compile" in r.stderr else "tests"
        else:
            for c in order(f):
                r = sh(f"timeout -k 5 200 taskset -c {cores} {L}/verif/check.sh {c} --cases {CASES}", 600)
                if r.returncode == 1 and "VIOLATION" in r.stdout: st, by = "killed", c; break
                if r.returncode == 2: st, by = "noverdict", c + ":" + r.stderr[-300:]; break
                if r.returncode in (99, 124, 137): st, by = "timeout", c; break
                if r.returncode not in (0, 1): st, by = "BROKEN", r.stderr[-300:]; break
            else: st = "SURVIVED"
        open(p, "w").write("\n".join(open("/repo/" + f).read().split("\n")))
        with lock:
            log.write(json.dumps(dict(file=f, line=n + 1, old=old.strip(), new=new.strip(), st=st, by=by, s=round(time.time() - t))) + "\n"); log.flush()
lock = threading.Lock()
all_ = [m for f in FILES for m in mutants(f)]
done = set()
if os.path.exists(R + "/results.jsonl"):
    for l in open(R + "/results.jsonl"):
        d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
all_ = [m for m in all_ if (m[0], m[1] + 1, m[3].strip()) not in done]
random.shuffle(all_)
if SAMPLE: all_ = all_[:SAMPLE]
print(len(all_), "mutants")
if "--count" in a: sys.exit()
q = queue.Queue()
for m in all_: q.put(m)
log = open(R + "/results.jsonl", "a")
ts = [threading.Thread(target=lane, args=(k, q, log)) for k in range(LANES)]
[t.start() for t in ts]; [t.join() for t in ts]
