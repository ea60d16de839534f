#!/usr/bin/env python3
"""Mutation testing of the explorers, in scratch copies of /repo and /verif under /tmp/mut.

usage: mutate.py list FILE..            prints the mutants of /repo files
       mutate.py run JOBS FILE..        runs all mutants of the files, JOBS at a time; results in /tmp/mut/results.jsonl
A mutant counts as caught if some explorer reports a violation, hangs or crashes; surviving mutants need a look: they are
equivalent, or in code that no property reaches, or show a gap.
"""
import json, os, re, shutil, subprocess, sys, threading, time

ROOT = "/tmp/mut"
ENG = {"vec2d": "V01 V02 V03 V04 V05 R01 R06".split(), "cart": "C01 C02 C03".split(),
       "rest": "R01 R08 F02 F01 F04 R07 R11 R03 R06 R02 R05 R04 R10 R09 G01 G02 G03 G05 G06 F03 F05 F06 F07 F08 F09 F10 U01 U02 U03 U04 E01 E02 G04".split()}

def props(f):
    if "vec2d" in f: return ENG["vec2d"]
    if "cartesian" in f: return ENG["cart"]
    if "utils/src/parse" in f: return "U01 U02 U03 U04 R02".split()
    if "example" in f: return ["E01", "E02"]
    if os.environ.get("SHORT"):
        # Those that notice most; the others see what these leave over.
        if "compact" in f or "simple" in f: return "F02 F06 F04".split()
        if "gearley-default" in f or "gearley-grammar" in f: return "G02 G03 R11 F02 R01".split()
        return "R08 R10 F02 R11 R06".split()
    if "compact" in f or "simple" in f: return "F02 F04 F01 F03 F05 F06 F07 F08 F09 F10 R09".split()
    if "gearley-default" in f or "gearley-grammar" in f: return "G02 G01 G03 R11 F04 R01 R08 F02 F01 R07 R03 R06 R02 R05 R10 R09 G05 G06 F03 F05 F06 F07 F08 F09 F10 U01 U04 G04".split()
    return ENG["rest"]

def binary(p):
    return {"V": "vec2d", "C": "cartesian"}.get(p[0], "serde" if p == "G04" else "parse")

SUBS = [(r"(?<![<>=!-])<(?![<=A-Za-z'])", ["<=", ">"]), (r"(?<![<>=-])>(?![>=])(?=\s)", [">=", "<"]), (r"<=", ["<", ">"]), (r"(?<![=>])>=", [">", "<"]),
        (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|(?=\s)", ["&&"]),
        (r"(?<=[\w\)\]] )\+(?= )", ["-"]), (r"(?<=[\w\)\]] )-(?= )", ["+"]), (r"(?<=[\w\)\]] )\*(?= )", ["+"]), (r"\+=", ["-="]), (r"-=", ["+="]),
        (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![\w.])0(?![\w.x])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])2(?![\w.])", ["1", "3"]),
        (r"\.max\(", [".min("]), (r"\.min\(", [".max("]), (r"\.rev\(\)", [""]), (r"\bcontinue\b", ["break"]), (r"\bbreak\b", ["continue"]),
        (r"\bSome\((?=\w+\)$)", []), (r"\.skip\(1\)", [""]), (r"\.lhs0\b", [".lhs1"]), (r"\.lhs1\b", [".lhs0"]), (r"\brhs0\b", ["rhs1"]), (r"\brhs1\b", ["rhs0"]),
        (r"\bleft_factor\b", ["right_factor"]), (r"\bright_factor\b", ["left_factor"]), (r"\bpredicted\b", ["medial"]), (r"!(?=[a-z])", [""]), (r"\|=", ["&=", "="]), (r"<<", [">>"]), (r">>(?= )", ["<<"]), (r"(?<= )&(?= )", ["|"]), (r"(?<= )\|(?= [a-z0-9(])", ["&"])]

def mutants(path):
    src = open(path).read()
    lines = src.split("\n")
    out = []
    test = False
    for n, l in enumerate(lines):
        code = l.split("//")[0]
        s = code.strip()
        if s.startswith(("#[cfg(test)]", "#[test]")): test = True
        if test or not s or s.startswith(("#", "use ", "pub use", "mod ", "pub mod", "debug!", "trace!", "info!", "println!", "assert", "debug_assert", "pub fn", "fn ", "impl", "pub struct", "struct", "where", "type ", "pub trait", "trait", "///", "extern")): continue
        if "println!" in s or "log::" in s: continue
        for pat, reps in SUBS:
            for m in re.finditer(pat, code):
                if m.group(0) in ("<", ">") and re.search(r"(Vec|Option|Iterator|impl|->|::<|dyn |Item|Recognizer|Range)", code) : continue
                for r in reps:
                    out.append((n, code[:m.start()] + r + code[m.end():] + l[len(code):], f"{m.group(0)} -> {r}"))
        if re.match(r"^(if|\} else if|while) ", s) and s.endswith("{") and " let " not in s:
            c = re.match(r"^(\s*(?:\} else )?(?:if|while) )(.*)( \{)$", code)
            if c:
                if "while" not in c.group(1):
                    out.append((n, c.group(1) + "true || " + "(" + c.group(2) + ")" + c.group(3), "condition true"))
                out.append((n, c.group(1) + "false && (" + c.group(2) + ")" + c.group(3), "condition false"))
                if "while" not in c.group(1): out.append((n, c.group(1) + "!(" + c.group(2) + ")" + c.group(3), "condition negated"))
        if s.endswith(";") and not re.match(r"^(let|return|break|continue|\}|\)|const|static|pub|type)", s) and s.count("(") == s.count(")") and s.count("{") == s.count("}") and (not lines[n-1].strip() or lines[n-1].strip()[-1] in "{};/" or lines[n-1].strip().startswith("//")):
            out.append((n, "", "statement removed"))
    return lines, out

def setup(w):
    d = f"{ROOT}/{w}"
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    subprocess.run(["rsync", "-a", "--exclude", "target", "/repo/", f"{d}/repo/"]) if shutil.which("rsync") else shutil.copytree("/repo", f"{d}/repo", ignore=shutil.ignore_patterns("target", ".git"))
    shutil.copytree("/verif", f"{d}/verif", ignore=shutil.ignore_patterns("target", ".git", "seeded", "evidence", "build"))
    for b, _, fs in os.walk(f"{d}/verif"):
        for f in fs:
            if f in ("Cargo.toml",):
                p = f"{b}/{f}"; t = open(p).read()
                open(p, "w").write(t.replace('"/repo/', f'"{d}/repo/'))
    if os.environ.get("SHORT"):
        # Only the smallest families.
        p = f"{d}/verif/mc/parse/src/plans.rs"; t = open(p).read()
        open(p, "w").write(t.replace("pub fn families(k: u32) -> Vec<Family> {", "pub fn families(_: u32) -> Vec<Family> {\n    let k = 0;"))
    return d

def build(d, engines, secs=600):
    for e in engines:
        r = subprocess.run(["cargo", "build", "--release", "--offline", "-j", "2", "--target-dir", f"{d}/t-{e}"], cwd=f"{d}/verif/mc/{e}", stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=secs)
        if r.returncode: return False
    return True

def run_prop(d, p, secs):
    e = binary(p)
    exe = {"vec2d": "mc-vec2d", "cartesian": "mc-cartesian", "parse": "mc-parse", "serde": "mc-serde"}[e]
    try:
        r = subprocess.run([f"{d}/t-{e}/release/{exe}", p, "--tier", "quick", "--threads", os.environ.get("THREADS", "2"), "--unit-secs", "60", "--out", f"{d}/out"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=secs)
        if r.returncode == 0: return None
        t = ""
        try:
            j = json.load(open(f"{d}/out")); t = str(j.get("violations") or j)[:300]
        except Exception as x: t = str(x)
        return f"rc={r.returncode} {t}"
    except subprocess.TimeoutExpired:
        return "timeout"

def main():
    if sys.argv[1] == "list":
        k = 0
        for f in sys.argv[2:]:
            ls, ms = mutants("/repo/" + f)
            for n, l, what in ms:
                print(f"{f}:{n+1}: {what}: {ls[n].strip()}  =>  {l.strip()}"); k += 1
        print(k); return
    jobs = int(sys.argv[2]); threads = os.environ.get("THREADS", "2"); todo = []
    allprops = os.environ.get("ALL") == "1"
    done = set()
    if os.path.exists(f"{ROOT}/results.jsonl"):
        for l in open(f"{ROOT}/results.jsonl"): j = json.loads(l); done.add((j["file"], j["line"], j["new"]))
    for f in sys.argv[3:]:
        ls, ms = mutants("/repo/" + f)
        for m in ms:
            if (f, m[0] + 1, m[1].strip()) not in done: todo.append((f, ls, m))
    todo.reverse(); lock = threading.Lock(); os.makedirs(ROOT, exist_ok=True)
    total = len(todo)
    def work(w):
        d = setup(w)
        while True:
            with lock:
                if not todo: return
                f, ls, (n, new, what) = todo.pop(); left = len(todo)
            ps = props(f)
            mod = list(ls); mod[n] = new
            path = f"{d}/repo/{f}"
            open(path, "w").write("\n".join(mod))
            t0 = time.time(); res = "survived"; by = []
            try:
                built = set()
                for p in ps:
                        e = binary(p)
                        if e not in built:
                            if not build(d, [e]): res = "does not build"; break
                            built.add(e)
                        v = run_prop(d, p, int(os.environ.get("PSECS", "400")))
                        if v:
                            res = "caught"; by.append((p, v))
                            if not allprops: break
            except Exception as x: res = "error " + repr(x)[:200]
            open(path, "w").write("\n".join(ls))
            with lock:
                open(f"{ROOT}/results.jsonl", "a").write(json.dumps({"file": f, "line": n + 1, "what": what, "old": ls[n].strip(), "new": new.strip(), "result": res, "by": by, "secs": round(time.time() - t0)}) + "\n")
                print(f"[{total-left}/{total}] {res} {[b[0] for b in by]} {f}:{n+1} {what}: {ls[n].strip()}", flush=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(jobs)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
