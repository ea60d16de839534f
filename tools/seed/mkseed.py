#!/usr/bin/env python3
"""mkseed.py [ID ...]: makes /verif/seeded/<ID> from bugs.py and confirms each in a scratch copy of /repo:
the patch applies, changes lines of the original repository, the stable tests pass, the demonstration
passes without and fails with the change."""
import json, os, pathlib, shutil, subprocess, sys, tempfile, io, tarfile
HERE = pathlib.Path(__file__).resolve().parent
VERIF = HERE.parent.parent
sys.path.insert(0, str(HERE))
import bugs  # noqa: E402

DEMO_TOML = """[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
cfg = { path = "../shims/cfg" }
cfg-symbol = { path = "../shims/cfg-symbol" }
cfg-load = { path = "../shims/cfg-load" }
bit-matrix = { path = "../shims/bit-matrix" }
gearley-forest = { path = "../ws/gearley-forest" }
gearley-grammar = { path = "../ws/gearley-grammar" }
gearley-default-grammar = { path = "../ws/gearley-default-grammar", features = ["serde"] }
gearley-recognizer = { path = "../ws/gearley-recognizer" }
gearley-utils = { path = "../ws/gearley-utils" }
gearley-example-grammars = { path = "../ws/gearley-example-grammars" }
simple-bocage = { path = "../ws/simple-bocage" }
compact-bocage = { path = "../ws/compact-bocage" }
serde_json = "1"
[workspace]
"""

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def kit(path, log):
    t = tempfile.mkdtemp()
    try:
        for d in ("shims", "ws"):
            shutil.copytree(VERIF / d, f"{t}/{d}", ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        os.makedirs(f"{t}/demo/src")
        toml = DEMO_TOML
        if log:
            toml = toml.replace('gearley-recognizer" }', 'gearley-recognizer", features = ["log"] }').replace("[workspace]", 'log = "0.4"\n[workspace]')
        open(f"{t}/demo/Cargo.toml", "w").write(toml)
        shutil.copy(HERE / "kit.rs", f"{t}/demo/src/kit.rs")
        def norm(ti):
            ti.mtime = 0; ti.uid = ti.gid = 0; ti.uname = ti.gname = ""
            return ti
        import gzip
        with open(path, "wb") as f, gzip.GzipFile(fileobj=f, mode="wb", mtime=0) as gz, tarfile.open(fileobj=gz, mode="w") as tar:
            for d in ("shims", "ws", "demo"):
                tar.add(f"{t}/{d}", arcname=d, filter=norm)
    finally:
        shutil.rmtree(t)

def make(b):
    name = b["id"]
    out = VERIF / "seeded" / name
    shutil.rmtree(out, ignore_errors=True)
    out.mkdir(parents=True)
    scratch = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = f"{scratch}/repo"
        sh(["git", "clone", "-q", "/repo", repo])
        base = sh(["git", "-C", repo, "rev-list", "--max-parents=0", "HEAD"]).stdout.split()[0]
        for file, old, new in b["edits"]:
            p = pathlib.Path(repo) / file
            s = p.read_text()
            assert s.count(old) == 1, f"{name}: {file}: {s.count(old)} occurrences of {old!r}"
            p.write_text(s.replace(old, new))
        diff = sh(["git", "-C", repo, "diff"]).stdout
        (out / "patch.diff").write_text(diff)
        # lines removed: all from the base commit?
        orig = foreign = 0
        for file in {e[0] for e in b["edits"]}:
            blame = sh(["git", "-C", repo, "blame", "-s", "-l", "HEAD", "--", file]).stdout.splitlines()
            d = sh(["git", "-C", repo, "diff", "-U0", "--", file]).stdout.splitlines()
            ln = 0
            for l in d:
                if l.startswith("@@"):
                    ln = int(l.split()[1][1:].split(",")[0])
                elif l.startswith("-") and not l.startswith("---"):
                    if blame[ln - 1].split()[0].lstrip("^") in base or base.startswith(blame[ln - 1].split()[0].lstrip("^")):
                        orig += 1
                    else:
                        foreign += 1
                    ln += 1
        if orig == 0 or foreign:
            print(f"{name}: removes {orig} original and {foreign} own lines")
        (out / "demo.rs").write_text(b["demo"])
        script = {"full": "demo_full.sh", "rustc": "demo_rustc.sh", "serde": "demo_serde.sh", "miri": "demo_miri.sh"}.get(b["kind"])
        shutil.copy(HERE / script, out / "demo.sh")
        os.chmod(out / "demo.sh", 0o755)
        if b["kind"] == "full":
            kit(out / "kit.tgz", "log::set_logger" in b["demo"])
        json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(out / "meta.json", "w"), indent=1)
        open(out / "meta.json", "a").write("\n")
        env = dict(os.environ)
        # the demonstration, without and with the change
        r = sh(["bash", str(out / "demo.sh")], cwd="/repo", env=env)
        ok0 = r.returncode == 0
        o0 = r.stdout
        r = sh(["bash", str(out / "demo.sh")], cwd=repo, env=env)
        ok1 = r.returncode != 0 and "does not build" not in r.stdout
        o1 = r.stdout
        r = sh(["rustc", "--edition", "2021", "--test", "-o", f"{scratch}/t", "gearley-utils/src/cartesian_product.rs"], cwd=repo)
        r2 = sh([f"{scratch}/t"]) if r.returncode == 0 else r
        r3 = sh(["rustc", "--edition", "2021", "--crate-type", "rlib", "-o", f"{scratch}/v.rlib", "gearley-vec2d/src/lib.rs"], cwd=repo)
        if r2.returncode or r3.returncode:
            print(f"{name}: tests fail", r2.stdout, r3.stdout)
            return False
        print(f"{name}: demo passes unchanged: {ok0}; fails changed: {ok1}; orig lines {orig}")
        if not ok0:
            print("   unchanged:", o0[-1500:])
        if not ok1:
            print("   changed:", o1[-1500:])
        else:
            print("   fails with:", " | ".join(o1.strip().splitlines()[-3:])[:300])
        return ok0 and ok1 and orig > 0 and not foreign
    finally:
        shutil.rmtree(scratch)

if __name__ == "__main__":
    want = sys.argv[1:]
    bad = [b["id"] for b in bugs.BUGS if (not want or b["id"] in want) and not make(b)]
    print("NOT CONFIRMED:", bad)
