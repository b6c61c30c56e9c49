#!/usr/bin/env python3
"""mkseed.py SPEC.py...: confirm planted changes in a scratch copy and write /verif/seeded/<id>/.
SPEC defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], deps=[crates], main=rust text)].
--check also runs the property's check against the change (in /repo, undone straight afterwards)."""
import json, os, subprocess, sys, tempfile, shutil
V = "/verif"
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it is broken
D="$(cd "$(dirname "$0")" && pwd)"; R="$(pwd)"
T="$(mktemp -d)"; trap 'rm -rf -- "$T"' EXIT
mkdir -p "$T/src"; cp "$D/main.rs" "$T/src/main.rs"; cp "$D/Cargo.lock" "$T/Cargo.lock"
{ printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[profile.dev]\\ndebug = false\\n[dependencies]\\n'; for c in %s; do echo "$c = { path = \\"$R/$c\\" }"; done; } > "$T/Cargo.toml"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$T/target"
cargo build -q --offline --manifest-path "$T/Cargo.toml" 2>"$T/log" || { tail -20 "$T/log"; exit 2; }
timeout 60 "$T/target/debug/demo"
'''
def main():
    check = "--check" in sys.argv
    only = [a[2:] for a in sys.argv if a.startswith("-i")]
    WT = "/tmp/seedwt"
    for spec in [a for a in sys.argv[1:] if not a.startswith("-")]:
        ns = {}; exec(open(spec).read(), ns)
        for s in ns["SEEDS"]:
            if only and s["id"] not in only: continue
            shutil.rmtree(WT, ignore_errors=True); sh(["cp", "-a", "/repo", WT]); sh(["git", "-C", WT, "checkout", "-q", "--", "."])
            d = os.path.join(V, "seeded", s["id"]); 
            tmp = tempfile.mkdtemp()
            open(tmp + "/main.rs", "w").write(s["main"]); shutil.copy("/opt/vp/Cargo.lock", tmp + "/Cargo.lock")
            open(tmp + "/demo.sh", "w").write(DEMO % " ".join(s["deps"])); os.chmod(tmp + "/demo.sh", 0o755)
            r0 = sh(["bash", tmp + "/demo.sh"], cwd=WT)
            ok = True
            for f, old, new in s["edits"]:
                p = os.path.join(WT, f); t = open(p).read()
                if t.count(old) < 1: print(s["id"], "EDIT DOES NOT APPLY", old); ok = False; break
                if t.count(old) > 1: print(s["id"], "edit is ambiguous", t.count(old), old); ok = False; break
                open(p, "w").write(t.replace(old, new, 1))
            if not ok: continue
            diff = subprocess.run(["git", "-C", WT, "diff"], stdout=subprocess.PIPE, text=True).stdout
            r1 = sh(["bash", tmp + "/demo.sh"], cwd=WT)
            # tests in the scratch copy
            env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR="/tmp/seedwt_target", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
            t = sh(["cargo", "test", "--workspace", "--offline", "--no-fail-fast"], cwd=WT, env=env)
            passed = {l.split()[1] for l in t.stdout.splitlines() if l.startswith("test ") and l.rstrip().endswith("ok")}
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            names = [b.split("::", 1)[1] for b in base]
            miss = [n for n in names if not any(n == p or n.endswith("::" + p) for p in passed)]
            good = r0.returncode == 0 and r1.returncode not in (0, 2) and not miss
            print(s["id"], "demo clean rc", r0.returncode, "patched rc", r1.returncode, "tests missing", miss[:4], "=>", "KEPT" if good else "REJECTED")
            if not good: print(r0.stdout[-500:], r1.stdout[-500:], t.stdout[-800:] if miss else ""); continue
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            for n in ("main.rs", "Cargo.lock", "demo.sh"): shutil.copy(tmp + "/" + n, d + "/" + n)
            json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
            shutil.rmtree(tmp)
            if check: runcheck(s["id"], s["prop"])
    shutil.rmtree(WT, ignore_errors=True)
def runcheck(i, prop):
    p = "%s/seeded/%s/patch.diff" % (V, i)
    a = sh(["git", "-C", "/repo", "apply", p])
    if a.returncode: print(i, "patch does not apply", a.stdout); return
    try:
        r = sh(["python3", V + "/check.py", prop], cwd=V)
        print("   ", i, "check rc", r.returncode, "|", " / ".join(r.stdout.splitlines()[:6])[:900])
    finally: sh(["git", "-C", "/repo", "checkout", "--", "."])
if __name__ == "__main__":
    if sys.argv[1:2] == ["run"]:
        for i in sys.argv[2:] or sorted(os.listdir(V + "/seeded")):
            runcheck(i, json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"])
    else: main()
