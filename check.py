#!/usr/bin/env python3
"""Decide one property: check.py PID [--thorough].

Deciding step: the functions a property depends on are extracted mechanically from /repo's
working tree (vx), joined with their contracts (contracts/*.vrs) and given to Verus; every
obligation must be accepted.  A failed obligation is replayed against the compiled code by the
concrete harness.  Functions the verifier cannot take (lost anchor, unsupported construct, loop
structure that no longer matches the loop contracts, resource limit) are decided by the bounded
stand-in only, and the evidence says so.  Exit 0 or 1 only.
"""
import json, os, re, subprocess, sys, time, shutil, threading, resource
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, ".build")
from props import PROPS, ASSUME

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", HOME=os.environ.get("HOME", "/root"))
ENV.pop("RUSTFLAGS", None)


def sh(cmd, timeout=600, env=None, cwd=None, mem=None):
    def pre():
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env or ENV, cwd=cwd, preexec_fn=pre, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        import signal
        try: os.killpg(p.pid, signal.SIGKILL)     # the solver is a child of the verifier
        except OSError: pass
        o, e = p.communicate()
        return -99, o.decode("utf8", "replace"), e.decode("utf8", "replace") + "\n[timeout]"


# ------------------------------------------------------------------------------------ building
def tree_hash(*roots):
    import hashlib
    h = hashlib.sha256()
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", ".build", "seeded"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    h.update(os.path.join(d, f).encode()); h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()


def fresh(tgt, manifest, pkgs, *roots):
    """cargo trusts modification times; a restored or copied tree can carry old ones. Go by content."""
    h, stamp = tree_hash(*roots), os.path.join(tgt, "content.sha256")
    if os.path.exists(stamp) and open(stamp).read() == h: return None
    if os.path.isdir(tgt):
        for p in pkgs: sh(["cargo", "clean", "--offline", "-q", "--manifest-path", manifest, "--target-dir", tgt, "-p", p], 120)
        if os.path.exists(stamp): os.remove(stamp)
    return lambda: open(stamp, "w").write(h)


def build_vx():
    tgt = os.path.join(BUILD, "vx")
    done = fresh(tgt, os.path.join(V, "vx/Cargo.toml"), ["vx"], os.path.join(V, "vx"))
    rc, o, e = sh(["cargo", "build", "--offline", "--locked", "-q", "--manifest-path", os.path.join(V, "vx/Cargo.toml"), "--target-dir", tgt], 600)
    if rc == 0 and done: done()
    return (os.path.join(tgt, "debug/vx"), None) if rc == 0 else (None, e)


def build_harness(crate):
    tgt = os.path.join(BUILD, crate)
    man = os.path.join(V, "harness", crate, "Cargo.toml")
    pk = [crate + "_harness"] + {"core": ["util", "alg"], "topo": ["util", "alg", "topo_spaces"], "misc": ["analysis", "geom", "util", "alg"]}[crate]
    done = fresh(tgt, man, pk, os.path.join(V, "harness"), REPO)
    rc, o, e = sh(["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(V, "harness", crate, "Cargo.toml"), "--target-dir", tgt], 700)
    if rc == 0 and done: done()
    return (os.path.join(tgt, "debug", crate + "_harness"), None) if rc == 0 else (None, e)


# ------------------------------------------------------------------------------------ verifying
class Unit:
    """One contract file, extracted and verified."""

    def __init__(self, name, work, thorough):
        self.name, self.work, self.thorough = name, work, thorough
        self.fns, self.structs, self.errors = {}, [], []
        self.verified = self.failed_count = 0
        self.smt_ms = self.total_ms = 0
        self.other_errors = []      # errors outside contracted functions
        self.stubs = []
        self.vacuous = []
        self.trusted = []
        self.cmd = ""
        self.broken = None          # the whole unit is undecided
        self.runs = 0
        self.log = ""

    def extract(self, vx, canary=False):
        suffix = "_canary" if canary else ""
        out = os.path.join(self.work, self.name + suffix + ".rs")
        rep = os.path.join(self.work, self.name + suffix + ".json")
        cmd = [vx, REPO, os.path.join(V, "contracts", self.name + ".vrs"), out, rep, os.path.join(V, "contracts/baseline")]
        if canary: cmd.append("--canary")
        for s in self.stubs: cmd += ["--stub", s]
        rc, o, e = sh(cmd, 120)
        if rc != 0: return None, None, e[-2000:]
        return out, json.load(open(rep)), None

    def verus(self, path, rlimit, extra=()):
        cmd = ["verus", path, "--triggers-mode", "silent", "--rlimit", str(rlimit), "--error-format=json", "--output-json", "--time"] + list(extra)
        if "_canary" not in path: self.cmd = " ".join(["verus", os.path.basename(path)] + cmd[2:])
        rc, o, e = sh(cmd, 200 if not self.thorough else 400, cwd=self.work)
        self.runs += 1
        diags = []
        for line in e.splitlines():
            if line.startswith("{"):
                try: diags.append(json.loads(line))
                except ValueError: pass
        js = None
        try: js = json.loads(o[o.index("{"):])
        except ValueError: pass
        return rc, js, diags, e

    @staticmethod
    def where(d, fns):
        """the contracted function a diagnostic belongs to"""
        spans = list(d.get("spans", []))
        pre = d["message"].startswith("precondition not satisfied")
        spans.sort(key=lambda s: (("failed precondition" in (s.get("label") or "")) if pre else 0, not s["is_primary"]))
        for s in spans:
            for k, f in fns.items():
                if f["line0"] <= s["line_start"] <= f["line1"]: return k, s["line_start"]
        return None, (spans[0]["line_start"] if spans else 0)

    def run(self, vx):
        rl = 120 if self.thorough else 60
        for attempt in range(8):
            out, rep, err = self.extract(vx)
            if err:
                self.broken = "extraction failed: " + err; return
            self.fns = {r["name"]: r for r in rep if r["kind"] == "fn"}
            self.structs = [r for r in rep if r["kind"] == "struct"]
            bad = [s["name"] for s in self.structs if not s["ok"]]
            for f in self.fns.values():
                f["status"], f["msgs"] = ("undecided" if not f["ok"] else None), []
                if not f["ok"]: f["msgs"] = [f["error"]]
            rc, js, diags, raw = self.verus(out, rl)
            self.log = raw
            vr = (js or {}).get("verification-results") or {}
            done = js is not None and "verified" in vr and not vr.get("encountered-vir-error", False) and vr.get("verified", 0) + vr.get("errors", 0) > 0
            if done: break
            # the text does not compile for the verifier: find the functions at fault, stub them
            hit = set()
            for d in diags:
                if d["level"] != "error": continue
                k, _ = self.where(d, self.fns)
                if k and k not in self.stubs:
                    hit.add(k)
                    self.errors.append((k, d["message"]))
            if not hit:
                m = [d["message"] for d in diags if d["level"] == "error"]
                self.broken = "the extracted text is not accepted: " + "; ".join(m[:3]) + (raw[-600:] if not m else "")
                return
            self.stubs += sorted(hit)
        else:
            self.broken = "the extracted text is not accepted"; return
        self.verified, self.failed_count = vr.get("verified", 0), vr.get("errors", 0)
        t = js.get("times-ms", {})
        self.total_ms = t.get("total", 0)
        self.smt_ms = (t.get("smt") or {}).get("total", 0) if isinstance(t.get("smt"), dict) else t.get("total-verify", 0)
        self.collect(diags)
        # confirm failures: solver luck must not decide. Retry with more resources and other seeds.
        if any(f["status"] in ("failed", "rlimit") for f in self.fns.values()) or self.other_errors:
            first = {k for k, f in self.fns.items() if f["status"] in ("failed", "rlimit")}
            for seed in (7, 11):
                rc, js2, d2, raw2 = self.verus(out, rl * 3, ["--smt-option", "smt.random_seed=%d" % seed])
                if not js2 or "verified" not in (js2.get("verification-results") or {}): continue
                save = {k: (f["status"], f["msgs"]) for k, f in self.fns.items()}
                so = self.other_errors
                for f in self.fns.values():
                    if f["ok"]: f["status"], f["msgs"] = None, []
                self.other_errors = []
                self.collect(d2)
                for k, f in self.fns.items():   # a discharge under any seed is a discharge
                    if save[k][0] == "proved": f["status"], f["msgs"] = save[k]
                if not so: self.other_errors = []
                if not any(f["status"] in ("failed", "rlimit") for f in self.fns.values()) and not self.other_errors: break
            self.failed_count = len([1 for f in self.fns.values() if f["status"] in ("failed", "rlimit")]) + len(self.other_errors)
            self.verified = max(0, vr["verified"] + vr["errors"] - self.failed_count)
        # structure: loop contracts are attached to loops by position
        for k, f in self.fns.items():
            if f["status"] in ("failed", "rlimit") and f["ok"]:
                if f["loops"] != f["base_loops"]:
                    f["status"] = "undecided"
                    f["msgs"] = ["loop structure differs from the one the loop contracts were written for (%d loops, %d then)" % (f["loops"], f["base_loops"])] + f["msgs"]
                elif not f.get("same_shape", True):
                    f["status"] = "undecided"
                    f["msgs"] = ["a loop is of another kind than the one its contract was written for"] + f["msgs"]
                elif f["status"] == "rlimit":
                    f["status"] = "undecided"
        if bad:
            self.broken = "lost type " + ", ".join(bad)
        txt = open(out).read()
        self.trusted = sorted(set(re.findall(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+(?:\][^\]]*)?)\s*\]\s*\(", txt)))
        self.trusted += sorted(set(re.findall(r"external_body\)?\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:broadcast\s+)?(?:proof\s+|exec\s+)?(?:fn|struct)\s+(\w+)", txt)))
        self.trusted += sorted(set(re.findall(r"\buninterp\s+spec\s+fn\s+(\w+)", txt)))
        self.assumes = len(re.findall(r"\b(?:assume|admit)\s*\(", txt))

    def collect(self, diags):
        for d in diags:
            if d["level"] != "error" or d["message"].startswith("aborting due"): continue
            k, line = self.where(d, self.fns)
            m = d["message"]
            text = next((" ".join(x["text"].strip() for x in s["text"][:2]) for s in d.get("spans", []) if s["is_primary"]), "")
            msg = "%s: `%s`" % (m, text[:240])
            rl = "rlimit" in m.lower() or "resource limit" in m.lower()
            if k is None: self.other_errors.append(msg)
            else:
                f = self.fns[k]
                f["msgs"].append(msg)
                if f["status"] != "failed": f["status"] = "rlimit" if rl else "failed"
        for f in self.fns.values():
            if f["status"] is None: f["status"] = "proved"

    def canary(self, vx):
        """every contracted function must reach its entry: `assert(false)` there has to fail"""
        out, rep, err = self.extract(vx, canary=True)
        if err: return
        fns = {r["name"]: r for r in rep if r["kind"] == "fn" and r["ok"]}
        rc, js, diags, raw = self.verus(out, 30)
        if not js: return
        hit = set()
        for d in diags:
            if d["level"] == "error":
                k, _ = self.where(d, fns)
                if k: hit.add(k)
        allow = set(re.findall(r"//@vacuous\s+(\S+)", open(os.path.join(V, "contracts", self.name + ".vrs")).read()))
        self.vacuous = sorted(k for k in fns if k not in hit and k not in allow)
        self.canaries = len(fns)


# ------------------------------------------------------------------------------------ harness
def run_harness(binary, pid, seed, secs, work, tag, thorough=False):
    out, st = os.path.join(work, "h_%s.json" % tag), os.path.join(work, "h_%s.status" % tag)
    for p in (out, st):
        if os.path.exists(p): os.remove(p)
    cmd = [binary, pid, "--seed", str(seed), "--secs", str(secs), "--out", out, "--status", st] + (["--thorough"] if thorough else [])
    rc, o, e = sh(cmd, secs * 3 + 240, mem=6 << 30, cwd=work)
    if rc == 4 or rc == 3:
        return {"result": "error", "observed": (o + e)[-800:]}
    if rc in (0, 1) and os.path.exists(out):
        r = json.load(open(out)); r["seed"] = seed; return r
    # died: out of memory, stack overflow, abort
    try:
        t = open(st, errors="replace").read().split("\n", 2)
        n, ln = int(t[0]), int(t[1]); kind, d = t[2].split("\n", 1)
        return {"result": "fail", "case": n, "kind": kind, "input": d[:ln], "observed": "the process died (rc %d) %s" % (rc, e[-200:]), "seed": seed}
    except Exception:
        return {"result": "error", "observed": "harness died without a case, rc %d: %s" % (rc, (o + e)[-500:])}


def load_known(pid):
    known = {}
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid: known[m.group(2)] = m.group(3)
    return known


def main():
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    t0 = time.time()
    work = os.path.join(BUILD, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ex = ThreadPoolExecutor(8)
    fvx = ex.submit(build_vx)
    fh = ex.submit(build_harness, P["harness"])
    notes = []

    vx, err = fvx.result()
    units = [Unit(u, work, thorough) for u in P["units"]]
    futs = []
    if vx is None:
        for u in units: u.broken = "the extractor does not build: " + (err or "")[-400:]
    else:
        for u in units:
            futs.append(ex.submit(u.run, vx))
    hbin, herr = fh.result()
    secs = P.get("secs", 10) * (6 if thorough else 1)
    nproc = 6 if thorough else 2
    hres = []
    if hbin:
        hf = [ex.submit(run_harness, hbin, pid, seed + 1000 * i, secs, work, str(i), thorough) for i in range(nproc)]
        hres = [f.result() for f in hf]
    else:
        notes.append("the concrete harness does not build against this tree: " + herr[-600:])
    for f in futs: f.result()
    cf = [ex.submit(u.canary, vx) for u in units if vx and not u.broken]
    for f in cf: f.result()

    # ---- gather
    fns, undecided, failed = {}, [], []
    for u in units:
        want = P["units"][u.name]
        rx = [re.compile(w) for w in want] if want else None
        if u.broken: undecided.append((u.name, u.broken))
        for k, f in u.fns.items():
            if rx and not any(r.search(k) for r in rx): continue
            st = f.get("status") or "undecided"
            if u.broken and st == "proved": st = "undecided"
            fns[u.name + ":" + k] = dict(status=st, file=f["file"], inlined=f.get("inlined", []), dropped=f.get("dropped", []), unchanged=f.get("same"), messages=f.get("msgs", [])[:4])
            if st == "failed": failed.append((u.name + ":" + k, f["msgs"]))
            elif st != "proved": undecided.append((u.name + ":" + k, "; ".join(f.get("msgs", [])[:2])))
        for m in u.other_errors: undecided.append((u.name + ":(lemma)", m))
        for k in u.vacuous:
            if not rx or any(r.search(k) for r in rx):
                undecided.append((u.name + ":" + k, "vacuous: its preconditions are contradictory"))
    obligations = sum(u.verified + u.failed_count for u in units)
    discharged = sum(u.verified for u in units)
    proved = [k for k, f in fns.items() if f["status"] == "proved"]
    known = load_known(pid)

    hfail = next((r for r in hres if r["result"] == "fail"), None)
    for r in hres:
        if r["result"] == "error": notes.append("harness error: " + r["observed"])

    # ---- escalate: a failed obligation without a failing input yet
    if failed and not hfail and hbin:
        hf = [ex.submit(run_harness, hbin, pid, seed + 77 + 1000 * i, max(30, 4 * P.get("secs", 10)), work, "e%d" % i, True) for i in range(6)]
        more = [f.result() for f in hf]
        hres += more
        hfail = next((r for r in more if r["result"] == "fail"), None)

    replay = os.path.join(BUILD, "replay", pid + ".json")
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    violation = None
    found = sorted({k for r in hres for k in r.get("known", [])})
    unlisted = [k for k in found if k not in known]
    base = dict(property=pid, failed_obligations=[dict(function=k, errors=m) for k, m in failed], undecided=undecided)
    if hfail:
        base.update(kind="concrete", failing_input=hfail["input"], case_kind=hfail["kind"], observed=hfail["observed"],
                    replay_cmd="%s %s --seed %d --case %d" % (hbin, pid, hfail["seed"], hfail["case"]))
        violation = "VIOLATION property=%s replay=%s" % (pid, replay)
    elif unlisted:
        base.update(kind="concrete", failing_input=unlisted[0], observed="a defect that is not listed in known_findings.txt shows")
        violation = "VIOLATION property=%s replay=%s" % (pid, replay)
    elif failed:
        base.update(kind="failed obligation, no failing input found", verifier_output="\n".join(u.log[-6000:] for u in units if u.failed_count))
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay)
    for k in found:
        if k in known: print("KNOWN-FINDING: property=%s %s %s" % (pid, k, known[k]))
    if violation:
        json.dump(base, open(replay, "w"), indent=1)
        print(violation)

    bounded = [k for k, _ in undecided]
    kinds = {}
    for r in hres:
        for k, n in (r.get("kinds") or {}).items(): kinds[k] = kinds.get(k, 0) + n
    trusted = sorted({t for u in units for t in u.trusted})
    level = P.get("level", "proof")
    if level == "proof" and (undecided or not proved): level = "exploration"     # what this run established
    cmds = sorted({u.cmd for u in units if u.cmd})
    ev = {
        "property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": level,
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "; ".join(cmds) or "none (no contract unit)",
            "trusted_base": ["verus 0.2026.09.13 + z3 (back end)", "vx extraction (rewrites listed in DESIGN.md)"] + ["assumed contract: " + t for t in trusted],
            "functions_under_contract": len(fns), "functions_proved": len(proved),
            "functions": {k: {kk: vv for kk, vv in f.items() if vv not in ([], None)} for k, f in fns.items()},
            "undecided_or_bounded": [dict(function=k, reason=(m or "")[:300]) for k, m in undecided],
            "bounded_stand_in": P.get("bounded", []),
            "vacuity_canaries": sum(getattr(u, "canaries", 0) for u in units), "vacuous": [k for u in units for k in u.vacuous],
            "assume_or_admit_in_text": sum(getattr(u, "assumes", 0) for u in units),
            "solver_seconds": round(sum(u.smt_ms for u in units) / 1000.0, 2), "verifier_seconds": round(sum(u.total_ms for u in units) / 1000.0, 2),
            "verifier_runs": sum(u.runs for u in units),
            "concrete_cases": sum(r.get("cases", 0) for r in hres), "concrete_distinct": sum(r.get("distinct", 0) for r in hres), "concrete_kinds": kinds,
            "concrete_note": "bounded: replay of failed obligations, validation of assumed contracts, stand-in for the functions listed as bounded; never counted as proved",
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": ASSUME["all"] + P.get("assume", []) + ["trusted: " + t for t in trusted] + notes,
        "violations": 1 if violation else 0,
    }
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations discharged, %d/%d functions proved, %d undecided, %d concrete cases, %.1f s" % (
        pid, discharged, obligations, len(proved), len(fns), len(undecided), ev["coverage"]["concrete_cases"], ev["wall_s"]))
    for k, m in failed: print("  failed obligation: %s: %s" % (k, "; ".join(m[:2])))
    for k, m in undecided: print("  undecided (bounded stand-in decides): %s: %s" % (k, (m or "")[:200]))
    for n in notes: print("  note: " + n[:300])
    sys.stdout.flush()
    os._exit(1 if violation else 0)


if __name__ == "__main__":
    main()
