#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property of /repo's working tree.

1. gvc generates and discharges every proof obligation of the contracts the
   property is made of, from the current source.
2. The replay harness runs the real code of the property on generated inputs
   against an independent oracle. It turns a failed obligation into a concrete
   failing input and decides (bounded, labelled so) the functions that have no
   contract.
Exit 0: held. Exit 1 with a VIOLATION line: broken.
"""
import json, os, re, subprocess, sys, tempfile, time, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GVC_REPO", "/repo")
PKGDIR = {"root": "", "internal": "internal", "mask": "mask", "builder": "builder", "rerules": "rerules",
          "glyphrule": "internal/rerules/glyphrule", "utf8rule": "internal/rerules/utf8rule"}
PKGNAME = {"root": "ggfnt"}

def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/go/bin:" + e.get("PATH", "")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
    return e

def build():
    out = os.path.join(VERIF, "bin", "gvc")
    r = subprocess.run(["go", "build", "-o", out, "."], cwd=os.path.join(VERIF, "gvc"), env=env(), capture_output=True, text=True)
    if r.returncode != 0:
        print(r.stdout, r.stderr)
        sys.exit(2)
    return out

def harness_files(prop):
    """(package, file) pairs of the property's replay tests."""
    res = []
    base = os.path.join(VERIF, "replay")
    for pkg in sorted(PKGDIR):
        f = os.path.join(base, pkg, prop.lower() + "_verif_test.go")
        if os.path.exists(f):
            res.append((pkg, f))
    return res

def run_harness(prop, tier, seed, tmp):
    total = {"evaluations": 0, "distinct": 0, "samples": [], "failures": [], "notes": [], "cases": {}}
    for pkg, f in harness_files(prop):
        d = os.path.join(REPO, PKGDIR[pkg])
        src = open(f).read()
        pname = re.search(r"^package (\w+)", src, re.M).group(1)
        repl = {os.path.join(d, "zz_verif_%s_test.go" % prop.lower()): f}
        extra = [l.split()[1:] for l in src.splitlines() if l.startswith("//overlay ")]
        for names in extra:
            for n in names:
                p = os.path.join(VERIF, "replay", n)
                body = re.sub(r"^package \w+", "package " + pname, open(p).read(), count=1, flags=re.M)
                q = os.path.join(tmp, pkg + "_" + n.replace("/", "_"))
                if not q.endswith("_test.go"):
                    q = q.replace(".go", "_test.go")
                open(q, "w").write(body)
                repl[os.path.join(d, "zz_verif_x_" + os.path.basename(q))] = q
        common = os.path.join(tmp, pkg + "_common_test.go")
        open(common, "w").write(open(os.path.join(VERIF, "replay", "common.go.txt")).read().replace("package PACKAGE", "package " + pname, 1))
        repl[os.path.join(d, "zz_verif_common_test.go")] = common
        ov = os.path.join(tmp, pkg + "_overlay.json")
        json.dump({"Replace": repl}, open(ov, "w"))
        e = env()
        out = os.path.join(tmp, pkg + "_out.json")
        budget = 25 if tier == "quick" else 240
        e.update(VERIF_SEED=str(seed), VERIF_OUT=out, VERIF_BUDGET_MS=str(budget * 1000), VERIF_SCALE="1" if tier == "quick" else "20")
        cmd = ["go", "test", "-overlay", ov, "-vet=off", "-count=1", "-timeout", "%ds" % (budget * 3 + 60), "-run", "^TestVerif%s" % prop, "."]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=budget * 3 + 120)
            text = r.stdout + r.stderr
            rc = r.returncode
        except subprocess.TimeoutExpired as ex:
            text, rc = "timeout", 1
        got = False
        for fn in sorted(os.listdir(tmp)):
            if fn.startswith(pkg + "_out.json."):
                got = True
                o = json.load(open(os.path.join(tmp, fn)))
                total["evaluations"] += o["Evaluations"]
                total["distinct"] += o["Distinct"]
                total["samples"] += (o["Samples"] or [])[:8]
                for k, v in (o["Cases"] or {}).items():
                    total["cases"][pkg + "." + k] = v
                if o["Failure"]:
                    total["failures"].append((pkg + "." + o["Case"], o["Failure"]))
        if rc != 0 and not any(f[0].startswith(pkg + ".") for f in total["failures"]):
            if "build failed" in text or "setup failed" in text:
                total["notes"].append("replay harness for package %s does not compile against this source: %s" % (pkg, text[:600]))
            elif "fatal error:" in text or "panic:" in text:
                total["failures"].append((pkg + ".crash", text[-4000:]))
            else:
                total["notes"].append("replay harness for %s gave no answer: %s" % (pkg, text[-600:]))
    return total

def known():
    k = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\w+) id=(\S+) (.*)", l.strip())
            if m:
                k.append(m.groups())
    return k

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    gvc = build()
    tmp = tempfile.mkdtemp(prefix="verif")
    try:
        code = decide(prop, tier, seed, t0, gvc, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)

def decide(prop, tier, seed, t0, gvc, tmp):
    limit = 20 if tier == "quick" else 60
    outj = os.path.join(tmp, "gvc.json")
    cmd = [gvc, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-prop", prop, "-limit", str(limit), "-budget", "420" if tier == "quick" else "2400", "-json", outj]
    fails, rs, text = [], [], ""
    try:
        r = subprocess.run(cmd, env=env(), capture_output=True, text=True, timeout=600 if tier == "quick" else 3000)
        text = r.stdout + r.stderr
        if os.path.exists(outj):
            rs = json.load(open(outj)) or []
        elif r.returncode != 0:
            # the source does not load: it does not compile
            print(text[-3000:])
            if "load" in text or "type" in text:
                fails.append(("load", text[-2000:]))
            else:
                sys.exit(2)
    except subprocess.TimeoutExpired:
        fails.append(("prover-timeout", "the verifier did not finish"))
    for f in rs:
        if f.get("Unsupported"):
            fails.append((f["Key"] + "/verifiable", f["Unsupported"]))
        if f.get("Vacuous"):
            fails.append((f["Key"] + "/vacuity", f["Vacuous"]))
        for o in f["Obs"] or []:
            if o["Status"] != "proved":
                fails.append((o["Name"], "%s at %s [%s] %s" % (o["Status"], o["Pos"], o["By"], " ".join(o["Model"].split())[:500])))
    h = run_harness(prop, tier, seed, tmp)
    kn = [k for k in known() if k[0] == prop]
    for k in kn:
        if any(f[0] == k[1] for f in fails) or any(f[0] == k[1] for f in h["failures"]):
            print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    ids = {k[1] for k in kn}
    fails = [f for f in fails if f[0] not in ids]
    hf = [f for f in h["failures"] if f[0] not in ids]
    level = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    level = next((c["level"] for c in level["checks"] if c["property"] == prop), "proof")
    obs = [o for f in rs for o in (f["Obs"] or [])]
    by = {}
    for o in obs:
        if o["Status"] == "proved":
            by[o["By"]] = by.get(o["By"], 0) + 1
    trusted, notes, inlined = {}, set(), set()
    for f in rs:
        trusted.update(f.get("Trusted") or {})
        notes.update(f.get("Notes") or [])
        inlined.update(f.get("Inlined") or [])
    noterm = sorted({k for f in rs for k in (f.get("NoTerm") or [])})
    assumptions = sorted(notes) + ["trusted contract %s: %s" % kv for kv in sorted(trusted.items())]
    assumptions += ["termination not proved: " + n for n in noterm]
    assumptions += ["int is 64 bits; memory reached through unmodelled pointers (unsafe) is not changed by others; solver answers (unsat) and the generator gvc are trusted"]
    assumptions += STATIC.get(prop, [])
    violations = (1 if hf or fails else 0)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level,
          "coverage": {
              "obligations": len(obs), "discharged": sum(o["Status"] == "proved" for o in obs),
              "checker_cmd": "bin/gvc -repo %s -contracts contracts -prop %s -limit %d" % (REPO, prop, limit),
              "trusted_base": ["gvc (obligation generator, /verif/gvc)", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2", "go/types 1.27"] + ["trusted contract " + k for k in sorted(trusted)],
              "functions_under_contract": sorted(f["Key"] for f in rs),
              "functions_inlined_into_callers": sorted(inlined),
              "discharged_by": by,
              "solver_ms": sum(o["Ms"] for o in obs),
              "source_lines_under_contract": sum(f["Lines"] for f in rs),
              "replay_bounded": {"cases_run": h["cases"], "notes": h["notes"]},
              "evaluations": h["evaluations"], "distinct_nontrivial": h["distinct"],
              "rule": "bounded replay of the real code against an independent oracle on generated inputs; a case is non-trivial when it logs an input not seen before",
              "samples": h["samples"][:12],
          },
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d functions, %d/%d obligations discharged, %d replay cases (%d distinct), %.1fs" % (
        prop, len(rs), ev["coverage"]["discharged"], len(obs), h["evaluations"], h["distinct"], time.time() - t0))
    for n in h["notes"]:
        print("note:", n)
    if not rs and not fails:
        print("no contract was checked")
        return 2
    if not violations:
        return 0
    path = os.path.join("evidence", prop + ".replay.txt")
    with open(os.path.join(VERIF, path), "w") as f:
        for n, m in hf:
            f.write("failing input (%s):\n%s\n\n" % (n, m))
        for n, m in fails:
            f.write("failed obligation: %s\n  %s\n\n" % (n, m))
        f.write("verifier output:\n" + text[-20000:])
    for n, m in fails[:12]:
        print("failed obligation:", n, "|", m[:300])
    for n, m in hf[:3]:
        print("failing input:", n, "|", m[:1500])
    if fails and not hf:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    else:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1

STATIC = {}

if __name__ == "__main__":
    main()
