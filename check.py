#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current working tree.

1. extracts the functions under contract from /repo's macro-expanded source (vx) and proves
   them with Verus against the contracts in spec/;
2. runs the real library against an independent interpreter of the property (cex), which
   finds failing inputs and stands in, bounded, for what could not be brought to the verifier.

exit 0: held; exit 1 and a VIOLATION line: broken."""
import json, os, re, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
from props import PROPS
SEMANTIC = re.compile(r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|assertion not satisfied|failed this|decreases not satisfied|could not prove termination|possible (arithmetic|division)|underflow/overflow|not satisfied|unreachable|fails to satisfy|spec closure|index out of bounds|loop ensures")
LIMIT = re.compile(r"[Rr]esource limit|rlimit|timed out|could not finish", re.I)

def classify(d):
    if LIMIT.search(d["msg"]): return "limit"
    if d.get("code"): return "compile"      # an error of rustc
    if SEMANTIC.search(d["msg"]): return "semantic"
    return "compile"

def owner(d, ranges):
    """function a diagnostic belongs to: the primary span decides, then any other span"""
    for prim in (True, False):
        for a, b, _, p in d["spans"]:
            if bool(p) != prim: continue
            for x, y, k in ranges:
                if x <= a <= y: return k
    return None

# the verifier stops at this point of a check; what is not decided by then is left to the harness
VERIFIER_UNTIL = time.time() + 390

class Unit:
    def __init__(self, pid, n, cfg, tier):
        self.asm, self.cfg = Asm(cfg), cfg
        self.path = os.path.join(B, "proofs", "%s_%d.rs" % (pid, n))
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        self.failed = {}       # function -> verifier output, obligation not discharged
        self.undecided = {}    # function -> why it could not be brought to the verifier
        self.runs, self.verified, self.smt_ms, self.wall = 0, 0, 0, 0.0
        self.cmd = ""
        self.tier = tier
        for k in self.asm.lost: self.undecided[k] = "function not found in the source"
        for k, w in self.asm.unsupported.items(): self.undecided[k] = w

    def run(self, log):
        asm, tried = self.asm, {}
        rlimit = 30
        for rnd in range(14):
            left = VERIFIER_UNTIL - time.time()
            if left < 20:
                for k in asm.r: self.undecided.setdefault(k, "the verifier ran out of time")
                return
            asm.undecided = dict(self.undecided)
            text, ranges = asm.text()
            text = text[:text.rindex("\n} // verus!")]
            names = sorted(set(re.findall(r"broadcast axiom fn (\w+)" if self.cfg.get("macros") else r"broadcast (?:axiom|proof) fn (\w+)", text)))
            smoke_line = text.count("\n") + 1
            text += "\nproof fn vx_smoke() ensures false { %s }\n" % ("broadcast use %s;" % ", ".join(names) if names else "") + FOOTER
            open(self.path, "w").write(text)
            r = run_verus(self.path, timeout=left, rlimit=rlimit)
            self.runs += 1; self.wall += r["wall"]; self.smt_ms += r.get("smt_ms") or 0; self.cmd = r["cmd"]
            log("%s: verified %d, errors %d, %.1f s" % (os.path.basename(self.path), r["verified"], r["errors"], r["wall"]))
            if r.get("timeout"):
                for k in asm.r: self.undecided.setdefault(k, "the verifier ran out of time")
                return
            smoke, sem, bad, loose = False, {}, {}, []
            for d in r["diags"]:
                if any(a >= smoke_line for a, b, _, p in d["spans"] if p): smoke = True; continue
                if d["msg"].startswith("aborting due to"): continue
                k = owner(d, ranges)
                if k is None: loose.append(d); continue
                c = classify(d)
                if c == "semantic": sem.setdefault(k, []).append(d)
                else: bad.setdefault(k, []).append("%s: %s" % ("limit" if c == "limit" else "not accepted", d["msg"]))
            bad = {k: w for k, w in bad.items() if k not in self.undecided}
            if rlimit == 30 and any(re.search("limit: ", x) for w in bad.values() for x in w):
                # once more with more room before giving up
                rlimit = 120
                continue
            if bad:
                for k, w in bad.items():
                    # another way of binding the names in the hints may fit
                    if tried.setdefault(k, 0) + 1 < len(asm.bind[k]) and "not accepted" in w[0]: tried[k] += 1; asm.choice[k] = tried[k]
                    else: self.undecided[k] = "; ".join(w)[:600]
                continue
            if not r["diags"] or (loose and not smoke):
                # nothing was verified at all: the file as a whole is not accepted
                msg = "; ".join(d["msg"] for d in loose)[:600] or (r["raw"] or "no output")[-600:]
                if not r["diags"] and r["verified"]: raise Exception("the contracts are contradictory: the reachability probe was proved")
                for k in asm.r: self.undecided.setdefault(k, "proof file not accepted: " + msg)
                return
            if not smoke and r["verified"]: raise Exception("the contracts are contradictory: the reachability probe was proved")
            if not smoke:
                for k in asm.r: self.undecided.setdefault(k, "proof file not accepted")
                return
            if loose:
                for k in asm.r: self.undecided.setdefault(k, "a lemma of the specification is not proved: " + loose[0]["text"][:400])
                return
            again = False
            for k in sem:
                if tried.setdefault(k, 0) + 1 < len(asm.bind[k]): tried[k] += 1; asm.choice[k] = tried[k]; again = True
            if again: continue
            self.verified = r["verified"]
            self.failed = {k: "\n".join(d["text"] for d in ds) for k, ds in sem.items()}
            # the hints were written for the function without the helpers now put into it
            for k in list(self.failed):
                if asm.r[k].get("inlined"): self.undecided[k] = "not discharged with %s put in place of the call: %s" % (", ".join(asm.r[k]["inlined"]), self.failed.pop(k)[:400])
            return
        for k in asm.r: self.undecided.setdefault(k, "no fitting hints found")

def scan_trust(path):
    t = open(path).read()
    ext = len(re.findall(r"#\[verifier::external_body\]", t))
    ax = sorted(set(re.findall(r"(?:broadcast )?axiom fn (\w+)", t)))
    adm = len(re.findall(r"\badmit\(\)|\bassume\(", t))
    return ext, ax, adm

BULK = ("C01", "C02", "C03", "C04", "C05", "C13")
def harness(pid, seed, tier, secs, log):
    if pid == "C24": return bounds_harness(pid, seed, tier, secs, log)
    t = os.path.join(B, "cex-target")
    build = lambda *more: sh(["cargo", "build", "--manifest-path", os.path.join(V, "cex", "Cargo.toml"), "--offline", "--quiet", *more], env=env(CARGO_TARGET_DIR=t))
    # the properties of the derives are tried on many more types
    r = build("--features", "bulk") if pid in BULK else build("--features", "quote") if pid == "C25" else build()
    if r.returncode and pid in BULK:
        log("the harness does not build with the types of cex/src/bulk.rs, tried without")
        r = build()
    if r.returncode: return {"error": "the harness does not build against this tree:\n" + "\n".join(l for l in r.stderr.split("\n") if l.startswith("error"))[:1500]}
    exe = os.path.join(t, "debug", "cex")
    cmd = [exe, pid, str(seed), tier, str(secs)]
    cur = os.path.join(B, "current-%s.txt" % pid)
    def go(e):
        try: return subprocess.run(["prlimit", "--as=12000000000"] + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs * 2 + 60, env=e)
        except subprocess.TimeoutExpired: return None
    r = go(env())
    if r is None or r.returncode:
        # died or hung: once more, writing down each case first
        r2 = go(env(CEX_CURRENT=cur))
        if r2 is None or r2.returncode:
            case = open(cur).read() if os.path.exists(cur) else "?"
            why = "does not end" if r2 is None else "ends the process (status %s) %s" % (r2.returncode, r2.stderr[-300:])
            return {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "cmd": " ".join(cmd), "violation": {"input": case, "expected": "a result", "got": why}}
        r = r2
    d = json.loads(r.stdout.strip().split("\n")[-1])
    d["cmd"] = " ".join(cmd)
    return d

def known(pid):
    out = []
    f = os.path.join(V, "known_findings.txt")
    for l in open(f):
        m = re.match(r"known: property=(\S+) input=(\"(?:[^\"\\]|\\.)*\") (.*)$", l.strip())
        if m and m.group(1) == pid: out.append((json.loads(m.group(2)), m.group(3)))
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"): tier = a
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = PROPS[pid]
    log = lambda m: print("[%s] %s" % (pid, m), flush=True)
    units = []
    derr = None
    lostunits = {}
    for n, cfg in enumerate(P["units"]):
        try: u = Unit(pid, n, cfg, tier)
        except DeriveError as e: derr = str(e); continue
        except Exception as e:
            # the verifier decides nothing here; the bounded companion still does
            lostunits["proof file %d" % n] = "cannot be assembled: %s" % str(e)[:300]
            log("INTERNAL " + traceback.format_exc()[-1500:])
            continue
        try: u.run(log)
        except Exception as e:
            lostunits["proof file %d" % n] = str(e)[:300]
            log("INTERNAL " + traceback.format_exc()[-1500:])
            u.failed, u.verified = {}, 0
        units.append(u)
    failed, undec, funcs, proved = {}, dict(lostunits), [], []
    for u in units:
        pre = ""
        if u.cfg.get("deps"):
            # contracts of a dependency: one that is not discharged is one that is only assumed
            pre = "%s (dependency): " % u.cfg["deps"][0]
            u.undecided.update({k: "assumed only: " + w[:300] for k, w in u.failed.items()}); u.failed = {}
        failed.update(u.failed); undec.update({pre + k: w for k, w in u.undecided.items()})
        for k in u.asm.keys:
            funcs.append(pre + k)
            if k not in u.failed and k not in u.undecided: proved.append(pre + k)
    secs = (40, 300)[tier == "thorough"]
    h = harness(pid, seed, tier, secs, log)
    if "error" in h and P.get("derive") and not derr: derr = check_shapes(P["derive"])
    if "error" in h and pid == "C25" and not derr: derr = check_quotes()
    if derr:
        # the derive's output is the function under contract: it has to be code at all
        h = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "cmd": "cargo build --manifest-path /verif/quotes/Cargo.toml" if pid == "C25" else "cargo build --manifest-path /verif/shapes/Cargo.toml --no-default-features --features " + P.get("derive", "s"),
             "violation": {"input": "the type definitions of shapes/src/lib.rs with the derive (C16: the keyword lists of kws/src/lib.rs; C25: the uses of the macros in quotes/src/lib.rs)", "expected": "an implementation that compiles", "got": derr}}
    if "error" in h: log(h["error"]); h = dict(h, evaluations=0, distinct_nontrivial=0, samples=[], violation=None, cmd="")
    elif (failed or undec) and not h.get("violation") and tier == "quick" and time.time() - t0 < 560:
        h2 = harness(pid, seed + 1, "thorough", 90, log)
        if h2.get("violation"): h = h2
    log("harness: %d cases, %d distinct and non-trivial, %s" % (h["evaluations"], h["distinct_nontrivial"], "FAILS" if h.get("violation") else "agrees"))
    viol = h.get("violation")
    kf = [k for k in known(pid) if viol and k[0] == viol["input"]]
    ext = axs = adm = 0
    trusted = list(P.get("trust", []))
    for u in units:
        if not os.path.exists(u.path): continue
        e, a, m = scan_trust(u.path)
        ext += e
        trusted.append("%s: %d functions of syn/quote/proc_macro2/std and models with an assumed contract (external_body); axioms: %s; assume/admit: %d" % (os.path.basename(u.path), e, ", ".join(a) or "none", m))
        rules = sorted({x for f in u.asm.r.values() for x in f["rules"]})
        trusted.append("extraction rules applied by vx: " + ", ".join(rules))
    for u in units:
        if u.cfg.get("deps"):
            ok = [k for k in u.asm.keys if "from" in u.asm.fns[k] and k not in u.undecided]
            trusted.append("not assumed: %s proves of the source of %s the contracts that the files above give to: %s" % (os.path.basename(u.path), ", ".join(u.cfg["deps"]), ", ".join(ok)))
    trusted += ["Verus, its SMT solver Z3 and vstd", "rustc's macro expansion (-Zunpretty=expanded) and vx (the extraction)"]
    for k, w in sorted(undec.items()): trusted.append("NOT PROVED, bounded stand-in only: %s (%s)" % (k, w))
    obl = sum(u.verified + len(u.failed) for u in units) + len(undec)
    dis = sum(u.verified for u in units)
    cov = {
        "obligations": obl, "discharged": dis,
        "obligation_unit": "one per function or lemma as counted by Verus; each bundles all verification conditions of that function",
        "checker_cmd": " ; ".join(u.cmd for u in units) or "none", "trusted_base": trusted,
        "functions_under_contract": funcs, "functions_proved": proved, "functions_not_proved": {k: v for k, v in list(undec.items())},
        "backend": "Verus 0.2026.09.13 / Z3", "solver_ms": sum(u.smt_ms for u in units), "verifier_wall_s": round(sum(u.wall for u in units), 1),
        "reachability_probe": "an obligation 'false' under all axioms of each file was refused by the verifier",
        "evaluations": h["evaluations"], "distinct_nontrivial": h["distinct_nontrivial"],
        "rule": "bounded companion (not counted as proved): the derives applied to random and hand-written declarations: rustc accepts the result, each impl has the parameters and bounds read off the declaration, malformed attributes and unions are rejected; one case per impl" if pid == "C24" else "bounded companion (not counted as proved): real library against the property's own interpreter, enumerated short token sequences, sentences of the grammar and damaged sentences; non-trivial: the value has parts or the failing input is not empty; distinct by type and text",
        "samples": h["samples"][:8],
    }
    if P["level"] == "translation_validation":
        sh_ = [s["name"] for u in units for s in u.asm.shapes if P.get("shape_filter") in (None, s["kind"])]
        if not sh_: sh_ = [k for u in units for k in u.asm.keys]
        cov["programs"] = len(sh_)
        cov["disagreements_checked"] = len([k for u in units for k in (u.asm.shape_of or u.asm.keys) if k not in undec])
        cov["samples"] = (cov["samples"] + ["expansions validated for: " + ", ".join(sh_)])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov, "wall_s": round(time.time() - t0, 1),
          "violations": 1 if (failed or (viol and not kf)) else 0,
          "assumptions": P.get("assume", []) + (["functions not proved on this tree, covered only by the bounded companion: " + ", ".join(sorted(undec))] if undec else [])}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for k in kf: print("KNOWN-FINDING: property=%s %s" % (pid, k[1]))
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    rp = os.path.join(V, "replays", pid + ".txt")
    if failed: log("obligations not discharged: " + ", ".join(sorted(failed)))
    why = {}
    for k, w in sorted(undec.items()): why.setdefault(w[:400], []).append(k)
    for w, ks in why.items(): log("not brought to the verifier: %s (%s)" % (", ".join(ks), w))
    if viol and not kf:
        open(rp, "w").write("property %s\nfailing input (real library): %s\nexpected: %s\ngot: %s\nreplay: %s\n\nobligations not discharged:\n%s\n" % (
            pid, viol["input"], viol["expected"], viol["got"], h["cmd"], "\n".join("%s\n%s" % x for x in failed.items()) or "none"))
        log("input: %s\n  expected: %s\n  got: %s" % (viol["input"], viol["expected"][:600], viol["got"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp)); sys.exit(1)
    if failed and not kf:
        open(rp, "w").write("property %s\nobligations that the verifier does not discharge on this tree:\n%s\nproof files: %s\n" % (
            pid, "\n".join("%s\n%s" % x for x in failed.items()), ", ".join(u.path for u in units)))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp)); sys.exit(1)
    if not dis and not h["evaluations"]: raise Exception("nothing was decided")
    log("held (%d of %d obligations discharged%s)" % (dis, obl, ", %d functions bounded only" % len(undec) if undec else ""))

if __name__ == "__main__":
    main()
