#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough] [--repo DIR]

Decides one property of /repo:
  A  regenerates the verified program from /repo's current source and the contracts in /verif/contracts,
     and has Verus discharge every obligation (deductive, no bound);
  B  runs the bounded stand-in (/verif/harness) over the same real crate: it replays failed obligations as
     inputs and covers what no contract covers.
"""
import hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MEM_B = 6 << 30
BOUND_TIMEOUT = 240


def sh(cmd, cwd=None, env=None, timeout=None, mem=None):
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre)
    try:
        o, r = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), r.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, r = p.communicate()
        return 124, o.decode("utf8", "replace"), r.decode("utf8", "replace")


class Proof:
    """one run of the deductive engine"""

    def __init__(self, prop, repo, tier, work):
        self.prop, self.repo, self.tier, self.work = prop, repo, tier, work
        self.failed = []        # {fn, labels, props, kind, message, same, file}
        self.undecided = []     # {fn, why, props}
        self.error = None       # nothing could be verified
        self.map = None
        self.out = None
        self.trust = {}
        self.secs = 0.0

    def extract(self, extra=()):
        ex = os.path.join(V, "extract/target/release/vf-extract")
        a = [ex, "--repo", self.repo, "--contracts", os.path.join(V, "contracts"), "--out", self.work]
        for k in self.trust:
            a += ["--trust", k]
        rc, o, e = sh(a + list(extra), timeout=120)
        if rc != 0:
            self.error = "extraction failed: " + (e or o).strip()[-800:]
            return False
        self.map = json.load(open(os.path.join(self.work, "map.json")))
        return True

    def fn_at(self, line):
        for f in self.map["functions"]:
            if f["start"] <= line <= f["end"]:
                return f
        return None

    def verus(self):
        rl = "60" if self.tier == "quick" else "200"
        self.cmd = ["verus", "gen.rs", "--rlimit", rl, "--multiple-errors", "8", "--num-threads", "8", "--output-json", "--time-expanded", "--", "--error-format=json"]
        t = time.time()
        rc, o, e = sh(self.cmd, cwd=self.work, timeout=600)
        self.secs += time.time() - t
        try:
            self.out = json.loads(o)
        except ValueError:
            self.out = None
        errs = []
        for l in e.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("$message_type") == "diagnostic" and d.get("level") == "error" and d.get("spans"):
                errs.append(d)
        return rc, errs, e

    def run(self):
        if not self.extract():
            return
        for rnd in range(8):
            rc, errs, raw = self.verus()
            if rc == 124:
                self.error = "verus did not finish"
                return
            vr = (self.out or {}).get("verification-results")
            if vr is not None and not vr.get("encountered-vir-error") and "verified" in vr and (vr["verified"] or vr["errors"]):
                break
            new = set()
            for d in errs:
                for s in sorted(d["spans"], key=lambda s: not s["is_primary"]):
                    f = self.fn_at(s["line_start"])
                    if f:
                        if f["key"] not in self.trust:
                            self.trust[f["key"]] = d["message"]
                            new.add(f["key"])
                        break
            if not new:
                self.error = "the generated program is not accepted: " + "; ".join(d["message"] for d in errs)[:800] + ("" if errs else raw[-800:])
                return
            if not self.extract():
                return
        else:
            self.error = "the generated program is not accepted"
            return
        for d in errs:
            self.note(d)
        seen = {f["fn"] for f in self.failed} | {u["fn"] for u in self.undecided}
        for fn, ok in self.functions():
            if not ok:
                hit = [f for f in self.map["functions"] if fn.endswith("::" + f["name"]) and f["module"] in fn.split("::")]
                if not any(f["key"] in seen for f in hit) and not errs:
                    self.error = "obligation failed outside every function: " + fn
        for k, why in self.trust.items():
            f = next((f for f in self.map["functions"] if f["key"] == k), None)
            self.undecided.append({"fn": k, "why": "outside the verifier's subset: " + why[:300], "props": self.props_of(f)})
        for l in self.map["lost"]:
            self.undecided.append({"fn": l["key"], "why": "anchor lost: " + l["why"], "props": l.get("props", []), "fatal": l.get("fatal", False)})

    def props_of(self, f):
        if not f:
            return []
        return sorted({p.lstrip("~") for p in f["props"]} | {l["label"].split(".")[0] for l in f["labels"]} | self.trait_props().get(f["key"].split("@")[0] + "::" + f["name"], set()))

    def trait_props(self):
        """properties named by the clauses of the trait contract a method implements: "Trait::method" -> {Cxx}"""
        if not hasattr(self, "_tp"):
            self._tp, tr, fn = {}, None, None
            for l in self.lines():
                if re.match(r"\s*(pub )?trait \w+", l):
                    tr, fn = re.search(r"trait (\w+)", l).group(1), None
                elif l.startswith("}"):
                    tr = None
                if tr:
                    m = re.search(r"\bfn (\w+)", l)
                    fn = m.group(1) if m else fn
                    t = re.search(r"// \[(C\d\d)\.\w+\]", l)
                    if t and fn:
                        self._tp.setdefault(tr + "::" + fn, set()).add(t.group(1))
        return self._tp

    def main_props(self, f):
        """properties an unlabelled obligation of the function states itself; for the others (~Cxx) it is support"""
        return sorted(p for p in f["props"] if not p.startswith("~")) or self.props_of(f)

    def note(self, d):
        m = d["message"]
        spans = d["spans"]
        prim = [s for s in spans if s["is_primary"]] or spans
        f, labels = None, []
        for s in prim + spans:
            g = self.fn_at(s["line_start"])
            # a failed precondition is primary at the callee's clause or at the call; the function being verified has the body
            if g and s["line_start"] >= g["body"]:
                f = g
                break
        if f is None:
            for s in prim + spans:
                f = self.fn_at(s["line_start"])
                if f:
                    break
        if f is None:
            # a lemma: belongs to the contract text, not to /repo
            self.undecided.append({"fn": "lemma at gen.rs:%d" % prim[0]["line_start"], "why": m, "props": ["*"]})
            return
        for s in spans:
            for l in f["labels"]:
                if l["from"] <= s["line_start"] <= l["to"]:
                    labels.append(l["label"])
            # a clause of a trait's contract names its property itself
            if s["line_start"] < f["start"] or s["line_start"] > f["end"]:
                t = re.search(r"// \[(C\d\d\.\w+)\]", self.lines()[s["line_start"] - 1])
                if t and m.startswith("postcondition"):
                    labels.append(t.group(1))
        rec = {"fn": f["key"], "src": "%s:%d" % (f["file"], f["src_line"]), "labels": sorted(set(labels)), "message": m,
               "same": f["same_skeleton"], "rendered": d.get("rendered", "")[:3000]}
        rec["props"] = sorted({l.split(".")[0] for l in labels}) or self.main_props(f)
        if "decreases" in m and "C18" in self.props_of(f):
            rec["props"] = ["C18"]
        rec["supports"] = [p for p in self.props_of(f) if p not in rec["props"]]
        if "rlimit" in m or "Resource limit" in m or "timed out" in m.lower():
            self.undecided.append({"fn": f["key"], "why": m, "props": self.props_of(f)})
        else:
            self.failed.append(rec)

    def functions(self):
        r = []
        for mod in ((self.out or {}).get("times-ms", {}).get("smt", {}) or {}).get("smt-run-module-times", []):
            for f in mod.get("function-breakdown", []):
                r.append((f["function"], f["success"]))
        return r

    def lines(self):
        if not hasattr(self, "_lines"):
            self._lines = open(os.path.join(self.work, "gen.rs")).read().split("\n")
        return self._lines

    def relevant(self, props):
        return self.prop in props or "*" in props

    def trusted_base(self):
        t = open(os.path.join(self.work, "gen.rs")).read()
        r = []
        for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:proof\s+)?(?:fn|struct)\s+(\w+)", t):
            r.append(m.group(1))
        a = re.findall(r"assume_specification[^\[]*\[\s*([^\]]+?)\s*\]", t)
        n_assume = len(re.findall(r"\b(?:assume|admit)\s*\(", t))
        ax = re.findall(r"(?:broadcast\s+)?(?:axiom|proof)\s+fn\s+(\w*axiom\w*)", t)
        return sorted(set(r)), sorted(set(a)), n_assume, sorted(set(ax))


def vacuity(pr):
    """every function under contract gets an extra postcondition that cannot be proved; each has to fail"""
    d = pr.work + "-vac"
    p2 = Proof(pr.prop, pr.repo, pr.tier, d)
    p2.trust = dict(pr.trust)
    os.makedirs(d, exist_ok=True)
    if not p2.extract(["--vacuity"]):
        return None
    rc, errs, raw = p2.verus()
    bad = set()
    for e in errs:
        for s in e["spans"]:
            f = p2.fn_at(s["line_start"])
            if f:
                bad.add(f["key"])
    want = {f["key"] for f in p2.map["functions"] if f.get("vacuity") and not f["trusted_now"]}
    return sorted(want - bad), len(want)


def build(path, env=None):
    rc, o, e = sh(["cargo", "build", "--offline", "--release", "--quiet"], cwd=path, env=env, timeout=600)
    return rc == 0, e


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    repo = "/repo"
    t0 = time.time()
    claims = json.load(open(os.path.join(V, "bin/claims.json")))
    claim = claims[prop]
    ev_dir = os.path.join(V, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    work = os.path.join(V, ".work", "%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        rc = decide(prop, tier, seed, repo, claim, ev_dir, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(work + "-vac", ignore_errors=True)
    sys.exit(rc)


def bounded(prop, tier, seed, work, extra=()):
    exe = os.path.join(V, "harness/target/release/vf-bound")
    out = os.path.join(work, "bound.json")
    if os.path.exists(out):
        os.remove(out)
    budget = "45" if tier == "quick" else "150" if tier == "deep" else "420"
    lim = BOUND_TIMEOUT if tier == "quick" else 700
    a = [exe, "--prop", prop, "--tier", "thorough" if tier == "deep" else tier, "--seed", str(seed), "--out", out, "--budget", budget] + list(extra)
    rc, o, e = sh(a, timeout=lim, mem=MEM_B, cwd=work)
    try:
        return rc, json.load(open(out)), e
    except (OSError, ValueError):
        return rc, None, e


def decide(prop, tier, seed, repo, claim, ev_dir, work, t0):
    import threading
    proof = Proof(prop, repo, tier, work)
    vac = None
    box = {}

    def run_a():
        ok, e = build(os.path.join(V, "extract"))
        if not ok:
            proof.error = "the extractor does not build: " + e[-500:]
            return
        proof.run()

    ta = threading.Thread(target=run_a)
    ta.start()
    okb, eb = build(os.path.join(V, "harness"), {"RUSTFLAGS": "--cfg vf_hooks"})
    ta.join()
    if tier == "thorough" and not proof.error:
        vac = vacuity(proof)
    viol = []          # (replay dict, failing input?)
    b = None
    is_open = any(proof.relevant(u["props"]) for u in proof.undecided) or any(prop in f["props"] + f["supports"] for f in proof.failed)
    if tier == "quick" and is_open:
        tier_b = "deep"    # the proof leaves something open: look longer for a failing input
    else:
        tier_b = tier
    if okb:
        rc, b, e = bounded(prop, tier_b, seed, work)
        if b is None:
            # crashed or was killed: find the case
            tr = os.path.join(work, "trace.txt")
            rc2, b2, e2 = bounded(prop, tier_b, seed, work, ["--trace", tr])
            if b2 is not None:
                b, rc = b2, rc2
            else:
                last = ""
                try:
                    last = open(tr).read().strip().splitlines()[-1]
                except (OSError, IndexError):
                    pass
                if rc2 == 124 and not last:
                    return fail("the bounded engine gave no answer (exit %s)" % rc2)
                viol.append({"case": last, "what": "the real code crashed or did not terminate (exit %s): %s" % (rc2, e2[-300:])})
        if b:
            viol += b["violations"]
    elif proof.error:
        return fail("neither engine builds against this tree: %s | %s" % (eb[-600:], proof.error))
    mine = [f for f in proof.failed if prop in f["props"]]
    und = [u for u in proof.undecided if proof.relevant(u["props"])]
    for f in proof.failed:
        if prop not in f["props"] and (prop in f["supports"] or prop in props_using(proof, f)):
            und.append({"fn": f["fn"], "why": "a supporting function fails: " + f["message"], "props": [prop]})
    hard = [f for f in mine if f["same"]]
    soft = [f for f in mine if not f["same"]]
    und += [{"fn": f["fn"], "why": "restructured source, the annotations no longer fit: " + f["message"], "props": [prop]} for f in soft]
    if vac and vac[0]:
        und += [{"fn": k, "why": "vacuous: contradictory contract", "props": ["*"]} for k in vac[0]]
    known = known_lines(prop)
    for k in (b or {}).get("known", []):
        if k["still"]:
            line = next((l for l in known if k["name"] in l), None)
            if line is None:
                viol.append({"case": k["name"], "what": "listed by the harness but not in known_findings.txt"})
            else:
                print("KNOWN-FINDING: property=%s %s" % (prop, line))
    ext, asm, n_assume, ax = ([], [], 0, [])
    if proof.map is not None:
        ext, asm, n_assume, ax = proof.trusted_base()
    if n_assume and not proof.error:
        return fail("the contracts contain assume/admit")

    fns = [f for f in (proof.map or {"functions": []})["functions"] if prop in proof.props_of(f)]
    proved = [f for f in fns if not f["trusted_now"]] if not proof.error else []
    badfns = {f["fn"] for f in mine} | {u["fn"] for u in und}
    vr = (proof.out or {}).get("verification-results", {})
    status = "violated" if (viol or hard) else ("undecided by proof, bounded stand-in clean" if (und or proof.error) else "held")
    level = claim["level"]
    if level == "proof" and (und or proof.error):
        level = "other"
    cov = {
        "status": status,
        "functions_under_contract": ["%s (%s:%d)" % (f["key"], f["file"], f["src_line"]) for f in fns if not f["trusted_now"]],
        "functions_with_assumed_contract": ["%s: %s" % (f["key"], f["trusted"]) for f in fns if f["trusted_now"] and f["trusted"]],
        "clauses": sorted({l["label"] for f in fns for l in f["labels"] if l["label"].startswith(prop)}),
        "undecided": ["%s: %s" % (u["fn"], u["why"]) for u in und] + ([proof.error] if proof.error else []),
        "obligations": len(proof.functions()) and (vr.get("verified", 0) + vr.get("errors", 0)),
        "discharged": vr.get("verified", 0) or 0,
        "obligations_of_this_property": len(proved),
        "discharged_of_this_property": len([f for f in proved if f["key"] not in badfns]),
        "back_end": "Verus 0.2026.09.13 (z3 bundled with it); one obligation = one function or lemma query",
        "solver_ms": ((proof.out or {}).get("times-ms", {}).get("smt", {}) or {}).get("smt-run", 0),
        "proof_wall_s": round(proof.secs, 1),
        "checker_cmd": "vf-extract --repo /repo --contracts contracts --out W && (cd W && %s)" % " ".join(getattr(proof, "cmd", ["verus"])),
        "trusted_base": ["external_body: " + ", ".join(ext), "assume_specification: " + ", ".join(asm), "axioms: " + ", ".join(ax),
                         "vf-extract (source -> Verus dialect), Verus, z3, rustc"],
        "extraction_notes": sorted({n for f in fns for n in f["notes"]})[:60],
        "vacuity": None if vac is None else {"functions_probed": vac[1], "vacuous": vac[0]},
        "evaluations": (b or {}).get("evaluations", 0),
        "distinct_nontrivial": (b or {}).get("distinct", 0),
        "rule": claim["rule"],
        "samples": (b or {}).get("samples", [])[:6],
        "bounded": claim.get("bounded", ""),
        "explanation": claim["note"] + " Run status: " + status + ".",
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": claim.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(viol) + len(hard)}
    json.dump(ev, open(os.path.join(ev_dir, prop + ".json"), "w"), indent=1)
    if viol or hard:
        rp = os.path.join(ev_dir, "replay-%s.json" % prop)
        json.dump({"property": prop, "seed": seed, "tier": tier_b, "failing_inputs": viol, "failed_obligations": mine,
                   "rerun": "cd /verif/harness && RUSTFLAGS='--cfg vf_hooks' cargo build --offline --release && target/release/vf-bound --prop %s --tier %s --seed %d --case N --out /dev/stdout" % (prop, "thorough" if tier_b == "deep" else tier_b, seed)},
                  open(rp, "w"), indent=1)
        for f in mine[:5]:
            print("failed obligation: %s (%s) %s: %s" % (f["fn"], f["src"], ",".join(f["labels"]), f["message"]))
        for v in viol[:3]:
            print("failing input: case %s: %s" % (v["case"], v["what"][:400]))
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if viol else " no-failing-input-found"))
        return 1
    for u in cov["undecided"]:
        print("undecided: " + u[:400])
    print("%s %s: %d/%d obligations discharged (%d of this property's %d functions), %d bounded evaluations, %.0f s" % (
        prop, status, cov["discharged"], cov["obligations"], cov["discharged_of_this_property"], cov["obligations_of_this_property"], cov["evaluations"], ev["wall_s"]))
    return 0


def props_using(proof, rec):
    """properties whose functions live in modules that build on the failing function"""
    f = next((f for f in proof.map["functions"] if f["key"] == rec["fn"]), None)
    r = set()
    for g in proof.map["functions"]:
        if f and g["module"] == f["module"]:
            r |= set(proof.props_of(g))
    return r


def known_lines(prop):
    try:
        ls = open(os.path.join(V, "known_findings.txt")).read().splitlines()
    except OSError:
        return []
    return [l.split(" ", 1)[1] for l in ls if l.startswith("property=%s " % prop)]


def fail(msg):
    print("check error: " + msg, file=sys.stderr)
    return 2


if __name__ == "__main__":
    main()
