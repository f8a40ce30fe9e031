#!/usr/bin/env python3
"""Decide one property of cddl-cat:  check.py PROPERTY [quick|thorough]

1. weave: the functions of /repo/src are copied mechanically into one file together with their
   contracts (weaver), on every run, from the current working tree;
2. verus has to discharge every obligation of that file;
3. a bounded search compares the compiled crate with an independent reference (replay). It is
   the counterexample finder when an obligation fails, and the bounded stand-in for the parts
   out of the verifier's reach.

exit 0: held; exit 1 + VIOLATION line: broken.
"""
import json, os, re, shutil, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(HERE, ".build"))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
T0 = time.time()
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)

PROPS = json.load(open(os.path.join(HERE, "checks.json")))
# core: everything but the parser, whose two entry points are assumed to keep the contract that
# the unit parser (everything, parser included) discharges
UNIT = "core"


def say(*a):
    print(*a, flush=True)


def sh(cmd, timeout, cwd=None, **kw):
    """(exit code or None on timeout, stdout, stderr); ends the whole process group."""
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", env=ENV, start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e


def build_weaver():
    rc, _, e = sh(["cargo", "build", "--offline", "--quiet"], 400, cwd=os.path.join(HERE, "weaver"))
    if rc != 0:
        say("weaver does not build\n" + e[-2000:])
        return None
    return os.path.join(HERE, "weaver/target/debug/weaver")


def build_replay():
    """The search, linked against the crate as it is now. None if that does not build."""
    src = os.path.join(HERE, "replay")
    if REPO != "/repo":
        dst = os.path.join(BUILD, "replay-src")
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(src, dst, ignore=shutil.ignore_patterns("target"))
        t = open(dst + "/Cargo.toml").read().replace('"/repo"', json.dumps(REPO))
        open(dst + "/Cargo.toml", "w").write(t)
        src = dst
    target = os.path.join(HERE, "replay/target") if REPO == "/repo" else os.path.join(BUILD, "replay-target")
    rc, _, e = sh(["cargo", "build", "--offline", "--quiet", "--target-dir", target], 500, cwd=src)
    if rc != 0:
        say("note: the search does not build against this tree; no inputs are tried")
        say("\n".join(l for l in e.splitlines() if l.startswith("error"))[:800])
        return None
    return os.path.join(target, "debug/replay")


# ---------------------------------------------------------------------------- verifier
class Proof:
    def __init__(self):
        self.state = "undecided"      # proved | failed | undecided
        self.failed = {}              # function key -> [messages]
        self.excluded = {}            # function key -> why (not judged on this tree)
        self.rlimit = {}              # function key -> message
        self.lost = {}                # function key -> notes (contract does not fit)
        self.broken = ""              # why nothing was decided
        self.fns = []
        self.breakdown = []
        self.obl = {}
        self.smt_ms = 0
        self.total_ms = 0
        self.raw = ""
        self.cmd = ""
        self.canary = None
        self.text = ""
        self.verified = 0
        self.second = {}              # discharged on the second attempt


def again(weaver, out, disabled, p):
    """The functions with a failed obligation, once more, each with more lemmas at hand (the same
    meaning can be written in other ways than the contract's), and those the solver ran out of
    resources on with another seed: what is then discharged holds."""
    strong = [k for k in p.failed if k.split("::")[0] in PROPS.get("strong", []) and k not in p.rlimit]
    keys = strong + [k for k in p.rlimit if not k.startswith("[") and "::" in k and k not in p.failed]
    if not keys or len(keys) > 8:
        return
    extra = []
    for k in strong:
        extra += ["--strong", k]
    w, err = weave(weaver, out, disabled, extra)
    if w is None:
        return
    def one(k):
        m, f = k.split("::")[0], k.split("::")[-1]
        cmd = ["verus", "--edition=2018", out + ".rs", "--rlimit", "30", "--output-json", "--time", "--verify-only-module", m,
               "--verify-function", f]
        if k not in strong:
            cmd += ["--smt-option", "smt.random_seed=7"]
        rc, o, e = sh(cmd, 150, cwd=os.path.dirname(out))
        try:
            vr = json.loads(o)["verification-results"]
        except (ValueError, KeyError, TypeError):
            return
        if rc == 0 and vr.get("verified", 0) >= 1 and vr.get("errors") == 0 and not vr.get("encountered-vir-error"):
            p.second[k] = p.failed.pop(k, None) or p.rlimit.pop(k)
            p.verified += 1
    ts = [threading.Thread(target=one, args=(k,)) for k in keys]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


def weave(weaver, out, disabled, extra=()):
    cmd = [weaver, os.path.join(REPO, "src"), os.path.join(HERE, "contracts"), out + ".rs", out + ".json"]
    cmd += ["--unit", UNIT]
    for d in disabled:
        cmd += ["--disable", d]
    rc, o, e = sh(cmd + list(extra), 60)
    if rc != 0:
        return None, e.strip()[-1500:]
    return json.load(open(out + ".json")), ""


def run_verus(path, log=None, rlimit=None, timeout=420):
    rlimit = rlimit or (30 if UNIT == "parser" else 12)
    cmd = ["verus", "--edition=2018", path, "--num-threads", "8", "--rlimit", str(rlimit), "--output-json",
           "--time-expanded", "--error-format=json"]
    if log:
        shutil.rmtree(log, ignore_errors=True)
        cmd += ["--log-dir", log, "--log", "air-final"]
    rc, o, e = sh(cmd, timeout, cwd=os.path.dirname(path))
    diags = []
    for l in e.splitlines():
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    try:
        j = json.loads(o)
    except ValueError:
        j = None
    return rc, j, diags, e, " ".join(cmd)


def fn_at(fns, line):
    best = None
    for f in fns:
        if f["start"] <= line <= f["end"]:
            if best is None or f["end"] - f["start"] < best["end"] - best["start"]:
                best = f
    return best


def where(fns, d):
    """the function a diagnostic is about: its primary span, else any span"""
    prim = [s for s in d["spans"] if s["is_primary"]]
    for s in prim + d["spans"]:
        f = fn_at(fns, s["line_start"])
        if f and not f["key"].startswith("["):
            return f
    for s in prim + d["spans"]:
        f = fn_at(fns, s["line_start"])
        if f:
            return f
    return None


def owner(fns, d):
    """the function whose proof obligation failed: a failed precondition is the caller's, a failed
    postcondition the callee's own; verus puts the place of failure inside that function"""
    cands = [fn_at(fns, s["line_start"]) for s in d["spans"] if s["is_primary"]]
    cands += [fn_at(fns, s["line_start"]) for s in d["spans"]]
    for f in cands:
        if f and f["has_body"] and not f["external"]:
            return f
    for f in cands:
        if f:
            return f
    return None


VERIF_MSG = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
             "possible arithmetic", "decreases not satisfied", "possible division", "could not prove termination",
             "possible bit shift", "failed this postcondition", "unable to prove", "recommendation not met",
             "loop ensures not satisfied", "might not be allowed", "requires not satisfied", "index out of bounds",
             "not satisfied", "possible underflow", "arithmetic underflow/overflow")


def obligations(logdir):
    """assertion-level obligations per function, from the verifier's own final log"""
    out = {}
    for root, _, files in os.walk(logdir):
        for f in files:
            if not f.endswith(".air"):
                continue
            name, check = None, False
            for l in open(os.path.join(root, f), errors="replace"):
                m = re.match(r";; (Function-Def|Function-Expand|Function-Termination|Function-Decl-Check[^ ]*|Query|Spinoff[^ ]*) (\S+)", l)
                if m:
                    name = m.group(2)
                elif l.startswith(";; "):
                    pass
                if l.startswith("(check-valid"):
                    check = True
                if check and name and "(location" in l:
                    out[name] = out.get(name, 0) + l.count("(location")
    return out


def prove(weaver):
    p = Proof()
    work = os.path.join(BUILD, "proof")
    os.makedirs(work, exist_ok=True)
    out = os.path.join(work, "g")
    disabled = {}
    for attempt in range(10):
        w, err = weave(weaver, out, disabled)
        if w is None:
            p.broken = "the source could not be woven: " + err
            return p
        p.fns = w["fns"]
        p.woven = w
        bad = {}
        for f in w["fns"]:
            if f["contract"] and not f["external"] and not f["anchors_ok"]:
                bad[f["key"]] = "the contract's annotations do not fit this body: " + "; ".join(f["notes"])
        # such a body is still put to the verifier: if it is accepted, the contract holds of it; if
        # not, the annotations are what is missing and the function is left out
        bad = {k: v for k, v in bad.items() if k not in disabled}
        rc, j, diags, raw, p.cmd = run_verus(out + ".rs", log=os.path.join(work, "log"))
        p.raw = raw
        if rc is None:
            p.broken = "the verifier ran out of time"
            break
        errs = [d for d in diags if d["level"] == "error" and d["spans"]]
        vr = (j or {}).get("verification-results", {})
        decided = j is not None and not vr.get("encountered-vir-error") and "verified" in vr and "times-ms" in j \
            and j["times-ms"].get("smt", {}).get("smt-run-module-times") and (vr["verified"] + vr["errors"]) > 0
        if not decided:
            # compile or translation errors: leave the functions they are in out, and say so
            new = {}
            for d in errs:
                f = where(w["fns"], d)
                if f and not f["key"].startswith("[") and f["key"] not in disabled and f["has_body"]:
                    new[f["key"]] = "outside the verifier's reach as written: " + d["message"].splitlines()[0]
            if bad and (not new or attempt > 3):
                new = dict(new, **bad)
            if not new:
                p.broken = "the woven source is not accepted: " + "; ".join(d["message"].splitlines()[0] for d in errs[:3]) if errs else \
                    "the verifier gave no verdict: " + raw[-600:]
                p.excluded.update(disabled)
                break
            disabled.update(new)
            p.lost.update({k: v for k, v in new.items() if k in bad})
            p.excluded.update({k: v for k, v in new.items() if k not in bad})
            continue
        p.excluded.update({k: v for k, v in disabled.items() if k not in p.lost})
        p.verified = vr["verified"]
        p.total_ms = j["times-ms"].get("total", 0)
        p.smt_ms = j["times-ms"]["smt"].get("smt-run", 0) or sum(m.get("time", 0) for m in j["times-ms"]["smt"]["smt-run-module-times"])
        p.breakdown = [f for m in j["times-ms"]["smt"]["smt-run-module-times"] for f in m["function-breakdown"]]
        p.obl = obligations(os.path.join(work, "log"))
        for d in errs:
            if "aborting due to" in d["message"]:
                continue
            f = owner(w["fns"], d)
            key = f["key"] if f else "?"
            line = d["spans"][0]["line_start"]
            msg = d["message"].splitlines()[0]
            labels = "; ".join("%s: %s" % (s.get("label") or "", " ".join(t["text"].strip() for t in s.get("text", [])[:2])) for s in d["spans"][:3])
            if "Resource limit" in msg or "rlimit" in msg or "timed out" in msg:
                p.rlimit[key] = msg
            else:
                p.failed.setdefault(key, []).append("%s [%s]" % (msg, labels))
        p.text = "\n".join(d.get("rendered") or d["message"] for d in errs)
        errors = vr["errors"]
        for k in bad:
            if k in p.failed or k in p.rlimit:
                p.lost[k] = bad[k]
                p.failed.pop(k, None)
                p.rlimit.pop(k, None)
        p.fitted = sorted(k for k in bad if k not in p.lost)
        if p.failed or p.rlimit:
            again(weaver, os.path.join(work, "s"), disabled, p)
        if errors and not p.failed and not p.rlimit and not p.second and not p.lost:
            p.broken = "errors without a place"
        elif p.failed:
            p.state = "failed"
        elif p.rlimit or p.excluded or p.lost or w["missing"]:
            p.state = "undecided"
        else:
            p.state = "proved"
        break
    return p


def implied(msg):
    """Properties an obligation belongs to by its kind, in whatever function it is."""
    m = msg.split(" [")[0]
    if "decreases" in m or "termination" in m or "terminate" in m:
        return ["C05"]
    if "precondition not satisfied" in m or "overflow" in m or "underflow" in m or "division by zero" in m or "unreachable" in m or "out of bounds" in m:
        return ["C24"] if UNIT == "parser" else ["C06"]
    return []


def groups():
    return PROPS["canary_groups"] + PROPS.get("canary_groups_" + UNIT, [])


def canary(weaver, work, p):
    """Vacuity guard: with a false assertion first in each body under contract, and one with
    every axiom in scope, each of them has to be refuted."""
    out = os.path.join(work, "c")
    w, err = weave(weaver, out, {}, ["--canary"])
    if w is None:
        return {"ok": False, "why": err}
    t = open(out + ".rs").read()
    glob = "\npub mod vp_canary { use super::*; use vstd::prelude::*; %s }\n" % " ".join(
        "pub proof fn vp_canary_%d() { broadcast use crate::%s; assert(false); }" % (i, g) for i, g in enumerate(groups()))
    i = t.rindex("}\nfn main()")
    open(out + ".rs", "w").write(t[:i] + glob + t[i:])
    rc, j, diags, raw, _ = run_verus(out + ".rs", timeout=240)
    if j is None:
        return {"ok": False, "why": raw[-300:]}
    lines = {s["line_start"] for d in diags if d["level"] == "error" for s in d["spans"] if s["is_primary"]}
    want = [f for f in w["fns"] if f["contract"] and f["has_body"] and not f["external"]]
    miss = [f["key"] for f in want if not any(f["start"] <= x <= f["end"] for x in lines)]
    g = [f for m in j["times-ms"]["smt"]["smt-run-module-times"] for f in m["function-breakdown"] if "vp_canary_" in f["function"]]
    gbad = [f["function"] for f in g if f["success"]]
    ok = not miss and not gbad and len(g) == len(groups())
    return {"ok": ok, "refuted": len(want) - len(miss) + len(g) - len(gbad), "not_refuted": miss + gbad}


def trusted(path):
    """what the verifier takes on trust in the woven text"""
    ext, assume, axioms, unint = [], [], [], []
    ls = open(path).read().splitlines()
    for i, l in enumerate(ls):
        s = l.strip()
        nxt = next((x.strip() for x in ls[i + 1:i + 6] if re.search(r"\b(fn|struct|enum)\b", x)), "")
        nm = lambda t: (re.search(r"\b(?:fn|struct|enum)\s+(\w+)", t) or [None, t[:60]])[1]
        if s.startswith("#[verifier::external_body]"):
            ext.append(nm(nxt if not re.search(r"\b(fn|struct|enum)\b", s) else s))
        if "assume_specification" in s:
            m = re.search(r"\[\s*(.*?)\s*\]\s*\(", s)
            assume.append(m.group(1) if m else s[:70])
        if re.search(r"proof fn\s+axiom_\w+", s):
            axioms.append(re.search(r"fn\s+(axiom_\w+)", s).group(1))
        if re.search(r"uninterp spec fn\s+\w+", s):
            unint.append(re.search(r"uninterp spec fn\s+(\w+)", s).group(1))
        if re.search(r"\b(assume|admit)\s*\(", s) and not s.startswith("//"):
            assume.append("ASSUME: " + s[:70])
    return ext, assume, axioms, unint


# ---------------------------------------------------------------------------- search
def search(replay, prop, secs, out):
    if os.path.exists(out):
        os.remove(out)
    rc, o, e = sh([replay, "search", prop, "--seed", str(SEED), "--secs", str(secs), "--threads", "8", "--out", out], secs + 240)
    if rc is None:
        return None
    try:
        j = json.loads(o.splitlines()[0])
    except (ValueError, IndexError):
        return None
    if j.get("found"):
        # only a case that fails again counts
        rc2, _, _ = sh([replay, "run", out], 200)
        if rc2 != 1:
            j["found"] = False
            j["flaky"] = True
    return j


def survey(replay, prop, n):
    rc, o, e = sh([replay, "survey", prop, "--seed", str(SEED), "--n", str(n)], 120)
    try:
        return json.loads(o.splitlines()[0])
    except (ValueError, IndexError):
        return {"examined": 0, "distinct_nontrivial": 0, "samples": []}


def main():
    global UNIT
    prop = sys.argv[1]
    cfg = PROPS["properties"][prop]
    UNIT = cfg.get("unit", "core")
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(HERE, ".build", "replays")
    os.makedirs(rdir, exist_ok=True)
    rfile = os.path.join(rdir, "%s.json" % prop)
    # the search is built while the proof runs
    box = {}
    th = threading.Thread(target=lambda: box.update(replay=build_replay()))
    th.start()
    weaver = build_weaver()
    proof = prove(weaver) if weaver else Proof()
    th.join()
    replay = box.get("replay")
    guard = None
    if proof.state == "proved":
        guard = threading.Thread(target=lambda: setattr(proof, "canary", canary(weaver, os.path.join(BUILD, "proof"), proof)))
        guard.start()
    say("proof: %s; %d functions verified, %d obligations; failed: %s" % (
        proof.state, proof.verified, sum(proof.obl.values()), sorted(proof.failed) or "none"))
    for k, v in list(proof.excluded.items()) + list(proof.lost.items()):
        say("note: %s is not judged: %s" % (k, v))
    for k in proof.second:
        say("note: %s: discharged on a second attempt, with the lemmas about other forms of the grammar" % k)
    for k, v in proof.rlimit.items():
        say("note: %s: %s" % (k, v))
    if proof.broken:
        say("note: " + proof.broken)
    tagged = [f["key"] for f in proof.fns if prop in f["tags"]]
    clean = proof.state == "proved"
    base = cfg.get("secs", {}).get(TIER, 10 if TIER == "quick" else 240)
    hunt = cfg.get("hunt", {}).get(TIER, 90 if TIER == "quick" else 300)
    secs = base if clean else max(base, hunt)
    found, viol, res = None, 0, None
    if replay:
        res = search(replay, prop, secs, rfile)
        if res and res.get("found"):
            found = rfile
    line = None
    if found:
        line = "VIOLATION property=%s replay=%s" % (prop, rfile)
        d = json.load(open(rfile))
        d["replay"] = "%s run %s" % (replay, rfile)
        d["failed_obligations"] = proof.failed
        json.dump(d, open(rfile, "w"), indent=1)
        say(json.dumps({k: d[k] for k in d if k not in ("failed_obligations",)}, indent=1)[:3000])
    elif proof.failed:
        # an obligation of a function this property rests on, judged as written
        mine = {}
        for k, v in proof.failed.items():
            f = next((f for f in proof.fns if f["key"] == k), None)
            v = v if f and prop in f["tags"] else [m for m in v if prop in implied(m)]
            if f and v and f["anchors_ok"] and not f["soft"] and k not in proof.rlimit and not weak_callee(proof, f):
                mine[k] = v
        if mine:
            json.dump({"property": prop, "failed_obligations": mine, "verifier_output": proof.text[:20000],
                       "search": res, "note": "no failing input was found in the search"}, open(rfile, "w"), indent=1)
            line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rfile)
            say(json.dumps(mine, indent=1)[:3000])
    if line:
        viol = 1
    elif not clean:
        say("undecided: not every obligation was discharged on this tree, and no failing input was found within the bound")
    if guard:
        guard.join()
    sv = survey(replay, prop, 2000) if replay and not line else {"examined": 0, "distinct_nontrivial": 0, "samples": []}
    evidence(prop, cfg, proof, res, sv, viol, tagged)
    for k in PROPS.get("known", {}).get(prop, []):
        say("KNOWN-FINDING: property=%s %s" % (prop, k))
    if proof.canary and not proof.canary["ok"]:
        say("note: vacuity guard: %s" % json.dumps(proof.canary)[:600])
    if line:
        say(line)
        sys.exit(1)
    sys.exit(0)


def weak_callee(proof, f):
    """the body calls something that is not judged (a function without a contract, or one left
    out): then a failed obligation says nothing about the code"""
    src = open(os.path.join(BUILD, "proof", "g.rs")).read().splitlines()
    body = "\n".join(src[f["start"] - 1:f["end"]])
    for g in proof.fns:
        if g["key"].startswith("[") or g["key"] == f["key"]:
            continue
        if g["contract"] and g["key"] not in proof.excluded and g["key"] not in proof.lost:
            continue
        if g["key"] in PROPS["plain"]:
            continue
        if re.search(r"\b(?:pf_)?%s\s*(::<[^>]*>)?\s*\(" % re.escape(g["key"].split("::")[-1]), body):
            return True
    return False


def theorems(prop, work, proof):
    """the lemmas of the woven file that state this property over the meaning, and whether they went through"""
    out = {}
    if os.path.exists(work):
        doc = []
        for l in open(work):
            m = re.match(r"\s*pub proof fn (theorem_(C\d\d)\w*)", l)
            if m and m.group(2) == prop:
                bad = any(k.split("::")[-1] == m.group(1) for k in list(proof.failed) + list(proof.rlimit))
                out[m.group(1)] = {"states": " ".join(doc), "discharged": proof.verified > 0 and not bad}
            doc = doc + [l.strip()[3:].strip()] if l.strip().startswith("///") else []
    return out


def evidence(prop, cfg, proof, res, sv, viol, tagged):
    level = cfg["level"]
    work = os.path.join(BUILD, "proof", "g.rs")
    ext, assume, axioms, unint = trusted(work) if os.path.exists(work) else ([], [], [], [])
    obl = sum(proof.obl.values())
    bad = sum(len(v) for v in proof.failed.values()) + len(proof.rlimit)
    per = {f["function"]: f for f in proof.breakdown}
    cov = {}
    if level == "proof":
        cov = {
            "obligations": obl,
            "discharged": max(0, obl - bad) if proof.state != "undecided" or proof.verified else 0,
            "checker_cmd": proof.cmd,
            "trusted_base": ["Verus and its encoding", "Z3 (back end of every obligation)", "the weaver's extraction (what it drops is listed under dropped)",
                             "external bodies: " + ", ".join(sorted(set(ext))), "assumed specifications of library functions: " + ", ".join(sorted(set(assume))),
                             "axioms: " + ", ".join(sorted(set(axioms))), "uninterpreted functions: " + ", ".join(sorted(set(unint)))],
        }
    elif level == "exploration":
        cov = {}
    cov.update({
        "proof_state": proof.state,
        "functions_verified": proof.verified,
        "functions_under_contract": sorted(f["key"] for f in proof.fns if f["contract"] and not f["external"] and f["has_body"] and f["key"] not in proof.lost),
        "functions_trusted": {f["key"]: f.get("trusted_reason") for f in proof.fns if f["external"] and not f["key"].startswith("[")},
        "functions_this_property_rests_on": tagged,
        "theorems": theorems(prop, work, proof),
        "obligations_all": obl,
        "obligations_by_function": dict(sorted(proof.obl.items())),
        "backend": "z3 through verus",
        "solver_ms": proof.smt_ms, "verifier_ms": proof.total_ms,
        "failed_obligations": proof.failed, "not_judged": dict(proof.excluded, **proof.lost), "resource_limited": proof.rlimit,
        "discharged_on_second_attempt": proof.second, "vacuity_guard": proof.canary,
        "bounded_search": {"label": "bounded, never counted as proved", "cases": (res or {}).get("cases"), "seconds": (res or {}).get("seconds"),
                           "undecided_by_the_reference": (res or {}).get("undecided")},
        "evaluations": int((res or {}).get("cases") or 0),
        "distinct_nontrivial": int(sv.get("distinct_nontrivial") or 0),
        "rule": "cases are drawn from a generator seeded by VERIF_SEED and the property (a schema with values aimed at it, or the kind of input the property is about); non-trivial: the reference gives a verdict to compare with. distinct_nontrivial counts distinct cases among the first %d" % sv.get("examined", 0),
        "samples": [s[:1500] for s in sv.get("samples", [])[:3]],
    })
    if getattr(proof, "woven", None):
        cov["dropped"] = sorted(set(str(x) for x in proof.woven["dropped"]))
        cov["inlined"] = proof.woven["inlined"]
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": PROPS["assumptions"] + cfg.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": viol}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    main()
