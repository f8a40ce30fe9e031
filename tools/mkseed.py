#!/usr/bin/env python3
"""mkseed.py FILE.py...: each file defines ID, PROPERTY, EDITS=[(path, old, new)], NEEDS, BREAKS, DEMO (a main.rs).
Builds /verif/seeded/ID after confirming, in a scratch copy, that the change compiles, passes the stable
tests, and that the demonstration tells the trees apart."""
import json, os, shutil, subprocess, sys, runpy
SH = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
d="$(mktemp -d)"
trap 'rm -r "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\ncddl-cat = { path = "%s" }\\n' "$repo" > "$d/Cargo.toml"
[ -f "$here/demo.lock" ] && cp "$here/demo.lock" "$d/Cargo.lock"
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 280 cargo run --offline --quiet 2>&1
'''
PRE = '''#![allow(unused, dead_code)]
use cddl_cat::{validate_cbor_bytes, validate_json_str, ValidateError};
fn json(cddl: &str, v: &str) -> &'static str { show(validate_json_str("t", cddl, v)) }
fn cbor(cddl: &str, v: &[u8]) -> &'static str { show(validate_cbor_bytes("t", cddl, v)) }
fn show(r: Result<(), ValidateError>) -> &'static str {
    match r {
        Ok(()) => "ok",
        Err(ValidateError::Mismatch(_)) | Err(ValidateError::MapCut(_)) => "mismatch",
        Err(ValidateError::MissingRule(_)) => "missing",
        Err(ValidateError::Structural(_)) => "structural",
        Err(ValidateError::Unsupported(_)) => "unsupported",
        Err(ValidateError::ValueError(_)) => "value",
        Err(ValidateError::GenericError) => "generic",
        Err(ValidateError::ParseError(_)) => "parse",
        Err(_) => "other",
    }
}
fn want(got: &str, exp: &str, what: &str) {
    if got != exp { println!("{}: expected {}, got {}", what, exp, got); std::process::exit(1); }
}
'''
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
W = "/tmp/seedwork"
def sh(c, cwd, t=600):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
def main():
    if not os.path.exists(W):
        sh("cp -a /repo %s" % W, "/")
    base = json.load(open("/opt/vp/BASELINE.json"))
    for f in sys.argv[1:]:
        m = runpy.run_path(f)
        sh("git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD", W)
        d = os.path.join(OUT, m["ID"])
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/main.rs", "w").write(PRE + m["DEMO"])
        open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755)
        a = sh("bash %s/demo.sh" % d, W)
        bad = None
        if a.returncode != 0: bad = "demo fails on the unchanged tree: " + a.stdout[-600:]
        for path, old, new in m["EDITS"]:
            p = os.path.join(W, path); s = open(p).read()
            if s.count(old) != 1: bad = bad or "%s: %d occurrences" % (path, s.count(old)); continue
            open(p, "w").write(s.replace(old, new))
        if not bad:
            open(d + "/patch.diff", "w").write(sh("git diff", W).stdout)
            t = sh(". /opt/vp/env.sh; unset CARGO_TARGET_DIR; cd %s; cargo test --workspace --offline 2>&1" % W, W)
            fails = [l for l in t.stdout.splitlines() if l.startswith("test ") and l.endswith("FAILED")]
            if "error" in t.stdout and "could not compile" in t.stdout: bad = "does not compile: " + t.stdout[-1500:]
            elif t.returncode != 0 or fails: bad = "tests fail: %s" % fails[:5]
            else:
                b = sh("bash %s/demo.sh" % d, W)
                if b.returncode == 0: bad = "demo passes with the change"
                else: print("  demo:", b.stdout.strip().splitlines()[-1:] )
        if bad:
            print(m["ID"], "REJECTED", bad); shutil.rmtree(d)
        else:
            json.dump({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
            print(m["ID"], "kept")
main()
