"""Developer tool: makes seeded/<id>/ from a description and confirms it.
usage: plant.py <file.py>   where the file defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=W + "/target", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")

DEMO_SH = '''#!/bin/bash
# run with cwd /repo: builds main.rs against the library and runs it
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
prosemirror = { path = "$repo" }
serde_json = "1"
EOF
cp "$repo/Cargo.lock" "$d/Cargo.lock"
CARGO_NET_OFFLINE=true cargo run --offline --quiet --manifest-path "$d/Cargo.toml" --target-dir "$d/target"
'''
PRE = '''#![allow(unused_imports, dead_code)]
use prosemirror::markdown::{helper::*, *};
use prosemirror::model::*;
use prosemirror::transform::*;
use std::borrow::Cow;
'''

def sh(c, cwd=None, env=None, t=600):
    return subprocess.run(c, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=t)

def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    only = sys.argv[2:]
    for b in g["BUGS"]:
        if only and b["id"] not in only:
            continue
        repo = W + "/repo"
        os.makedirs(W, exist_ok=True)
        shutil.rmtree(repo, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        shutil.copy("/repo/Cargo.lock", repo)
        s = W + "/seed/" + b["id"]
        shutil.rmtree(s, ignore_errors=True)
        os.makedirs(s)
        open(s + "/demo.sh", "w").write(DEMO_SH.replace("path = \"$repo\" }", "path = \"$repo\", features = [\"cmark\"] }") if b["property"] == "C15" else DEMO_SH)
        os.chmod(s + "/demo.sh", 0o755)
        open(s + "/main.rs", "w").write(PRE + b["demo"].lstrip("\n"))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(s + "/meta.json", "w"), indent=1)
        r = sh(["bash", s + "/demo.sh"], cwd=repo)
        if r.returncode != 0:
            print(b["id"], "DEMO FAILS UNPATCHED", r.stderr[-1500:]); continue
        ok = True
        for f, old, new in b["edits"]:
            p = repo + "/" + f
            t = open(p).read()
            if t.count(old) != 1:
                print(b["id"], "edit matches", t.count(old), "times:", old); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok: continue
        d = sh(["git", "diff"], cwd=repo).stdout
        open(s + "/patch.diff", "w").write(d)
        r = sh(["cargo", "test", "--all-features", "--offline"], cwd=repo)
        m = re.findall(r"test result: (\w+)\. (\d+) passed; (\d+) failed", r.stdout)
        if r.returncode != 0:
            print(b["id"], "TESTS FAIL", m, r.stderr[-800:], re.findall(r"test (\S+) \.\.\. FAILED", r.stdout)); continue
        r = sh(["bash", s + "/demo.sh"], cwd=repo)
        if r.returncode == 0:
            print(b["id"], "DEMO PASSES PATCHED"); continue
        msg = (r.stderr.strip().splitlines() or [""])
        dst = V + "/seeded/" + b["id"]
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(s, dst)
        print(b["id"], "planted;", [x for x in msg if "panicked" in x or "assert" in x][:1])
        catch(b["id"], b["property"], repo)

def catch(i, prop, repo):
    man = json.load(open(V + "/MANIFEST.json"))
    if prop not in [c["property"] for c in man["checks"]]:
        print("   ", prop, "is not claimed"); return
    env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=W + "/build")
    r = subprocess.run(["python3", V + "/lib/check.py", prop, "quick"], env=env, capture_output=True, text=True)
    print("\n".join("    " + l for l in r.stdout.splitlines()[-6:]))

if __name__ == "__main__":
    main()
