#!/usr/bin/env python3
"""Makes and confirms planted bugs (development tool, no check uses it).

plant.py SPEC.py [id...]: SPEC defines BUGS, a list of dicts
  id, property, needs, breaks, edits=[(file, old, new)], main (Rust source of the demonstration)
Each bug is applied to a scratch copy of /repo, built, tested, and its
demonstration is run there and on the clean copy.
"""
import json, os, re, shutil, subprocess, sys
SC = "/tmp/sr"
SEED = "/verif/seeded"
DEMO = '''#!/bin/bash
# exit 0 on correct code; builds main.rs against the crate in the current directory
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$D/main.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
tycho-types = { path = "$R", default-features = false, features = [FEATS] }
[profile.dev]
debug = 0
[workspace]
EOF
[ -e "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTC_WRAPPER=
exec_out=0
timeout 280 cargo run -q --offline --manifest-path "$T/Cargo.toml" || exec_out=1
exit $exec_out
'''


def sh(cmd, cwd=SC, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def scratch():
    if not os.path.exists(SC):
        subprocess.run(["cp", "-a", "/repo", SC], check=True)
    h = sh("git -C /repo rev-parse HEAD", "/").stdout.strip()
    sh("git fetch -q /repo && git checkout -q -f %s && git clean -fdq -e target -e Cargo.lock" % h)
    sh("sed 's#^cd /repo#cd %s#' /opt/vp/env.sh > /tmp/sr-env.sh" % SC, "/")


def tests():
    sh("sed -e 's#/opt/vp/env.sh#/tmp/sr-env.sh#' /opt/vp/build.sh > /tmp/sr-build.sh; sed -e 's#/opt/vp/env.sh#/tmp/sr-env.sh#; s#/opt/vp/test.log#/tmp/sr-test.log#' /opt/vp/test.sh > /tmp/sr-test.sh", "/")
    b = sh("bash /tmp/sr-build.sh")
    if b.returncode:
        return "build failed: " + b.stdout[-1500:]
    sh("bash /tmp/sr-test.sh /tmp/sr-out.json")
    t = json.load(open("/tmp/sr-out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base if isinstance(base, list) else base.get("passed") or base.get("stable") or [])
    bad = sorted(set(t["failed"]) | (want - set(t["passed"])))
    return "tests fail: %s" % bad[:5] if bad else None


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    scratch()
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        sh("git checkout -q -f .")
        d = os.path.join(SEED, b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        feats = ", ".join('"%s"' % x for x in b.get("features", ["base64", "serde", "models", "sync"]))
        open(d + "/demo.sh", "w").write(DEMO.replace("FEATS", feats))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/main.rs", "w").write(b["main"])
        c = sh("bash %s/demo.sh" % d)
        if c.returncode:
            print(b["id"], "DEMO FAILS ON CLEAN:", c.stdout[-1500:])
            shutil.rmtree(d)
            continue
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(SC, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "edit matches", s.count(old), "times in", f)
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            shutil.rmtree(d)
            continue
        diff = sh("git diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        e = tests()
        c = sh("bash %s/demo.sh" % d)
        sh("git checkout -q -f .")
        if e or c.returncode == 0:
            print(b["id"], "REJECTED:", e, "demo rc", c.returncode, c.stdout[-300:])
            shutil.rmtree(d)
        else:
            print(b["id"], "ok:", c.stdout.strip().split("\n")[-1][:150])


main()
