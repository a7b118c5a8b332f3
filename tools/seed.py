#!/usr/bin/env python3
"""Plants bugs: python3 tools/seed.py DEFS.py [id...] validates each definition and writes seeded/<id>/.
A definition: dict(id, prop, edits=[(file, old, new)...], uses, body, needs, breaks).
Edits are applied to /repo's working tree and undone again."""
import json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO = '''#!/bin/bash
# builds a small program against the crate's sources in the current directory and runs it
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
sed "s#@REPO@#$repo#" "$here/demo.rs" > "$d/src/main.rs"
printf '[package]\\nname = "geos-rs"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nrand = "0.8.5"\\n[workspace]\\n' > "$d/Cargo.toml"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cd "$d"
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTFLAGS="-Awarnings" timeout 250 cargo build --offline -q 2> build.log || { cat build.log; exit 3; }
timeout 20 ./target/debug/geos-rs
'''


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    for b in ns["BUGS"]:
        if want and b["id"] not in want:
            continue
        out = os.path.join(ROOT, "seeded", b["id"])
        print("%-28s" % b["id"], end=" ", flush=True)
        if os.path.exists(os.path.join(out, "meta.json")) and not want:
            print("kept")
            continue
        assert sh("git", "-C", REPO, "status", "--porcelain").stdout == "", "repo not clean"
        try:
            bad = None
            for f, old, new in b["edits"]:
                p = os.path.join(REPO, f)
                s = open(p).read()
                if s.count(old) != 1:
                    bad = "%d matches in %s: %s" % (s.count(old), f, old[:60])
                    break
                open(p, "w").write(s.replace(old, new))
            if bad:
                print("SKIP", bad)
                continue
            diff = sh("git", "-C", REPO, "diff").stdout
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            with open(os.path.join(out, "demo.rs"), "w") as f:
                f.write('#![allow(dead_code, unused_imports)]\n#[path = "@REPO@/src/core/mod.rs"]\nmod core;\n%s\nfn main() {\n%s\n}\n' % (b["uses"].strip(), b["body"].strip("\n")))
            open(os.path.join(out, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
            r = sh("bash", "/opt/vp/build.sh")
            ok = r.returncode == 0
            t = sh("bash", "/opt/vp/test.sh", "/tmp/seed_t.json")
            res = json.load(open("/tmp/seed_t.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            passed = set(res.get("passed", res.get("stable", [])))
            need = set(base.get("passed", base.get("stable", base.get("tests", []))))
            tests = need <= passed if need else False
            d1 = sh("bash", os.path.join(out, "demo.sh"), cwd=REPO)
            c = sh("python3", "check.py", b["prop"], cwd=ROOT)
            viol = "VIOLATION property=%s " % b["prop"] in c.stdout and c.returncode == 1
        finally:
            sh("git", "-C", REPO, "checkout", "--", ".")
        d0 = sh("bash", os.path.join(out, "demo.sh"), cwd=REPO)
        good = ok and tests and d1.returncode not in (0, 3) and d0.returncode == 0
        print("valid" if good else "INVALID build=%s tests=%s demo+=%d demo0=%d %s" % (ok, tests, d1.returncode, d0.returncode, (sorted(need - passed)[:3], d0.stdout[-300:] if d0.returncode else "", d1.stdout[-300:] if d1.returncode in (0, 3) else "")),
              "CAUGHT" if viol else "MISSED rc=%d %s" % (c.returncode, c.stdout[-600:].replace("\n", " | ")))
        if not good:
            shutil.rmtree(out)
    sh("bash", "/opt/vp/build.sh")


main()
