"""Build the rustc driver and dump the resolved MIR of the crate under analysis together with the
reference crate (/verif/spec), both compiled from the current working tree."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class DumpError(Exception):
    pass


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def build_driver(work):
    src = os.path.join(HERE, "driver", "main.rs")
    out = os.path.join(HERE, "build", "mirdump")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    tmp = os.path.join(work, "mirdump")
    r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "-C", "opt-level=0", "-C", "prefer-dynamic",
                        "-Awarnings", src, "-o", tmp], capture_output=True, text=True, cwd=work)
    if r.returncode != 0:
        raise DumpError("driver does not build:\n" + r.stderr[-3000:])
    try:
        os.makedirs(os.path.dirname(out), exist_ok=True)
        t2 = out + ".%d" % os.getpid()
        shutil.copy2(tmp, t2)
        os.utime(t2)
        os.replace(t2, out)
        return out
    except OSError:
        return tmp


def run_cargo(crate_dir, crate, drv, work, tag, root):
    out = os.path.join(work, tag + ".json")
    env = dict(os.environ)
    env.update({
        "LD_LIBRARY_PATH": root + "/lib",
        "MIRDUMP_OUT": out, "MIRDUMP_CRATE": crate,
        "RUSTFLAGS": "-Zmir-opt-level=0 -Awarnings",
        "RUSTC_WORKSPACE_WRAPPER": drv,
        "CARGO_TARGET_DIR": os.path.join(work, "t_" + tag),
        "CARGO_NET_OFFLINE": "true",
    })
    env.pop("RUSTC_WRAPPER", None)
    r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib"], cwd=crate_dir, env=env,
                       capture_output=True, text=True)
    return r, out


def spec_crate(work, repo):
    d = os.path.join(work, "spec")
    shutil.copytree(os.path.join(HERE, "spec"), d)
    lock = os.path.join(repo, "Cargo.lock")
    if not os.path.exists(lock):
        lock = os.path.join(HERE, "spec", "Cargo.lock.in")
    with open(lock) as f:
        t = f.read().replace('name = "geos-rs"', 'name = "geos_spec"')
    with open(os.path.join(d, "Cargo.lock"), "w") as f:
        f.write(t)
    p = os.path.join(d, "src", "lib.rs")
    with open(p) as f:
        t = f.read()
    with open(p, "w") as f:
        f.write(t.replace("/repo/", repo.rstrip("/") + "/"))
    return d


def dump(repo="/repo", keep=None):
    """returns (dump of the spec crate incl. the repository's core module, list of dropped spec fns)"""
    work = tempfile.mkdtemp(prefix="geosv.")
    try:
        drv = build_driver(work)
        root = sysroot()
        d = spec_crate(work, repo)
        dropped = []
        for attempt in range(6):
            r, out = run_cargo(d, "geos_spec", drv, work, "spec%d" % attempt, root)
            if r.returncode == 0 and os.path.exists(out):
                with open(out) as f:
                    return json.load(f), dropped
            # reference functions that no longer type-check against the current API are dropped
            # (and reported by the caller); an error outside the reference crate is fatal
            bad = set(re.findall(r"--> (src/[\w/]+\.rs):(\d+):\d+", r.stderr))
            bad = {(f, int(l)) for f, l in bad}
            got = drop_fns(d, bad)
            if not got:
                raise DumpError("cannot compile:\n" + r.stderr[-6000:])
            dropped += got
        raise DumpError("cannot compile:\n" + r.stderr[-6000:])
    finally:
        if keep is None:
            shutil.rmtree(work, ignore_errors=True)


def drop_fns(d, bad):
    out = []
    byf = {}
    for f, l in bad:
        byf.setdefault(f, []).append(l)
    for f, ls in byf.items():
        p = os.path.join(d, f)
        if not os.path.exists(p):
            continue
        lines = open(p).read().split("\n")
        for l in ls:
            # enclosing top-level fn
            s = l - 1
            while s >= 0 and not re.match(r"(pub )?fn \w+", lines[s]):
                s -= 1
            if s < 0:
                continue
            # the function ends where its braces balance
            e, depth, seen = s, 0, False
            while e < len(lines):
                t = re.sub(r"'[{}]'|\"[^\"]*\"", "", lines[e])
                depth += t.count("{") - t.count("}")
                seen = seen or "{" in t
                if seen and depth <= 0:
                    break
                e += 1
            name = re.match(r"(?:pub )?fn (\w+)", lines[s]).group(1)
            if e >= l - 1 and lines[s].strip():
                for i in range(s, min(e + 1, len(lines))):
                    lines[i] = ""
                out.append(name)
        open(p, "w").write("\n".join(lines))
    return out


if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        w = tempfile.mkdtemp(prefix="geosv.")
        try:
            print("built", build_driver(w))
        finally:
            shutil.rmtree(w, ignore_errors=True)
        sys.exit(0)
    d, dr = dump(sys.argv[2] if len(sys.argv) > 2 else "/repo")
    json.dump(d, open(sys.argv[1], "w"))
    print(len(d["fns"]), "functions;", "dropped", dr)
