#!/usr/bin/env python3
"""Authoring aid, no check uses it: mutates copies of /repo, keeps the mutants that compile and pass the stable
tests, and lists those no obligation rejects.  mutate.py map | mutate.py run N SEED OUT [FILE-RE]"""
import json, multiprocessing, os, pickle, random, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(1000000)
MAP = "/tmp/mut_map.pkl"


def load(repo):
    import check
    from engine import driver, interp
    check.REPO = repo
    d, dr = driver.dump(repo)
    check.PROG = interp.Program(d)
    return check


def one(name, q, budget):
    import check
    o = OBS[name]
    r = (check.decide_safe if "safe" in o["kinds"] else check.decide)((name, o, budget, 1))
    q.put((name, r["status"], r["t"], r["fns"]))


def run_ob(name, budget):
    ctx = multiprocessing.get_context("fork")
    q = ctx.Queue()
    p = ctx.Process(target=one, args=(name, q, budget))
    p.start()
    try:
        r = q.get(timeout=budget + 10)
    except Exception:
        r = (name, "timeout", budget, [])
    p.join(2)
    if p.is_alive():
        p.kill()
    return r


def mapper():
    global OBS
    check = load("/repo")
    OBS = check.scan_spec()
    from multiprocessing.pool import ThreadPool
    with ThreadPool(8) as tp:
        rs = tp.map(lambda n: run_ob(n, 90), sorted(OBS))
    out = {}
    for n, st, t, fns in rs:
        locs = set()
        for x in fns:
            f = check.PROG.fns.get("geos_spec::core::" + x)
            if f is None:
                m = [k for k in check.PROG.fns if k.endswith("core::" + x)]
                f = check.PROG.fns[m[0]] if m else None
            if f:
                locs.add((f["file"].replace("/repo/", ""), int(f["line"])))
        out[n] = (st, t, locs)
    starts = {}
    for k, f in check.PROG.fns.items():
        if "core::" in k:
            starts.setdefault(f["file"].replace("/repo/", ""), set()).add(int(f["line"]))
    pickle.dump((out, starts), open(MAP, "wb"))
    print(len(out), sum(st != "proven" for st, _, _ in out.values()))


OPS = [(r"<=", ["<", ">="]), (r">=", [">", "<="]), (r"(?<![-=<>])<(?![<=])(?= )", ["<=", ">"]), (r"(?<![-=<>])>(?![>=])(?= )", [">=", "<"]),
       (r"==", ["!="]), (r"!=", ["=="]), (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\*(?= )", ["/", "+"]), (r"(?<= )/(?= )", ["*"]),
       (r"\+=", ["-="]), (r"-=", ["+="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"(?<![\w.])0\.0(?!\d)", ["1.0"]), (r"(?<![\w.])1\.0(?!\d)", ["2.0"]), (r"(?<![\w.])2\.0(?!\d)", ["3.0"]), (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["2", "0"]), (r"(?<![\w.])2(?![\w.])", ["1", "3"]),
       (r"\bmin_x\b", ["max_x", "min_y"]), (r"\bmax_x\b", ["min_x", "max_y"]), (r"\bmin_y\b", ["max_y", "min_x"]), (r"\bmax_y\b", ["min_y", "max_x"]),
       (r"\.x\b", [".y"]), (r"\.y\b", [".x", ".z"]), (r"\.z\b", [".x"]), (r"\bp0\b", ["p1"]), (r"\bp1\b", ["p0", "p2"]), (r"\bp2\b", ["p1"]), (r"\bq1\b", ["q2"]), (r"\bq2\b", ["q1"]),
       (r"\bq0\b", ["q1"]), (r"get_x\b", ["get_y"]), (r"get_y\b", ["get_x"]), (r"get_z\b", ["get_m"]), (r"f64::min\b", ["f64::max"]), (r"f64::max\b", ["f64::min"]), (r"\.\.=", [".."]), (r"(?<=\w)\.\.(?=\w)", ["..="]),
       (r"!(?=[a-zA-Z(])", [""]), (r"(?<=[(= ])-(?=[\w(])", [""]), (r"is_none\b", ["is_some"]), (r"is_some\b", ["is_none"]), (r"\.abs\(\)", [""]), (r"f64::abs\(", ["("]), (r"\bhi\b", ["lo"]), (r"\blo\b", ["hi"]),
       (r"\bi\b", ["0"]), (r"\bj\b", ["i"]), (r"\.size\(\)", [".size() - 1"]), (r"\.len\(\)", [".len() - 1"]), (r"(?<=, )a\b", ["b"]), (r"\bother\.", ["self."]), (r"\bself\.", ["other."])]


def candidates(fre):
    out = []
    R = "/repo/src/core"
    for dp, dn, fs in os.walk(R):
        for f in sorted(fs):
            p = os.path.join(dp, f)
            rel = os.path.relpath(p, "/repo")
            if f == "mod.rs" or not re.search(fre, rel):
                continue
            src = open(p).read()
            i = src.find("#[cfg(test)]")
            body = src if i < 0 else src[:i]
            blank = lambda m: re.sub(r"[^\n]", " ", m.group(0))
            body = re.sub(r"/\*.*?\*/", blank, body, flags=re.S)
            body = re.sub(r"//[^\n]*", blank, body)
            body = re.sub(r"\"[^\"\n]*\"", blank, body)
            infn = [(m.start()) for m in re.finditer(r"\bfn \w+", body)]
            if not infn:
                continue
            # header spans are not mutated
            heads = [(m.start(), m.end()) for m in re.finditer(r"\bfn \w+\s*\([^{]*\{", body)]
            inhead = lambda a: any(s <= a < e for s, e in heads)
            for rx, subs in OPS:
                for m in re.finditer(rx, body):
                    if m.start() < infn[0] or inhead(m.start()):
                        continue
                    for s in subs:
                        out.append((rel, m.start(), m.end(), s))
            for m in re.finditer(r"^[ \t]+(?!let\b|return\b|use\b|const\b|pub\b|fn\b)[\w.\[\]*:]+[^\n{}]*;[ \t]*$", body, flags=re.M):
                if m.start() > infn[0]:
                    out.append((rel, m.start(), m.end(), ""))
    return out


def worker(args):
    wid, muts, base, omap, starts = args
    global OBS
    w = "/tmp/mw/%d" % wid
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/mw", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", w])
    env = dict(os.environ, CARGO_TARGET_DIR=w + "/target", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUST_BACKTRACE="0")
    res = []
    for rel, a, b, s in muts:
        p = os.path.join(w, rel)
        src = open("/repo/" + rel).read()
        ln = src.count("\n", 0, a) + 1
        ls, le = src.rfind("\n", 0, a) + 1, src.find("\n", b)
        old, new = src[ls:le].strip(), (src[ls:a] + s + src[b:le]).strip()
        open(p, "w").write(src[:a] + s + src[b:])
        st = "?"
        why = ""
        t0 = time.time()
        try:
            try:
                r = subprocess.run(["cargo", "test", "--offline", "-q", "--", "--test-threads", "4"], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=90)
            except subprocess.TimeoutExpired:
                res.append((rel, ln, old, new, "hang", ""))
                continue
            if "could not compile" in r.stderr:
                res.append((rel, ln, old, new, "nocompile", ""))
                continue
            if r.returncode != 0:
                failed = set(re.findall(r"^    ([\w:]+)$", r.stdout, flags=re.M))
                if failed & base or not failed:
                    res.append((rel, ln, old, new, "tests", ""))
                    continue
            st = "SURVIVES"
            fstart = max([x for x in starts.get(rel, ()) if x <= ln], default=None)
            obs = sorted([(t, n) for n, (x, t, locs) in omap.items() if (rel, fstart) in locs])
            if not obs:
                st = "UNCOVERED"
            else:
                ctx = multiprocessing.get_context("fork")
                q = ctx.Queue()
                pr = ctx.Process(target=decide_all, args=(w, [n for t, n in obs], q))
                pr.start()
                try:
                    st, why = q.get(timeout=150)
                except Exception:
                    st, why = "TIMEOUT", ""
                pr.join(2)
                if pr.is_alive():
                    pr.kill()
        except Exception as e:
            st, why = "ERROR", repr(e)
        finally:
            open(p, "w").write(src)
        res.append((rel, ln, old, new, st, why))
        with open(OUT + ".%d" % wid, "a") as f:
            f.write(json.dumps(res[-1]) + "\n")
    shutil.rmtree(w, ignore_errors=True)
    return res


def decide_all(w, names, q):
    import threading
    threading.stack_size(1 << 29)

    def go():
        global OBS
        try:
            check = load(w)
        except Exception as e:
            q.put(("NODUMP", str(e)[-300:]))
            return
        OBS = check.scan_spec()
        t0 = time.time()
        und = []
        ok = 0
        for n in names:
            if time.time() - t0 > 90:
                und.append("more")
                break
            r = run_ob(n, 30)
            if r[1] == "violated":
                q.put(("caught", n))
                return
            if r[1] != "proven":
                und.append(n)
            else:
                ok += 1
        q.put(("UNDECIDED" if und else "MISSED", "%d proven; undecided: %s" % (ok, ",".join(und[:6]))))
    th = threading.Thread(target=go)
    th.start()
    th.join()


def main():
    global OUT
    if sys.argv[1] == "map":
        return mapper()
    n, seed, OUT = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    fre = sys.argv[5] if len(sys.argv) > 5 else "."
    nw = int(os.environ.get("MW", "8"))
    omap, starts = pickle.load(open(MAP, "rb"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    base = {x.split("::", 1)[-1] if not isinstance(x, str) else x for x in base.get("passed", base.get("stable", base.get("tests", [])))}
    base = {re.sub(r"^.*? ", "", x) for x in base} | {x.split("::", 1)[-1] for x in base}
    c = candidates(fre)
    random.Random(seed).shuffle(c)
    c = c[:n]
    print(len(c), "mutants")
    with multiprocessing.get_context("fork").Pool(nw) as pool:
        pass
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(nw) as ex:
        list(ex.map(lambda i: subprocess.run([sys.executable, __file__, "worker", str(i), str(nw), str(n), str(seed), OUT, fre]), range(nw)))


if __name__ == "__main__":
    if sys.argv[1] == "worker":
        i, nw, n, seed, OUT, fre = int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6], sys.argv[7]
        omap, starts = pickle.load(open(MAP, "rb"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        b = base.get("passed", base.get("stable", base.get("tests", [])))
        b = set(b) | {x.split("::", 1)[-1] for x in b} | {x.split(" ")[-1] for x in b}
        c = candidates(fre)
        random.Random(seed).shuffle(c)
        c = c[:n]
        worker((i, c[i::nw], b, omap, starts))
    else:
        main()
