#!/usr/bin/env python3
"""check.py PROPERTY  -- decide one property from the current source of /repo.

Reference obligations (spec/src/*.rs) are pairs of functions <name>__impl / <name>__spec whose
value-graph summaries must coincide, or <name>__law functions whose summary must be TRUE.  Rule
obligations (engine/rules.py) are analyses over the same MIR.  See DESIGN.md."""
import os
import sys
if os.environ.get("PYTHONHASHSEED") != "0":     # the same run every time
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
import argparse
import hashlib
import json
import multiprocessing
import pickle
import re
import signal
import time
import traceback
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from engine import nodes as N          # noqa: E402
from engine import interp, loops, models, prove, witness, driver, ends   # noqa: E402

REPO = os.environ.get("GEOS_REPO", "/repo")
PROG = None
META = None


# ---------------------------------------------------------------- obligations
def scan_spec():
    """name -> dict(doc, opaque, mode, file, line, kind)"""
    out = {}
    d = os.path.join(HERE, "spec", "src")
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".rs") or fn == "lib.rs":
            continue
        doc, tags = [], {}
        for ln, line in enumerate(open(os.path.join(d, fn)), 1):
            s = line.strip()
            m = re.match(r"///\s?@(\w+)\s*(.*)", s)
            if m:
                tags.setdefault(m.group(1), []).append(m.group(2).strip())
                continue
            if s.startswith("///"):
                doc.append(s[3:].strip())
                continue
            m = re.match(r"pub fn (c\d\d_\w+?)__(impl|spec|law|safe)\b", s)
            if m:
                name, kind = m.groups()
                o = out.setdefault(name, {"doc": "", "tags": {}, "file": fn, "line": ln, "kinds": []})
                o["kinds"].append(kind)
                if doc:
                    o["doc"] = " ".join(doc)
                if tags:
                    o["tags"].update(tags)
            if s and not s.startswith("//"):
                doc, tags = [], {}
    return out


def set_mode(mode):
    N.MODE.fp = mode == "fp"
    N.SIGNED_ZEROS[0] = False
    N.MODE.quot = mode in ("real", "zm")
    N.MODE.nan = mode in ("nan", "zm")
    N.MODE.nanable = (lambda n: True) if mode == "nan" else None
    if mode == "zm":
        N.MODE.nanable = interp.Interp(PROG).leaf_missable


class TimeUp(Exception):
    pass


def _alarm(*a):
    raise TimeUp()


def pretty_name(n):
    return n.replace("geos_spec::core::", "")


def summarise(name, opaque, params=None):
    key = PROG.find(name)
    f = PROG.fns[key]
    I = interp.Interp(PROG, opaque=opaque)
    pn = {v[1]: v[0] for v in map(var_entry, f.get("vars", []))}
    args = [I.param(f["locals"][i + 1], pn.get(i + 1, "a%d" % i)) for i in range(f["nargs"])]
    return I, I.call_fn(key, args, {})


def folder(name, kind):
    """both operations of an obligation folded with the constant arguments of a valuation, nothing opaque"""
    def one(fname, P):
        key = PROG.find(fname)
        f = PROG.fns[key]
        I = interp.Interp(PROG)
        I.folding = True
        pn = {v[1]: v[0] for v in map(var_entry, f.get("vars", []))}
        args = [witness.ground(P, I.param(f["locals"][i + 1], pn.get(i + 1, "a%d" % i))) for i in range(f["nargs"])]
        return I.call_fn(key, args, {})

    def fold(P):
        b = N.TRUE if kind != "impl" else spec(P)
        try:
            a = one(name + "__" + kind, P)
        except loops.Diverges as e:
            return "never returns: a loop comes back to the same state, in %s, line %s" % loop_site(e.args[0]), b
        return a, b

    def spec(P):
        try:
            return one(name + "__spec", P)
        except loops.Diverges:
            raise N.Unsupported("the reference does not end")
    return fold


def loop_site(desc):
    """(function, line) of a loop"""
    f = PROG.fns.get(desc[0])
    if f is None:
        return pretty_name(desc[0]), "iterator"
    ls = [x[3] for x in f["blocks"][desc[1]]["s"] if x[0] == "=" and len(x) > 3]
    return locate(pretty_name(desc[0])), min(ls) if ls else "block %d" % desc[1]


def var_entry(v):
    m = re.match(r"_(\d+)$", str(v[1]))
    return (v[0], int(m.group(1)) if m else None)


def decide(job):
    """one reference obligation"""
    name, ob, budget, seed = job
    t0 = time.time()
    res = {"name": name, "status": "undecided", "doc": ob["doc"], "file": ob["file"], "fns": [], "why": ""}
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, budget)
    mode = (ob["tags"].get("mode") or ["zm"])[0]
    opq = set()
    for l in ob["tags"].get("opaque", []):
        opq |= {x.strip() for x in l.split(",") if x.strip()}
    res["mode"] = mode
    try:
        N.reset()
        set_mode(mode)
        law = "law" in ob["kinds"]

        def pair(opaque):
            if law:
                I, a = summarise(name + "__law", opaque)
                return [I], a, N.TRUE
            I, a = summarise(name + "__impl", opaque)
            I2, b = summarise(name + "__spec", opaque)
            return [I, I2], a, b
        Is, a, b = pair(tuple(opq))
        I = Is[0]
        res["fns"] = sorted(pretty_name(k) for k in set().union(*[x.visited for x in Is]) if "geos_spec::core::" in k)
        res["nodes"] = N._COUNT[0]
        res["loops"] = sum(len(x.loopinfo) for x in Is)
        unsup = sorted(set(u for x in Is for u in x.unsup))
        if unsup:
            res["why"] = "unmodelled: " + ", ".join(unsup)[:200]
        if a is b:
            res["status"], res["how"] = "proven", "identical summaries"
        else:
            p = prove.Prover(I, deadline=time.time() + budget * 0.5)
            try:
                if a is not N.BOT and b is not N.BOT and p.prove(a, b):
                    res["status"], res["how"] = "proven", "case analysis (%d steps)" % p.count
            except (prove.PathCap, N.Unsupported, N.Budget) as e:
                res["why"] += " prover: %s %s" % (type(e).__name__, e)
            if res["status"] != "proven":
                if p.leaf_fail:
                    res["why"] += " differing leaf: %s | %s" % (N.show(p.leaf_fail[0], 4)[:160], N.show(p.leaf_fail[1], 4)[:160])
                if a is N.BOT and b is not N.BOT:
                    res["status"] = "violated"
                    res["witness"] = {"difference": "the analysed side never returns"}
                else:
                    left = budget - (time.time() - t0)
                    if opq:
                        r = witness.separate_ground(folder(name, 'law' if law else 'impl'), n=1500, seed=seed, deadline=time.time() + max(2, left * 0.8))
                    else:
                        r = witness.separate(a, b, n=3000, seed=seed, deadline=time.time() + max(2, left * 0.6))
                        if r[0] != "differ":
                            left = budget - (time.time() - t0)
                            r2 = witness.separate_ground(folder(name, 'law' if law else 'impl'), n=1500, seed=seed, deadline=time.time() + max(1, left * 0.8))
                            r = r2 if r2[0] == "differ" else r
                    if r[0] != "differ" and p.leaf_fail:
                        left = budget - (time.time() - t0)
                        ls = prove.ctx_lits(p.leaf_fail[2])
                        r2 = witness.guided(a, b, ls, seed=seed, deadline=time.time() + max(1, min(15, left * 0.8)), fold=folder(name, 'law' if law else 'impl'))
                        r = r2 if r2[0] == "differ" else r
                    if True:
                        if r[0] == "differ":
                            res["status"] = "violated"
                            res["witness"] = {"difference": "result%s: analysed %s, reference %s" % (r[1][0], fmtv(r[1][1]), fmtv(r[1][2])),
                                              "valuation": {k: fmtv(v) for k, v in sorted(r[2].items())}}
                        elif r[0] == "agree":
                            res["why"] += " no separating valuation in %d" % r[1]
                            res["points"] = r[1]
                        else:
                            res["why"] += " noeval: %s" % r[1]
    except TimeUp:
        res["why"] += " time budget"
    except (N.Unsupported, N.Budget) as e:
        res["why"] += " %s: %s" % (type(e).__name__, e)
    except RecursionError:
        res["why"] += " recursion"
    except Exception as e:
        res["why"] += " internal: %r at %s" % (e, traceback.extract_tb(sys.exc_info()[2])[-1])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    res["t"] = round(time.time() - t0, 2)
    return res


def decide_safe(job):
    """one panic-freedom obligation: no assertion of any function reached can fail"""
    name, ob, budget, seed = job
    t0 = time.time()
    res = {"name": name, "status": "undecided", "doc": ob["doc"], "file": ob["file"], "fns": [], "why": ""}
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, budget)
    mode = (ob["tags"].get("mode") or ["zm"])[0]
    res["mode"] = mode
    opq = set()
    for l in ob["tags"].get("opaque", []):
        opq |= {x.strip() for x in l.split(",") if x.strip()}
    try:
        N.reset()
        set_mode(mode)
        key = PROG.find(name + "__safe")
        f = PROG.fns[key]
        I = interp.Interp(PROG, opaque=tuple(opq), record=True)
        pn = {v[1]: v[0] for v in map(var_entry, f.get("vars", []))}
        I.call_fn(key, [I.param(f["locals"][i + 1], pn.get(i + 1, "a%d" % i)) for i in range(f["nargs"])], {})
        res["fns"] = sorted(pretty_name(k) for k in I.visited if "geos_spec::core::" in k)
        res["nodes"] = N._COUNT[0]
        res["loops"] = len(I.loopinfo)
        res["asserts"] = len(I.obls)
        todo = []
        for o in I.obls:
            if o.cond is N.TRUE:
                continue
            bad = N.b_and(o.pc, N.b_not(o.cond))
            if bad is N.FALSE:
                continue
            todo.append((o, bad))
        res["open"] = len(todo)
        left = []
        for n, (o, bad) in enumerate(todo):
            fv = sorted([x for x in bad.fv], key=N.okey)
            m = {x: (N.tobool(N.mk("sym", "$round%d" % i, "b")) if N.sort_of(x) == "b" else N.mk("sym", "$round%d" % i, N.sort_of(x)))
                 for i, x in enumerate(fv)}
            bad = N.subst(bad, m)
            for x in m.values():
                if N.sort_of(x) == "i":
                    bad = N.b_and(N.cmp("ge", x, N.I0), bad)        # a round number
            p = prove.Prover(I, deadline=time.time() + min(15, max(1, (budget - (time.time() - t0)) * 0.5)))
            try:
                if p.prove(bad, N.FALSE):
                    continue
            except (prove.PathCap, N.Unsupported, N.Budget):
                pass
            left.append((o, bad))
        res["why"] = ""
        for o, bad in left:
            r = witness.separate(bad, N.FALSE, n=2500, seed=seed, deadline=time.time() + max(1.5, (budget - (time.time() - t0)) * 0.8 / max(1, len(left))))
            site = "%s at %s:%s" % (o.kind, locate(pretty_name(o.fn)), o.line)
            if r[0] == "differ":
                res["status"] = "violated"
                res["witness"] = {"difference": "panics: " + site, "valuation": {k: fmtv(v) for k, v in sorted(r[2].items())}}
                res["key"] = name
                break
            res["why"] += " %s (%s %s);" % (site, r[0], r[1])
        if not left:
            res["status"], res["how"] = "proven", "%d assertions cannot fail" % len(I.obls)
        if I.unsup and res["status"] == "proven":
            res["why"] = "unmodelled: " + ", ".join(sorted(set(I.unsup)))[:200]
    except TimeUp:
        res["why"] += " time budget"
    except (N.Unsupported, N.Budget) as e:
        res["why"] += " %s: %s" % (type(e).__name__, e)
    except RecursionError:
        res["why"] += " recursion"
    except Exception as e:
        res["why"] += " internal: %r at %s" % (e, traceback.extract_tb(sys.exc_info()[2])[-1])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    res["t"] = round(time.time() - t0, 2)
    return res


def decide_ends(job):
    """one termination obligation: every loop of every function reached ends"""
    name, ob, budget, seed = job
    t0 = time.time()
    res = {"name": name, "status": "undecided", "doc": ob["doc"], "file": ob["file"], "fns": [], "why": ""}
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, budget)
    mode = (ob["tags"].get("mode") or ["zm"])[0]
    res["mode"] = mode
    opq = set()
    for l in ob["tags"].get("opaque", []):
        opq |= {x.strip() for x in l.split(",") if x.strip()}
    try:
        N.reset()
        set_mode(mode)
        key = PROG.find(name + "__safe")
        f = PROG.fns[key]
        I = interp.Interp(PROG, opaque=tuple(opq), record=True)
        pn = {v[1]: v[0] for v in map(var_entry, f.get("vars", []))}
        I.call_fn(key, [I.param(f["locals"][i + 1], pn.get(i + 1, "a%d" % i)) for i in range(f["nargs"])], {})
        res["fns"] = sorted(pretty_name(k) for k in I.visited if "geos_spec::core::" in k)
        res["nodes"] = N._COUNT[0]
        ls = [li for li in I.loopinfo if li["pc"] is not None]
        res["loops"] = len(ls)
        open_, how = [], {}
        for li in ls:
            site = "%s line %s" % loop_site(li["fn"])
            left = budget - (time.time() - t0)
            r = ends.loop_ends(I, li, time.time() + max(1, left * 0.3))
            lost = ends.lost_steps(I, li, time.time() + max(1, left * 0.3)) if r is not None else []
            for t, init, d in lost:
                r = None
                w = ends.lost_witness(li, t, init, d, seed)
                if w is not None:
                    res["status"] = "violated"
                    res["witness"] = {"difference": "%s: the loop goes on while a double that starts at %.3g moves by %s, which rounding loses" % (site, float(w[1]), fmtv(float(N.num(d)))),
                                      "valuation": {k: fmtv(float(v) if isinstance(v, Fraction) else v) for k, v in sorted(w[0].items())}}
            if r is None:
                open_.append(site)
            else:
                how["%s: %s" % (site, r)] = how.get("%s: %s" % (site, r), 0) + 1
        res["sites"] = sorted(how)
        if not open_:
            res["status"], res["how"] = "proven", "%d loops end" % len(ls)
        elif res["status"] != "violated":
            left = budget - (time.time() - t0)
            r = witness.separate_ground(folder(name, "safe"), n=1500, seed=seed, deadline=time.time() + max(2, min(20, left * 0.7)), ends=True)
            if r[0] == "differ":
                res["status"] = "violated"
                res["witness"] = {"difference": r[1][1], "valuation": {k: fmtv(v) for k, v in sorted(r[2].items())}}
            else:
                res["why"] = "no measure for: " + "; ".join(sorted(set(open_)))
        if I.unsup and res["status"] == "proven":
            res["why"] = "unmodelled: " + ", ".join(sorted(set(I.unsup)))[:200]
    except TimeUp:
        res["why"] += " time budget"
    except (N.Unsupported, N.Budget) as e:
        res["why"] += " %s: %s" % (type(e).__name__, e)
    except RecursionError:
        res["why"] += " recursion"
    except Exception as e:
        res["why"] += " internal: %r at %s" % (e, traceback.extract_tb(sys.exc_info()[2])[-1])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    res["t"] = round(time.time() - t0, 2)
    return res


def fmtv(v):
    if isinstance(v, float):
        return repr(v)
    return str(v)


# ---------------------------------------------------------------- main
def load_dump():
    cache = os.environ.get("GEOSV_CACHE")     # development only
    if cache:
        h = hashlib.sha256()
        for root in (os.path.join(REPO, "src"), os.path.join(HERE, "spec"), os.path.join(HERE, "driver")):
            for dp, dn, fs in sorted(os.walk(root)):
                for f in sorted(fs):
                    p = os.path.join(dp, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
        p = os.path.join(cache, h.hexdigest()[:24])
        if os.path.exists(p):
            return pickle.load(open(p, "rb"))
        r = driver.dump(REPO)
        os.makedirs(cache, exist_ok=True)
        pickle.dump(r, open(p, "wb"))
        return r
    return driver.dump(REPO)


def known_findings():
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main():
    global PROG
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        dump, dropped = load_dump()
    except driver.DumpError as e:
        print("cannot analyse the tree: %s" % e)
        return 2
    PROG = interp.Program(dump)
    obs = scan_spec()
    pre = ("c23" if prop == "C24" else prop.lower()) + "_"      # the same wrappers: operations within their preconditions
    safe = decide_ends if prop == "C24" else decide_safe
    mine = {n: o for n, o in obs.items() if n.startswith(pre) and (not a.only or re.search(a.only, n))}
    budget = int(os.environ.get("GEOSV_BUDGET", 0)) or (90 if tier == "quick" else 180)
    jobs = [(n, o, budget, seed) for n, o in sorted(mine.items()) if not any(n + "__" + k in dropped for k in o["kinds"])]
    results = []
    for n, o in sorted(mine.items()):
        if any(n + "__" + k in dropped for k in o["kinds"]):
            results.append({"name": n, "status": "undecided", "doc": o["doc"], "file": o["file"], "fns": [], "t": 0, "mode": "",
                            "why": "the operation it states no longer exists with its signature"})
    from engine import rules
    rj = rules.jobs(prop, tier) if not a.only or a.only.startswith("rule") else []
    total_deadline = t0 + (int(os.environ.get("GEOSV_TOTAL", 0)) or (420 if tier == "quick" else 800))
    nproc = min(8, os.cpu_count() or 1)
    with multiprocessing.get_context("fork").Pool(nproc, maxtasksperchild=1) as pool:
        pend = [pool.apply_async(safe if "safe" in j[1]["kinds"] else decide, (j,)) for j in jobs]
        rpend = [pool.apply_async(rules.run, (prop, j, REPO, seed, tier)) for j in rj]
        for j, p in zip(jobs, pend):
            try:
                results.append(p.get(max(1, total_deadline - time.time())))
            except multiprocessing.TimeoutError:
                results.append({"name": j[0], "status": "undecided", "why": "total time budget", "doc": j[1]["doc"], "file": j[1]["file"], "fns": [], "t": 0, "mode": ""})
        for j, p in zip(rj, rpend):
            try:
                results += p.get(max(1, total_deadline - time.time()))
            except multiprocessing.TimeoutError:
                results.append({"name": "rule_" + str(j), "status": "undecided", "why": "total time budget", "doc": "", "file": "", "fns": [], "t": 0, "mode": ""})
        pool.terminate()
    return report(prop, tier, seed, t0, results, a)


RULES = {
    "C23": "each assertion in each function reached from a public operation's wrapper: the condition it is reached under implies the condition it asserts, for all inputs that meet the wrapper's precondition",
    "C24": "each loop in each function reached from a public operation's wrapper has a trip count, or a measure bounded below while it goes on that falls by a fixed amount every round",
}


def report(prop, tier, seed, t0, results, a):
    known = known_findings()
    ev = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    bad = 0
    nproved = sum(r["status"] == "proven" for r in results)
    und = [r for r in results if r["status"] == "undecided"]
    fnset = sorted({f for r in results for f in r["fns"]})
    for r in results:
        if a.v or r["status"] != "proven":
            print("%-10s %-44s %5.1fs %s %s" % (r["status"], r["name"], r["t"], r.get("how", ""), r.get("why", "")[:400]))
        if r["status"] == "violated":
            key = r.get("key") or r["name"]
            k = (prop, key)
            text = "%s: %s" % (r["name"], r.get("witness", {}).get("difference", ""))
            if k in known:
                print("KNOWN-FINDING: property=%s %s (%s)" % (prop, key, known[k]))
                continue
            bad += 1
            path = os.path.join(ev, "replay", "%s_%s.txt" % (prop, re.sub(r"\W+", "_", key)[:80]))
            with open(path, "w") as f:
                f.write("property %s, obligation %s\n%s\n%s\n" % (prop, r["name"], r["doc"], text))
                f.write("valuation: %s\n" % json.dumps(r.get("witness", {}).get("valuation", {}), indent=1))
                f.write("functions analysed: %s\n" % ", ".join(locate(x) for x in r["fns"]))
            print("  %s" % r["doc"])
            print("  %s" % text)
            print("  at: %s" % ", ".join(locate(x) for x in r["fns"][:6]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
    n = len(results)
    cov = {
        "obligations": n, "discharged": nproved,
        "undecided": [{"name": r["name"], "why": r["why"][:200]} for r in und],
        "functions_analysed": len(fnset), "functions": fnset[:1000],
        "loops_summarised": sum(r.get("loops", 0) for r in results),
        "value_graph_nodes": sum(r.get("nodes", 0) for r in results),
        "checker_cmd": "python3 check.py %s" % prop,
        "trusted_base": ["rustc nightly MIR construction and /verif/driver", "/verif/engine (value graphs, loop summaries, std models, order/arithmetic decision)",
                         "/verif/spec reference functions", "doubles read as reals (z and m possibly missing) unless the obligation says mode=nan or fp"],
        "rule": RULES.get(prop) or "each obligation: the gated-SSA value graph of the analysed operation, helpers inlined and loops summarised, equals the graph of its reference (or of TRUE) for all inputs",
        "samples": [{"obligation": r["name"], "states": r["doc"], "mode": r.get("mode"), "decided_by": r.get("how"), "functions": r["fns"][:8], "seconds": r["t"]} for r in results[:60]],
        "assertions": sum(r.get("asserts", 0) for r in results),
        "loop_sites": sorted({x for r in results for x in r.get("sites", [])}),
        "rule_counts": {k: v for r in results for k, v in r.get("counts", {}).items()},
    }
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
                   "assumptions": ["undecided obligations (listed) are not claimed"],
                   "wall_s": round(time.time() - t0, 2), "violations": bad}, f, indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions; %.1fs" % (
        prop, n, nproved, len(und), bad, len(fnset), time.time() - t0))
    if not a.only and not bad and not nproved:
        print("no obligation of %s could be decided: no answer" % prop)
        return 2
    return 1 if bad else 0


def locate(x):
    for k in ("geos_spec::core::" + x, x):
        if PROG and k in PROG.fns:
            f = PROG.fns[k]
            return "%s (%s:%s)" % (x, f["file"].replace(REPO.rstrip("/") + "/", ""), f["line"])
    return x


if __name__ == "__main__":
    if os.environ.get("GEOSV_STACK") != "1":
        import resource
        soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
        want = 4 << 30
        if hard != resource.RLIM_INFINITY:
            want = min(want, hard)
        try:
            resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
        except (ValueError, OSError):
            pass
        os.environ["GEOSV_STACK"] = "1"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main())
