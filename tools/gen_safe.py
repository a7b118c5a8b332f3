#!/usr/bin/env python3
"""Authoring aid: writes candidate panic-freedom wrappers (stdout) for every public function of /repo
whose parameters can be built from plain values.  The committed spec/src/c23.rs is edited from its output."""
import re, os, sys
R = "/repo/src/core"
OUT = []
SKIP = set(sys.argv[1:])
BUILD = {
    "CoordinateArraySequence": ("v: &Vec<C>", "mk_seq({v})"),
    "PackedCoordinateSequenceDouble": ("v: &Vec<C>", "mk_packed({v})"),
    "LineString": ("v: &Vec<C>", "mk_line({v})"),
    "LinearRing": ("v: &Vec<C>", "mk_ring({v})"),
    "Polygon": ("v: &Vec<C>", "mk_poly({v})"),
    "Point": ("c: &Option<C>", "mk_point({v})"),
    "MultiPoint": ("v: &Vec<C>", "mk_mp({v})"),
    "MultiLineString": ("v: &Vec<C>", "mk_mls({v})"),
    "MultiPolygon": ("v: &Vec<C>", "mk_mpoly({v})"),
    "IntersectionMatrix": ("m: &IntersectionMatrix", "IntersectionMatrix::new_from_intersection_matrix({v})"),
    "Centroid": ("v: &Vec<C>", "mk_centroid({v})"),
    "RayCrossingCounter": ("c: &C", "RayCrossingCounter::new_with_coordinate({v})"),
    "RobustLineIntersector": ("z: bool", "RobustLineIntersector::default()"),
    "CoordinateList": ("v: &Vec<C>", "mk_list({v})"),
}
PLAIN = {"f64", "i32", "usize", "bool", "u32", "i64"}
SYM = {"Coordinate", "Envelope", "LineSegment", "Triangle", "Vector2D", "Vector3D", "DD", "OctagonalEnvelope", "HCoordinate", "PrecisionModel", "CoordinateSequenceComparator"}
mods = {}
for dp, dn, fs in os.walk(R):
    for f in sorted(fs):
        if f.endswith(".rs") and f != "mod.rs":
            p = os.path.join(dp, f)
            src = open(p).read()
            i = src.find("#[cfg(test)]")
            if i >= 0:
                src = src[:i]
            src = re.sub(r"/\*.*?\*/", "", src, flags=re.S)
            src = re.sub(r"//[^\n]*", "", src)
            mod = "crate::core::" + os.path.relpath(p, R)[:-3].replace("/", "::")
            ty = None
            for m in re.finditer(r"impl(?:\s+[\w:]+\s+for)?\s+(\w+)\s*\{|pub fn (\w+)\s*\(([^)]*)\)", src):
                if m.group(1):
                    ty = m.group(1); mods[ty] = mod; continue
                if ty is None:
                    continue
                name, params = m.group(2), m.group(3)
                ps = [x.strip() for x in params.split(",") if x.strip()]
                decl, lets, args, recv, ok = [], [], [], None, True
                for n, x in enumerate(ps):
                    v = "p%d" % n
                    if x in ("&self", "&mut self", "self", "mut self"):
                        t, ref, mut = ty, "", "mut" in x
                        pn = None
                    else:
                        pn, t = [y.strip() for y in x.split(":", 1)]
                        mut = t.startswith("&mut")
                        ref = "&mut " if mut else "&" if t.startswith("&") else ""
                        t = t.lstrip("&").strip()
                        if t.startswith("mut "):
                            t = t[4:].strip()
                        if t == "Self":
                            t = ty
                    if t in PLAIN and not ref:
                        decl.append("%s: %s" % (v, t)); e = v
                    elif t in PLAIN and mut:
                        decl.append("%s: %s" % (v, t)); lets.append("let mut q%d = %s;" % (n, v)); e = "&mut q%d" % n
                    elif t in SYM:
                        decl.append("%s: &%s" % (v, t)); lets.append("let %sq%d = %s.clone();" % ("mut " if mut else "", n, v)); e = ref + "q%d" % n
                    elif t in ("Vec<Coordinate>", "Vec<f64>", "Vec<Vec<f64>>", "Vec<usize>", "Vec<i32>"):
                        decl.append("%s: &%s" % (v, t)); lets.append("let %sq%d = %s.clone();" % ("mut " if mut else "", n, v)); e = ref + "q%d" % n
                    elif t in ("Option<f64>", "Option<Coordinate>", "Option<bool>"):
                        decl.append("%s: &%s" % (v, t)); lets.append("let q%d = %s.clone();" % (n, v)); e = ref + "q%d" % n
                    elif t in BUILD:
                        d, b = BUILD[t]
                        decl.append("%s:%s" % (v, d.split(":", 1)[1])); lets.append("let %sq%d = %s;" % ("mut " if mut else "", n, b.format(v=v))); e = ref + "q%d" % n
                    else:
                        ok = False; break
                    if pn is None:
                        recv = "q%d" % n if e != v else e
                    else:
                        args.append(e)
                if not ok:
                    sys.stderr.write("skip %s::%s(%s)\n" % (ty, name, ", ".join(ps)))
                    continue
                call = ("%s.%s(%s)" % (recv, name, ", ".join(args))) if recv else "%s::%s(%s)" % (ty, name, ", ".join(args))
                w = "c23_%s_%s" % (re.sub(r"(?<=[a-z0-9])(?=[A-Z])", "_", ty).lower(), name)
                if w in SKIP:
                    continue
                OUT.append((ty, w, "pub fn %s__safe(%s) { %s let _ = %s; }" % (w, ", ".join(decl), " ".join(lets), call)))
seen = set()
for ty, w, t in OUT:
    if w in seen:
        continue
    seen.add(w)
    print(t)
