#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(),
                  text=text, why=why, files=files.split(), mech=mech,
                  tech=tech, note=note))


POLY = "symbolic execution of the real kernels, z3 (nonlinear real arithmetic)"
EXE = "symbolic execution of the real Python code, z3 decides every claim"
TRUST = ("Holds for all real inputs within the stated bounds; trusts the "
         "symbolic interpreter, z3, and ignores double rounding.")

prop("C01", "Point electrode derivatives are exact at every order",
     "For a surface electrode made of point pixels, the potential is "
     "sum V*area*z/(2 pi r^3) and every component returned for derivative "
     "order n+1 (n = 0..4) is the partial derivative of the order n "
     "components; the trace of the second derivatives vanishes.",
     "inputs", "all pixel positions, areas, voltages and observation points "
     "off the pixel; orders 0-5",
     "Tests compare a few orders at one or two points with loose finite "
     "differences; a wrong coefficient in one of 36 polynomials can vanish "
     "there.", "electrode/cexpressions.pyx electrode/electrode.py",
     "point_potential, point_potential_expr", POLY, TRUST)
prop("C02", "Polygon electrode derivatives are exact at every order",
     "For polygonal patch electrodes every component returned for derivative "
     "order n+1 (n = 0..4) is the partial derivative of the order n "
     "components, for any closed boundary path, and the potential is "
     "harmonic.", "inputs", "all vertices, voltages and observation points "
     "off the electrode plane; orders 0-5; any number of vertices "
     "(edge-wise argument)",
     "The closed-form expressions have hundreds of terms per component; "
     "tests look at few points and not at every component of order 3-5.",
     "electrode/cexpressions.pyx electrode/electrode.py",
     "polygon_potential, mesh_potential, edge_potential_expr", POLY, TRUST)
prop("C03", "A polygon patch is the area integral of point sources",
     "Potential and field of a polygonal patch equal the integral over its "
     "signed area of the point-source potential and field (clockwise paths "
     "count negative), so splitting an electrode into ever smaller pixels "
     "converges to the polygon.", "inputs",
     "all polygons, voltages, observation points off the plane; orders 0 "
     "and 1", "Tests compare one polygon with a pixel approximation at a few "
     "percent accuracy.",
     "electrode/cexpressions.pyx electrode/electrode.py",
     "edge_potential_expr against point_potential_expr", POLY, TRUST +
     " Uses Stokes' theorem on identities that z3 proves.")
prop("C04", "Pure-Python and compiled kernels agree",
     "The pure-Python fallback of the point, polygon and mesh potential "
     "routines returns the same values as the compiled routines for every "
     "derivative order, number of cover images and set of electrodes, and "
     "both add into and return a caller supplied buffer.",
     "inputs configurations", "all geometries, voltages, observation points "
     "off the plane, 0-2 cover images, orders 0-5",
     "Only one of the two implementations is ever imported by the tests.",
     "electrode/cexpressions.pyx electrode/expressions.py",
     "the two parallel implementations", "symbolic equivalence checking of "
     "the two real implementations, z3", TRUST)
prop("C05", "Potentials depend only on the relative geometry",
     "Moving, turning about z or scaling a point, polygon or mesh electrode "
     "together with the observer transforms potential and derivatives "
     "accordingly (order n scales with length^-n); mirroring z gives the odd "
     "image, reversing a path negates, and neither the start vertex nor "
     "cutting a polygon along a chord changes anything.", "inputs",
     "all geometries, shifts, angles, scale factors, observation points off "
     "the plane; orders 0-5 (turning: points 0-2, edges 0-1; start vertex "
     "and cutting 0-3)",
     "Tests use fixed layouts near the origin.",
     "electrode/cexpressions.pyx electrode/electrode.py electrode/utils.py",
     "kernels use differences of coordinates only", POLY, TRUST)
prop("C06", "Cover plane images and cover electrode",
     "A surface electrode with cover height H and n images has exactly the "
     "potential and derivatives of 2n+1 free copies shifted by even multiples "
     "of H, so on the cover plane only the outermost image remains; the cover "
     "electrode is the linear ramp, V at its height and zero on the electrode "
     "plane, with matching field and vanishing higher derivatives, added to a "
     "given buffer.", "inputs configurations",
     "all geometries, heights, voltages, observation points; 0-3 images; "
     "orders 0-5",
     "Only one cover configuration appears in the tests, at a single point.",
     "electrode/cexpressions.pyx electrode/electrode.py",
     "image loops in the kernels; CoverElectrode.potential", POLY, TRUST)

exec(open(os.path.join(V, "tools", "props_more.py")).read()) \
    if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

NA = []          # (id, title, statement, ..., reason)


def write():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[
                    dict(name=p["mech"], where=p["files"][0])]))) + "\n")
    checks, na = [], []
    for p in P:
        s = "checks/%s.py" % p["id"].lower()
        if p.get("tech") and os.path.exists(os.path.join(V, s)):
            checks.append(dict(
                property=p["id"], quick_cmd="%s %s" % (PY, s),
                thorough_cmd="VERIF_TIER=thorough %s %s" % (PY, s),
                technique=p["tech"], level="other", level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason=p["note"]))
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(dict(
            version=1,
            setup_cmd="%s tools/setup.py" % PY,
            checks=checks, not_applicable=na,
            notes="No hooks: the checks execute /repo's source symbolically "
            "and build a scratch copy for replay."), f, indent=1)
        f.write("\n")


write()
