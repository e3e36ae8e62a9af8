#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (committed outputs; rerun after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, P, K = "src/spl/spline.h", "src/spl/parameter_space.h", "src/baf/knot_vector.cc"
NU, BS, PH, WP = "src/spl/nurbs.h", "src/spl/b_spline.h", "src/spl/physical_space.h", "src/spl/weighted_physical_space.h"
PROPS = []


def prop(id, title, statement, over, text, why, files, state, mech, observe, note, hook=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                      anchors={"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                               "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": observe, "hook_needed": hook},
                      _note=note))


prop("C01", "Knot vectors locate parameters, multiplicities and edits correctly",
     "For every non-decreasing sequence of knots, the span reported for a parameter is the non-empty half-open interval containing it (the last non-empty interval at the end of the domain), the reported multiplicities and numbers of distinct knots count the equal entries, and a parameter is accepted exactly when it lies between the first and last knot. Inserting and removing a knot yields the sorted sequence with exactly that entry added or taken away, and construction from an increasing list of parameters gives ends clamped at the first and last parameter and the moving averages in between.",
     ["inputs", "histories"], "all knot values and parameters within the stated multiplicity patterns",
     "tests use a handful of fixed knot vectors and parameters; off-by-one errors at repeated knots, ends or unusual patterns stay unseen",
     [K, "src/baf/knot_vector.h"], [("knots_", "the sorted knots", "src/baf/knot_vector.h")], [("GetKnotSpan / GetMultiplicity / InsertKnot / RemoveKnot", K)], ["baf::KnotVector public methods"],
     "")
prop("C02", "B-spline basis functions equal the Cox-de Boor functions",
     "For every degree, clamped or repeated knot pattern and parameter of the domain, each basis function value equals the Cox-de Boor recursion, is zero outside its support, is never negative, and all functions sum to one. At the end of the domain the last function is one.",
     ["inputs"], "all knot positions and parameters, all multiplicity patterns up to the bound",
     "tests evaluate a few polynomial pieces of fixed knot vectors at single parameters",
     ["src/baf/b_spline_basis_function.cc", "src/baf/zero_degree_b_spline_basis_function.cc", "src/baf/basis_function.cc", "src/baf/basis_function_factory.cc"],
     [("left_denom_inv_ / right_denom_inv_", "inverse support lengths, zero for empty supports", "src/baf/b_spline_basis_function.h")], [("Evaluate", "src/baf/basis_function.cc")], ["baf::BasisFunctionFactory::CreateDynamic()->Evaluate"], "")
prop("C03", "Basis function derivatives are the exact derivatives",
     "For every degree, knot pattern, derivative order and parameter, the reported derivative of a basis function is the one-sided (right, at the end of the domain left) derivative of that basis function. Orders above the degree give zero and order zero gives the value.",
     ["inputs"], "all knot positions, parameters and derivative orders within the bounds",
     "tests check few orders at few parameters", ["src/baf/b_spline_basis_function.cc", "src/baf/basis_function.cc"], [], [("EvaluateDerivative", "src/baf/basis_function.cc")], ["baf::BasisFunction::EvaluateDerivative"], "")
prop("C04", "B-spline evaluation is the tensor-product basis combination",
     "Evaluating a B-spline of any parametric dimension at any parameter of its domain gives, for each requested coordinate and in the requested order, the sum of control points weighted by products of basis functions. Corners of the domain give the corner control points, and degrees, knots, point counts and control points are reported as they were supplied.",
     ["inputs", "configurations"], "all knots, control points and parameters; parametric dimensions 1 to 4 within the bounds",
     "tests sample fixed splines at a few parameters, mostly in one and two dimensions", [S, BS, P, PH, "src/util/multi_index_handler.h"],
     [("parameter_space_ / physical_space_", "knots, degrees, basis functions / control points", S)], [("Evaluate", S)], ["spl::BSpline::Evaluate and accessors"], "")
prop("C05", "NURBS evaluation is the weighted rational combination",
     "Evaluating a NURBS of any parametric dimension with positive weights gives the quotient of the weighted control point sum and the weight sum. Multiplying all weights by one common factor changes no point, and equal weights give exactly the corresponding polynomial spline.",
     ["inputs", "configurations"], "all knots, control points, positive weights and parameters; dimensions 1 to 4 within the bounds",
     "tests sample fixed splines and weights", [S, NU, WP], [("weights_", "one weight per control point", WP)], [("GetEvaluatedControlPoint", NU)], ["spl::NURBS::Evaluate"], "")
prop("C06", "Spline derivatives are the exact mixed partial derivatives",
     "For every B-spline and NURBS with positive weights, every parameter and every combination of derivative orders, the reported derivative is the mixed partial derivative of the evaluated geometry (one-sided at knots). For B-splines, orders above the degree give zero.",
     ["inputs", "configurations"], "all knots, control points, weights, parameters and orders within the bounds",
     "tests check single orders of fixed splines; the rational quotient recursion has many terms that only show for higher mixed orders", [S, NU, BS, P], [], [("EvaluateDerivative", S), ("GetRationalBasisFunctionDerivative", NU)], ["spl::Spline::EvaluateDerivative"], "")
prop("C07", "Knot insertion and refinement never change the geometry",
     "Inserting a knot any number of times up to the degree, or refining with a list of knots in any order, adds exactly these knots and as many control points in that direction and leaves every evaluated point of the B-spline or NURBS unchanged.",
     ["inputs", "histories"], "all knots, inserted values, multiplicities, control points, weights, directions and evaluation parameters within the bounds",
     "tests insert fixed knots in a few fixed splines and compare on samples", [S, BS, NU, P, PH, WP], [("control_points_", "points, first direction fastest", PH)], [("InsertKnot / RefineKnots", S), ("AdjustControlPoints", BS)], ["spl::Spline::InsertKnot, RefineKnots, Evaluate"], "")
prop("C08", "Knot removal stays within tolerance and reports what it did",
     "A knot that was inserted can be removed again and restores the spline. On any spline, a removal request returns the number of knots really removed, which is never more than the knots there are inside the domain (none for a knot that is not in the knot vector or is one of its ends); a refused removal changes nothing, and each performed removal moves no evaluated point by more than the given tolerance.",
     ["inputs", "histories"], "all control points, weights, parameters and (in part) knots within the bounds; insert/remove histories",
     "tests remove fixed knots of fixed splines; acceptance of a wrong removal needs special control point constellations", [S, BS, NU], [], [("RemoveKnot", S), ("IsKnotRemovable / RemoveControlPoints", BS), ("IsKnotRemovable / RemoveControlPoints", NU)], ["spl::Spline::RemoveKnot, Evaluate"], "")
prop("C09", "Degree elevation keeps the geometry and the continuity",
     "Raising the degree of a continuous B-spline or NURBS in a direction increases that degree and the multiplicity of each of its knots by exactly one, adds one control point per non-empty span in that direction, and leaves every evaluated point unchanged.",
     ["inputs", "histories"], "all knots, control points, weights, directions and parameters within the bounds",
     "tests compare fixed splines on sample points (and did not notice undefined control points)", [S, P, BS, NU], [], [("ElevateDegreeForDimension", S)], ["spl::Spline::ElevateDegreeForDimension, Evaluate"], "")
prop("C10", "Degree reduction succeeds only within tolerance and otherwise is a no-op",
     "Reducing the degree of a spline that was just elevated succeeds and restores it. For any other spline the operation either reports failure and leaves degree, knots, control points and geometry as they were, or reports success and moves no evaluated point (of a rational spline: neither the weighted point nor the weight function) by more than the tolerance.",
     ["inputs", "histories"], "all control points, parameters and (in part) knots and weights within the bounds",
     "tests reduce a few fixed splines", [S, P], [], [("ReduceDegreeForDimension", S)], ["spl::Spline::ReduceDegreeForDimension, Evaluate"], "")
prop("C11", "Subdivision splits a spline into two exact halves",
     "Cutting a spline at an interior parameter in any direction yields two splines with clamped knot vectors meeting at the cut, which coincide with the original on the two sub-domains. The spline that was cut keeps its geometry.",
     ["inputs"], "all knots, cut parameters, control points, weights, directions and evaluation parameters within the bounds",
     "tests cut fixed splines at fixed parameters", [S, BS, NU, P, PH, WP], [], [("SudivideSpline", BS), ("GetDividedKnotVectors", P)], ["spl::BSpline/NURBS::SudivideSpline, Evaluate"], "")

NOT_APPLICABLE = []

TECH = "symbolic execution of the compiled sources (LLVM IR, exact real arithmetic), path conditions and assertions decided by Z3, counterexamples replayed on the uninstrumented code"


def main():
    exec(open(os.path.join(HERE, "tools", "meta_more.py")).read(), globals()) if os.path.exists(os.path.join(HERE, "tools", "meta_more.py")) else None
    import sys
    sys.path.insert(0, HERE)
    import props
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(PROPS, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    checks = []
    for p in sorted(PROPS, key=lambda p: p["id"]):
        i = p["id"]
        if i not in props.PROPS:
            assert any(n["property"] == i for n in NOT_APPLICABLE), i
            continue
        sp = props.PROPS[i]
        b = sp["bounds"]("quick") if callable(sp["bounds"]) else sp["bounds"]
        checks.append({"property": i, "quick_cmd": "python3 check.py run %s quick" % i, "thorough_cmd": "python3 check.py run %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": sp.get("technique", TECH), "level": "other",
                       "level_note": "holds for all values within bounds: " + b + (". " + p["_note"] if p["_note"] else "")})
    m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": NOT_APPLICABLE,
         "notes": "run from /verif; check.py rebuilds /repo's current tree. Known and fixed defects: known_findings.txt. Design: DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
