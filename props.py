"""Per property: harness units, configurations (bounds) per tier, and what the evidence says about them."""
import itertools


def mults(p, nmax, mmax=None):
    """all interior multiplicity patterns with at most nmax interior breakpoints, multiplicities 1..mmax"""
    mmax = p if mmax is None else mmax
    mmax = max(1, mmax)
    out = []
    for n in range(nmax + 1):
        out += [list(x) for x in itertools.product(range(1, mmax + 1), repeat=n)]
    return out


def d(p, m, ksym=1):
    return [p, len(m)] + list(m) + [ksym]


REAL = "floating-point arithmetic is modelled as exact real arithmetic: rounding is outside the claim (counterexamples are replayed in IEEE double before they are reported)"
GAPA = "distinct knots, and the parameter and the knots it is not equal to, differ by at least 2^-40 (the code treats values closer than about 2e-15 as equal)"

PROPS = {}


def unit(name, harness, comps, configs, **kw):
    u = {"name": name, "harness": harness, "comps": comps, "configs": configs}
    u.update(kw)
    return u


# ---------------------------------------------------------------- C02
def c02(tier):
    cfg = []
    for p in range(0, 5 if tier == "quick" else 7):
        for m in mults(p, 3 if p <= 3 else 2, max(1, p + 1)):
            cfg.append(d(p, m))
    return [unit("basis", "C02", ["baf"], cfg)]


PROPS["C02"] = dict(
    units=c02,
    explanation="All knots and the parameter are symbolic; every parameter location (each breakpoint, each open span) is explored.",
    bounds=lambda t: "degree 0..%d, up to 3 interior breakpoints (2 for degree>=4) with every multiplicity pattern 1..p+1, knots in [-4, 20]" % (4 if t == "quick" else 6),
    assumptions=[REAL, GAPA],
)


# ---------------------------------------------------------------- C01
def c01(tier):
    cfg = []
    nmax, mmax = (4, 3) if tier == "quick" else (5, 3)
    for n in range(1, nmax + 1):
        for m in itertools.product(range(1, mmax + 1), repeat=n):
            if sum(m) <= (9 if tier == "quick" else 11):
                cfg.append([n] + list(m))
    cfg += [[2, p + 1, p + 1] for p in range(3, 7)] + [[3, 5, 2, 5], [4, 5, 1, 4, 5], [5, 3, 1, 2, 1, 3], [6, 4, 1, 1, 1, 1, 4], [7, 1, 1, 1, 1, 1, 1, 1]]
    return [unit("knots", "C01", ["baf"], cfg),
            unit("averaged", "C01A", ["baf"], [[p, n] for p in range(1, 5) for n in range(p + 1, p + (4 if tier == "quick" else 7))] + [[1, 24], [2, 17], [3, 20], [5, 8], [6, 14], [8, 20]])]


PROPS["C01"] = dict(
    units=c01,
    explanation="Every knot and the query parameter are symbolic; all locations of the parameter (before, at each knot, inside each span, after) are explored.",
    bounds="1..4 (thorough 5) distinct knots with every multiplicity pattern up to 3 and selected longer ones (up to 7 distinct, multiplicity up to 7); averaged construction for degree 1..4 and up to p+3 (thorough p+6) points and up to degree 8 with 24 points, any first parameter",
    assumptions=[REAL, GAPA],
)


# ---------------------------------------------------------------- C03
def c03(tier):
    cfg = []
    for p in range(0, 5 if tier == "quick" else 6):
        for m in mults(p, 2 if p <= 3 else 1, max(1, p)):
            cfg.append(d(p, m))
    for p in (4, 5, 6):
        cfg.append(d(p, [1, 2], 0))
        cfg.append(d(p, [p], 0))
    return [unit("basisder", "C03", ["baf"], cfg)]


PROPS["C03"] = dict(
    units=c03,
    explanation="All knots and the parameter symbolic; derivative orders 0..p+2 at every location.",
    bounds="degree 0..4 (thorough 5), up to 2 interior breakpoints with every multiplicity pattern 1..p; degrees up to 6 with fixed knots",
    assumptions=[REAL, GAPA],
)


B = ["baf"]


def V(dim):
    return ["-DVDIM=%d" % dim]


# ---------------------------------------------------------------- C04 / C05: evaluation, mode 0
def evalcfg(rational, tier):
    q = tier == "quick"
    r = rational
    u = {1: [], 2: [], 3: [], 4: []}

    def add(k, pd, *dirs):
        u[k].append([0, 1, 1, r, pd] + sum((d(*x) for x in dirs), []))
    for p in range(0, 4 if q else 6):
        for m in mults(p, 2 if p < 4 else 1, p if p else 1):
            add(1, 2, (p, m))
    for x in ((2, [1, 1, 1]), (3, [1, 2, 1]), (1, [1, 1, 1, 1, 1]), (4, [1]), (4, [4, 1]), (4, [1, 2, 1, 3]), (5, []), (5, [1, 3])):
        add(1, 3, x)
    for p in (5, 6, 7):  # high degrees, many knots: fixed numbers for the knots
        for m in ([], [1], [p], [1, p - 1, 2], [1] * 8):
            add(1, 4 if p == 5 else 1, (p, m, 0))
    add(1, 2, (3, [1] * 10, 0))
    for pd in (4, 5, 6, 8):  # points with many coordinates
        add(1, pd, (2, [1], 0))
    add(2, 5, (1, [], 0), (2, [], 0))
    add(2, 6, (1, [1], 0), (1, [], 0))
    add(3, 4 + r, (1, [], 0), (1, [], 0), (1, [], 0))
    add(1, 2, (8, [3], 0))
    for x in (((1, []), (1, [])), ((2, [1]), (1, [])), ((1, [1]), (2, [2])), ((0, [1]), (2, [])), ((3, []), (2, [1])), ((1, [1, 1]), (1, [1, 1]))):
        add(2, 2, *x)
    for x in (((4, [2], 0), (3, [1, 2], 0)), ((5, [], 0), (5, [], 0)), ((1, [1] * 6, 0), (2, [1], 0)), ((2, [1], 0), (4, [3, 1], 0)), ((6, [1], 0), (0, [1, 1], 0))):
        add(2, 3 - r, *x)
    for x in (((1, []), (1, []), (1, [])), ((2, []), (1, [1]), (1, [])), ((1, []), (0, [1]), (2, []))):
        add(3, 1, *x)
    for x in (((2, [1], 0), (3, [], 0), (2, [1], 0)), ((1, [1, 1], 0), (1, [1], 0), (1, [1, 1], 0)), ((3, [], 0), (1, [], 0), (4, [], 0))):
        add(3, 1 if r else 3, *x)
    add(4, 1, (1, []), (1, []), (1, []), (1, []))
    add(4, 2 - r, (1, [1], 0), (2, [], 0), (1, [], 0), (2, [], 0))
    add(4, 1, (2, [], 0), (1, [], 0), (1, [1], 0), (0, [1], 0))
    if not q:
        for x in (((2, [1, 2]), (2, [1])), ((3, [2]), (3, [1])), ((3, [1]), (4, [1]))):
            add(2, 2, *x)
        for x in (((1, [1]), (2, [1]), (2, [])), ((2, []), (2, []), (2, [])), ((3, [1], 0), (3, [1], 0), (3, [1], 0))):
            add(3, 1, *x)
        add(4, 1, (2, [1], 0), (2, [1], 0), (2, [1], 0), (2, [1], 0))
    return [unit("eval%d" % k, "EVAL", B, v, defs=V(k)) for k, v in u.items() if v]


OUTV = "more breakpoints, higher degrees or more parametric directions than the bounds; rounding behaviour"
PROPS["C04"] = dict(units=lambda t: evalcfg(0, t), assumptions=[REAL, GAPA], outside=[OUTV],
                    explanation="Knots, parameter and all control points are symbolic; the library's evaluation is compared with the tensor-product Cox-de Boor sum at every location (each breakpoint and span of every direction).",
                    bounds="symbolic knots: parametric dimension 1 (degree 0..3, thorough 5, all multiplicity patterns of up to 2 interior breakpoints, and longer ones up to degree 5), 2 (degrees up to 3), 3 and 4 (degree up to 2 / 1); fixed knots: dimension 1 up to degree 8 and 10 interior knots, 2 up to degree 6, 3 up to degree 4, 4 up to degree 2; all control points symbolic in [-1000,1000], point dimension 1..4")
PROPS["C05"] = dict(units=lambda t: evalcfg(1, t), assumptions=[REAL, GAPA, "weights in [2^-20, 2^20]"], outside=[OUTV],
                    explanation="Knots, parameter, control points and positive weights are symbolic; compared with the rational Cox-de Boor quotient, invariance under a common symbolic weight factor, and reduction to the B-spline for equal weights.",
                    bounds="as for C04")


# ---------------------------------------------------------------- C06: derivatives, mode 1
def c06(tier):
    q = tier == "quick"
    u = {1: [], 2: [], 3: []}
    for p in range(0, 4):
        for m in mults(p, 1 if q else 2, p if p else 1):
            u[1].append([1, 1, 1, 0, 2] + d(p, m) + [p + 1])
    u[1].append([1, 1, 1, 0, 1] + d(4, [1, 2], 0) + [5])
    for p, m, k in ((1, [1], 2), (2, [], 3), (2, [1], 2), (3, [1], 2), (2, [2], 3)):
        u[1].append([1, 1, 1, 1, 1] + d(p, m) + [k])
    u[1].append([1, 1, 1, 1, 2] + d(3, [], 0) + [4])
    for a, b, k in (((2, [1]), (1, []), [2, 1]), ((2, []), (2, [1]), [2, 3]), ((1, [1]), (3, []), [2, 2])):
        u[2].append([1, 1, 1, 0, 2] + d(*a) + d(*b) + k)
    for a, b, k in (((1, []), (1, []), [2, 1]), ((2, []), (1, []), [2, 2]), ((1, [1]), (2, []), [1, 2])):
        u[2].append([1, 1, 1, 1, 1] + d(*a) + d(*b) + k)
    u[3].append([1, 1, 1, 0, 1] + d(1, []) + d(2, []) + d(1, [1]) + [1, 2, 1])
    u[3].append([1, 1, 1, 1, 1] + d(1, [], 0) + d(1, [], 0) + d(1, [], 0) + [1, 1, 1])
    u[4] = []
    u[1] += [[1, 1, 1, r, pd] + d(2, [1], 0) + [2] for r in (0, 1) for pd in (4, 5, 7)]  # points with many coordinates
    u[2] += [[1, 1, 1, 0, 5] + d(1, [1], 0) + d(2, [], 0) + [1, 2], [1, 1, 0, 1, 5] + d(1, [], 3) + d(2, [], 3) + [1, 2]]
    u[3] += [[1, 1, 0, r, 5] + d(1, [], 3) + d(1, [], 3) + d(1, [], 3) + [1, 1, 1, 1] for r in (0, 1)]
    # high degrees and orders, more directions: fixed numbers for the knots
    for x in ((4, [1, 2, 1], 1), (6, [1, 3], 0), (5, [5, 1], 0), (3, [1] * 6, 0), (7, [], 0)):
        u[1].append([1, 1, 1, 0, 3] + d(*x) + [x[0] + 2])
    for x, k in (((2, [1]), 4), ((3, [1, 2]), 3), ((4, [1], 0), 4), ((5, [2], 0), 3), ((2, [1], 0), 5), ((3, [], 0), 6), ((3, [1] * 4, 0), 4), ((1, [1, 1]), 4)):
        u[1].append([1, 1, 1, 1, 2] + d(*x) + [k])
    u[2] += [[1, 1, 1, 0, 2] + d(3, [1, 2], 0) + d(4, [1], 0) + [4, 5], [1, 1, 1, 0, 1] + d(5, [], 0) + d(2, [1, 1], 0) + [6, 3]]
    u[3] += [[1, 1, 1, 0, 1] + d(2, [1], 0) + d(2, [], 0) + d(3, [1], 0) + [2, 3, 3]]
    u[4] += [[1, 1, 1, 0, 1] + d(1, [], 0) + d(2, [], 0) + d(1, [1], 0) + d(1, [], 0) + [1, 2, 1, 1]]
    u[2] += [[1, 0, 3, 1, 2] + d(2, [1], 0) + d(2, [], 3) + [2, 2], [1, 1, 0, 1, 2] + d(1, [], 3) + d(2, [], 0) + [3, 3, 1], [1, 1, 0, 1, 2] + d(2, [1], 3) + d(2, [1], 3) + [3, 3, 1], [1, 0, 3, 1, 2] + d(3, [], 3) + d(3, [1], 3) + [2, 4, 1],
             [1, 1, 0, 1, 1] + d(3, [1], 3) + d(2, [], 3) + [4, 1, 1]]
    u[3] += [[1, 1, 0, 1, 1] + d(2, [], 3) + d(1, [], 3) + d(2, [], 3) + [2, 1, 2, 1], [1, 0, 2, 1, 1] + d(1, [], 3) + d(2, [], 0) + d(1, [], 3) + [1, 2, 1, 1], [1, 0, 2, 1, 1] + d(1, [], 3) + d(1, [], 3) + d(2, [], 0) + [1, 1, 2, 1]]
    u[4] += [[1, 0, 2, 1, 1] + d(1, [], 0) + d(1, [], 3) + d(1, [], 3) + d(1, [], 3) + [1, 1, 1, 1, 1]]
    if not q:
        u[2] += [[1, 1, 0, 1, 2] + d(3, [], 3) + d(3, [1], 3) + [4, 4, 1], [1, 0, 3, 1, 2] + d(2, [1], 0) + d(2, [], 0) + [2, 2]]
        u[3] += [[1, 0, 2, 1, 1] + d(2, [], 0 if i == 0 else 3) + d(1, [], 0 if i == 1 else 3) + d(2, [], 0 if i == 2 else 3) + [2, 1, 2] for i in range(3)]
        u[4] += [[1, 1, 0, 1, 1] + d(1, [], 3) + d(1, [], 3) + d(1, [], 3) + d(1, [], 3) + [1, 1, 2, 1]]
    return [unit("der%d" % k, "EVAL", B, v, defs=V(k)) for k, v in u.items() if v]


PROPS["C06"] = dict(units=c06, assumptions=[REAL, GAPA, "weights in [2^-20, 2^20]"], outside=[OUTV],
                    explanation="All mixed partial derivatives up to the stated orders at every location (one-sided from the right at breakpoints, from the left at the end) against derivatives of the Cox-de Boor recursion and, for rational splines, the quotient rule; knots, parameter, control points and weights symbolic.",
                    bounds="B-splines: dimension 1 (degree up to 7, orders up to p+2), 2 (orders up to (6,3)), 3 (up to (2,3,3)) and 4; NURBS: dimension 1 (degree up to 5, orders up to 6), 2 (orders up to (3,3), (2,4), (4,1)), 3 (orders up to (2,1,2)), 4 (orders (1,1,1,1)); knots symbolic up to degree 4, fixed numbers above and for the highest orders, where for NURBS surfaces and volumes some parameters are fixed numbers inside the spans, too")


# ---------------------------------------------------------------- C07: knot insertion
def c07(tier):
    q = tier == "quick"
    u = {1: [], 2: [], 3: []}
    for r in (0, 1):
        for p in (1, 2, 3):
            for times in range(1, p + 1):
                u[1].append([1, 1, r, 2] + d(p, [0]) + [0, 0, 1, 1, times])          # new knot, repeated
                if p > 1:
                    u[1].append([1, 1, r, 1] + d(p, [1, 0]) + [0, 0, 1, 2, times])    # next to an existing knot
            for have in range(1, p):
                for times in range(1, p - have + 1):
                    u[1].append([1, 1, r, 1] + d(p, [have]) + [0, 0, 1, 1, times])     # raise an existing knot
        u[1].append([1, 1, r, 1] + d(2, [0, 1, 0]) + [1, 0, 3, 3, 1, 1, 1, 2, 1])       # refinement, unordered
        u[1].append([1, 1, r, 1] + d(3, [0, 0]) + [1, 0, 3, 2, 1, 1, 1, 2, 1])          # repeated entries
        u[1].append([1, 1, r, 2] + d(1, [0, 0, 1]) + [1, 0, 2, 1, 1, 2, 1])
        u[2].append([1, 1, r, 2 - r] + d(2, [0]) + d(1, [1]) + [0, 0, 1, 1, 2])
        u[2].append([1, 1, r, 2 - r] + d(2, [1]) + d(2, [0]) + [0, 1, 1, 1, 1])
        u[2].append([1, 1, r, 1] + d(1, [0]) + d(2, []) + [0, 0, 1, 1, 1])
        u[2].append([1, 1, r, 1] + d(1, []) + d(2, [0, 0]) + [1, 1, 2, 2, 1, 1, 1])
        u[3].append([1, 1, r, 1] + d(1, []) + d(2, [0]) + d(1, []) + [0, 1, 1, 1, 1])
        u[3].append([1, 1, r, 1] + d(1, []) + d(1, []) + d(2, [0]) + [0, 2, 1, 1, 2])
    u[1].append([1, 1, 0, 1] + d(4, [0, 1]) + [0, 0, 1, 1, 3])
    if not q:
        for r in (0, 1):
            u[1].append([1, 1, r, 1] + d(4, [1, 0, 2]) + [0, 0, 1, 2, 2])
            u[1].append([1, 1, r, 1] + d(5, [0]) + [0, 0, 1, 1, 4])
            u[2].append([1, 1, r, 1] + d(3, [0, 1]) + d(2, [1]) + [0, 0, 1, 1, 3])
            u[3].append([1, 1, r, 1] + d(2, [0]) + d(1, [1]) + d(2, []) + [0, 0, 1, 1, 2])
    u[4] = []
    for r in (0, 1):
        u[1] += [[1, 1, r, pd] + d(2, [0, 1], 0) + [0, 0, 1, 1, 2] for pd in (4, 5, 6)]
        u[2] += [[1, 1, r, 5] + d(1, [], 0) + d(2, [0], 0) + [0, 1, 1, 1, 1]]
        u[3] += [[1, 1, r, 5] + d(1, [], 0) + d(1, [0], 0) + d(1, [], 0) + [0, 1, 1, 1, 1]]
    for r in (0, 1):  # high degrees, many knots, more directions: fixed numbers for the knots
        u[1] += [[1, 1, r, 3 - r] + d(5, [1, 0, 2]) + [0, 0, 1, 2, 3], [1, 1, r, 3] + d(6, [1, 0, 2], 0) + [0, 0, 1, 2, 5], [1, 1, r, 3] + d(3, [1, 0, 1, 1, 1, 0], 0) + [1, 0, 4, 6, 1, 2, 2, 3, 1, 4, 2],
                 [1, 1, r, 1] + d(4, [4, 0, 3, 0], 0) + [0, 0, 3, 2, 4, 3, 1, 4, 3], [1, 1, r, 4] + d(7, [0], 0) + [0, 0, 1, 1, 7], [1, 1, r, 1] + d(2, [0] * 6, 0) + [1, 0, 6] + [x for b in (3, 6, 1, 2, 5, 4) for x in (b, 1 + b % 2)]]
        u[2] += [[1, 1, r, 3 - r] + d(3, [1, 0], 0) + d(3, [1, 1], 0) + [0, 0, 1, 2, 2], [1, 1, r, 1] + d(1, [1, 1, 1], 0) + d(4, [0, 2], 0) + [0, 1, 2, 1, 3, 2, 1], [1, 1, r, 1] + d(3, [0, 0, 1], 0) + d(0, [1], 0) + [1, 0, 3, 2, 1, 1, 2, 3, 1]]
        u[3] += [[1, 1, r, 2 - r] + d(2, [], 0) + d(2, [0, 1], 0) + d(2, [1], 0) + [0, 1, 1, 1, 2], [1, 1, r, 1] + d(3, [0], 0) + d(1, [1], 0) + d(2, [], 0) + [1, 0, 1, 1, 3]]
        u[4] += [[1, 1, r, 1] + d(1, [], 0) + d(1, [1], 0) + d(1, [], 0) + d(2, [0], 0) + [0, 3, 1, 1, 2], [1, 1, r, 1] + d(1, [], 3) + d(2, [0], 0) + d(1, [], 3) + d(1, [1], 3) + [1, 1, 1, 1, 1], [1, 1, r, 1] + d(1, [0], 0) + d(1, [], 3) + d(2, [], 3) + d(1, [], 3) + [0, 0, 1, 1, 1], [1, 1, r, 1] + d(2, [], 3) + d(1, [], 3) + d(2, [0, 1], 0) + d(1, [], 3) + [0, 2, 1, 1, 2]]
    return [unit("ins%d" % k, "INS", B, v, defs=V(k)) for k, v in u.items() if v]


PROPS["C07"] = dict(units=c07, assumptions=[REAL, GAPA, "final interior multiplicity at most the degree", "weights in [2^-20, 2^20]"], outside=[OUTV],
                    explanation="Symbolic knots (including the inserted one), control points, weights and parameter: after insertion the knot vector is the sorted union, counts match and every point of the spline is unchanged.",
                    bounds="symbolic knots: dimension 1 (degree 1..5, single, repeated and list insertion), 2 and 3 in every direction; fixed knots: dimension 1 (degree up to 7, up to 6 breakpoints and 9 insertions), 2 (degree up to 4), 3 and 4 in every direction")


# ---------------------------------------------------------------- C08: knot removal
def c08(tier):
    q = tier == "quick"
    u = {1: [], 2: [], 3: []}
    for p, m, b, x, y in ((1, [0], 1, 1, 1), (2, [0], 1, 1, 1), (2, [0], 1, 2, 2), (2, [0], 1, 2, 1), (3, [0], 1, 3, 2), (3, [1, 0], 2, 2, 2), (3, [0, 1], 1, 2, 1), (2, [1], 1, 1, 1), (3, [1], 1, 2, 2), (4, [0], 1, 2, 2)):
        u[1].append([1, 1, 0, 2] + d(p, m) + [0, b, 0, x, y])
    u[2] += [[1, 0, 0, 1] + d(1, []) + d(2, [0]) + [1, 1, 0, 1, 1], [1, 0, 0, 2] + d(2, [0]) + d(1, [1]) + [0, 1, 0, 2, 2], [1, 0, 0, 1] + d(2, []) + d(3, [0]) + [1, 1, 0, 2, 2]]
    u[3] += [[1, 0, 0, 1] + d(1, []) + d(2, [0]) + d(1, []) + [1, 1, 0, 1, 1], [1, 0, 0, 1] + d(2, [0]) + d(1, []) + d(1, []) + [0, 1, 0, 1, 1]]
    # rational
    u[1] += [[1, 0, 1, 1] + d(2, [0], 0) + [0, 1, 0, 1, 1], [0, 1, 1, 1] + d(2, [0], 0) + [0, 1, 0, 2, 2], [0, 0, 1, 2] + d(2, [0]) + [0, 1, 0, 2, 2]]
    for k in range(4):
        u[1].append([2 + k, 0, 1, 1] + d(3, [0], 0) + [0, 1, 0, 2, 2])
        u[1].append([0, 2 + k, 1, 1] + d(3, [0], 0) + [0, 1, 0, 2, 1])
    u[2] += [[0, 0, 1, 1] + d(1, []) + d(2, [0]) + [1, 1, 0, 1, 1], [3, 0, 1, 1] + d(2, [0], 0) + d(1, [], 0) + [0, 1, 0, 1, 1]]
    # arbitrary splines
    for p, m, b in ((1, [1], 1), (2, [1], 1), (3, [1], 1), (2, [2], 1), (2, [1, 1], 1), (2, [1, 1], 2)):
        u[1].append([1, 1, 0, 1] + d(p, m, 0) + [0, b, 1, 1, 500])
    u[1] += [[1, 1, 0, 1] + d(2, [1], 1) + [0, 1, 1, 1, 500], [1, 1, 0, 1] + d(1, [1], 1) + [0, 1, 1, 1, 250], [1, 0, 0, 1] + d(3, [2], 0) + [0, 1, 1, 2, 500], [1, 0, 0, 1] + d(2, [2], 2) + [0, 1, 1, 2, 500]]
    u[1] += [[1, 0, 1, 1] + d(1, [1], 0) + [0, 1, 1, 1, 500]]
    u[1] += [[1, w, 1, 1] + d(1, [1], 0) + [0, 1, 1, 1, t] for w in (100, 101) for t in (500, 100)]
    for k in range(4):
        u[1] += [[2 + k, 101, 1, 1] + d(2, [1], 0) + [0, 1, 1, 1, 500], [2 + k, 102, 1, 1] + d(2, [1], 2) + [0, 1, 1, 1, 500]]
    for k in range(4):
        u[1] += [[2 + k, 0, 1, 1] + d(2, [1], 0) + [0, 1, 1, 1, 500], [0, 2 + k, 1, 1] + d(2, [1], 0) + [0, 1, 1, 1, 500], [0, 2 + k, 1, 1] + d(2, [1], 2) + [0, 1, 1, 1, 500]]
    for k in range(5):
        u[1] += [[2 + k, 0, 1, 1] + d(3, [1], 0) + [0, 1, 1, 1, 500]]
    u[2] += [[2, 0, 0, 1] + d(2, [2], 0) + d(1, [], 0) + [0, 1, 1, 2, 500], [5, 0, 0, 1] + d(1, [], 0) + d(1, [1], 0) + [1, 1, 1, 1, 500]]
    u[2] += [[1, 0, 0, 1] + d(1, [1], 0) + d(1, [], 0) + [0, 1, 1, 1, 500]]
    if not q:
        u[1] += [[1, 1, 0, 2] + d(4, [1, 0]) + [0, 2, 0, 3, 3], [1, 1, 0, 2] + d(5, [0]) + [0, 1, 0, 3, 2], [1, 0, 0, 1] + d(4, [1], 0) + [0, 1, 1, 1, 500]]
        u[2] += [[1, 0, 0, 1] + d(1, [], 0) + d(2, [1], 0) + [1, 1, 1, 1, 500]]
        for k in range(4):
            u[1].append([2 + k, 2 + k, 1, 1] + d(2, [1], 0) + [0, 1, 1, 1, 500])
    u[4] = []
    u[1] += [[1, 0, 0, 5] + d(2, [0, 1], 0) + [0, 1, 0, 2, 2], [0, 0, 1, 5] + d(2, [0, 1], 0) + [0, 1, 0, 2, 2], [0, 0, 1, 6] + d(3, [0], 0) + [0, 1, 0, 1, 1]]
    u[2] += [[1, 0, 0, 5] + d(1, [], 3) + d(2, [0], 0) + [1, 1, 0, 1, 1], [0, 0, 1, 5] + d(2, [0], 0) + d(1, [], 3) + [0, 1, 0, 1, 1]]
    for r in (0, 1):  # larger splines, fixed knots; rational ones also with fixed points and weights
        H = [1 - r, 0, r, 2 - r]
        o = 3 if r else 0
        u[1] += [H + d(5, [1, 0, 2], 0) + [0, 2, 0, 3, 3], H + d(3, [1, 0, 1, 1], 0) + [0, 2, 0, 2, 1], H + d(6, [0], 0) + [0, 1, 0, 5, 4], H + d(4, [2, 1, 1, 1], 0) + [0, 3, 0, 2, 2]]
        u[2] += [H + d(3, [1, 0], 0) + d(3, [1], o) + [0, 2, 0, 2, 2], H + d(2, [1, 1], o) + d(3, [0, 1], 0) + [1, 1, 0, 2, 1]]
        u[3] += [H + d(2, [], o) + d(2, [0, 1], 0) + d(2, [1], o) + [1, 1, 0, 2, 2], H + d(1, [1], o) + d(1, [], o) + d(3, [0], 0) + [2, 1, 0, 2, 1]]
        u[4] += [H + d(1, [], o) + d(1, [1], o) + d(1, [], o) + d(2, [0], 0) + [3, 1, 0, 1, 1], H + d(1, [], o) + d(2, [0], 0) + d(1, [], o) + d(1, [], o) + [1, 1, 0, 2, 2]]
    u[1] += [[3, 0, 1, 1] + d(5, [1, 0, 2], 0) + [0, 2, 0, 3, 3], [0, 4, 1, 1] + d(3, [1, 0, 1, 1], 0) + [0, 2, 0, 2, 1]]
    for r in (0, 1):  # knots that are not there, end knots, more removals than there are knots, discontinuous splines
        H = [2, 0, r, 1]
        for p, m, b, x in ((2, [1, 1], 0, 1), (2, [1, 1], 3, 1), (2, [0, 1], 1, 1), (3, [1, 0], 2, 2), (2, [1], 1, 2), (3, [2], 1, 4), (1, [1, 1], 2, 2), (1, [2], 1, 1), (2, [3], 1, 1), (2, [3], 1, 5), (3, [4, 1], 1, 1), (0, [1], 1, 1), (0, [1, 1], 2, 3)):
            u[1].append(H + d(p, m, 0) + [0, b, 1, x, 500])
            if r == 0 and p < 3:
                u[1].append([1, 0, r, 1] + d(p, m, 0) + [0, b, 1, x, 500])
        u[2] += [H + d(1, [], 3) + d(2, [3], 0) + [1, 1, 1, 1, 500], H + d(1, [2], 0) + d(1, [1], 3) + [0, 1, 1, 3, 500], [1 - r, 0, r, 1] + d(1, [0], 0) + d(1, [], 3) + [0, 1, 0, 2, 2]]
        u[1] += [[1 - r, 0, r, 1] + d(2, [0], 0) + [0, 1, 0, 3, 3], [1 - r, 0, r, 1] + d(3, [0, 1], 0) + [0, 1, 0, 4, 2]]
    return [unit("rem%d" % k, "REM", B, v, defs=V(k)) for k, v in u.items() if v]


PROPS["C08"] = dict(units=c08, assumptions=[REAL, GAPA, "weights in [1/64, 64]"], outside=[OUTV, "rational splines with all weights and all points symbolic at once (one weight or point at a time, or all points with fixed weights)"],
                    explanation="(a) insertion followed by removal of the same knot restores the spline, (b) on an arbitrary spline a refused removal changes nothing and a performed removal moves no point of the spline by more than the tolerance; control points, parameter (and knots in part) symbolic.",
                    bounds="dimension 1 (degree 1..6), 2 (degree up to 3), 3 (degree up to 3) and 4 (degree up to 2), up to 5 insertions and 4 removals of one knot, tolerances 1/4, 1/2 and 1e-9; knots symbolic up to degree 4, fixed numbers above, where rational splines have fixed points and weights but for one")


# ---------------------------------------------------------------- C09: degree elevation
def c09(tier):
    q = tier == "quick"
    u = {1: [], 2: [], 3: []}
    for p in (1, 2, 3):
        for m in mults(p, 2, p):
            if p < 3 or len(m) < 2 or sum(m) <= 3:
                u[1].append([1, 1, 0, 2] + d(p, m) + [0, 0])
    u[1] += [[1, 1, 0, 1] + d(2, [1]) + [0, 1], [1, 1, 0, 1] + d(1, [1, 1]) + [0, 1], [1, 1, 0, 1] + d(4, [2]) + [0, 0], [1, 1, 0, 1] + d(5, []) + [0, 0]]
    u[1] += [[1, 1, 1, 2] + d(p, []) + [0, 0] for p in (1, 2, 3, 4)]
    for k in range(4):
        u[1] += [[2 + k, 0, 1, 1] + d(2, [1]) + [0, 0], [0, 2 + k, 1, 1] + d(2, [1], 0) + [0, 0]]
    u[1] += [[1, 0, 1, 1] + d(1, [1], 0) + [0, 0], [0, 0, 1, 2] + d(2, [2], 1) + [0, 0]]
    u[2] += [[1, 1, 0, 1] + d(2, [1]) + d(1, [1]) + [0, 0], [1, 1, 0, 1] + d(2, [1]) + d(2, [1]) + [1, 0], [1, 1, 0, 2] + d(1, []) + d(3, [1]) + [1, 0], [1, 1, 0, 1] + d(2, []) + d(1, []) + [0, 1]]
    u[2] += [[1, 1, 1, 1] + d(2, []) + d(1, []) + [0, 0], [1, 1, 1, 1] + d(1, []) + d(2, []) + [1, 0], [3, 0, 1, 1] + d(2, [1], 0) + d(1, [], 0) + [0, 0], [4, 0, 1, 1] + d(1, [], 0) + d(2, [1], 0) + [1, 0]]
    u[3] += [[1, 1, 0, 1] + d(1, []) + d(2, [1]) + d(1, []) + [1, 0], [1, 1, 0, 1] + d(1, []) + d(1, []) + d(2, []) + [2, 0], [1, 1, 1, 1] + d(2, [], 0) + d(1, [], 0) + d(1, [], 0) + [0, 0]]
    if not q:
        u[1] += [[1, 1, 0, 1] + d(4, m) + [0, 0] for m in mults(4, 2, 4)] + [[1, 1, 0, 1] + d(3, [1, 1, 2]) + [0, 1]]
        for k in range(5):
            u[1] += [[2 + k, 0, 1, 1] + d(3, [1], 0) + [0, 0], [0, 2 + k, 1, 1] + d(3, [1], 0) + [0, 0]]
    u[4] = []
    u[1] += [[1, 0, 0, 5] + d(2, [1, 2], 0) + [0, 0], [0, 0, 1, 5] + d(2, [1], 0) + [0, 0], [0, 0, 1, 6] + d(3, [2], 0) + [0, 0]]
    u[2] += [[1, 0, 0, 5] + d(1, [], 3) + d(2, [1], 0) + [1, 0], [0, 0, 1, 5] + d(2, [1], 0) + d(1, [], 3) + [0, 0]]
    for r in (0, 1):  # larger splines, fixed knots; rational ones with fixed points and weights
        H = [1 - r, 0, r, 2 - r]
        o = 3 if r else 0
        E = 0
        u[1] += [H + d(p, m, 0) + [0, E] for p, m in ((5, [1, 2]), (3, [1, 3, 2, 1]), (6, [3]), (4, [1] * 5), (2, [2, 1, 2, 1]), (1, [1, 1, 1]), (7, []))]
        u[2] += [H + d(3, [1, 2], 0) + d(3, [1], o) + [0, E], H + d(1, [1, 1], o) + d(4, [1], 0) + [1, E], H + d(2, [], o) + d(2, [1, 1], 0) + [1, E]]
        u[3] += [H + d(2, [], o) + d(2, [1], 0) + d(2, [1], o) + [1, E], H + d(3, [1], 0) + d(1, [], o) + d(2, [], o) + [0, E], H + d(1, [], o) + d(1, [1], o) + d(2, [1], 0) + [2, E]]
        u[4] += [H + d(1, [], o) + d(1, [1], o) + d(1, [], o) + d(2, [1], 0) + [3, E], H + d(1, [], o) + d(2, [], 0) + d(1, [], o) + d(1, [], o) + [1, E], H + d(1, [], o) + d(1, [], o) + d(2, [1], 0) + d(1, [], o) + [2, E]]
    u[1] += [[3, 0, 1, 1] + d(5, [1, 2], 0) + [0, E], [0, 4, 1, 1] + d(3, [1, 3], 0) + [0, E]]
    return [unit("elev%d" % k, "ELEV", B, v, defs=V(k)) for k, v in u.items() if v]


PROPS["C09"] = dict(units=c09, assumptions=[REAL, GAPA, "interior multiplicity at most the degree, degree at least 1", "weights in [1/64, 64]"], outside=[OUTV, "degree 0", "rational splines with interior knots and all points or weights symbolic at once"],
                    explanation="Degree elevation of symbolic splines: degree and every multiplicity grow by one, counts match, every point unchanged.",
                    bounds="symbolic knots: dimension 1 (degree 1..5, up to 2 interior breakpoints, all multiplicities for degree <= 2, single and double elevation), 2 and 3 in every direction; fixed knots: dimension 1 up to degree 7 and 5 interior breakpoints, 2 (degree up to 4), 3 and 4 in every direction, where rational splines have fixed points and weights but for one")


# ---------------------------------------------------------------- C10: degree reduction
def c10(tier):
    q = tier == "quick"
    u = {1: [], 2: [], 3: []}
    for p in (1, 2, 3, 4, 5):
        u[1].append([1, 1, 0, 2] + d(p, []) + [0, 2])
        u[1].append([1, 1, 0, 1] + d(p, [], 0) + [0, 3])
    for p in (1, 2, 3):
        for m in mults(p, 1, p):
            if m:
                u[1].append([1, 1, 0, 2] + d(p, m) + [0, 2])
    u[1] += [[1, 1, 0, 1] + d(2, [1, 1]) + [0, 2], [1, 1, 1, 1] + d(2, []) + [0, 2], [3, 0, 1, 1] + d(2, [1]) + [0, 2], [0, 3, 1, 1] + d(2, [1], 0) + [0, 2]]
    u[1] += [[1, 1, 0, 1] + d(2, [2], 0) + [0, 3], [1, 1, 0, 1] + d(2, [1], 0) + [0, 3], [1, 1, 0, 1] + d(3, [1], 0) + [0, 3], [1, 1, 0, 1] + d(2, [1]) + [0, 3], [1, 1, 0, 1] + d(1, [1], 0) + [0, 3]]
    for k in range(5):
        u[1].append([2 + k, 0, 0, 1] + d(2, [1, 1], 2) + [0, 3])
    for k in range(6):
        u[1].append([2 + k, 0, 0, 1] + d(3, [1, 1], 2) + [0, 3])
    for k in range(3):
        u[1].append([2 + k, 0, 1, 1] + d(2, [], 0) + [0, 4])
    for k in range(4):
        u[1].append([2 + k, 0, 1, 1] + d(2, [1], 0) + [0, 4])
    u[2] += [[1, 1, 0, 1] + d(2, [1]) + d(2, []) + [1, 2], [1, 1, 0, 2] + d(2, [1]) + d(1, []) + [0, 2], [1, 1, 0, 1] + d(2, [], 0) + d(1, [], 0) + [0, 3]]
    u[3] += [[1, 1, 0, 1] + d(1, []) + d(2, []) + d(1, []) + [1, 2]]
    if not q:
        u[1] += [[1, 0, 0, 1] + d(2, [1, 1], 2) + [0, 3], [1, 0, 0, 1] + d(4, [1], 0) + [0, 3]]
    u[4] = []
    u[1] += [[1, 0, 0, 5] + d(2, [1, 2], 0) + [0, 2], [0, 0, 1, 5] + d(2, [1], 0) + [0, 2], [0, 0, 1, 6] + d(3, [2], 0) + [0, 2]]
    u[2] += [[1, 0, 0, 5] + d(1, [], 3) + d(2, [1], 0) + [1, 2], [0, 0, 1, 5] + d(2, [1], 0) + d(1, [], 3) + [0, 2]]
    for r in (0, 1):  # larger splines, fixed knots; rational ones with fixed points and weights
        H = [1 - r, 0, r, 2 - r]
        o = 3 if r else 0
        E = 2
        u[1] += [H + d(p, m, 0) + [0, E] for p, m in ((5, [1, 2]), (3, [1, 3, 2, 1]), (6, [3]), (4, [1] * 5), (2, [2, 1, 2, 1]), (1, [1, 1, 1]), (7, []))]
        u[2] += [H + d(3, [1, 2], 0) + d(3, [1], o) + [0, E], H + d(1, [1, 1], o) + d(4, [1], 0) + [1, E], H + d(2, [], o) + d(2, [1, 1], 0) + [1, E]]
        u[3] += [H + d(2, [], o) + d(2, [1], 0) + d(2, [1], o) + [1, E], H + d(3, [1], 0) + d(1, [], o) + d(2, [], o) + [0, E], H + d(1, [], o) + d(1, [1], o) + d(2, [1], 0) + [2, E]]
        u[4] += [H + d(1, [], o) + d(1, [1], o) + d(1, [], o) + d(2, [1], 0) + [3, E], H + d(1, [], o) + d(2, [], 0) + d(1, [], o) + d(1, [], o) + [1, E], H + d(1, [], o) + d(1, [], o) + d(2, [1], 0) + d(1, [], o) + [2, E]]
    for p, mu in ((2, []), (3, []), (4, []), (5, []), (2, [1]), (3, [1]), (3, [2])):
        u[1] += [[0, k, 1, 1 + p % 2] + d(p, mu, 2) + [0, 5] for k in range(p + 1 + sum(mu))]
    u[2] += [[0, k, 1, 2] + d(1, [], 2) + d(3, [], 2) + [1, 5] for k in (0, 2, 3, 5)]
    u[1] += [[3, 0, 1, 1] + d(5, [1, 2], 0) + [0, E], [0, 4, 1, 1] + d(3, [1, 3], 0) + [0, E]]
    return [unit("red%d" % k, "ELEV", B, v, defs=V(k)) for k, v in u.items() if v]


PROPS["C10"] = dict(units=c10, assumptions=[REAL, GAPA, "interior multiplicity at most the degree"], outside=[OUTV, "the deviation of the projected point accepted for rational splines (the tolerance is one of the weighted points and weights)"],
                    explanation="(a) elevation followed by reduction restores degree, knots and every point; (b) reducing an arbitrary spline either refuses and leaves knots, control points and weights as they were, or moves no point by more than the tolerance.",
                    bounds="dimension 1 (degree 1..5 without, 1..3 with one or two interior breakpoints), 2 and 3; elevation and reduction with fixed knots: up to degree 7 and 5 interior breakpoints, dimension 1..4; tolerance 1/2 for arbitrary splines")


# ---------------------------------------------------------------- C11: subdivision
def c11(tier):
    q = tier == "quick"
    u = {1: [], 2: [], 3: []}
    for r in (0, 1):
        for p, m, b in ((1, [0], 1), (2, [0], 1), (3, [0], 1), (1, [1], 1), (2, [1], 1), (2, [2], 1), (3, [2], 1), (3, [3], 1), (2, [1, 0], 2), (2, [0, 1], 1), (3, [1, 0, 1], 2), (2, [1, 2, 1], 2)):
            u[1].append([1, 1, r, 2 - r] + d(p, m) + [0, b])
        u[2] += [[1, 1, r, 1] + d(2, [0]) + d(1, [1]) + [0, 1], [1, 1, r, 1] + d(1, [1]) + d(2, [0]) + [1, 1], [1, 1, r, 2 - r] + d(2, [1]) + d(2, []) + [0, 1], [1, 1, r, 1] + d(1, []) + d(3, [1, 0]) + [1, 2]]
        u[3] += [[1, 1, r, 1] + d(1, []) + d(2, [0]) + d(1, []) + [1, 1], [1, 1, r, 1] + d(1, [0]) + d(1, []) + d(1, []) + [0, 1], [1, 1, r, 1] + d(1, []) + d(1, []) + d(1, [1]) + [2, 1]]
        if not q:
            u[1] += [[1, 1, r, 1] + d(4, [1, 0, 2]) + [0, 2], [1, 1, r, 1] + d(5, [0]) + [0, 1]]
            u[2] += [[1, 1, r, 1] + d(3, [1, 0]) + d(2, [1]) + [0, 2]]
    u[4] = []
    for r in (0, 1):
        u[1] += [[1, 1, r, pd] + d(2, [0, 1], 0) + [0, 1] for pd in (4, 5, 6)]
        u[2] += [[1, 1, r, 5] + d(1, [], 0) + d(2, [0], 0) + [1, 1]]
        u[3] += [[1, 1, r, 5] + d(1, [], 0) + d(1, [0], 0) + d(1, [], 0) + [1, 1]]
    for r in (0, 1):  # high degrees, many knots, more directions: fixed numbers for the knots
        u[1] += [[1, 1, r, 2] + d(5, [1, 0, 2], r and 0) + [0, 2], [1, 1, r, 3] + d(6, [1, 0, 2], 0) + [0, 2], [1, 1, r, 1] + d(2, [1] * 6, 0) + [0, 4], [1, 1, r, 1] + d(4, [1, 4, 3], 0) + [0, 2], [1, 1, r, 1] + d(4, [3, 3, 2], 0) + [0, 3], [1, 1, r, 1] + d(7, [0], 0) + [0, 1]]
        u[2] += [[1, 1, r, 2 - r] + d(3, [1, 0], 0) + d(3, [1, 1], 0) + [0, 2], [1, 1, r, 1] + d(1, [1, 1], 0) + d(4, [2, 0, 1], 0) + [1, 2]]
        u[3] += [[1, 1, r, 1] + d(2, [], 0) + d(2, [0, 1], 0) + d(2, [1], 0) + [1, 1], [1, 1, r, 1] + d(2, [1], 0) + d(1, [1], 0) + d(3, [], 0) + [0, 1]]
        u[4] += [[1, 1, r, 1] + d(1, [], 0) + d(1, [1], 0) + d(1, [], 0) + d(2, [0], 0) + [3, 1], [1, 1, r, 1] + d(1, [], 3) + d(2, [0], 0) + d(1, [], 3) + d(1, [1], 3) + [1, 1], [1, 1, r, 1] + d(2, [1], 0) + d(1, [], 3) + d(1, [], 3) + d(1, [], 3) + [0, 1], [1, 1, r, 1] + d(1, [], 3) + d(1, [], 3) + d(1, [1, 0], 0) + d(1, [], 3) + [2, 2]]
    return [unit("sub%d" % k, "SUB", B, v, defs=V(k)) for k, v in u.items() if v]


PROPS["C11"] = dict(units=c11, assumptions=[REAL, GAPA, "weights in [2^-20, 2^20]", "interior multiplicity at most the degree"], outside=[OUTV],
                    explanation="Symbolic knots (including the cut), control points, weights and parameter: both parts have the expected clamped knot vectors and coincide with the original on their sub-domain; the cut spline keeps its geometry.",
                    bounds="symbolic knots: dimension 1 (degree 1..3, thorough 5), 2 and 3 in every direction, cut at a new parameter or an existing knot; fixed knots: dimension 1 up to degree 7 and 6 interior knots, 2 (degree up to 4), 3 and 4 in every direction")


# ---------------------------------------------------------------- C16: numerals and lists of numerals
def c16(tier):
    q = tier == "quick"
    cfg = []
    for sign in (0, 1, 2):
        for ni, pt, nf in ((1, 0, 0), (2, 0, 0), (4, 0, 0), (1, 1, 0), (1, 1, 1), (3, 1, 2), (1, 1, 6), (2, 1, 0), (0, 1, 2), (7, 1, 3), (10, 0, 0), (1, 1, 16)):
            cfg.append([0, sign, ni, pt, nf, 0, 0, 0])
        for ni, pt, nf in ((1, 1, 2), (1, 0, 0), (3, 1, 1), (2, 0, 0), (1, 1, 0), (1, 1, 15)):
            for em, es, ev in ((1, 1, 0), (1, 2, 5), (2, 1, 12), (1, 0, 3), (2, 2, 17), (1, 1, 22), (1, 2, 1), (2, 0, 1), (1, 1, 1), (1, 2, 10)):
                if sign == 0 or (em, es, ev) in ((1, 2, 5), (2, 1, 12), (1, 0, 3)):
                    cfg.append([0, sign, ni, pt, nf, em, es, ev])
    for ni, pt, nf in ((1, 1, 2), (2, 0, 0), (1, 1, 18), (12, 1, 12), (0, 1, 3), (20, 0, 0)):  # long numerals, large exponents
        for em, es, ev in ((0, 0, 0), (1, 2, 101), (2, 1, 123), (1, 0, 38), (1, 2, 13), (2, 2, 290), (1, 1, 280), (2, 0, 8)):
            if ni + abs(ev) < 300:
                cfg.append([0, (ni + ev) % 3, ni, pt, nf, em, es, ev])
    for m in (1, 2, 3, 4, 5):
        for x in ((0, 1, 1, 2, 1, 2, 113), (2, 2, 1, 12, 2, 1, 103), (0, 1, 1, 2, 0, 0, 0), (1, 2, 0, 0, 0, 0, 0), (1, 1, 1, 3, 1, 2, 7), (0, 3, 1, 0, 0, 0, 0), (0, 1, 0, 0, 1, 1, 20)):
            cfg.append([m] + list(x))
    return [unit("numeral", "NUM", B, cfg)]


PROPS["C16"] = dict(units=c16, assumptions=[REAL], outside=["numerals with more digits or larger exponents than the bounds", "texts that are not decimal numerals"],
                    explanation="Every digit of every numeral is a symbolic digit character: the library's parser runs on the text (character values symbolic), its result is compared with the positional value; the same inside delimited lists with blanks and line breaks.",
                    bounds="numerals with sign, 0..20 digits before and 0..18 after the decimal point, with and without exponent (e/E, signed or not, -290..280, with and without leading zeros); lists of five numerals in five layouts")

IOC = ["baf", "spl", "util", "io"]


def sp(*s):
    return [len(s)] + sum(([len(x[2]), x[0], x[1]] + sum((d(*q) for q in x[2]), []) for x in s), [])


def large(fmt):
    """many points, many knots, many splines (all but 60 of the numbers fixed)"""
    r = [sp((1, 3, [(2, [1] * 38, 0)])), sp((0, 3, [(1, [1] * 9, 0), (2, [1, 2] * 4, 0)]), (1, 2, [(3, [1] * 5, 0), (1, [1] * 3, 0)])),
         sp(*[(i % 2, 2 + i % 2, [(1 + i % 3, [], 0)] * (1 + (i % 5 == 4))) for i in range(12)]),
         sp((0, 3, [(10, [1, 1], 0)]), (1, 3, [(11, [], 0), (1, [], 0)]), (1, 2, [(1, [], 0), (10, [], 0)]), (0, 2, [(1, [], 0), (9, [2], 0)]))]
    if fmt:
        r.append(sp((1, 3, [(1, [1, 1], 0), (2, [1], 0), (1, [1] * 3, 0)])))
    return r


def rt(fmt, tier):
    q = tier == "quick"
    cfg = []
    lists = [sp((0, 2, [(2, [1])]), (1, 3, [(1, [1])])), sp((1, 3, [(2, [1]), (1, [])]), (0, 2, [(1, []), (1, [1])])),
             sp((1, 2, [(3, [1, 2])])), sp((0, 3, [(1, [1]), (2, [])]), (0, 3, [(1, [])])), sp((1, 3, [(1, [])]), (1, 3, [(1, []), (1, [])]), (0, 2, [(2, [])]))]
    if fmt:
        lists += [sp((1, 3, [(1, [], 0), (1, []), (1, [])])), sp((0, 2, [(1, [], 0), (2, []), (1, [])]), (0, 1, [(1, [])])), sp((0, 3, [(1, [], 0), (1, [1], 0), (1, [], 0)]), (1, 2, [(1, [])]))]
    if fmt == 2:
        lists += [sp((1, 2, [(1, [], 0)] * 4)), sp((0, 4, [(1, [1])]), (0, 1, [(1, [], 0)] * 4))]
    big = [sp((0, 3, [(5, [1, 4])]), (1, 3, [(4, [2])]), (0, 2, [(1, [])]), (1, 1, [(2, [])]), (0, 3, [(1, [1])])),
           sp((0, 3, [(1, [1], 0), (4, [], 0)]), (1, 3, [(4, [], 0), (1, [], 0)])), sp((1, 2, [(1, [1, 1], 0), (3, [2], 0)])), sp((0, 2, [(1, [], 0), (5, [1], 0)]), (1, 3, [(3, [], 0), (1, [1], 0)]))]
    if fmt:
        big += [sp((1, 4, [(2, [])]), (0, 5, [(1, [1])])), sp((0, 4, [(1, []), (2, [])]), (1, 5, [(1, []), (1, [])])), sp((1, 4, [(1, [], 0), (1, [], 0), (1, [1], 0)]), (0, 3, [(3, [], 0), (1, [], 0), (1, [], 0)]))]
    if fmt == 2:
        big += [sp((1, 5, [(1, [], 0)] * 4)), sp((0, 1, [(1, [], 0), (2, [], 0), (1, [], 0), (1, [1], 0)]))]
    for l in big:
        for v in ((1, 10) if q else (0, 1, 2, 3, 10, 12)):
            cfg.append([fmt, v] + l)
    cfg += [[fmt, v] + l for l in large(fmt) for v in ((0, 1) if q else (0, 1, 2, 3, 20))]
    for l in lists + big:
        for v in (20, 21) if fmt or not q or l in lists[:3] else (21,):
            cfg.append([fmt, v] + l)
    for v in ((0, 1, 2, 3, 10, 12) if q else (0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13, 14, 15)):
        for l in lists:
            cfg.append([fmt, v] + l)
    return [unit("rt", "RT", IOC, cfg)]


RTX = "Knots, coordinates and weights are symbolic; the writer prints them as texts of symbolic digits into a real file, the reader parses that file, and the result is compared with the original."
RTA = [REAL, "a printed number is the exact value rounded to the printed digits (the rounding error is a symbolic quantity); most numbers range over one decade and sign each, one number at a time over [-2000, 2000]"]
RTO = ["files not written by this library", "sizes beyond the bounds"]
for _i, _f, _n in (("C17", 0, "IGES"), ("C18", 1, "IRIT"), ("C19", 2, "XML")):
    PROPS[_i] = dict(units=(lambda f: lambda t: rt(f, t))(_f), assumptions=RTA, outside=RTO + ([] if _f else ["volumes (not supported by the format)"]), explanation=RTX,
                     bounds="lists of 1..5 (and 12) splines, B-spline and NURBS mixed, %s, degree 1..3, up to two interior breakpoints, point dimension %s; large splines of up to 43 knots or 130 points per spline" % ("curves and surfaces" if _f == 0 else "curves, surfaces and volumes" if _f == 1 else "parametric dimension 1..4", "2..3" if _f == 0 else "1..4"))


# ---------------------------------------------------------------- C20: VTK
def c20(tier):
    q = tier == "quick"

    def vs(*s):
        return [len(s)] + sum(([len(x[2]), x[0], x[1]] + sum((d(*y) for y in x[2]), []) + x[3] for x in s), [])
    cfg = []
    for v in (0, 1):
        cfg += [[v] + l for l in (
            vs((0, 2, [(2, [1])], [4]), (1, 3, [(1, [1])], [3])),
            vs((0, 1, [(2, [1])], [1])),
            vs((1, 3, [(2, [1]), (1, [])], [4, 3]), (0, 2, [(1, []), (1, [1])], [2, 2])),
            vs((0, 3, [(1, [1]), (2, [])], [1, 5]), (1, 2, [(3, [])], [6])),
            vs((0, 2, [(1, []), (1, [1])], [2, 2]), (1, 3, [(2, [1]), (1, []), (1, [])], [2, 2, 1])),
            vs((0, 3, [(1, []), (1, []), (2, [])], [1, 2, 3]), (0, 1, [(1, [])], [2]), (1, 2, [(1, []), (2, [])], [3, 1])),
            vs((1, 2, [(1, [], 0), (1, [], 0), (1, [], 0)], [3, 1, 2]), (0, 3, [(1, [], 0), (1, [], 0), (1, [], 0)], [1, 1, 1])),
            vs((0, 3, [(1, [])], [1]), (1, 2, [(1, [])], [2]), (0, 1, [(2, [])], [1]), (1, 3, [(1, []), (1, [])], [1, 2]), (0, 2, [(1, [1])], [2])),
            vs((0, 3, [(1, []), (1, [])], [2, 1]), (1, 3, [(1, []), (1, [])], [1, 1]), (0, 3, [(1, []), (1, []), (1, [])], [1, 1, 2]), (0, 2, [(1, [])], [3])),
            vs((0, 3, [(1, []), (1, []), (1, [])], [1, 2, 1]), (1, 3, [(1, []), (1, []), (1, [])], [1, 1, 1]), (0, 2, [(1, []), (1, []), (1, [])], [2, 1, 1]), (1, 2, [(1, [])], [2])))]
    cfg += [[2] + l for l in (vs((0, 3, [(2, [1] * 6)], [30]), (1, 2, [(1, [1, 1]), (3, [])], [12, 11])), vs((0, 3, [(1, []), (2, []), (1, [])], [10, 2, 3]), (1, 3, [(1, []), (1, []), (1, [])], [2, 3, 11])),
                              vs(*[(i % 2, 1 + i % 3, [(1, [])] * (1 + i % 3), [1, 2, 1][:1 + i % 3]) for i in range(12)]))]
    if not q:
        for v in (0, 1):
            for a in range(1, 5):
                for b in range(1, 5):
                    cfg.append([v] + vs((b % 2, 2, [(2, [1]), (1, [1])], [a, b])))
                    cfg.append([v] + vs((a % 2, 3, [(1, []), (2, []), (1, [1])], [a, b, 5 - a]), (0, 2, [(2, [])], [b])))
    cfg += [[4] + l for l in (vs((0, 2, [(1, [1])], [3]), (1, 3, [(2, [])], [7]), (1, 1, [(3, [1, 1])], [24])), vs((1, 2, [(2, [1]), (1, [])], [7, 3]), (0, 3, [(1, []), (2, []), (1, [])], [3, 7, 1])))]
    return [unit("vtk", "VTK", IOC, cfg)]


PROPS["C20"] = dict(units=c20, assumptions=[REAL, "knots fixed; a subset of the control point coordinates symbolic in [1.25, 9.5]; a printed number is the exact value rounded to the printed digits"],
                    outside=["symbolic knots (sample parameters are fixed)", "sizes beyond the bounds"],
                    explanation="The writer runs on splines with symbolic control points; the file it writes (with symbolic digits) is parsed back: header counts, coordinates against the reference evaluation, cell corners against the grid structure, cell types.",
                    bounds="lists of 1..5 (and 12) splines of dimension 1..3, B-spline and NURBS, up to 6 subdivisions per direction")


# ---------------------------------------------------------------- C12: validation
def c12(tier):
    q = tier == "quick"
    u = {1: [], 2: [], 3: [], 4: []}
    pats = {-1: ([1, 1], [2, 2]), 0: ([1, 1], [1], [2, 1], [1, 1, 1], [1, 2]),
            1: ([2, 2], [2, 1], [1, 2], [1, 1], [2, 1, 2], [1, 1, 2], [2, 1, 1], [3, 2], [4], [3], [1, 2, 1], [1, 3]),
            2: ([3, 3], [3, 2], [2, 3], [3, 1, 3], [2, 1, 3], [3, 1, 2], [3, 2, 2], [6], [5], [1, 2, 3], [2, 2, 2], [1, 1, 1, 1, 1, 1], [4, 3]),
            3: ([4, 4], [4, 3], [3, 4], [4, 2, 3], [3, 2, 4], [8], [7], [4, 1, 1, 4], [3, 1, 1, 3], [1, 3, 4]),
            4: ([5, 5], [5, 4], [4, 5], [4, 1, 5], [5, 1, 4], [9], [10])}
    for r in (0, 1):
        for how in (0, 1):
            for p, l in pats.items():
                for m in l:
                    u[1].append([0, how, r, 0, p, len(m)] + m)
            for dim in (2, 3, 4):
                for dr in range(dim):
                    for p, l in pats.items():
                        for m in (l[:3] if dim > 2 or q else l):
                            if dim < 4 or p in (1, 2):
                                u[dim].append([0, how, r, dr, p, len(m)] + m)
            u[1] += [[2, how, r] + d(1, []), [2, how, r] + d(2, [1])]
            u[2] += [[2, how, r] + d(1, []) + d(1, [1]), [2, how, r] + d(2, [1]) + d(1, [])]
            u[3] += [[2, how, r] + d(1, []) + d(1, []) + d(2, [])]
            u[4] += [[2, how, r] + d(1, []) + d(1, []) + d(1, []) + d(1, [])]
        for der in (0, 1):
            u[1] += [[1, r] + d(p, m) + [der] for p, m in ((1, []), (2, [1]), (3, [1, 2]), (0, [1]), (2, [2, 1, 1]))]
            u[2] += [[1, r] + d(1, []) + d(2, [1]) + [der], [1, r] + d(2, [1]) + d(1, [1]) + [der]]
            u[3] += [[1, r] + d(1, []) + d(2, []) + d(1, []) + [der]]
            if not q:
                u[4] += [[1, r] + d(1, []) + d(1, []) + d(1, []) + d(1, []) + [der]]
                u[3] += [[1, r] + d(1, [1]) + d(2, []) + d(1, [1]) + [der]]
    return [unit("valid%d" % k, "VALID", B, v, defs=V(k)) for k, v in u.items() if v]


PROPS["C12"] = dict(units=c12, assumptions=[REAL, GAPA, "parameters outside the domain are at least 1e-9 away from it"], outside=["dimensions above 4"],
                    explanation="Breakpoints are symbolic, the multiplicity pattern is a bound; constructors run on consistent and inconsistent data; evaluation and derivatives run at a symbolic parameter at every location in and around the domain, per direction. What is accepted and which exception is thrown is asserted.",
                    bounds="dimension 1..4, degree -1..4, listed multiplicity patterns on each direction, direct construction and generators, one point, coordinate or weight missing or too many")


# ---------------------------------------------------------------- C13: independence
def c13(tier):
    q = tier == "quick"
    u = {1: [], 2: [], 3: []}
    for r in (0, 1):
        for p, m in ((1, []), (2, []), (1, [1]), (3, [])) + (() if r else ((2, [1]), (3, [2]), (2, [1, 2]))):
            u[1].append([1, 1, r, 1] + d(p, m) + [0])
        u[1] += [[1 - r, 0, r, 5] + d(2, [1], 0) + [0], [1 - r, 0, r, 2] + d(2, [1], 0) + [0], [1 - r, 0, r, 1] + d(3, [1, 2], 0) + [0]]
        u[2] += [[0, 0, r, 1] + d(1, []) + d(2, [], 0) + [i] for i in (0, 1)] + [[1 - r, 0, r, 1] + d(2, [1], 0) + d(1, [], 0) + [i] for i in (0, 1)]
        u[3] += [[0, 0, r, 1] + d(1, [], 0) + d(1, [], 0) + d(1, []) + [i] for i in (0, 1, 2)]
        if not q:
            u[1] += [[0, 0, r, 1] + d(2, [1]) + [0], [1 - r, 0, r, 1] + d(4, [1, 1], 0) + [0]]
            u[2] += [[1 - r, 1 - r, r, 1] + d(2, [1], 0) + d(2, [1], 0) + [i] for i in (0, 1)]
            u[3] += [[1 - r, 0, r, 1] + d(2, [], 0) + d(1, [1], 0) + d(1, []) + [i] for i in (0, 1, 2)]
    return [unit("indep%d" % k, "INDEP", B, v, defs=V(k)) for k, v in u.items() if v]


PROPS["C13"] = dict(units=c13, assumptions=[REAL, GAPA], outside=["sequences of more than one operation between the observations"],
                    explanation="Two splines from the same knot vector objects, a copy (for NURBS also one with other control points) and the parts of a cut; one operation on one of them (insertion, removal, elevation, cutting, changing the caller's knot vector, or queries only); afterwards every other one must report the same degrees, knots, points, weights and evaluated points.",
                    bounds="dimension 1..3, degree 1..3, up to 2 interior breakpoints, one operation of ten kinds (for NURBS twelve) in every direction; knot removal of a NURBS not with all points and weights symbolic at once")


# ---------------------------------------------------------------- C14: equality
def c14(tier):
    q = tier == "quick"
    u = {1: [], 2: [], 3: []}
    for r in (0, 1):
        u[1] += [[0, r, 2] + d(1, [1]), [0, r, 1] + d(2, [], 1), [0, r, 3] + d(3, [], 1), [0, r, 2] + d(1, [1], 0)] + ([] if r else [[0, r, 2] + d(2, [1]), [0, 0, 1] + d(2, [2, 1])])
        u[2] += [[0, r, 1] + d(1, []) + d(1, [1], 0), [0, r, 2] + d(2, [], 0) + d(1, [])]
        u[3] += [[0, r, 1] + d(1, [], 0) + d(1, [], 0) + d(1, [])]
        for sub in (0, 1, 2):
            u[1] += [[1, r, 2] + d(1, [], 0) + [sub], [1, r, 1] + (d(2, [1], 0) if sub or not r else d(1, [1], 0)) + [sub]] + ([] if q else [[1, r, 2] + (d(3, [1, 1], 0) if sub or not r else d(3, [], 0)) + [sub]])
            u[2] += [[1, r, 1] + d(1, [], 0) + d(1, [1], 0) + [sub]] + ([] if q else [[1, r, 2] + d(2, [], 0) + d(2, [], 0) + [sub]])
            u[1] += [[1, r, 4] + d(1, [], 0) + [sub + 10]] + [[1, r, 5] + d(1, [], 0) + [sub + 30]] + ([[1, r, 6] + d(1, [], 0) + [sub + 20]] if sub == 1 else [])
            u[1] += [[1, r, 1] + d(2, [], 0) + [sub + 20]]
            u[3] += [] if q else [[1, r, 1] + d(1, [], 0) + d(1, [], 0) + d(1, [], 0) + [sub]]
        u[1] += [[0, r, 5] + d(1, [])]
    return [unit("eq%d" % k, "EQ", B, v, defs=V(k)) for k, v in u.items() if v]


PROPS["C14"] = dict(units=c14, assumptions=[REAL, GAPA, "AreEqual: tolerance in [1e-12, 4], one knot, coordinate or weight differs by up to 8; AreGeometricallyEqual: tolerance 1e-9, 1e-6, 1/8 and 2"],
                    outside=["several simultaneous differences", "deviations between the sample parameters of AreGeometricallyEqual"],
                    explanation="A spline and a copy with one symbolic difference (every knot, coordinate and weight in turn): the answer must be yes exactly within the tolerance and symmetric; different degrees, point counts or dimensions must give no; the same geometry with inserted knots or raised degree must be geometrically equal, translated or locally moved geometry must not.",
                    bounds="dimension 1..3, degree 1..3, up to 2 interior breakpoints, point dimension 1..6")


# ---------------------------------------------------------------- C22: projection
def c22(tier):
    q = tier == "quick"
    u = {1: [], 2: []}
    for el in (0, 1):
        for ins in (0, 1):
            for kv in (0, 1, 2, 3, 4):
                if not (el and ins and kv == 1 and q):
                    u[1].append([0, 2, el, ins, kv, 0, 3, 0])
                    u[1].append([0, 3, el, ins, kv, 1, 7, 0])
    u[1] += [[0, 2, 0, 0, k, 9, 3, i] for k in (0, 1) for i in (0, 1)] + [[0, 1, 0, 0, 1, 9, 1, 0], [0, 3, 0, 0, 2, 9, 7, 0]]
    for a, b in ((0, 2), (2, 0), (1, 3), (4, 1)):
        u[2] += [[0, 3, 0, 0, a, b, f, 7, 1] for f in (0, 1)] + [[0, 3, e, i, a, b, 2, 1 << j, 0] for j in range(3) for e, i in ((0, 0), (1, 0), (2, 1), (0, 2)) if not q or (a * b not in (3, 4) and (j == 1 or (e + i == 0 and (j == 2) == (a == 0))))]
    if not q:
        u[2] += [[0, 3, 3, 0, 0, 2, 1, 7, 1], [0, 3, 0, 3, 2, 3, 1, 7, 1], [0, 3, 0, 0, 2, 4, 0, 7, 0], [0, 3, 0, 0, 3, 0, 1, 3, 0]]
    for r in (0, 1):
        u[1] += [[1, 0, r, pd] + d(*x, 0) for pd in (2, 3) for x in ((1, []), (1, [1]), (2, []), (2, [1]), (2, [2, 1]), (3, []), (3, [1]), (3, [2, 1]))]
        u[2] += [[1, 0, r, 3] + d(1, [], 0) + d(2, [], 0), [1, 0, r, 3] + d(2, [], 0) + d(1, [1], 0), [1, 0, r, 3] + d(2, [1], 0) + d(2, [], 0)]
    u[2] += [[1, 0, 0, 3] + d(1, [], 4) + d(2, [], 4)]
    return [unit("proj%d" % k, "PROJ", B, v, defs=V(k)) for k, v in u.items()]


PROPS["C22"] = dict(units=c22, assumptions=[REAL, "tangents do not vanish and are linearly independent where the iteration evaluates them"],
                    outside=["convergence of the iteration on curved splines", "degenerate tangents"],
                    explanation="The point to project is symbolic (for lines also the line and its knot range); on straight lines and rectangles in every listed representation the result is compared with the exact closest point (first order conditions at the result); on curved splines with a tolerance met after one step the result must lie in the domain.",
                    bounds="lines in 1..3 space dimensions, rectangles in space, degree elevated or knot inserted in either direction, five knot ranges per direction; curves of degree 1..3 and surfaces of degree 1..3, B-spline and NURBS")


# ---------------------------------------------------------------- C23: generated surfaces
def c23(tier):
    q = tier == "quick"
    cfg = []
    D = [(1, []), (2, []), (1, [1]), (2, [1]), (3, [])] + ([] if q else [(3, [2]), (2, [1, 2])])
    for a in D:
        for b in D:
            cfg += [[0, 1, 1, 3] + d(*a) + d(*b), [0, 1, 0, 2] + d(*a) + d(*b)]
    for tr in range(7):
        p = 1 if tr < 4 else 2 if tr < 6 else 3
        for kv in (0, 1, 2):
            for nb in range(p + 1, p + (3 if q else 5)):
                for x in (((1, []), (2, [1])) if q else ((1, []), (2, [1]), (3, []), (1, [1, 1]))):
                    cfg.append([1, tr, kv, nb] + d(*x, 0))
    cfg += [[1, tr, kv, nb] + d(1, [], 0) for tr, kv, nb in ((0, 0, 14), (4, 1, 15), (6, 2, 16), (1, 3, 12), (5, 3, 12))]
    return [unit("surf", "SURF", ["baf", "spl"], cfg)]


PROPS["C23"] = dict(units=c23, assumptions=[REAL, GAPA, "sweep: sampled trajectories with a constant symbolic weight; square roots are exact"],
                    outside=["sweeps along a straight trajectory parallel to the z axis (no normal is defined)", "trajectories other than the listed ones"],
                    explanation="Translation surface: knots, points and weights of both curves and both parameters symbolic; the surface point must be the sum of the curve points. Sweep: section, scaling, trajectory weight and trajectory knot range symbolic; every row of control points must be the scaled section moved rigidly to its trajectory point with the first axis along the tangent.",
                    bounds="curves of degree 1..3 with up to one (thorough: two) interior breakpoints; seven trajectories of degree 1..3, up to p+2 (thorough p+4) stations")


# ---------------------------------------------------------------- C21: conversion
def c21(tier):
    q = tier == "quick"
    x1, x2, x3, x4 = [(1, [], 0)], [(1, [], 0)] * 2, [(1, [], 0)] * 3, [(1, [], 0)] * 4
    L = {0: [sp((0, 2, x1), (1, 3, x2), (0, 3, x1)), sp((1, 3, x2), (0, 3, [(2, [], 0)]))],
         1: [sp((0, 2, x1), (1, 3, x2), (0, 3, x3)), sp((0, 2, x2), (1, 3, x3), (0, 3, x1))],
         2: [sp((1, 2, x4), (0, 3, x1), (1, 3, x2), (0, 3, x3)), sp((1, 3, x1), (0, 3, x3), (0, 3, x4))]}
    cfg = []
    for i in (0, 1, 2):
        for o in (0, 1, 2, 3):
            for l in L[i]:
                for second in (0, 1, 2):
                    if not q or second != 2 or l is L[i][0]:
                        cfg.append([0, i, o, 0, 2 if second == 0 else 1, second, 2] + l)
                if i != o:
                    cfg += [[1, i, o, 0, 2, v, 2] + l for v in range(4)]
            cfg.append([0, i, o, 0, 1, 0, 2] + sp(*[(k % 2, 2 + k % 2, x1) for k in range(12)]))
            if i != o:
                cfg.append([1, i, o, 0, 1, 3, 2] + sp(*[(k % 2, 2 + k % 2, x1) for k in range(12)]))
                cfg += [[1, i, o, 0, 0, v, 2] + L[i][0] for v in (4, 6)]
            cfg.append([2, i, o, 0, 0, 0, 1] + (sp((0, 2, x1)) if o == 3 else sp((0, 3, x1), (1, 3, x2))))
    if not q:
        for i in (0, 1, 2):
            for o in (0, 1, 2, 3):
                cfg += [[0, i, o, v, 2, 1, 2 if o == 3 else 6] + L[i][1] for v in (0, 3)]
                cfg.append([0, i, o, 0, 3, 0, 2] + L[i][0])
                if i != o:
                    cfg += [[1, i, o, 0, 3, v, 2] + L[i][0] for v in (0, 3)]
    return [unit("conv", "CONV", IOC + ["exe"], cfg)]


PROPS["C21"] = dict(units=c21, assumptions=RTA, outside=["log files of another layout than PrintHelp describes (with and without blank lines)", "inputs that are not files of the library's formats"],
                    explanation="A list of splines is written to a real input file, converted by IOConverter or the command line tool (its main function with a log file), and the output is read back and compared with the selected input splines; positions, file names and log layouts are explored exhaustively, a few printed numbers are symbolic.",
                    bounds="all 12 format pairs of IOConverter and all 9 tools, lists of 2..4 splines of dimension 1..4 (and of 12 curves with one position), up to 2 (thorough 3) requested positions including invalid, repeated and unsuitable ones, one repeated conversion, 7 x 15 file names")


# ---------------------------------------------------------------- C15: multi-index handler
def c15(tier):
    q = tier == "quick"
    ops = "start at inc post dec plus minus set diff flat flatof length extract".split()
    cfg = []
    for D in (1, 2, 3, 4):
        for o, n in enumerate(ops):
            L = 1000 if D < 4 else 100
            for k in range(D) if n == "extract" else (range(4 if q else 6 if D < 3 else 5) if n in ("plus", "minus") else (0,)):
                if n == "set":
                    cfg += [[D, o, 0, l] for l in {1: (4, 8), 2: (2, 3), 3: (2,), 4: ()}[D] + (() if q else {1: (16,), 2: (4,), 3: (), 4: ()}[D])]
                else:
                    cfg.append([D, o, k, L])
    for l in [(3, 2, 4), (2, 4, 3), (2, 2, 3, 2), (2, 3, 1, 2), (3, 1, 2, 2), (1, 2, 2, 3)] + ([] if q else [(2, 3, 2, 2), (3, 2, 2, 3), (4, 3, 5)]):
        cfg.append([len(l), ops.index("set"), 0, max(l)] + list(l))
    return [unit("mih", "MIH", ["irx"], cfg)]


PROPS["C15"] = dict(units=c15, assumptions=["indices start inside the lengths; lengths are positive", "int arithmetic does not overflow within the bounds (checked by interval analysis)"],
                    outside=["directions of length zero", "index values outside the lengths"],
                    technique="symbolic execution of the LLVM IR of the handler over mathematical integers (irx.py), path conditions and assertions decided by Z3, counterexamples replayed on the compiled code",
                    explanation="Lengths, current index and the flat index are symbolic integers; every operation is executed symbolically from the compiler's IR and its result compared with the arithmetic definition (mixed radix numbers, first direction fastest).",
                    bounds="dimension 1..4, lengths up to 1000 (100 in dimension 4), steps of up to 3 (thorough 5); setting a flat index: lengths up to 8, 3, 2 in dimension 1, 2, 3")


# ---------------------------------------------------------------- C24: generators
def c24(tier):
    q = tier == "quick"
    u = {1: [], 2: [], 3: []}
    for p in (1, 2, 3, 4, 5, 6) + (() if q else (7,)):
        for n in range(2 * p + 2, 2 * p + (8 if p < 4 else 5 if q else 9)):
            u[1].append([0, p, n])
    for r in (0, 1):
        u[1] += [[1, r, 1] + d(p, m) for p, m in ((0, []), (0, [1]), (1, []), (1, [1]), (1, [2, 1]), (2, [1, 2]), (2, [3]), (3, [1, 3, 2]), (4, [2, 4, 1, 1]))]
        u[2] += [[1, r, 2] + d(1, [1]) + d(3, [2, 1]), [1, r, 2] + d(2, [1, 2]) + d(1, [])]
        u[3] += [[1, r, 2] + d(1, []) + d(2, [2]) + d(1, [1, 1])]
        u[1] += [[2, r, k, pd, 0] for k in (1, 2, 3) for pd in (1, 3)] + [[2, r, 4, 2, 0], [2, r, 6, 1, 0], [2, r, 2, 4, 0]]
        u[2] += [[2, r, 1, 2, 0], [2, r, 2, 1, 0]] + ([] if q else [[2, r, 2, 3, 0], [2, r, 3, 1, 1]])
        u[3] += [[2, r, 1, 1, 0]] + ([] if q else [[2, r, 2, 1, 1]])
    return [unit("gen%d" % k, "GEN", ["baf", "spl"], v, defs=V(k)) for k, v in u.items()]


PROPS["C24"] = dict(units=c24, assumptions=[REAL, GAPA, "a random number is any number of the requested range (the distribution is not part of the claim)"],
                    outside=["statistical properties of the random numbers"],
                    explanation="Square: evaluation parameters symbolic in every span. Elements: breakpoints symbolic. Random splines: every random draw is a symbolic real or an explored choice, the limits are symbolic.",
                    bounds="square: degree 1..6 (thorough 7), up to 5 interior knots (2 for degree 4..6); elements: dimension 1..3, degree 0..4; random splines: dimension 1..3, maximal degree 6 (2, 1 in dimension 2, 3; thorough 3, 2)")


# ---------------------------------------------------------------- C25: points, vectors, accessors
def c25(tier):
    q = tier == "quick"
    u = {1: [], 2: [], 3: [], 4: []}
    u[1] += [[0, n] for n in range(1, 6)] + [[1]] + [[2, n] for n in range(1, 6)] + [[3, n, k] for n in (0, 1, 3) for k in (0, 1, 2)]
    for r in (0, 1):
        u[1] += [[4, 1, 1, r, 1] + d(1, []), [4, 1, 1, r, 2] + d(1, []), [4, 0, 1, r, 3] + d(2, [1])] + [[4, k, k, r, 2] + d(2, [1]) for k in range(2, 6)]
        u[2] += [[4, k, k, r, 3] + d(1, []) + d(2, [], 0) for k in range(2, 8)]
        u[3] += [[4, k, k, r, 2] + d(1, [], 0) + d(1, []) + d(1, [1], 0) for k in range(2, 14)]
        u[4] += [[4, k, k, r, 2] + d(1, [], 0) + d(1, []) + d(1, [], 0) + d(1, [], 0) for k in range(2, 18)]
        u[1] += [[6, r, 2] + d(2, [1], 0)]
        u[2] += [[6, r, 2] + d(1, [], 0) + d(2, [], 0), [6, r, 1] + d(1, [1], 0) + d(1, [], 0)]
        u[3] += [[6, r, 1] + d(1, [], 0) + d(1, [1], 0) + d(1, [], 0)]
        u[4] += [[6, r, 1] + d(1, [], 0) + d(1, [], 0) + d(1, [], 0) + d(2, [], 0)]
    u[1] += [[5, pd] + d(1, [], 0) for pd in (1, 2, 3)] + [[5, 2] + d(1, [1], 0)]
    u[2] += [[5, 1] + d(1, [], 0) + d(1, [], 0)]
    return [unit("vec%d" % k, "VEC", B, v, defs=V(k)) for k, v in u.items()]


PROPS["C25"] = dict(units=c25, assumptions=[REAL, GAPA, "square roots are exact"], outside=["points of different dimensions in one operation"],
                    explanation="All operands are symbolic reals; every operation's result is compared with its definition; accessors and setters of splines and physical spaces with the data they were built from, at every index.",
                    bounds="points and vectors of dimension 1..5; splines of dimension 1..4, up to 16 points; filtering up to 2 positions from up to 3 entries")


# ---------------------------------------------------------------- C26: histories
def c26(tier):
    q = tier == "quick"

    def ops(*o):
        return [len(o)] + [x for y in o for x in y]
    I, R, E, D, X, C, Y, Q, N = range(9)
    u = {1: [], 2: [], 3: []}
    for r in (0, 1):
        S, H = [1, 1, r, 1], [1 - r, 0, r, 1]
        k = 1 - r
        y = (Y, 0, k, 0)
        u[1] += [S + d(3, [0, 1, 0], 1) + o for o in (
            ops((I, 0, 1, 1), (Q, 0, 0, 0), (I, 0, 3, 2), (R, 0, 1, 2)), ops((I, 0, 1, 1), (C, 0, 2, 0), (I, 0, 1, 1)), ops((C, 0, 2, 1), (I, 0, 3, 2), y))]
        u[1] += [S + d(2, [0, 1, 0], k) + o for o in (ops((I, 0, 3, 1), (C, 0, 1, 1), y, (R, 0, 2, 3)), ops((C, 0, 2, 1), (C, 0, 3, 0), (Q, 0, 0, 0)), ops((C, 0, 2, 0), (I, 0, 1, 1), (C, 0, 1, 1)))]
        u[1] += [H + d(p, m, 0) + o for p, m, o in (
            (2, [0, 1], ops((E, 0, 0, 0), (I, 0, 1, 2), (Y, 0, 1, 0), (X, 0, 1, 2), (D, 0, 0, 0))),
            (2, [0, 1], ops((I, 0, 1, 1), (E, 0, 0, 0), (E, 0, 0, 0), (D, 0, 0, 0), (D, 0, 0, 0), (X, 0, 1, 1))),
            (2, [0, 1], ops((I, 0, 1, 1), (E, 0, 0, 0), (C, 0, 2, 0), (E, 0, 0, 0), (Q, 0, 0, 0), (D, 0, 0, 0), (D, 0, 0, 0))),
            (3, [0, 1, 0], ops((I, 0, 1, 2), (I, 0, 3, 1), (X, 0, 1, 1), (I, 0, 2, 1), (X, 0, 3, 1), (N, 0, 3, 0), (X, 0, 2, 1), (X, 0, 1, 1), (N, 0, 1, 0))),
            (1, [1, 0], ops((E, 0, 0, 0), (I, 0, 2, 1), (E, 0, 0, 0), (D, 0, 0, 0), (X, 0, 2, 1), (D, 0, 0, 0), (I, 0, 2, 1))),
            (4, [1, 2], ops((C, 0, 1, 1), (E, 0, 0, 0), (D, 0, 0, 0), (C, 0, 2, 0), (E, 0, 0, 0))),
            (3, [3, 0], ops((E, 0, 0, 0), (C, 0, 1, 1), (Y, 0, 1, 0), (I, 0, 2, 3), (X, 0, 2, 2), (Q, 0, 0, 0))))]
        u[2] += [S + d(2, [0], 1) + d(1, [0], 1) + ops((I, 0, 1, 1), (I, 1, 1, 1), (I, 0, 1, 1))] if r == 0 else []
        u[2] += [S + d(2, [0], 0) + d(1, [0], 0) + o for o in (ops((I, 0, 1, 1), (I, 1, 1, 1), (I, 0, 1, 1)), ops((C, 0, 1, 0), (C, 1, 1, 1), (Y, 1, k, 0)), ops((I, 1, 1, 1), (C, 0, 1, 1), (C, 1, 1, 0), (Q, 0, 0, 0)))]
        u[2] += [H + a + o for a, o in (
            (d(2, [0], 0) + d(2, [0], 3), ops((I, 0, 1, 1), (I, 1, 1, 1), (E, 0, 0, 0), (E, 1, 0, 0), (D, 0, 0, 0), (D, 1, 0, 0), (X, 0, 1, 1), (X, 1, 1, 1))),
            (d(2, [0], 0) + d(1, [0], 3), ops((C, 0, 1, 0), (E, 1, 0, 0), (C, 1, 1, 1), (E, 0, 0, 0))),
            (d(1, [1], 3) + d(3, [0], 0), ops((I, 1, 1, 2), (E, 0, 0, 0), (Y, 1, 1, 0), (X, 1, 1, 2), (N, 1, 1, 0), (D, 0, 0, 0))))]
        u[3] += [H + d(1, [], 3) + d(2, [0], 0) + d(1, [0], 3) + ops((I, 1, 1, 1), (E, 0, 0, 0), (I, 2, 1, 1), (X, 1, 1, 1), (D, 0, 0, 0), (X, 2, 1, 1)),
                 [1 - r, 0, r, 1] + d(1, [], 3) + d(2, [0], 0) + d(1, [0], 3) + ops((C, 1, 1, 1), (I, 2, 1, 1), (C, 2, 1, 0), (Q, 0, 0, 0)),
                 H + d(1, [0], 3) + d(1, [0], 0) + d(1, [], 3) + ops((E, 2, 0, 0), (C, 0, 1, 1), (I, 1, 1, 1), (Y, 2, 1, 0), (E, 1, 0, 0))]
        if not q:
            ks = ops((I, 0, 1, 1), (E, 0, 0, 0), (I, 0, 2, 1), (D, 0, 0, 0)), ops((E, 0, 0, 0), (C, 0, 1, 0), (D, 0, 0, 0), (E, 0, 0, 0), (E, 0, 0, 0))
            u[1] += [[2, 0, r, 2] + d(2, [1, 1], 0) + ks[1], [1 - r, 0, r, 1] + d(3, [1, 0, 0], 0) + ops((R, 0, 2, 3), (E, 0, 0, 0), (C, 0, 2, 0), (E, 0, 0, 0), (D, 0, 0, 0), (I, 0, 1, 1))]
    return [unit("hist%d" % k, "HIST", B, v, defs=V(k)) for k, v in u.items()]


PROPS["C26"] = dict(units=c26, assumptions=[REAL, GAPA, "weights in [1/64, 64]", "interior multiplicity at most the degree"], outside=[OUTV, "sequences other than the listed ones", "raising the degree of a spline after it was cut itself (multiplicity degree + 1)"],
                    explanation="A listed sequence of up to 9 operations is applied to one spline whose points, knots or parameter are symbolic; after each operation degree, knots and sizes are compared with the bookkeeping of the sequence, at the end every point with the reference of the first spline.",
                    bounds="about 40 sequences of 3 to 9 operations on B-splines and NURBS of dimension 1..3; insertions and cuts with symbolic points and weights, sequences with degree changes and removals of NURBS with fixed points and weights and symbolic parameter")


# ---------------------------------------------------------------- C27, C28: layout of the files
def form(modes, tier):
    q = tier == "quick"
    lists = [sp((0, 2, [(2, [1])]), (1, 3, [(1, [1])])), sp((1, 3, [(2, [1]), (1, [])]), (0, 2, [(1, []), (1, [1])])),
             sp((1, 2, [(3, [1, 2])])), sp((0, 3, [(1, [1]), (2, [])]), (0, 3, [(1, [])])), sp((1, 3, [(1, [])]), (1, 3, [(1, []), (1, [])]), (0, 2, [(2, [])])),
             sp((0, 1, [(1, [])]), (1, 1, [(2, [])]), (0, 2, [(1, [], 0), (2, [], 0)]), (1, 2, [(1, [1])]), (0, 3, [(1, [])])), sp((1, 3, [(4, [], 0), (2, [1], 0)]))]
    more = {0: [], 1: [sp((1, 3, [(1, [], 0), (1, []), (1, [])])), sp((0, 2, [(1, [], 0), (2, []), (1, [])]), (0, 1, [(1, [])])), sp((0, 3, [(1, [], 0), (1, [1], 0), (1, [], 0)]), (1, 2, [(1, [])])), sp((1, 4, [(1, [])]), (0, 4, [(1, []), (1, [])]))]}
    more[2] = more[1] + [sp((1, 2, [(1, [], 0)] * 4)), sp((0, 4, [(1, [1])]), (0, 1, [(1, [], 0)] * 4))]
    cfg = []
    for f in (0, 1, 2):
        for m in modes:
            for v in ((0, 1, 10) if q else (0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13, 14, 15)):
                cfg += [[m, f, v] + l for l in lists + more[f]]
            cfg += [[m, f, v] + l for l in large(f) for v in ((0,) if q else (0, 1, 2))]
    return [unit("form", "FORM", IOC, cfg + ([[3, 0, 0, 0]] if 0 in modes else []))]


PROPS["C27"] = dict(units=lambda t: form((0,), t), assumptions=RTA, outside=["contents of the IGES global section, closed and periodic flags", "sizes beyond the bounds"],
                    explanation="Knots, coordinates and weights are symbolic; the writer prints them as texts of symbolic digits into a real file, which the harness decodes by itself, following the format, and compares with the splines.",
                    bounds="lists of 1..5 (and 12) splines, B-spline and NURBS mixed, parametric dimension 1..2 (IGES), 1..3 (IRIT), 1..4 (XML), degree 1..4, up to two interior breakpoints, point dimension 1..4 (IGES 1..3)")
PROPS["C28"] = dict(units=lambda t: form((1, 2, 4), t), assumptions=RTA, outside=["malformed files", "layouts other than the listed ones"],
                    explanation="The harness writes files with symbolic knots, coordinates and weights in other layouts than the writers use; the reader parses them and the result is compared with the original.",
                    bounds="three layouts per format, lists of 1..5 (and 12) splines, B-spline and NURBS mixed, parametric dimension 1..2 (IGES), 1..3 (IRIT), 1..4 (XML), degree 1..4, up to two interior breakpoints, point dimension 1..4 (IGES 1..3)")
