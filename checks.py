"""Which translation units decide which property."""
ASAN = "address,undefined"

COMMON_RULE = ("Cases are generated from a seeded choice tape (sub-property name and VERIF_SEED); distinct means a distinct "
    "choice sequence; counts are measured in the run.")

def U(src, name=None, **kw):
    d = dict(src=src, name=name or src.rsplit(".", 1)[0]); d.update(kw); return d

def parts(src, ps, **kw):
    return [U(src, src[:-3] + "_%d" % p, defs=["PART=%d" % p], **kw) for p in ps]
CHECKS = {}
import gen_trees
def plus(f, more): return lambda tier, seed, bdir: f(tier, seed, bdir) + more
TREES = ("A case is a basis tree (fixed list covering all pairs of merging strategies and all leaf bases, plus trees generated from the seed, nesting depth up to 3), "
    "run-time orders and exponents, and a random mesh. Non-trivial: more than one element.")
CHECKS["C01"] = dict(units=plus(gen_trees.units(1), [U("others.cc", "others", defs=["CHECK=1"])]), rule=TREES)
CHECKS["C02"] = dict(units=plus(gen_trees.units(2), [U("others.cc", "others", defs=["CHECK=2"])]), rule=TREES)
CHECKS["C03"] = dict(units=plus(gen_trees.units(3), [U("others.cc", "others", defs=["CHECK=3"])]), rule=TREES)
FTREES = ("A case is a basis tree (fixed list covering all pairs of merging strategies and all leaf bases, plus trees generated from the seed, nesting depth up to 3) "
    "with a fitting range type, a random mesh, coefficients and points. Non-trivial: more than one element.")
CHECKS["C11"] = dict(units=gen_trees.units(11, cases=300), rule=FTREES)
CHECKS["C12"] = dict(units=gen_trees.units(12, cases=300), rule=FTREES)
CHECKS["C13"] = dict(units=plus(gen_trees.units(13, cases=300), [U("c13.cc", "c13_%d" % p, defs=["PART=%d" % p]) for p in (1, 2)]), rule=FTREES)
CHECKS["C17"] = dict(units=gen_trees.units(17, cases=200), rule=FTREES)
CHECKS["C20"] = dict(units=gen_trees.units(20, cases=300), rule=TREES)
CHECKS["C28"] = dict(units=gen_trees.units(28, cases=200), rule=TREES)
CHECKS["C04"] = dict(
    units=[U("c04_2.cc"), U("c04_3.cc"), U("c04_5.cc"), U("c04_4.cc", "c04_4_3", defs=["PART=3"]), U("c04_4.cc", "c04_4_4", defs=["PART=4"]),
           U("c04_1.cc"), U("c04_4.cc", "c04_4_1", defs=["PART=1"]), U("c04_4.cc", "c04_4_2", defs=["PART=2"])],
    rule="A case is a random conforming mesh (element types, grading, holes, numbering, ids, local vertex order) and an order; non-trivial: more than one element and order > 0.")
CHECKS["C06"] = dict(units=parts("c06.cc", [2, 3, 4, 1, 5]),
    rule="A case is a random conforming affine mesh and a vector-valued basis of fixed order; all basis functions and all interior facets are checked. Non-trivial: more than one element.")
CHECKS["C07"] = dict(units=parts("c07.cc", [2, 1]),
    rule="A case is a random conforming affine mesh; all basis functions and all interior facets are checked. Non-trivial: more than one element.")
CHECKS["C05"] = dict(units=parts("c05.cc", [3, 4, 2, 1]),
    rule="A case is a random mesh (also of mixed element types) and an order; all elements and DOFs are checked. Non-trivial: more than one element.")
CHECKS["C08"] = dict(units=parts("c08.cc", [1, 2]),
    rule="A case is a random graded simplex mesh and a random polynomial; all facets and elements are checked. Non-trivial: more than one element.")
CHECKS["C09"] = dict(units=parts("c09.cc", [1, 2]),
    rule="A case is a random graded triangle mesh and a random polynomial; all facets and elements are checked. Non-trivial: more than one element.")
CHECKS["C10"] = dict(units=parts("c10.cc", [1, 2, 3, 4, 5]),
    rule="A case is a random conforming mesh and a random affine (or quadratic) function; all facets and elements are checked. Non-trivial: more than one element.")
CHECKS["C14"] = dict(units=[U("c14.cc")],
    rule="A case is a dimension, an order, a knot vector (uniform or graded, open or not) and an element numbers; all functions on all elements are checked at random points. Non-trivial: order > 0 and more than one knot span.")
ALBERTA = dict(flags=["-DHAVE_ALBERTA=1", "-DALBERTA_DIM=2", "-DHAVE_STDBOOL_H"], prelibs=["-L/opt/dune/venv/lib", "-ldunealbertagrid2d"], libs=["-lalberta_2d", "-lalberta_utilities"])
CHECKS["C15"] = dict(units=plus(gen_trees.units(15, cases=150, allcur=False), [U("c15.cc", "c15_1", defs=["PART=1"]), U("c15.cc", "c15_2", defs=["PART=2"], **ALBERTA), U("c15.cc", "c15_3", defs=["PART=3"])]),
    rule="A case is a basis and a history of grid changes and updates (random meshes exchanged in place, other grids, refined and coarsened OneDGrid, AlbertaGrid and YaspGrid, level views). Non-trivial: the grid changed at least once.")
CHECKS["C18"] = dict(units=parts("c18.cc", [1, 2, 3]),
    rule="A case is a raw basis on a random mesh and a list of identifications (random, chains, stars, duplicates, opposite sides). Non-trivial: at least two DOFs are identified.")
CHECKS["C19"] = dict(units=plus(gen_trees.units(19, cases=120, allcur=False), [U("c19.cc")]),
    rule="A case is a random mesh, a random subset of its elements in a random order of insertion, and (for bases) a basis tree. Non-trivial: neither empty nor everything.")
CHECKS["C27"] = dict(units=parts("c27.cc", [2, 1]),
    rule="A case is a random mesh and a history of grid changes and updates, for flat or hybrid velocity indices. Non-trivial: more than one element.")
CHECKS["C16"] = dict(units=parts("c16.cc", [1, 2, 3, 4, 5, 6], san=ASAN),
    rule="A case is a history of construct, bind, unbind, copy, move, assign, swap and destroy operations on four local views or local functions over two sources. Non-trivial: at least one copy, move, assignment or swap.")
CHECKS["C21"] = dict(units=parts("c21.cc", [1, 2], san=ASAN) + [U("c21.cc", "c21_3", defs=["PART=3"], **ALBERTA)],
    rule="A case is a random element hierarchy (synthetic, YaspGrid, OneDGrid, AlbertaGrid), coarse and fine grid views and random points. Non-trivial: at least one fine element is not a coarse element.")
CHECKS["C22"] = dict(units=parts("c22.cc", [1, 2]),
    rule="A case is a random mesh, random analytic functions and a history of binding. Non-trivial: more than one element.")
CHECKS["C23"] = dict(units=[U("c23.cc", scale=10)],
    rule="A case is a random polynomial over a random coefficient container and scalar type, and random points. Non-trivial: degree at least one.")
CHECKS["C24"] = dict(units=parts("c24.cc", [1, 2, 3], san=ASAN),
    rule="A case is a history of construct, copy, move, assign, swap, modify and destroy operations, with exceptions thrown while copying, on four type-erased objects holding values of different size, alignment and base class position. Non-trivial: at least two copies, moves, assignments or swaps.")
CHECKS["C25"] = dict(units=parts("c25.cc", [1, 2, 3], san=ASAN, scale=3),
    rule="A case is a history of push, pop, resize, write, copy and clear operations on two containers (or a list of multi-indices). Non-trivial: at least two operations at the front or one copy.")
import gen_vectors
CHECKS["C26"] = dict(units=plus(gen_vectors.units, [U("c26.cc", san=ASAN)]),
    rule="A case is a nested container (fixed list and types generated from the seed, nesting depth up to 5, static, dynamic and tuple-like levels) of random sizes; all scalar entries are addressed. Non-trivial: more than one scalar.")
CHECKS["C29"] = dict(units=parts("c29.cc", [3, 2, 1, 4], scale=3),
    rule="A case is a random mesh, a random number of degrees of freedom per geometry type, a finite element listing them in random order, and a history of grid changes and updates. Non-trivial: more than one element.")
CHECKS["C30"] = dict(units=[dict(name="python", prepare="prep", scale=2)],
    technique="stateful property-based testing against the C++ library with shrinking",
    rule="A case is a function space described in Python, a structured grid, and a history of operations on Python objects (local views, nodes, functions, coefficient arrays, other grid views, dropped references). Non-trivial: several local views, a dropped owner or another grid view, or a grid with more than one element.")
