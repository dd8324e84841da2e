"""Generates C++ translation units with random basis trees."""
import os, random
VERIF = os.path.dirname(os.path.abspath(__file__))
CASES = 400
IMSC = {"BL": "blockedLexicographic()", "BI": "blockedInterleaved()", "FL": "flatLexicographic()", "FI": "flatInterleaved()"}

# leaves: (factory expression, needs run-time order)
def leaves(dim, kind):
    l = ["lagrange<1>()", "lagrange<2>()", "lagrange(K)", "lagrangeDG<1>()", "lagrangeDG(K)", "lagrange<0>()", "lagrange<3>()", "lagrangeDG<0>()"]
    if kind == "cube" and dim == 3: l += ["rannacherTurek()", "raviartThomas<0>()", "raviartThomas<1>()", "nedelec<1,1,double>()"]
    if dim == 2:
        l += ["rannacherTurek()", "raviartThomas<0>()"]
        if kind == "simplex": l += ["brezziDouglasMarini<1>()", "brezziDouglasMarini<2>()", "raviartThomas<1>()", "nedelec<1,1,double>()", "hierarchicalLagrange<2>()", "hierarchicalP2B()", "hierarchicalP1B()",
                                    "morley()", "argyris()", "cubicHermite()", "reducedCubicHermite()", "refinedLagrange<1>()", "refinedLagrange<0>()"]
        if kind == "cube": l += ["raviartThomas<1>()", "nedelec<1,1,double>()", "brezziDouglasMarini<1>()"]
    if dim == 1: l += ["cubicHermite()", "refinedLagrange<1>()"]
    return l

class Tree:
    # node: ("leaf", expr, id) | ("power", child, n, ims) | ("dyn", child, id, ims) | ("comp", [children], ims)
    def __init__(self, node): self.node = node; self.ids = 0

VEC = ("raviartThomas", "nedelec", "brezziDouglasMarini")
DERIV = ("morley", "ubicHermite")
def rng(n, dim, r):
    """a range type that fits the tree: (C++ type, kind)"""
    k = n[0]
    if k == "restr": return rng(n[1], dim, r)
    if k == "leaf":
        if n[1].startswith(VEC): return "FieldVector<double,%d>" % dim, ("v", dim)
        return ("double", "s") if r.random() < 0.7 or any(d in n[1] for d in DERIV) else ("FieldVector<double,1>", ("v", 1))
    if k in ("power", "dynfix"):
        t, c = rng(n[1], dim, r); m = n[2]
        if c == "s": return ("FieldVector<double,%d>" % m, ("v", m)) if r.random() < 0.7 or any(d in name(n) for d in DERIV) else ("std::array<double,%d>" % m, "o")
        if c[0] == "v" and r.random() < 0.5: return "FieldMatrix<double,%d,%d>" % (m, c[1]), "o"
        return "std::array<%s,%d>" % (t, m), "o"
    cs = [rng(c, dim, r) for c in n[1]]
    if all(c == "s" for _, c in cs) and r.random() < 0.3: return "FieldVector<double,%d>" % len(cs), ("v", len(cs))
    return "TupleVector<%s>" % ",".join(t for t, _ in cs), "o"

def fixdyn(n, r):
    """run-time exponents that are known to the generator"""
    k = n[0]
    if k == "restr": return ("restr", fixdyn(n[1], r), n[2])
    if k == "leaf": return n
    if k == "comp": return ("comp", [fixdyn(c, r) for c in n[1]], n[2])
    if k == "dyn": return ("dynfix", fixdyn(n[1], r), r.choice([1, 2, 2, 3]), n[3])
    # std::array{x} in dune-common's TreeContainer drops a level of power<1>(power<n>)
    return ("power", fixdyn(n[1], r), 2 if n[2] == 1 and n[1][0] == "power" else n[2], n[3])

def factory(n):
    k = n[0]
    if k == "leaf": return n[1].replace("K", "p(%d,1,2)" % n[2])
    if k == "restr": return "Dune::Functions::Experimental::BasisFactory::restrict(%s, p.sub<SD>(%d))" % (factory(n[1]), n[2])
    if k == "power": return "power<%d>(%s, %s)" % (n[2], factory(n[1]), IMSC[n[3]])
    if k == "dyn": return "power(%s, p(%d,1,4), %s)" % (factory(n[1]), n[2], IMSC[n[3]])
    if k == "dynfix": return "power(%s, std::size_t(%d), %s)" % (factory(n[1]), n[2], IMSC[n[3]])
    return "composite(%s, %s)" % (", ".join(factory(c) for c in n[1]), IMSC[n[2]])
def model(n):
    k = n[0]
    if k == "leaf": return "mLeaf(gv,%s)" % factory(n)
    if k == "power": return "mPower(%s,%d,m%s)" % (model(n[1]), n[2], n[3])
    if k == "dyn": return "mPower(%s,p(%d,1,4),m%s)" % (model(n[1]), n[2], n[3])
    return "mComposite({%s},m%s)" % (",".join(model(c) for c in n[1]), n[2])
def name(n):
    k = n[0]
    if k == "leaf": return n[1].replace("()", "").replace("K", "k")
    if k == "restr": return name(n[1]) + "|S%d" % n[2]
    if k == "power": return "%s^%d[%s]" % (name(n[1]), n[2], n[3])
    if k == "dynfix": return "%s^%dn[%s]" % (name(n[1]), n[2], n[3])
    if k == "dyn": return "%s^n[%s]" % (name(n[1]), n[3])
    return "(%s)[%s]" % (" x ".join(name(c) for c in n[1]), n[2])
def restricted(n): return n[0] == "restr" or (n[0] == "comp" and any(map(restricted, n[1]))) or (n[0] not in ("leaf", "comp") and restricted(n[1]))
def count(n): return 1 if n[0] == "leaf" else count(n[1]) if n[0] != "comp" else sum(count(c) for c in n[1])

class G:
    def __init__(self, seed): self.r = random.Random(seed); self.id = 0
    def new(self): self.id += 1; return self.id
    def leaf(self, ls): return ("leaf", self.r.choice(ls), self.new())
    def tree(self, ls, depth):
        r = self.r
        if depth == 0 or r.random() < 0.12: return self.leaf(ls)
        k = r.choice(["power", "dyn", "comp", "comp", "power"])
        if k == "comp": return ("comp", [self.tree(ls, depth - 1) for _ in range(r.choice([1, 2, 2, 3]))], r.choice(["BL", "FL"]))
        ims = r.choice(["BL", "BI", "FL", "FI"])
        c = self.tree(ls, depth - 1)
        if k == "power": return ("power", c, r.choice([1, 2, 2, 3]), ims)
        return ("dyn", c, self.new(), ims)

def curated(g, part):
    """every pair of nested strategies, static and dynamic, with composites"""
    L1 = lambda: ("leaf", "lagrange<1>()", g.new()); L2 = lambda: ("leaf", "lagrange<2>()", g.new()); D = lambda: ("leaf", "lagrangeDG<1>()", g.new())
    out = []
    for i, a in enumerate(["BL", "BI", "FL", "FI"]):
        for j, b in enumerate(["BL", "BI", "FL", "FI"]):
            inner = ("power", L2() if i % 2 else L1(), 2, b) if (i + j) % 2 else ("dyn", L2() if i % 2 else L1(), g.new(), b)
            out.append(("dyn", inner, g.new(), a) if i % 2 else ("power", inner, 3 if j % 2 else 2, a))
        for b in ["BL", "FL"]:
            out.append(("power" , ("comp", [L2(), L1()], b), 2, a))
            out.append(("dyn", ("comp", [("power", L2(), 2, "BI" if b == "BL" else "FI"), L1()], b), g.new(), a))
    for a in ["BL", "FL"]:
        for b in ["BL", "BI", "FL", "FI"]:
            out.append(("comp", [("power", L2(), 2, b), D()], a))
            out.append(("comp", [L1(), ("dyn", D(), g.new(), b), ("power", L1(), 1, "BL")], a))
        out.append(("comp", [("comp", [L1(), D()], "BL"), ("comp", [L2(), L1()], "FL")], a))
    for b in ["BL", "BI", "FL", "FI"]: out.append(("power", L1(), 1, b))
    if part == 1:      # merging of children that differ at run time, or in type, twice
        for i, a in enumerate(["BL", "BI", "FL", "FI"]):
            for j, b in enumerate(["FL", "FI"]):
                inner = ("dyn", ("comp", [L1(), L2()] if i % 2 else [L2(), L1(), D()], "BL"), g.new(), b)
                out.append(("dyn", inner, g.new(), a) if (i + j) % 2 else ("power", inner, 2 + i % 2, a))
            out.append(("power", ("comp", [("power", L2(), 2, "BI"), L1()], "BL"), 2 + i % 2, a))
        for a in ["FL", "FI"]: out.append(("power", ("power", ("comp", [L1(), D()], "BL"), 2, a), 3, "FI" if a == "FL" else "FL"))
    return out

def addrestrict(n, r, depth=0):
    """restricts some nodes of a tree to sub-domains (not inside of restricted ones)"""
    if r.random() < (0.35 if depth else 0.2): return ("restr", n, r.randrange(2))
    if n[0] == "comp": return ("comp", [addrestrict(c, r, depth + 1) for c in n[1]], n[2])
    if n[0] in ("power", "dyn"): return (n[0], addrestrict(n[1], r, depth + 1)) + n[2:]
    return n

def emit(path, check, dim, kind, trees, cases, prisms):
    with open(path, "w") as f:
        f.write('#define CHECK %d\n' % check)
        if check == 3: f.write("#define WITH_CONTAINERS 1\n")
        if kind != "mixed" and dim < 3: f.write("#define TREE_SIMPLEX 1\n")
        f.write('#include "trees%s.hh"\n' % ("_common" if check < 10 else "2"))
        rr = random.Random(path.rsplit("/", 1)[1])
        for i, t in enumerate(trees):
            if check >= 10: t = fixdyn(t, rr)
            f.write('struct Tree%d {\n  static const char* name() { return "%s"; }\n  static constexpr bool prisms=%s;\n' % (i, name(t), "true" if prisms and "lagrange<3>" not in name(t) else "false"))
            if check >= 10:
                nm = name(t); R, kd = rng(t, dim, rr)
                if check == 20 and rr.random() < 0.3: pass
                f.write("  using Range=%s;\n  static constexpr bool derivatives=%s, withDeriv=%s, positive=%s, affine=%s, oriented=%s;\n" % (R,
                    "true" if any(d in nm for d in DERIV + ("argyris",) * (check == 19)) else "false", "true" if kd == "s" or kd[0] == "v" else "false",
                    "true" if any(v in nm for v in VEC) else "false", "true" if any(v in nm for v in VEC + ("rannacher",)) else "false",
                    "true" if any(v in nm for v in VEC + DERIV + ("argyris",)) else "false"))
            if check >= 10: f.write("  static constexpr bool restricted=%s; using SD=Dune::Functions::Experimental::SubDomain<typename FuzzGrid<%d,%d,FuzzKind::%s>::LeafGridView>;\n" % ("true" if restricted(t) else "false", dim, dim, kind))
            f.write("  static auto factory(Params& p) { return %s; }\n" % factory(t))
            if check < 10: f.write("  template<class GV> static Model model(const GV& gv, Params& p) { return %s; }\n};\n" % model(t))
            if check >= 10: f.write("};\nPROPERTY(tree%d, %d) { runTree2<Tree%d,%d,FuzzKind::%s>(g); }\n" % (i, cases, i, dim, kind))
            else: f.write("PROPERTY(tree%d, %d) { runTree<Tree%d,%d,FuzzKind::%s>(g); }\n" % (i, cases, i, dim, kind))
        f.write('#include "main.hh"\n')

def units(check, cases=None, per=None, nrnd=6, allcur=True, allleaf=True, san=None):
    """check: number of the property; per: trees per translation unit"""
    cases = cases or CASES
    def f(tier, seed, bdir):
        out = []
        pr = per or (8 if check == 3 else 11)
        fun = check in (11, 12, 13, 17)            # needs functions on the trees
        def add(nm, dim, kind, trees, prisms=False):
            if not trees: return
            p = os.path.join(bdir, nm + ".cc"); emit(p, check, dim, kind, trees, cases, prisms)
            out.append(dict(src=p, name=nm, **({"san": san} if san else {})))
        def skip(e):
            if check in (11, 12) and "argyris" in e: return True       # needs second derivatives of the function
            return False
        g = G(4242)          # curated and leaf trees are the same in every run
        cur = curated(g, 1 if check < 10 else 0)
        if not allcur: cur = cur[::3]
        for i in range(0, len(cur), pr): add("cur%d" % (i // pr), 2, "mixed" if i // pr % 2 else "simplex", cur[i:i + pr])
        # leaf bases themselves
        k = 0
        for dim, kind in ((2, "simplex"), (2, "mixed"), (2, "cube"), (1, "simplex"), (3, "cube"), (3, "mixed"), (3, "simplex")):
            ls = [("leaf", e, g.new()) for e in leaves(dim, kind) if not skip(e)]
            if kind == "simplex" and dim == 2 and fun: ls += [("power", ("leaf", e, g.new()), 2, "BI") for e in ("morley()", "cubicHermite()")]
            if not allleaf: ls = [l for l in ls if l[1].startswith("lagrange(") or not l[1].startswith("lagrange")]
            for i in range(0, len(ls), 12): add("leaf%d" % k, dim, kind, ls[i:i + 12], True); k += 1
        # random ones depend on the seed
        r = G(seed * 7919 + 13)
        n = nrnd if tier == "quick" else 4 * nrnd
        grids = [(2, "simplex"), (2, "mixed"), (2, "cube"), (1, "simplex"), (3, "cube"), (2, "mixed"), (3, "mixed"), (3, "simplex")]
        for u in range(n):
            dim, kind = grids[u % len(grids)]
            ls = [e for e in leaves(dim, kind) if not skip(e) and not (fun and any(d in e for d in DERIV))]; trees = []
            while len(trees) < pr:
                t = r.tree(ls, r.r.choice([1, 2, 2, 3]))
                if t[0] != "leaf" and count(t) <= 6: trees.append(t)
            add("rnd%d" % u, dim, kind, trees)
            if check in (11, 12, 13, 17, 20) and (check == 20 or u < 3):
                some = [addrestrict(t, r.r) for t in trees]
                some = [t for t in some if restricted(t)][:8]
                add("restr%d" % u, dim, kind, some)
        return out
    return f
