"""C30: the Python bindings against the C++ library.  Histories of operations on
Python objects; the reference for all numbers is the same space built with the
C++ factories."""
import gc, os, sys, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from io import StringIO
from c30trees import SPACES, BYNAME, CHUNKS, reference_code
import pytape
if "--build" in sys.argv:
    # The start of every process waits for all running compilations, although the cache exists already.
    import dune.generator.cmakebuilder as cmb
    _lock = cmb.Lock
    cmb.Lock = lambda path, flags: _lock(path, flags=cmb.LOCK_SH if path.endswith("lock-module.lock") else flags)
import dune.grid, dune.generator.algorithm
import dune.functions as F

REF, GRIDS, DESC = {}, {}, {}
POINT = {2: [0.3, 0.6], 3: [0.3, 0.6, 0.2]}
TOL = 1e-9

def new_grid(cells):
    return dune.grid.structuredGrid([0] * len(cells), [1 + 0.5 * k for k in range(len(cells))], list(cells))

def grid(cells):
    if cells not in GRIDS: GRIDS[cells] = new_grid(cells)
    return GRIDS[cells]

def reference(dim, chunk):
    if (dim, chunk) not in REF:
        REF[dim, chunk] = dune.generator.algorithm.load("ref", StringIO(reference_code(dim, chunk)), grid((1,) * dim), 0, 0, np.zeros(1))
    return REF[dim, chunk]

def ref(space, cells, op, data):
    i = SPACES.index(space)
    return reference(space.dim, i % CHUNKS[space.dim])(grid(cells), i, op, np.array(data, dtype=float))

def described(space, cells):
    k = (space.name, cells)
    if k not in DESC: DESC[k] = ref(space, cells, 0, POINT[space.dim])
    return DESC[k]

def tree_of(space):
    return eval(space.py, {k: getattr(F, k) for k in ("Lagrange", "Nedelec", "RaviartThomas", "Power", "Composite")})

def build(space, gv):
    """list [root basis, sub basis, sub sub basis...]"""
    bs = [F.defaultGlobalBasis(gv, tree_of(space))]
    for args in space.sub: bs.append(F.subspaceBasis(bs[-1], *args))
    return bs

def close(a, b):
    a, b = np.atleast_1d(np.array(a, dtype=float)), np.atleast_1d(np.array(b, dtype=float))
    return a.shape == b.shape and np.all(np.abs(a - b) <= TOL * (1 + np.abs(b)))

def vec(v):
    try: return [float(v)]
    except (TypeError, ValueError): return [float(x) for x in v]

# ---------------------------------------------------------------- structure
def shape(t):
    """(kind, degree, children) of a tree description"""
    if isinstance(t, F.Power): return ("power", t.exponent, [shape(t.children[0])] * t.exponent)
    if isinstance(t, F.Composite): return ("composite", len(t.children), [shape(c) for c in t.children])
    return ("leaf", 0, [])

def space_shape(space):
    s = shape(tree_of(space))
    for args in space.sub:
        for k in args: s = s[2][k]
    return s

def leaves(s, path=()):
    if s[0] == "leaf": return [path]
    return [p for i, c in enumerate(s[2]) for p in leaves(c, path + (i,))]

def at(s, path):
    for k in path: s = s[2][k]
    return s

def check_node(g, space, d, ei, node, path, s):
    """a node (at path, with shape s) of a local view bound to element ei"""
    e = d["elements"][ei]
    ls = [l for l in e["leaves"] if tuple(l["path"][:len(path)]) == path]
    # a uniform composite is a power node for the library, hence only leaf or not leaf
    g.check(node.isLeaf == (s[0] == "leaf"), "isLeaf", node.isLeaf, path)
    if s[0] == "power": g.check(node.isPower and not node.isComposite, "power node at", path)
    if s[0] == "leaf": g.check(not node.isPower and not node.isComposite, "leaf at", path)
    if s[0] == "composite": g.check(node.isPower != node.isComposite, "composite node at", path)
    g.check(node.degree() == s[1], "degree", node.degree(), "of node", path)
    loc = [i for l in ls for i in l["localIndex"]]
    g.check(len(node) == len(loc) and node.size() == len(loc), "size of node", path, len(node), "expected", len(loc))
    for i in {0, len(loc) // 2, len(loc) - 1}:
        g.check(node.localIndex(i) == loc[i], "localIndex", i, "of node", path, node.localIndex(i), "expected", loc[i])
    if s[0] == "leaf":
        l = ls[0]
        g.check(node.treeIndex(0) == l["treeIndex"], "treeIndex of", path)
        fe = node.finiteElement()
        g.check(len(fe) == l["size"] and fe.localBasis.order == l["order"], "finite element of", path)
        v = fe.localBasis.evaluateFunction(POINT[space.dim])
        g.check(len(v) == l["size"] and all(close(vec(a), b) for a, b in zip(v, l["values"])), "shape functions of node", path, "on element", ei)

def walk(g, space, d, ei, node, path, s):
    check_node(g, space, d, ei, node, path, s)
    for i in range(s[1]): walk(g, space, d, ei, node.child(i), path + (i,), s[2][i])

def check_view(g, space, d, ei, lv, es):
    e = d["elements"][ei]
    g.check(len(lv) == e["size"] and lv.size() == e["size"], "size of local view", len(lv), "expected", e["size"])
    g.check(lv.maxSize() == e["maxSize"], "maxSize", lv.maxSize(), "expected", e["maxSize"])
    g.check(lv.element() == es[ei], "element of local view")
    got = [list(lv.index(i)) for i in range(len(lv))]
    g.check(got == e["index"], "indices on element", ei, got, "expected", e["index"])

def check_sizes(g, space, d, b):
    g.check(b.dimension == d["dimension"] and len(b) == d["dimension"], "dimension", b.dimension, len(b), "expected", d["dimension"])
    g.check(b.size() == d["size"], "size()", b.size(), "expected", d["size"])
    if space.sub: return
    idx = {tuple(i) for e in d["elements"] for i in e["index"]}
    g.check(len(idx) == d["dimension"], "reference is consistent")
    for p in {i[:k] for i in idx for k in range(len(i) + 1)}:
        n = len({i[len(p)] for i in idx if i[:len(p)] == p and len(i) > len(p)})
        g.check(b.size(list(p)) == n, "size of prefix", p, b.size(list(p)), "expected", n)

# ---------------------------------------------------------------- functions
def poly(a, x):
    return a[0] + a[1] * x[0] + a[2] * x[1] + a[3] * x[0] * x[1]

def py_function(g, space, a, threshold, mode):
    def comp(c, x):
        v = poly(a[4 * c:4 * c + 4], x)
        return bool(v > threshold) if mode == 1 else int(np.floor(v)) if mode == 2 else v
    if space.n == 1: return lambda x: comp(0, x)
    kind = g.draw(3) if mode == 0 else 1
    wrap = [tuple, list, np.array][kind]
    return lambda x: wrap([comp(c, x) for c in range(space.n)])

class Fun:
    def __init__(s, space, cells, fun, data, es): s.space, s.cells, s.fun, s.data, s.es, s.loc, s.bound = space, cells, fun, data, es, None, None

def new_array(g, n, dtype=float):
    """an array of the length, possibly a strided or reversed view of another one"""
    k = g.draw(4)
    if k == 0: return np.zeros(n, dtype=dtype)
    if k == 1: return np.zeros(2 * n, dtype=dtype)[::2]
    if k == 2: return np.zeros(n, dtype=dtype)[::-1]
    return np.zeros(n + 3, dtype=dtype)[2:n + 2]

def check_function(g, f):
    pts = [[(1 + g.draw(7)) / 8. for _ in range(f.space.dim)] for _ in range(2)]
    coef = [float(c) for c in f.data]
    ei = g.draw(len(f.es))
    how = g.draw(4)
    if how == 0:
        got = [f.fun(f.es[ei], p) for p in pts]
    elif how == 1:
        r = np.array(f.fun(f.es[ei], np.array(pts).T))
        got = list(r) if f.space.n == 1 else list(r.T) if r.shape[0] == f.space.n else list(r)
    else:
        if f.loc is None: f.loc = f.fun.localFunction()
        if f.bound is None or g.draw(2):
            f.bound = ei; f.loc.bind(f.es[ei]); f.coef = coef
        ei, coef = f.bound, f.coef      # a local function keeps the coefficients of its binding
        got = [f.loc(p) for p in pts]
    want = ref(f.space, f.cells, 1, [len(coef)] + coef + pts[0] + pts[1])
    for q, w in zip(got, want[ei]):
        g.check(close(vec(q), w), "function value on element", ei, vec(q), "expected", w)

def interpolate(g, space, cells, bases):
    b = bases[-1]
    n = len(b)
    mode = g.draw(3) if space.nodal and space.n == 1 else 0
    a = [g.value() for _ in range(4 * space.n)]
    threshold = g.value() + 0.0625
    x = new_array(g, n, [float, bool, np.int32][mode])
    before = [g.value() for _ in range(n)] if mode == 0 and space.sub else None
    if before: x[:] = before
    b.interpolate(x, py_function(g, space, a, threshold, mode))
    want = np.array(ref(space, cells, 2, [threshold, mode] + a))
    if space.sub:      # only the entries of the subspace are written
        own = sorted({e["index"][i][0] for e in described(space, cells)["elements"] for l in e["leaves"] for i in l["localIndex"]})
        full = np.array(before if before else np.zeros(n), dtype=float)
        full[own] = want[own]; want = full
    if mode == 2 or mode == 1: want = np.round(want)
    g.check(close(x, want), "interpolate", np.array(x), "expected", want)
    g.label(["double", "bool", "int"][mode])
    # an array that cannot be written to in place is an error, not ignored
    if g.draw(3) == 0:
        y = g.pick([np.zeros(n, dtype=np.int64), np.zeros(n, dtype=np.float32), [0.] * n])
        try:
            b.interpolate(y, py_function(g, space, a, threshold, 0))
        except TypeError: pass
        else:
            w = np.array(ref(space, cells, 2, [threshold, 0] + a))
            g.check(close(np.array(y, dtype=float), w), "interpolate into", type(y), "without effect and without error")
    return x

# ---------------------------------------------------------------- history
def history(spaces):
    def case(g):
        space = BYNAME[g.pick(spaces)]
        dim = space.dim
        cells = tuple(1 + g.draw(3 if dim == 2 else 2) for _ in range(dim))
        g.describe("%s on %s" % (space.name, cells)); g.label(space.name)
        sh = space_shape(space)
        gv = new_grid(cells)
        bases = build(space, gv)
        es = list(gv.elements)
        d = described(space, cells)
        del gv
        check_sizes(g, space, d, bases[-1])
        views, nodes, funs = [], [], []     # views: [lv, element, generation], nodes: [node, view, path]
        moved = 0
        for step in range(6 + g.draw(18)):
            op = g.draw(12)
            if op == 0 or not views and op < 5:
                views.append([bases[-1].localView(), None]); g.describe("view")
            if op <= 2 and views:
                v = g.pick(views); v[1] = g.draw(len(es)); v[0].bind(es[v[1]]); g.describe("bind %d" % v[1])
                g.nontrivial = g.nontrivial or len(views) > 1
            elif op == 3 and views:
                v = g.pick(views)
                if v[1] is not None: v[0].unbind(); v[1] = None; g.describe("unbind")
            elif op in (4, 5) and views:
                v = g.pick(views)
                path = ()
                node, s = v[0].tree(), sh
                while s[1] and g.draw(3):
                    k = g.draw(s[1]); node = node.child(k); path += (k,); s = s[2][k]
                nodes.append([node, v, path]); g.describe("node %s" % (path,))
            elif op == 6 and space.n and space.flat:
                data = new_array(g, len(bases[-1]))
                data[:] = [g.value() for _ in range(len(data))]
                b = bases[-1]
                f = b.asFunction(data) if g.draw(2) or not funs else type(funs[-1].fun)(b, data)
                funs.append(Fun(space, cells, f, data, es)); g.describe("function")
            elif op == 7 and funs:
                f = g.pick(funs)
                f.data[g.draw(len(f.data))] = g.value(); g.describe("write")
            elif op == 8 and space.n and space.flat:
                g.describe("interpolate")
                x = interpolate(g, space, cells, bases)
                if x.dtype == float: funs.append(Fun(space, cells, bases[-1].asFunction(x), x, es))
            elif op == 9:
                # forget objects others depend on
                what = g.draw(3)
                if what == 0 and len(bases) > 1: bases = bases[-1:]
                if what == 1 and views:
                    # the view is kept alive by its nodes only
                    v = g.pick(views)
                    views = [w for w in views if w is not v]
                    v[0] = None
                    g.nontrivial = True
                v = node = None
                gc.collect(); g.describe("forget")
            elif op == 10 and not space.sub and g.draw(2):
                cells = tuple(1 + g.draw(3 if dim == 2 else 2) for _ in range(dim))
                views, nodes, funs = [], [], []
                v = f = x = data = node = b = None
                gc.collect()
                gv = new_grid(cells)
                bases[-1].gridView = gv
                es = list(gv.elements); d = described(space, cells)
                del gv; gc.collect()
                moved += 1; g.nontrivial = True; g.describe("move to %s" % (cells,))
                check_sizes(g, space, d, bases[-1])
                g.check(bases[-1].gridView.size(0) == len(d["elements"]), "gridView after assignment")
            elif op == 11 and g.draw(4) == 0 and space.flat:
                g.describe("boundary")
                got = []
                F.forEachBoundaryDOF(bases[-1], lambda i: got.append(i))
                want = sorted({i[0] for i in ref(space, cells, 3, [])})
                g.check(sorted(set(got)) == want, "boundary DOFs", sorted(set(got)), "expected", want)
            # everything alive is as described
            for v in views:
                if v[1] is not None: check_view(g, space, d, v[1], v[0], es)
            for n in nodes:
                if n[1][1] is not None: check_node(g, space, d, n[1][1], n[0], n[2], at(sh, n[2]))
            if funs: check_function(g, g.pick(funs))
        g.label("moved %d" % moved)
    return case

def complete(spaces):
    """every element and every node of a space"""
    def case(g):
        space = BYNAME[g.pick(spaces)]
        cells = tuple(1 + g.draw(4 if space.dim == 2 else 2) for _ in range(space.dim))
        g.describe("%s on %s" % (space.name, cells)); g.label(space.name)
        g.nontrivial = max(cells) > 1
        bases = build(space, new_grid(cells))
        b, d, sh = bases[-1], described(space, cells), space_shape(space)
        check_sizes(g, space, d, b)
        lv = b.localView()
        es = list(b.gridView.elements)
        g.check(len(es) == len(d["elements"]), "number of elements")
        order = list(range(len(es)))
        for i in range(len(order)):
            j = i + g.draw(len(order) - i); order[i], order[j] = order[j], order[i]
        for i in order:
            lv.bind(es[i])
            check_view(g, space, d, i, lv, es)
            walk(g, space, d, i, lv.tree(), (), sh)
        if space.n and space.flat:
            x = interpolate(g, space, cells, bases)
            if x.dtype == float:
                f = Fun(space, cells, b.asFunction(x), x, es)
                for _ in range(4): check_function(g, f)
    return case

def blocked_functions(g):
    """Functions over spaces with nested indices, from a flat array: right, or rejected"""
    space = BYNAME[g.pick(["power_blocked_int", "power_blocked_lex"])]
    g.describe(space.name)
    gv = new_grid((1 + g.draw(2), 1 + g.draw(2)))
    b = F.defaultGlobalBasis(gv, tree_of(space))
    x = np.zeros(len(b)); k = g.draw(len(x)); x[k] = 1
    g.nontrivial = True; g.describe("coefficient %d" % k)
    try:
        f = b.asFunction(x)
        got = [vec(f(e, [i / 2., j / 2.])) for e in gv.elements for i in range(3) for j in range(3)]
    except Exception: g.label("rejected"); return
    n = sum(1 for c in range(space.n) if any(abs(v[c]) > TOL for v in got))
    g.check(n == 1, "one coefficient of a blocked space contributes to", n, "components")

# ---------------------------------------------------------------- tree expressions
def expressions(g):
    """The C++ type of a random tree description: nesting, defaults and operators"""
    from dune.functions.globalbasis import preBasisTypeName
    P = "Dune::Functions::"
    B = P + "BasisFactory::"
    def squeeze(s): return s.replace(" ", "")
    def tree(depth):
        k = g.draw(8 if depth else 3)
        if k == 0: o = g.draw(5); return F.Lagrange(o), P + "LagrangePreBasis<GV,%d>" % o
        if k == 1: o = g.draw(3); return F.RaviartThomas(o), P + "RaviartThomasPreBasis<GV,%d>" % o
        if k == 2: return F.Nedelec(1, 1), P + "NedelecPreBasis<GV,double,1,1>"
        if k == 3:
            (a, ca), (b, cb) = tree(depth - 1), tree(depth - 1)
            return a * b, P + "CompositePreBasis<" + B + "FlatLexicographic,%s,%s>" % (ca, cb)
        if k == 4:
            a, ca = tree(depth - 1); n = 1 + g.draw(4)
            return a ** n, P + "PowerPreBasis<" + B + "FlatLexicographic,%s,%d>" % (ca, n)
        blocked, layout = g.draw(2), g.draw(2)
        ims = B + ("Blocked" if blocked else "Flat") + ("Interleaved" if layout else "Lexicographic")
        kw = {}
        if blocked or g.draw(2): kw["blocked"] = bool(blocked)
        if k == 5:
            a, ca = tree(depth - 1); n = 1 + g.draw(4)
            return F.Power(a, n, layout=["lexicographic", "interleaved"][layout], **kw), P + "PowerPreBasis<%s,%s,%d>" % (ims, ca, n)
        cs = [tree(depth - 1) for _ in range(1 + g.draw(3))]
        ims = B + ("Blocked" if blocked else "Flat") + "Lexicographic"
        if g.draw(2): kw["layout"] = "lexicographic"
        return F.Composite(*[c[0] for c in cs], **kw), P + "CompositePreBasis<%s,%s>" % (ims, ",".join(c[1] for c in cs))
    t, want = tree(3)
    got = squeeze(preBasisTypeName(t, "GV"))
    g.describe(repr(t)[:200])
    g.nontrivial = bool(t.children)
    g.check(got == squeeze(want), "C++ type", got, "expected", squeeze(want))

GROUPS = dict(
    leaf=["p1", "p3", "rt1", "nedelec"],
    power=["one", "power_lex", "power_int", "power_default"],
    nested=["power_blocked_int", "power_blocked_lex", "th_flat", "th_blocked", "product", "power_composite", "power_rt", "power_power"],
    subspace=["sub_velocity", "sub_component", "sub_nested", "sub_pressure", "sub_blocked"],
    three_d=["p2_3d", "rt_3d", "nedelec_3d", "power_3d", "th_3d"])
assert sorted(sum(GROUPS.values(), [])) == sorted(s.name for s in SPACES)

PROPS = {}
for k, v in GROUPS.items():
    PROPS["history_" + k] = (history(v), 300)
    PROPS["complete_" + k] = (complete(v), 40)
PROPS["blocked_functions"] = (blocked_functions, 10)
PROPS["expressions"] = (expressions, 3000)

def preload(name):
    """load all modules before forking, if that works"""
    if pytape.isolated(lambda send: send(load_modules(name)), 300) == ([True], None): load_modules(name)

def load_modules(name):
    for k, v in GROUPS.items():
        if name.endswith("_" + k):
            for s in v:
                space = BYNAME[s]
                b = build(space, grid((1,) * space.dim))
                described(space, (1,) * space.dim)
                if space.flat: F.forEachBoundaryDOF(b[-1], lambda i: None)
    return True

def main():
    a = sys.argv[1:]
    if a[:1] == ["--build"]:
        k = a[1].split(":")
        if k[0] == "ref": reference(int(k[1]), int(k[2]))
        else:
            space = BYNAME[k[1]]
            b = build(space, grid((1,) * space.dim))[-1]
            if space.flat: F.forEachBoundaryDOF(b, lambda i: None)
        return 0
    if "--run" in a: preload(a[a.index("--run") + 1])
    if "--replay" in a:
        for l in open(a[a.index("--replay") + 1]):
            if l.startswith("property"): preload(l.split()[1])
    return pytape.main(PROPS, a)

if __name__ == "__main__":
    r = main()
    sys.stdout.flush()
    os._exit(r)
