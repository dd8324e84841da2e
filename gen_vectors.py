"""Generates translation units with nested vector types for C26."""
import os, random

def leafvec(r, s):
    n = r.randint(1, 4)
    return r.choice([s, s, "FieldVector<%s,%d>" % (s, n), "std::array<%s,%d>" % (s, n), "std::vector<%s>" % s, "ReservedVector<%s,4>" % s] + (["BlockVector<%s>" % s, "DynamicVector<%s>" % s] if s != "int" else []))

def istl(t):   # fits into a BlockVector
    return t in ("double", "float", "std::complex<double>") or t.startswith(("FieldVector", "BlockVector", "MultiType"))

def tree(r, s, depth):
    if depth == 0: return leafvec(r, s)
    k = r.choice(["vector", "array", "bv", "tuple", "tuple", "mtbv", "reserved"])
    if k in ("tuple", "mtbv"):
        c = [tree(r, s, r.randint(0, depth - 1)) for _ in range(r.randint(1, 3))]
        if k == "mtbv" and all(istl(x) for x in c): return "MultiTypeBlockVector<%s>" % ",".join(c)
        return "TupleVector<%s>" % ",".join(c)
    c = tree(r, s, depth - 1)
    if k == "bv": return "BlockVector<%s>" % c if istl(c) else "std::vector<%s>" % c
    if k == "array": return "std::array<%s,%d>" % (c, r.randint(1, 3))
    if k == "reserved": return "ReservedVector<%s,3>" % c
    return "std::vector<%s>" % c

FIXED = ["double", "std::vector<double>", "FieldVector<double,3>", "FieldVector<double,1>", "BlockVector<double>", "BlockVector<FieldVector<double,1>>", "BlockVector<FieldVector<double,3>>",
    "std::vector<std::vector<double>>", "std::array<BlockVector<FieldVector<double,2>>,2>", "BlockVector<BlockVector<FieldVector<double,1>>>",
    "TupleVector<std::vector<double>>", "TupleVector<double,double,double>", "TupleVector<std::vector<FieldVector<double,2>>,std::vector<double>>",
    "MultiTypeBlockVector<BlockVector<FieldVector<double,3>>,BlockVector<FieldVector<double,1>>>", "MultiTypeBlockVector<BlockVector<double>>",
    "std::vector<TupleVector<double,FieldVector<double,2>>>", "TupleVector<TupleVector<std::array<double,3>,TupleVector<double>>,std::vector<std::vector<std::vector<double>>>>"]

def units(tier, seed, bdir):
    r = random.Random(seed * 31 + 5)
    ts = list(FIXED)
    n = len(FIXED) + (36 if tier == "quick" else 144)
    while len(ts) < n:
        t = tree(r, r.choice(["double", "double", "float", "int", "std::complex<double>"]), r.randint(1, 4))
        if t not in ts and len(t) < 220: ts.append(t)
    out = []
    ng = 7
    for k in range(0, (n + ng - 1) // ng):
        p = os.path.join(bdir, "vec%d.cc" % k)
        with open(p, "w") as f:
            f.write('#include "c26.hh"\n')
            for i, t in enumerate(ts[k * ng:(k + 1) * ng]):
                f.write("// %s\nPROPERTY(nested_%d,600) { nested<%s>(g); }\nPROPERTY(resize_%d,400) { resize<%s>(g); }\n" % (t, i, t, i, t))
            f.write('#include "main.hh"\n')
        out.append(dict(src=p, name="vec%d" % k, san="address,undefined"))
    return out
