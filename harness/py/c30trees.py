"""The spaces of C30: the Python expression, the C++ factory expression, the number
of components of functions (0: no functions), whether global indices are flat, and
for sub-spaces the arguments of subspaceBasis (one tuple per nested call)."""

class Space:
    def __init__(s, name, dim, py, cpp, n=0, flat=True, sub=(), nodal=False):
        s.name, s.dim, s.py, s.cpp, s.n, s.flat, s.sub, s.nodal = name, dim, py, cpp, n, flat, sub, nodal

FL, FI, BL, BI = ['layout="%s",blocked=%s' % (l, b) for b in (False, True) for l in ("lexicographic", "interleaved")]
TH = 'Composite(Power(Lagrange(2),2,%s),Lagrange(1),%s)'
cTH = 'composite(power<2>(lagrange<2>(),%s()),lagrange<1>(),%s())'

SPACES = [
 Space("p1", 2, 'Lagrange(1)', 'lagrange<1>()', 1, nodal=True),
 Space("p3", 2, 'Lagrange(order=3)', 'lagrange<3>()', 1, nodal=True),
 Space("rt1", 2, 'RaviartThomas(1)', 'raviartThomas<1>()', 2),
 Space("nedelec", 2, 'Nedelec(kind=1,order=1)', 'nedelec<1,1>()', 2),
 Space("one", 2, 'Power(Lagrange(2),1,%s)' % FI, 'power<1>(lagrange<2>(),flatInterleaved())', 1, nodal=True),
 Space("power_lex", 2, 'Power(Lagrange(2),2,%s)' % FL, 'power<2>(lagrange<2>(),flatLexicographic())', 2, nodal=True),
 Space("power_int", 2, 'Power(Lagrange(1),3,%s)' % FI, 'power<3>(lagrange<1>(),flatInterleaved())', 3, nodal=True),
 Space("power_default", 2, 'Lagrange(2)**2', 'power<2>(lagrange<2>(),flatLexicographic())', 2, nodal=True),
 Space("power_blocked_int", 2, 'Power(Lagrange(1),3,%s)' % BI, 'power<3>(lagrange<1>(),blockedInterleaved())', 3, flat=False),
 Space("power_blocked_lex", 2, 'Power(Lagrange(2),2,%s)' % BL, 'power<2>(lagrange<2>(),blockedLexicographic())', 2, flat=False),
 Space("th_flat", 2, TH % (FI, FL), cTH % ("flatInterleaved", "flatLexicographic")),
 Space("th_blocked", 2, TH % (BI, BL), cTH % ("blockedInterleaved", "blockedLexicographic"), flat=False),
 Space("product", 2, 'RaviartThomas(0)*Lagrange(1)', 'composite(raviartThomas<0>(),lagrange<1>(),flatLexicographic())'),
 Space("power_composite", 2, 'Power(Composite(Lagrange(1),Lagrange(2)),2,%s)' % FI,
       'power<2>(composite(lagrange<1>(),lagrange<2>(),flatLexicographic()),flatInterleaved())'),
 Space("power_rt", 2, 'Power(RaviartThomas(0),2,%s)' % FL, 'power<2>(raviartThomas<0>(),flatLexicographic())'),
 Space("power_power", 2, 'Power(Power(Lagrange(1),2,%s),3,%s)' % (BI, FL),
       'power<3>(power<2>(lagrange<1>(),blockedInterleaved()),flatLexicographic())', flat=False),
 Space("sub_velocity", 2, TH % (FI, FL), cTH % ("flatInterleaved", "flatLexicographic"), 2, sub=((0,),), nodal=True),
 Space("sub_component", 2, TH % (FI, FL), cTH % ("flatInterleaved", "flatLexicographic"), 1, sub=((0, 1),), nodal=True),
 Space("sub_nested", 2, TH % (FI, FL), cTH % ("flatInterleaved", "flatLexicographic"), 1, sub=((0,), (1,)), nodal=True),
 Space("sub_pressure", 2, TH % (FI, FL), cTH % ("flatInterleaved", "flatLexicographic"), 1, sub=((1,),), nodal=True),
 Space("sub_blocked", 2, TH % (BI, BL), cTH % ("blockedInterleaved", "blockedLexicographic"), flat=False, sub=((0, 1),)),
 Space("p2_3d", 3, 'Lagrange(2)', 'lagrange<2>()', 1, nodal=True),
 Space("rt_3d", 3, 'RaviartThomas(0)', 'raviartThomas<0>()', 3),
 Space("nedelec_3d", 3, 'Nedelec(1,1)', 'nedelec<1,1>()', 3),
 Space("power_3d", 3, 'Power(Lagrange(1),3,%s)' % FI, 'power<3>(lagrange<1>(),flatInterleaved())', 3, nodal=True),
 Space("th_3d", 3, 'Composite(Power(Lagrange(2),3,%s),Lagrange(1),%s)' % (BI, BL),
       'composite(power<3>(lagrange<2>(),blockedInterleaved()),lagrange<1>(),blockedLexicographic())', flat=False),
]
BYNAME = {s.name: s for s in SPACES}

CHUNKS = {2: 4, 3: 1}

def reference_code(dim, chunk):
    """C++ source with one function ref(gridView, id, op, data) for all spaces of a dimension (and chunk, to compile in parallel)"""
    c = ['#include <c30ref.hh>', 'template<class GV>',
         'pybind11::object ref(const GV& gv, int id, int op, pybind11::array_t<double> data) {',
         '  using namespace Dune::Functions; using namespace Dune::Functions::BasisFactory; using Dune::index_constant;',
         '  const double* d=data.data(); std::size_t n=data.size();']
    for i, s in enumerate(SPACES):
        if s.dim != dim or i % CHUNKS[dim] != chunk: continue
        c.append('  if (id==%d) { auto b=makeBasis(gv,%s);' % (i, s.cpp))
        b = 'b'
        if s.sub:
            path = [k for t in s.sub for k in t]
            c.append('    auto sb=subspaceBasis(b,Dune::TypeTree::treePath(%s));' % ','.join('index_constant<%d>()' % k for k in path))
            b = 'sb'
        c.append('    return C30::run<%d,%s>(%s,op,d,n); }' % (s.n, 'true' if s.flat else 'false', b))
    c.append('  throw std::runtime_error("no such space"); }')
    return '\n'.join(c)
