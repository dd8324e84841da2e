#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles, statements, anchors)."""
import json, os, sys
F = "dune/functions/functionspacebases/"
G = "dune/functions/gridfunctions/"
C = "dune/functions/common/"
A = "dune/functions/analyticfunctions/"
B = "dune/functions/backends/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Global multi-indices of every basis form a complete, gap-free index tree",
  "For every basis that can be assembled from the library's leaf bases by nesting power, composite and run-time power factories with any admissible index-merging strategy, and for every grid view, the multi-indices seen by visiting all elements form a consecutive index tree in which no index is a prefix of another and every leaf is reached. size(prefix) returns exactly the number of children below each prefix (0 for a full index), dimension() is the number of distinct multi-indices, and no local view is larger than maxSize(). Within one element every local degree of freedom has its own distinct multi-index.",
  ["inputs", "configurations"], "all grid views (dimension, element types, numbering, holes) and all finite nestings of bases and merging strategies",
  "basistest.hh checks this only for a few hand-written trees on a few structured grids; most leaf-basis tests cannot run here (no UGGrid), and mixed-type meshes, one-element meshes and deep nestings are never sampled.",
  [F+"powerbasis.hh", F+"dynamicpowerbasis.hh", F+"compositebasis.hh", F+"defaultglobalbasis.hh", F+"leafprebasismixin.hh", F+"leafprebasismappermixin.hh", F+"lfeprebasismixin.hh"],
  [("size(prefix)/dimension/indices recursion", F+"compositebasis.hh, dynamicpowerbasis.hh"), ("mapper based leaf numbering", F+"leafprebasismappermixin.hh")],
  ["Basis::size(prefix)", "Basis::dimension()", "LocalView::index(i)", "LocalView::size()/maxSize()"])

p("C02", "Nested bases number their DOFs exactly as the merging strategy documents",
  "In a power, run-time power or composite basis the multi-index of a degree of freedom of child c is the documented function of c and the child's own multi-index: lexicographic blocking puts c in front, interleaved blocking appends c, flat lexicographic shifts the first digit by the sizes of the preceding children, flat interleaved replaces the first digit i by i*n+c. Local indices enumerate the leaves of the ansatz tree consecutively in depth-first order, and compile-time and run-time powers of equal exponent give the same multi-indices.",
  ["inputs", "configurations"], "all nestings up to depth 3, all strategies, all child sizes and grid views",
  "The existing tests assert only that the index set is consistent, never which number a degree of freedom gets; a consistent permutation passes them.",
  [F+"dynamicpowerbasis.hh", F+"powerbasis.hh", F+"compositebasis.hh", F+"basistags.hh", F+"nodes.hh", F+"defaultlocalview.hh"],
  [("index merging in indices()", F+"dynamicpowerbasis.hh"), ("index merging in indices()", F+"compositebasis.hh"), ("node offsets", F+"nodes.hh")],
  ["LocalView::index(i)", "Node::localIndex(i)"])

p("C03", "Container descriptors and vectors built from them match the index tree",
  "The container descriptor of a pre-basis describes exactly the basis' index tree: descending it along any prefix gives a node whose size equals size(prefix), and full indices end in scalar leaves. A container made from the descriptor (generic or ISTL) and a container resized by the ISTL backend to the basis have exactly one scalar entry per multi-index, reachable by that multi-index, with distinct multi-indices reaching distinct entries, all initialised to the requested value.",
  ["inputs", "configurations"], "all basis trees, merging strategies, descriptor trees and grid sizes",
  "The tests cover a handful of fixed descriptors and bases; sizes 1, uneven children and merged descriptors of nested arrays are not sampled.",
  [F+"containerdescriptors.hh", B+"containerfactory.hh", B+"istlvectorfactory.hh", B+"istlvectorbackend.hh"],
  [("descriptor merging", F+"containerdescriptors.hh"), ("makeContainer", B+"containerfactory.hh"), ("makeISTLVector", B+"istlvectorfactory.hh"), ("resize(sizeProvider)", B+"istlvectorbackend.hh")],
  ["PreBasis::containerDescriptor()", "makeContainer()", "makeISTLVector()", "istlVectorBackend(v).resize(basis)", "backend[multiIndex]"])

p("C04", "Lagrange basis: globally continuous, nodal and orientation independent",
  "On every conforming mesh of supported element types, with any vertex numbering and any local vertex order, every function of a Lagrange basis of order k is continuous across element boundaries, and the dimension equals the number of distinct Lagrange points of order k. Each degree of freedom belongs to exactly one point in space (the same from all elements that share it), its basis function is 1 there and 0 at all other Lagrange points, and order given at compile time or at run time yields the same basis; order 0 gives one constant per element.",
  ["inputs", "configurations"], "all conforming meshes in 1d-3d (triangles, quadrilaterals, tetrahedra, hexahedra, prisms, pyramids as supported), orders and numberings",
  "The Lagrange basis test needs UGGrid and does not run; the tests that do run use structured cube grids whose faces are all equally oriented, so the orientation-dependent branches are never taken.",
  [F+"lagrangebasis.hh"],
  [("edge and face DOF permutation", F+"lagrangebasis.hh LagrangePreBasis::indices"), ("dof counting per geometry type", F+"lagrangebasis.hh computeDofsPerEntity/initializeIndices")],
  ["LocalView::index(i)", "shape function values at matching points of neighbouring elements"])

p("C05", "Discontinuous Lagrange basis: DOFs are private to one element and complete",
  "In the discontinuous Lagrange basis of any order no global index is used by two elements, the global indices 0..dimension-1 are all used, every element has the full local Lagrange space of that order for its shape, and dimension equals the sum of local sizes. Order at compile time and at run time give the same numbering, on meshes of mixed element types too.",
  ["inputs", "configurations"], "all mesh types, orders and numberings",
  "The test uses one fixed structured grid per dimension; mixed meshes (prism, pyramid, hexahedron offsets) are not reached.",
  [F+"lagrangedgbasis.hh", F+"lagrangebasis.hh"],
  [("per geometry type offsets", F+"lagrangedgbasis.hh initializeIndices/indices")],
  ["LocalView::index(i)", "Basis::dimension()"])

p("C06", "Raviart-Thomas and BDM functions have continuous normal components",
  "On every conforming mesh of supported element types and orders, with any global numbering and local vertex order, each Raviart-Thomas and each Brezzi-Douglas-Marini basis function, evaluated in world coordinates, has a normal component that is continuous across every interior facet, and it vanishes outside the elements that share its degree of freedom. Facet degrees of freedom are shared by exactly the elements at that facet and interior ones by one element; the derivative and divergence of such a function match its values.",
  ["inputs", "configurations"], "all 2d/3d affine conforming meshes, orders and orientations",
  "Both tests need UGGrid and do not run; on structured grids all facets have the same orientation, so a wrong sign or permutation is invisible.",
  [F+"raviartthomasbasis.hh", F+"brezzidouglasmarinibasis.hh", F+"globalvaluedlocalfiniteelement.hh"],
  [("orientation of faces", F+"raviartthomasbasis.hh, brezzidouglasmarinibasis.hh orientation bits"), ("contravariant Piola transformation", F+"globalvaluedlocalfiniteelement.hh")],
  ["normal jump over intersections", "evaluateJacobian vs finite differences"])

p("C07", "Nedelec functions have continuous tangential components",
  "On every conforming simplex or cube mesh, with any global numbering and local vertex order, each first-kind Nedelec basis function, evaluated in world coordinates, has a tangential component that is continuous across every interior facet. Edge degrees of freedom are shared by exactly the elements at that edge, and the derivative of such a function matches its values.",
  ["inputs", "configurations"], "all 2d/3d affine conforming simplex, cube and mixed triangle/quadrilateral meshes and orientations",
  "The C++ test needs UGGrid and does not run; the Python test only runs a structured grid.",
  [F+"nedelecbasis.hh", F+"globalvaluedlocalfiniteelement.hh"],
  [("edge orientation bits from global ids", F+"nedelecbasis.hh"), ("covariant Piola transformation", F+"globalvaluedlocalfiniteelement.hh")],
  ["tangential jump over intersections"])

p("C08", "Cubic Hermite bases share values and gradients and reproduce polynomials",
  "On every conforming simplex mesh in 1d and 2d a function of the cubic Hermite basis is continuous (C1 in 1d), has one value and one gradient per vertex, and degree-of-freedom coefficients of adjacent elements of different size agree on it. Interpolating any cubic polynomial (any quadratic in the reduced 2d basis) reproduces it, its gradient and its second derivatives exactly on every element.",
  ["inputs", "configurations"], "all simplex meshes with varying element sizes and orientations, all polynomials of the degree",
  "The test needs UGGrid and does not run; the per-vertex scaling with mesh size is only visible on strongly graded meshes.",
  [F+"cubichermitebasis.hh", F+"transformedfiniteelementmixin.hh", C+"mapperutilities.hh", F+"functionaldescriptor.hh"],
  [("global-to-reference transformation", F+"cubichermitebasis.hh transform"), ("average mesh size scaling", C+"mapperutilities.hh")],
  ["basis values/gradients/Hessians on both sides of facets", "interpolate() of polynomials"])

p("C09", "Morley and Argyris bases have their defining continuity and reproduction",
  "On every conforming triangle mesh a function of the Argyris basis is continuously differentiable with continuous second derivatives at vertices, and interpolation reproduces every quintic polynomial. A function of the Morley basis is continuous at vertices and has continuous normal derivative at edge midpoints, and interpolation reproduces every quadratic polynomial.",
  ["inputs", "configurations"], "all triangle meshes, orientations, element sizes and polynomials of the degree",
  "Both tests need UGGrid and do not run in this environment; sign/orientation errors only show on meshes whose shared edges have opposite local orientation.",
  [F+"argyrisbasis.hh", F+"morleybasis.hh", F+"transformedfiniteelementmixin.hh", C+"mapperutilities.hh"],
  [("global-to-reference transformation", F+"argyrisbasis.hh, morleybasis.hh transform"), ("edge orientation", F+"argyrisbasis.hh, morleybasis.hh")],
  ["values, gradients and Hessians on both sides of facets", "interpolate() of polynomials"])

p("C10", "Non-conforming, refined and hierarchical bases have their documented space",
  "On every conforming mesh: Crouzeix-Raviart/Rannacher-Turek functions have equal values at facet midpoints (on simplices also equal facet means) from both sides; refined Lagrange functions and hierarchical Lagrange (P2, and P1 or P2 with element bubble) functions are continuous. Each basis attaches its degrees of freedom to the documented sub-entities, so its dimension is the corresponding entity count, and it spans at least the affine functions (and constants on every element).",
  ["inputs", "configurations"], "all conforming meshes of supported element types, numberings and orientations",
  "rannacherturek, hierarchicallagrange and hierarchicallagrangewithelementbubble tests need UGGrid and do not run.",
  [F+"rannacherturekbasis.hh", F+"refinedlagrangebasis.hh", F+"hierarchicallagrangebasis.hh", F+"hierarchicallagrangewithelementbubblebasis.hh"],
  [("DOF layout and mapper", F+"leafprebasismappermixin.hh"), ("finite element choice", F+"rannacherturekbasis.hh, refinedlagrangebasis.hh")],
  ["values from both sides of facets", "Basis::dimension()"])

p("C11", "Interpolation into a basis is a projection",
  "For every basis and every coefficient vector, interpolating the discrete function with these coefficients gives back the same coefficients, for scalar, vector-valued and nested bases and any supported coefficient container. Interpolating a function that lies in the discrete space reproduces it at every point, and each coefficient depends only on the matching component of the function.",
  ["inputs", "configurations"], "all bases supporting interpolation, coefficient vectors and meshes",
  "Tests interpolate a few fixed functions on structured grids, mostly with scalar bases.",
  [F+"interpolate.hh", F+"hierarchicnodetorangemap.hh", G+"discreteglobalbasisfunction.hh", F+"transformedfiniteelementmixin.hh"],
  [("local interpolation per leaf node", F+"interpolate.hh"), ("node to range map", F+"hierarchicnodetorangemap.hh")],
  ["interpolate(basis, coeff, f)"])

p("C12", "Masked and subspace interpolation writes exactly the selected coefficients",
  "Interpolation with a bit vector writes exactly those coefficients whose bit is set (with the values of unmasked interpolation) and leaves all others bitwise unchanged. Interpolation into a subspace basis writes exactly the coefficients of that subtree; without mask every coefficient of the subtree is written.",
  ["inputs", "configurations"], "all bases, masks, initial vectors and subspace paths",
  "Existing tests use at most a boundary mask on one grid.",
  [F+"interpolate.hh", F+"subspacebasis.hh", F+"subspacelocalview.hh"],
  [("bit vector test per DOF", F+"interpolate.hh"), ("subtree traversal", F+"interpolate.hh")],
  ["interpolate(basis, coeff, f, bitVector)", "interpolate(subspaceBasis, ...)"])

p("C13", "Discrete functions evaluate to the coefficient-weighted sum of basis functions",
  "The value of a discrete global basis function at any point of any element equals the coefficient-weighted sum of the basis functions, mapped to the range as documented (component-wise, nested or flat); its local derivative equals the world-coordinate gradient/Jacobian of that function. Global evaluation equals local evaluation in an element containing the point, and the derivative object refers to the same function.",
  ["inputs", "configurations"], "all bases and trees, coefficients, range types, elements, points, geometries",
  "Tests use fixed functions on structured axis-parallel grids, where a transposed or unscaled Jacobian can go unnoticed.",
  [G+"discreteglobalbasisfunction.hh", F+"hierarchicnodetorangemap.hh", F+"flatvectorview.hh", G+"gridviewentityset.hh", G+"localderivativetraits.hh"],
  [("operator() and derivative evaluation", G+"discreteglobalbasisfunction.hh"), ("element search", G+"discreteglobalbasisfunction.hh operator()(global)")],
  ["localFunction(f)(x)", "localFunction(derivative(f))(x)", "f(x)"])

p("C14", "B-spline basis equals the Cox-de Boor functions of its knot vectors",
  "For every order, dimension 1-3, uniform or graded knot vectors with or without repeated end knots, the basis functions evaluated through the local view equal the tensor products of the Cox-de Boor B-splines of the knot vectors in global coordinates, with the global tensor-product numbering. Their first and second derivatives equal those of the same functions; exactly the functions that are nonzero on the element are listed and (for open knot vectors) they sum to one.",
  ["inputs", "configurations"], "all orders, knot vectors, element counts and evaluation points",
  "The test uses a few uniform knot vectors and checks nonzero/continuity only.",
  [F+"bsplinebasis.hh"],
  [("one-dimensional recursion", F+"bsplinebasis.hh evaluateFunction/evaluateAll"), ("span and offset bookkeeping", F+"bsplinebasis.hh BSplineLocalFiniteElement::bind, getIJK")],
  ["local basis values, Jacobians, partial derivatives, global indices"])

p("C15", "Updating a basis after a grid change equals building it anew",
  "After the grid has changed, basis.update(gridView) leaves the basis indistinguishable from a freshly constructed one on the new grid view: same dimension, sizes, grid view, multi-indices, container descriptor and basis function values. This holds for every leaf basis and nesting and for any sequence of refinements, coarsenings and updates.",
  ["histories", "configurations"], "all sequences of grid modifications and updates, all bases",
  "Hardly any test calls update() at all.",
  [F+"defaultglobalbasis.hh", F+"leafprebasismappermixin.hh", F+"lagrangebasis.hh", F+"lagrangedgbasis.hh", F+"raviartthomasbasis.hh", F+"brezzidouglasmarinibasis.hh", F+"nedelecbasis.hh", F+"cubichermitebasis.hh", F+"morleybasis.hh", F+"argyrisbasis.hh", F+"taylorhoodbasis.hh", F+"powerbasis.hh", F+"compositebasis.hh", F+"dynamicpowerbasis.hh"],
  [("update()/initializeIndices()", "every pre-basis")],
  ["Basis::update", "everything observable afterwards"])

p("C16", "Local views and local functions are values: binding one never affects another",
  "Through any history of construct, bind, unbind, re-bind, copy, move, assign, swap and destroy operations on local views and local functions, each bound object reports the element, size, tree, multi-indices and values of its own last bind, independent of other objects even after these are re-bound or destroyed. bound() is true exactly after a bind not followed by an unbind, and copies and assignments carry the bound state.",
  ["histories"], "all finite histories of operations on a pool of local views / local functions",
  "localfunctioncopytest and basistest check one copy construction each; assignment and histories are not covered.",
  [F+"defaultlocalview.hh", F+"subspacelocalview.hh", F+"nodes.hh", F+"transformedfiniteelementmixin.hh", G+"discreteglobalbasisfunction.hh", G+"analyticgridviewfunction.hh", G+"composedgridfunction.hh"],
  [("copy constructor re-binds", F+"defaultlocalview.hh"), ("LocalFunction copy", G+"discreteglobalbasisfunction.hh")],
  ["LocalView::element/size/index/tree/bound", "LocalFunction::operator()/localContext/bound"])

p("C17", "A subspace basis is exactly the selected subtree of its root basis",
  "For every basis tree and every valid tree path, the subspace basis' local view exposes the subtree at that path with the same finite elements, local indices and global multi-indices as the root basis, and nested subspaces equal the subspace of the concatenated path. Discrete functions on the subspace basis use only coefficients of the subtree and equal the corresponding component of the discrete function of the root basis.",
  ["inputs", "configurations"], "all trees, paths, meshes, coefficients",
  "subspacebasistest needs UGGrid and does not run.",
  [F+"subspacebasis.hh", F+"subspacelocalview.hh", G+"discreteglobalbasisfunction.hh"],
  [("prefix path", F+"subspacebasis.hh"), ("child by path", F+"subspacelocalview.hh")],
  ["subspaceBasis(...).localView()", "makeDiscreteGlobalBasisFunction(subspaceBasis, ...)"])

p("C18", "A periodic basis is the quotient of its raw basis by the given identifications",
  "For any set of identifications of raw indices, the periodic basis gives two raw degrees of freedom the same index exactly if they are connected by a chain of identifications; its indices are consecutive from 0, its dimension is the number of equivalence classes, and its sizes, container descriptor and index tree agree with that. The order in which identifications are given and duplicates of them do not change the partition.",
  ["inputs", "histories"], "all identification sequences and raw bases",
  "periodicbasistest identifies opposite sides of one structured grid with each pair given once.",
  [F+"periodicbasis.hh", F+"transformedindexbasis.hh"],
  [("PeriodicIndexSet / index transformation", F+"periodicbasis.hh"), ("transformed pre-basis", F+"transformedindexbasis.hh")],
  ["Basis::dimension", "LocalView::index"])

p("C19", "A restricted basis lives on exactly the elements of its sub-domain",
  "A sub-domain built by inserting elements contains exactly these elements with all their sub-entities, and its index set numbers the contained entities of each geometry type consecutively from 0. A basis restricted to it has local degrees of freedom exactly on contained elements (none elsewhere), the same finite elements and values there as the same basis on the whole grid, and a complete index set for the sub-domain only; iterating over the sub-domain visits exactly its elements and its intersections classify neighbours by membership.",
  ["inputs", "histories"], "all subsets of elements in any insertion order (including empty ones and repeats), all meshes and bases",
  "restrictedprebasistest needs UGGrid and does not run.",
  [F+"restrictedbasis.hh", C+"subdomain.hh"],
  [("SubDomainIndexSet insertion", C+"subdomain.hh"), ("restricted node binding", F+"restrictedbasis.hh")],
  ["SubDomain/SubDomainGridView/IndexSet", "restrict(...) basis local views"])

p("C20", "Boundary and sub-entity DOF traversals visit exactly the right DOFs",
  "forEachBoundaryDOF visits exactly the degrees of freedom attached to sub-entities of boundary facets of the grid view (each at least once, with any callback signature) and no other one, also for nested and subspace bases. subEntityDOFs lists, for any sub-entity or intersection, exactly the local indices attached to it or to sub-entities of it, each once, in increasing order of the underlying enumeration, and contains() agrees with it.",
  ["inputs", "configurations"], "all bases, meshes, sub-entities and intersections",
  "Tests check only a bounding-box criterion on structured grids.",
  [F+"boundarydofs.hh", F+"subentitydofs.hh"],
  [("intersection loop", F+"boundarydofs.hh"), ("SubEntityDOFs::bind", F+"subentitydofs.hh")],
  ["forEachBoundaryDOF", "subEntityDOFs(localView).bind(...)"])

p("C21", "Grid functions carry over unchanged between coarse and fine grid views",
  "A function defined on a coarse grid view, viewed on a refined grid view, has at each point of a fine element the value and derivative of the original at the same global point, and a fine function viewed on the coarse grid view likewise (in a fine element containing the point). The geometry of an element in its ancestor maps local coordinates of the fine element to those of the ancestor consistently with their global positions, for any number of levels and after copying.",
  ["inputs", "histories"], "all refinement histories, elements, ancestors, points and functions",
  "coarsefinegridfunctiontest needs UGGrid and does not run.",
  [G+"coarsefunctiononfinegridview.hh", G+"finefunctiononcoarsegridview.hh", C+"geometryinancestor.hh"],
  [("ancestor search and concatenated geometryInFather", C+"geometryinancestor.hh"), ("descent to containing child", G+"finefunctiononcoarsegridview.hh")],
  ["localFunction(...)", "GeometryInAncestor::global/local/corner/center"])

p("C22", "Analytic, composed and face-normal grid functions evaluate as defined",
  "A grid function made from an analytic function has the same value locally and globally, and its derivative is the derivative of the analytic function at the same global point. A composed grid function returns the outer function applied to the values of all inner functions in argument order, locally and globally; the face-normal grid function returns the unit outer normal of the nearest facet of the bound element.",
  ["inputs", "configurations"], "all functions, elements, points, arities and geometries",
  "The tests sample single functions on structured grids; facenormalgridfunctiontest needs UGGrid and does not run.",
  [G+"analyticgridviewfunction.hh", G+"composedgridfunction.hh", G+"facenormalgridfunction.hh", G+"gridviewfunction.hh", G+"gridfunction.hh"],
  [("local evaluation through element geometry", G+"analyticgridviewfunction.hh"), ("inner value tuple", G+"composedgridfunction.hh"), ("closest facet search", G+"facenormalgridfunction.hh")],
  ["f(x)", "localFunction(f)", "derivative(f)"])

p("C23", "Polynomials, monomials and trigonometric functions obey calculus",
  "A polynomial evaluates to the sum of its coefficients times powers at every point, and derivatives of every order are the polynomials (or values) of the exact derivative for every coefficient container (vector, array, integer sequence). The monomial set of maximal order k lists every multi-index of order at most k exactly once in the documented order, its exponents() match the values, and its Jacobian and Hessian are the exact first and second derivatives; trigonometric functions cycle correctly under repeated differentiation.",
  ["inputs"], "all coefficients, degrees, dimensions, orders of derivative and points",
  "Unit tests use a few fixed polynomials and low derivative orders.",
  [A+"polynomial.hh", A+"monomialset.hh", A+"trigonometricfunction.hh"],
  [("Horner scheme and coefficient differentiation", A+"polynomial.hh"), ("recursive monomial evaluation", A+"monomialset.hh")],
  ["operator()", "derivative()", "exponents()"])

p("C24", "Type-erased functions are independent values with faithful behaviour",
  "For any history of constructing, copying, moving, assigning and destroying type-erased (differentiable, local or grid) functions and small polymorphic objects, of any size relative to the internal buffer, each holder behaves like its own private copy of the object it was given: same results, state not shared, no leak, every object destroyed exactly once, also if a copy throws. derivative and localFunction of a wrapped function are those of the wrapped object, and functions built from callables keep their own copies of the callables.",
  ["histories", "fault_sequences"], "all finite operation histories, object sizes, and throwing copies",
  "The tests check a fixed copy/move sequence for two sizes.",
  [C+"polymorphicsmallobject.hh", C+"typeerasure.hh", C+"differentiablefunction.hh", C+"differentiablefunction_imp.hh", C+"differentiablefunctionfromcallables.hh", C+"localfunction.hh", C+"localfunction_imp.hh", G+"gridfunction.hh", G+"gridfunction_imp.hh", G+"gridviewfunction.hh"],
  [("clone/move into buffer", C+"polymorphicsmallobject.hh"), ("wrapper clone", C+"typeerasure.hh")],
  ["operator()", "derivative", "localFunction", "copy/move/destroy counters"])

p("C25", "Small index containers behave like the sequences they model",
  "Through any sequence of operations within capacity, the fixed-capacity deque, the overflow array and the static multi-index behave like the corresponding standard sequence: element access, iteration order, size, push/pop at the ends, resize, comparison, equality and hash agree with a reference sequence, and copies are independent.",
  ["histories"], "all operation histories and capacities",
  "There is no unit test for these containers at all.",
  [C+"reserveddeque.hh", C+"overflowarray.hh", C+"multiindex.hh", F+"flatmultiindex.hh"],
  [("ring buffer arithmetic", C+"reserveddeque.hh"), ("size bookkeeping", C+"overflowarray.hh"), ("static size", C+"multiindex.hh")],
  ["the containers' public interface"])

p("C26", "Access by multi-index reaches the entry that plain nested access reaches",
  "For any nested container of static and dynamic, homogeneous and tuple-like vectors, access by a multi-index through the library's index access functions, the vector backends, or a flat view reaches the same entry that applying the digits one after another reaches; flat views enumerate all scalar entries exactly once in nested order. Reads do not modify, and writes modify exactly that one entry.",
  ["inputs", "configurations"], "all container nestings, sizes and multi-indices",
  "istlvectorbackendtest covers a few fixed container types with fixed sizes.",
  [C+"indexaccess.hh", B+"istlvectorbackend.hh", F+"flatvectorview.hh", C+"densevectorview.hh"],
  [("hybridMultiIndexAccess, resolveDynamic/StaticMultiIndex", C+"indexaccess.hh"), ("operator[]", B+"istlvectorbackend.hh"), ("flat view", F+"flatvectorview.hh")],
  ["backend[mi]", "hybridIndexAccess", "flatVectorView(x)[i]"])

p("C27", "Taylor-Hood equals the composition of P2 velocity and P1 pressure",
  "On every mesh and dimension the Taylor-Hood basis has the same dimension, index tree sizes, local finite elements and multi-indices as the composite basis of a power of P2 velocities and P1 pressure with the corresponding merging strategy, for hybrid and homogeneous velocity indices, also after an update.",
  ["inputs", "configurations", "histories"], "all meshes, dimensions and updates",
  "The test checks consistency on one structured grid and only one of the two index layouts.",
  [F+"taylorhoodbasis.hh"],
  [("indices()/size()", F+"taylorhoodbasis.hh")],
  ["LocalView::index", "Basis::size(prefix)"])

p("C28", "A transformed-index basis shows exactly the transformed indices of its raw basis",
  "For every raw basis and every bijective user transformation of multi-indices, the transformed basis has on every element the same tree and finite elements as the raw basis, and its multi-indices are the transformation of the raw ones in the same local order. Its sizes are those of the transformation and the index tree stays complete.",
  ["inputs", "configurations"], "all raw bases, permutations and re-blockings",
  "One test uses one fixed transformation.",
  [F+"transformedindexbasis.hh"],
  [("indices() and size() delegation", F+"transformedindexbasis.hh")],
  ["LocalView::index", "Basis::size(prefix)", "Basis::dimension"])

p("C29", "Mapper-based bases attach DOFs to sub-entities exactly as laid out",
  "A basis built from a user-supplied local finite element and a degrees-of-freedom layout gives each grid entity exactly the number of degrees of freedom of the layout; each is shared by exactly the elements containing that entity and is numbered by the sub-entity and running index the local coefficients report.",
  ["inputs", "configurations"], "all layouts, finite elements, meshes and numberings",
  "lfebasistest needs UGGrid and does not run.",
  [F+"lfeprebasismixin.hh", F+"leafprebasismappermixin.hh", F+"leafprebasismixin.hh"],
  [("mapper subIndex + localKey.index", F+"leafprebasismappermixin.hh")],
  ["LocalView::index", "Basis::dimension"])

PY="dune/python/functions/"
p("C30", "Python function spaces behave like their C++ counterparts",
  "A function space described in Python has the dimension, sizes, local indices, tree nodes, shape functions, boundary degrees of freedom, interpolation coefficients and finite element function values of the space built by the C++ factories from the same description. Sub-space bases do so too. Results are written to and read from the caller's array in place or rejected with an exception. Local views, tree nodes, functions, grid views and bases stay valid and follow re-binding as long as Python refers to them, whatever other references are dropped.",
  ["inputs", "histories"], "all spaces, grids and histories of operations on Python objects",
  "The Python tests look at a few bases of one grid; nothing drops references, re-binds nodes, uses strided or non-double arrays or compares with C++.",
  [PY+"globalbasis.hh", PY+"tree.hh", PY+"interpolate.hh", PY+"discretefunction.hh", PY+"subspacebasis.hh", PY+"hierarchicvectorwrapper.hh", "python/dune/functions/globalbasis.py", "python/dune/functions/subspacebasis.py", "python/dune/functions/tree.py", "python/dune/functions/boundarydofs.py"],
  [("registerBasisType, LocalViewWrapper", PY+"globalbasis.hh"), ("registerTree, childAccessor", PY+"tree.hh"), ("preBasisTypeName", "python/dune/functions/globalbasis.py")],
  ["defaultGlobalBasis", "subspaceBasis", "asFunction", "interpolate", "localView", "forEachBoundaryDOF"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
