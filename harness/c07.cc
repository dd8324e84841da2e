#include "vec_common.hh"
#if PART==1
PROPERTY(ned_2d_simplex, 3000) { ned<2,FuzzKind::simplex>(g,{}); }
PROPERTY(ned_2d_cube, 3000) { ned<2,FuzzKind::cube>(g,{}); }
PROPERTY(ned_2d_mixed, 3000) { ned<2,FuzzKind::mixed>(g,{}); }
#elif PART==2
PROPERTY(ned_3d_simplex, 1000) { gen::MeshOptions o; o.maxCells=3; ned<3,FuzzKind::simplex>(g,o); }
PROPERTY(ned_3d_cube, 2000) { gen::MeshOptions o; o.maxCells=6; ned<3,FuzzKind::cube>(g,o); }
#endif
#include "main.hh"
