#include "c04_common.hh"
PROPERTY(runtime_3d_simplex, 200) { gen::MeshOptions o; o.maxCells=3; lagrangeRunTime<3,3,FuzzKind::simplex>(g,6,o); }
PROPERTY(runtime_3d_cube, 300) { gen::MeshOptions o; o.maxCells=4; lagrangeRunTime<3,3,FuzzKind::cube>(g,6,o); }
#include "main.hh"
