#include "c04_common.hh"
PROPERTY(runtime_3d_mixed, 300) { gen::MeshOptions o; o.maxCells=4; lagrangeRunTime<3,3,FuzzKind::mixed>(g,5,o); }
PROPERTY(prisms_3d, 200) { gen::MeshOptions o; o.maxCells=4; o.pyramids=false; lagrangeRunTime<3,3,FuzzKind::mixed>(g,2,o); }
PROPERTY(pyramids_3d, 200) { gen::MeshOptions o; o.maxCells=4; lagrangeRunTime<3,3,FuzzKind::mixed>(g,2,o); }
#include "main.hh"
