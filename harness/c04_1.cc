#include "c04_common.hh"
PROPERTY(runtime_1d, 400) { lagrangeRunTime<1,1,FuzzKind::mixed>(g,7,{}); }
PROPERTY(runtime_1d_in_2d, 200) { lagrangeRunTime<1,2,FuzzKind::simplex>(g,5,{}); }
PROPERTY(runtime_2d_mixed, 700) { lagrangeRunTime<2,2,FuzzKind::mixed>(g,7,{}); }
PROPERTY(runtime_2d_simplex, 400) { lagrangeRunTime<2,2,FuzzKind::simplex>(g,7,{}); }
PROPERTY(runtime_2d_cube, 400) { lagrangeRunTime<2,2,FuzzKind::cube>(g,7,{}); }
PROPERTY(runtime_2d_in_3d, 300) { lagrangeRunTime<2,3,FuzzKind::mixed>(g,5,{}); }
#include "main.hh"
