// C20: SE2 and SE3 are rigid motions.
#include "rigid.hpp"
VP_UNIT(se3_double,1500,30000){ Suite<3,false,double>::run(rng,"se3/"); }
VP_UNIT(se2_double,1500,30000){ Suite<2,false,double>::run(rng,"se2/"); }
VP_UNIT(se3_float,400,8000){ Suite<3,false,float>::run(rng,"se3/float_"); }
VP_UNIT(se2_float,400,8000){ Suite<2,false,float>::run(rng,"se2/float_"); }
VP_UNIT(se_mixed,300,6000){ mixedG<3,false>(rng,"se3/mixed_"); mixedG<2,false>(rng,"se2/mixed_"); }
