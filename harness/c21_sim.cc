// C21: SIM2 and SIM3 are similarity transforms.
#include "rigid.hpp"
VP_UNIT(sim3_double,1500,30000){ Suite<3,true,double>::run(rng,"sim3/"); }
VP_UNIT(sim2_double,1500,30000){ Suite<2,true,double>::run(rng,"sim2/"); }
VP_UNIT(sim3_float,400,8000){ Suite<3,true,float>::run(rng,"sim3/float_"); }
VP_UNIT(sim2_float,400,8000){ Suite<2,true,float>::run(rng,"sim2/float_"); }
VP_UNIT(sim_mixed,300,6000){ mixedG<3,true>(rng,"sim3/mixed_"); mixedG<2,true>(rng,"sim2/mixed_"); }
