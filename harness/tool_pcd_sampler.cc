#include "tools/pcd_sampler.cc"
