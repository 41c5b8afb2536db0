#include "tools/path_statistic.cc"
