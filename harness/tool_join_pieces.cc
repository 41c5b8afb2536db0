#include "tools/join_pieces.cc"
