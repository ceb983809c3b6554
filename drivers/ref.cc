#include "intersect.cc"
#include <intersect_ref.hh>
#include <angle_ref.hh>
