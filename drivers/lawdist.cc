#include <laws_dist.hh>
