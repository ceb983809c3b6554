#include <laws_occ.hh>
