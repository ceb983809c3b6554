#include <laws_samp.hh>
