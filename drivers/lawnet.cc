#include <laws_net.hh>
