#include <laws_io.hh>
