#ifndef FSTATIC_LISTS_HH
#define FSTATIC_LISTS_HH
#include <initializer_list>
// objects made from a list of coordinates that may be shorter or longer than the dimension
template<class G> G fromList0() { return G(std::initializer_list<double>()); }
template<class G> G fromList1(double a) { std::initializer_list<double> l = {a}; return G(l); }
template<class G> G fromList2(double a, double b) { std::initializer_list<double> l = {a, b}; return G(l); }
template<class G> G fromList3(double a, double b, double c) { std::initializer_list<double> l = {a, b, c}; return G(l); }
template<class G> G fromList4(double a, double b, double c, double d) { std::initializer_list<double> l = {a, b, c, d}; return G(l); }
template<class G> G fromNothing() { return G(); }
#endif
