// compiled (not run) for every back end and language standard: its headers have to be accepted by a conforming compiler
#include "backend.hpp"
template struct boost::numeric::interval_lib::save_state<boost::numeric::interval_lib::rounded_arith_opp<float> >;
template struct boost::numeric::interval_lib::save_state<boost::numeric::interval_lib::rounded_arith_std<double> >;
boost::numeric::interval_lib::rounded_math<float> f;
boost::numeric::interval_lib::rounded_math<double> d;
boost::numeric::interval_lib::rounded_math<long double> l;
int main() { return f.add_down(1.f, 2.f) + d.mul_up(1., 2.) + f.int_down(1.f) + d.int_up(1.) == 0; }
