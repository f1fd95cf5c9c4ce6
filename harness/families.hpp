// All comparison families over one pair of intervals and a number, with expectations computed from ordered keys.
#pragma once
#include <boost/numeric/interval.hpp>
#include <boost/numeric/interval/compare/certain.hpp>
#include <boost/numeric/interval/compare/possible.hpp>
#include <boost/numeric/interval/compare/lexicographic.hpp>
#include <boost/numeric/interval/compare/set.hpp>
#include <boost/numeric/interval/compare/tribool.hpp>
#include <boost/numeric/interval/compare/explicit.hpp>
#include <string>
namespace fam {
namespace ilc = boost::numeric::interval_lib;
enum { NO, SOME, ALL, THREW, OTHER };   // relation holds for no pair, some, all; comparison error; another exception
static const char *const ansn[] = {"false", "indeterminate", "true", "the comparison error", "another exception"};
static const char *const reln[] = {" < ", " <= ", " > ", " >= ", " == ", " != "};
#define FAM_BODY switch (r) { case 0: return a < b; case 1: return a <= b; case 2: return a > b; case 3: return a >= b; case 4: return a == b; default: return a != b; }
template <class A, class B> bool f_def(int r, const A &a, const B &b) { FAM_BODY }
template <class A, class B> bool f_cert(int r, const A &a, const B &b) { using namespace ilc::compare::certain; FAM_BODY }
template <class A, class B> bool f_poss(int r, const A &a, const B &b) { using namespace ilc::compare::possible; FAM_BODY }
template <class A, class B> boost::logic::tribool f_tri(int r, const A &a, const B &b) { using namespace ilc::compare::tribool; FAM_BODY }
template <class A, class B> bool f_lex(int r, const A &a, const B &b) { using namespace ilc::compare::lexicographic; FAM_BODY }
template <class A, class B> bool f_set(int r, const A &a, const B &b) { using namespace ilc::compare::set; FAM_BODY }
#undef FAM_BODY
template <class A, class B> bool n_cert(int r, const A &a, const B &b) { switch (r) { case 0: return ilc::cerlt(a, b); case 1: return ilc::cerle(a, b); case 2: return ilc::cergt(a, b); case 3: return ilc::cerge(a, b); case 4: return ilc::cereq(a, b); default: return ilc::cerne(a, b); } }
template <class A, class B> bool n_poss(int r, const A &a, const B &b) { switch (r) { case 0: return ilc::poslt(a, b); case 1: return ilc::posle(a, b); case 2: return ilc::posgt(a, b); case 3: return ilc::posge(a, b); case 4: return ilc::poseq(a, b); default: return ilc::posne(a, b); } }
inline int num(bool b) { return b ? ALL : NO; }
inline int num(boost::logic::tribool t) { return t ? ALL : !t ? NO : SOME; }
template <class F> int get(F f) { try { return num(f()); } catch (ilc::comparison_error &) { return THREW; } catch (const std::exception &) { return OTHER; } }
// K: ordered keys of bounds
template <class K> int verdict(int r, const K &xl, const K &xu, const K &yl, const K &yu) {
  auto d = [](bool all, bool any) { return all ? ALL : any ? SOME : NO; };
  switch (r) { case 0: return d(xu < yl, xl < yu); case 1: return d(xu <= yl, xl <= yu); case 2: return d(xl > yu, xu > yl); case 3: return d(xl >= yu, xu >= yl);
    case 4: return d(xl == xu && yl == yu && xl == yl, xl <= yu && yl <= xu); default: return d(xu < yl || yu < xl, !(xl == xu && yl == yu && xl == yl)); }
}
template <class K> bool lex(int r, const K &xl, const K &xu, const K &yl, const K &yu) {
  bool lt = xl < yl || (xl == yl && xu < yu), eq = xl == yl && xu == yu;
  switch (r) { case 0: return lt; case 1: return lt || eq; case 2: return !lt && !eq; case 3: return !lt; case 4: return eq; default: return !eq; }
}
// xe, ye: empty. report(name, want, got)
template <class I, class T, class K, class F> void all(const I &X, const I &Y, const T &n, bool xe, const K &xl, const K &xu, bool ye, const K &yl, const K &yu, const K &t, F report) {
  bool sub = xe || (!ye && yl <= xl && xu <= yu), sup = ye || (!xe && xl <= yl && yu <= xu), same = sub && sup;
  for (int r = 0; r < 6; r++) {
    std::string o = reln[r]; bool e = xe || ye;
    int v = e ? THREW : verdict(r, xl, xu, yl, yu);
    report("x" + o + "y", v == SOME ? THREW : v, get([&] { return f_def(r, X, Y); }));
    report("certain x" + o + "y", e ? THREW : num(v == ALL), get([&] { return f_cert(r, X, Y); }));
    report("possible x" + o + "y", e ? THREW : num(v != NO), get([&] { return f_poss(r, X, Y); }));
    report("three-valued x" + o + "y", v, get([&] { return f_tri(r, X, Y); }));
    report("lexicographic x" + o + "y", e ? THREW : num(lex(r, xl, xu, yl, yu)), get([&] { return f_lex(r, X, Y); }));
    bool s[] = {sub && !same, sub, sup && !same, sup, same, !same};
    report("set x" + o + "y", num(s[r]), get([&] { return f_set(r, X, Y); }));
    if (!e) { report("certainly x" + o + "y", num(v == ALL), get([&] { return n_cert(r, X, Y); })); report("possibly x" + o + "y", num(v != NO), get([&] { return n_poss(r, X, Y); })); }
    v = xe ? THREW : verdict(r, xl, xu, t, t);
    report("x" + o + "t", v == SOME ? THREW : v, get([&] { return f_def(r, X, n); }));
    report("certain x" + o + "t", xe ? THREW : num(v == ALL), get([&] { return f_cert(r, X, n); }));
    report("possible x" + o + "t", xe ? THREW : num(v != NO), get([&] { return f_poss(r, X, n); }));
    report("three-valued x" + o + "t", v, get([&] { return f_tri(r, X, n); }));
    report("lexicographic x" + o + "t", xe ? THREW : num(lex(r, xl, xu, t, t)), get([&] { return f_lex(r, X, n); }));
    if (!xe) { report("certainly x" + o + "t", num(v == ALL), get([&] { return n_cert(r, X, n); })); report("possibly x" + o + "t", num(v != NO), get([&] { return n_poss(r, X, n); }));
      v = verdict(r, t, t, xl, xu); report("certainly t" + o + "x", num(v == ALL), get([&] { return n_cert(r, n, X); })); report("possibly t" + o + "x", num(v != NO), get([&] { return n_poss(r, n, X); })); }
  }
}
}
