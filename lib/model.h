// Plain C++ model of the library's data, independent of its code.
#pragma once
#include <string>
#include <utility>
#include <vector>

#include "zint.h"

// ------------------------------------------------------------------ relations
struct MRel {
  int type = OSL_UNDEFINED, prec = OSL_PRECISION_MP;
  int rows = 0, cols = 0, out = OSL_UNDEFINED, in = OSL_UNDEFINED, local = OSL_UNDEFINED, params = OSL_UNDEFINED;
  std::vector<std::vector<Z>> m;
  bool operator==(const MRel& o) const {
    return type == o.type && prec == o.prec && rows == o.rows && cols == o.cols && out == o.out && in == o.in &&
           local == o.local && params == o.params && m == o.m;
  }
};
typedef std::vector<MRel> MUnion;
std::string show(const MRel&);
std::string show(const MUnion&);
osl_relation_t* build(const MRel&);
osl_relation_t* build(const MUnion&);           // NULL when empty
MRel snap1(const osl_relation_t*);               // the first part only
MUnion snap(const osl_relation_t*);
std::string diff(const MRel&, const MRel&);      // "" when equal
std::string diff(const MUnion&, const MUnion&);
MRel blank(int prec, int rows, int cols);
bool all_fit(int prec, const MUnion&);
#define SAME(a, b, tag, what)                                             \
  do {                                                                    \
    std::string d_ = diff(a, b);                                          \
    if (!d_.empty()) pbt::fail(tag, std::string(what) + ": " + d_);       \
  } while (0)

// generators
struct GRel {
  int maxrows = 5, maxout = 3, maxin = 3, maxlocal = 2, maxparams = 3;
  bool wide = false;  // large coefficients
};
Z gen_coef(pbt::Src&, int prec, bool wide);
void tame(MUnion&);  // (the parts that follow an access are read as accesses too)
void tame(MRel&);  // an access relation refers to an array of a small number, or to none
MRel gen_rel(pbt::Src&, int prec, int type, int out, int in, int local, int params, int rows, bool wide);
// any relation, without the shape of a particular kind
MRel gen_any_rel(pbt::Src&, int prec, const GRel&);
MUnion gen_any_union(pbt::Src&, int prec, const GRel&, int maxparts);
