// P15: scattering normalisation keeps the schedule and makes depths uniform.
#include <algorithm>

#include "scop.h"
using namespace pbt;

// The matrix with `dim` output dimensions: each added one is fixed to zero by one equality
// (with coefficient 1 or -1) after the original rows.
static void check_part(const MRel& a, const MRel& b, int dim, const std::string& what) {
  int k = dim - a.out;
  CHECK(b.type == a.type && b.prec == a.prec && b.in == a.in && b.local == a.local && b.params == a.params, "attributes",
        what << ": attributes changed\n" << show(b));
  CHECK(b.out == dim && b.rows == a.rows + k && b.cols == a.cols + k, "shape", what << ": " << show(b));
  std::vector<int> seen(k, 0);
  for (int i = 0; i < b.rows; i++) {
    const auto& r = b.m[i];
    if (i < a.rows) {
      for (int j = 0; j < b.cols; j++) {
        Z want = j <= a.out ? a.m[i][j] : j <= dim ? Z(0) : a.m[i][j - k];
        CHECK(r[j] == want, "rows", what << ": row " << i << " column " << j << " is " << r[j] << ", not " << want);
      }
    } else {
      int at = -1;
      for (int j = 1; j < b.cols; j++)
        if (r[j] != 0) {
          CHECK(at < 0 && (r[j] == 1 || r[j] == -1), "added", what << ": added row " << i << "\n" << show(b));
          at = j;
        }
      CHECK(r[0] == 0 && at > a.out && at <= dim, "added", what << ": added row " << i << " does not fix an added dimension\n" << show(b));
      seen[at - a.out - 1]++;
    }
  }
  for (int x : seen) CHECK(x == 1, "added", what << ": a dimension is not fixed exactly once\n" << show(b));
}
static void scop(Case& c) {
  GScop g;
  g.e.prec = ALLPREC[c.s.below(3)];
  g.e.readable = false;
  g.e.nil = true;
  g.maxparts = 3;
  g.maxscops = 1;
  g.maxstmts = 5;
  g.loose = c.s.pct(20);
  MScop m = gen_scop(c.s, g);
  int mx = 0;
  bool differ = false;
  for (auto& s : m.stmts) {
    // the parts of a union have the same attributes
    if (!s.scat.empty()) {
      int o = s.scat[0].out;
      s.scat.erase(std::remove_if(s.scat.begin(), s.scat.end(), [&](const MRel& r) { return r.out != o; }), s.scat.end());
    }
    for (auto& r : s.scat) {
      if (mx && r.out != mx) differ = true;
      mx = std::max(mx, r.out);
    }
  }
  c.nontrivial = differ;
  label("depth " + std::to_string(mx));
  if (c.rendering) c.log << show(tree(m));
  osl_scop_t* s = build(MScops{m});
  osl_scop_normalize_scattering(s);
  MScop r = snap(s)[0];
  MScop a = m, b = r;
  CHECK(a.stmts.size() == b.stmts.size(), "statements", "number of statements");
  for (size_t i = 0; i < a.stmts.size(); i++) {
    CHECK(a.stmts[i].scat.size() == b.stmts[i].scat.size(), "parts", "number of scattering parts of statement " << i);
    for (size_t k = 0; k < a.stmts[i].scat.size(); k++)
      check_part(a.stmts[i].scat[k], b.stmts[i].scat[k], mx, "scattering of statement " + std::to_string(i));
    a.stmts[i].scat.clear();
    b.stmts[i].scat.clear();
  }
  std::string d = tdiff(MScops{b}, MScops{a});
  CHECK(d.empty(), "rest", "something else changed: " << d);
  osl_scop_normalize_scattering(s);
  d = tdiff(snap(s), MScops{r});
  CHECK(d.empty(), "again", "normalising again: " << d);
  osl_scop_free(s);
}
static void extend(Case& c) {
  int prec = ALLPREC[c.s.below(3)];
  GRel g;
  g.wide = c.s.flip();
  if (c.s.pct(4)) g.maxrows = 40;
  MUnion u = gen_any_union(c.s, prec, g, 4);
  int mx = 0;
  for (auto& r : u) mx = std::max(mx, r.out);
  int dim = mx + (int)c.s.small(6) - (c.s.pct(10) ? 1 : 0);
  c.nontrivial = dim > u[0].out;
  if (c.rendering) c.log << "to " << dim << "\n" << show(u);
  osl_relation_t* r = build(u);
  if (dim < mx) {
    c.leak_exempt = true;
    CHECK(exits([&] { (void)!osl_relation_extend_output(r, dim); }), "refused", "extending to less dimensions is accepted");
    return;
  }
  osl_relation_t* e = osl_relation_extend_output(r, dim);
  SAME(snap(r), u, "unchanged", "the relation given");
  MUnion v = snap(e);
  CHECK(v.size() == u.size(), "parts", "number of parts");
  for (size_t i = 0; i < u.size(); i++) check_part(u[i], v[i], dim, "part " + std::to_string(i));
  osl_relation_free(r);
  SAME(snap(e), v, "independent", "freeing the original changed the result");
  osl_relation_free(e);
}
Property pbt::property = {
    "P15",
    "a scop with scatterings of different depths, or a relation extended by at least one dimension",
    {{"scop", scop, 40000, 1500000, true}, {"extend", extend, 60000, 2000000, true}},
};
