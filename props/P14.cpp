// P14: removing unions enumerates every combination exactly once.
#include "scop.h"
using namespace pbt;

static std::vector<MStmt> expected(const MStmt& m) {
  std::vector<MStmt> v;
  size_t nd = m.dom.empty() ? 1 : m.dom.size(), ns = m.scat.empty() ? 1 : m.scat.size();
  for (size_t i = 0; i < nd; i++)
    for (size_t j = 0; j < ns; j++) {
      MStmt x = m;
      if (!m.dom.empty()) x.dom = {m.dom[i]};
      if (!m.scat.empty()) x.scat = {m.scat[j]};
      v.push_back(x);
    }
  return v;
}
static GScop options(Case& c) {
  GScop g;
  g.e.prec = ALLPREC[c.s.below(3)];
  g.e.readable = c.s.pct(30);
  g.e.nil = !g.e.readable;
  g.loose = c.s.pct(30);
  g.maxparts = 4;
  g.maxdepth = 2;
  g.maxscops = 3;
  return g;
}
// more unions than gen_stmt gives
static void unite(Src& s, MStmt& m) {
  for (MUnion* u : {&m.dom, &m.scat})
    while (!u->empty() && u->size() < 4 && s.pct(45)) {
      MRel r = (*u)[s.below((uint32_t)u->size())];
      if (r.cols > 0 && r.rows > 0) r.m[s.below(r.rows)][r.cols - 1] = (int)s.below(100);
      u->push_back(r);
    }
}
static void statement(Case& c) {
  GScop g = options(c);
  MStmt m = gen_stmt(c.s, g, c.s.small(3));
  unite(c.s, m);
  bool followed = c.s.pct(30);
  std::vector<MStmt> v = {m};
  if (followed) v.push_back(gen_stmt(c.s, g, 1));  // only the first one is asked for
  c.nontrivial = m.dom.size() > 1 || m.scat.size() > 1;
  label(std::to_string(m.dom.size()) + " x " + std::to_string(m.scat.size()));
  if (c.rendering) c.log << show(tree(v));
  osl_statement_t* s = build(v);
  osl_statement_t* r = osl_statement_remove_unions(s);
  std::string d = tdiff(snap(r), expected(m));
  CHECK(d.empty(), "combinations", "the statements made: " << d);
  d = tdiff(snap(s), v);
  CHECK(d.empty(), "unchanged", "the statement given changed: " << d);
  if (c.s.flip()) {
    osl_statement_free(s);
    d = tdiff(snap(r), expected(m));
    CHECK(d.empty(), "independent", "freeing the original changed the result: " << d);
    osl_statement_free(r);
  } else {
    osl_statement_free(r);
    d = tdiff(snap(s), v);
    CHECK(d.empty(), "independent", "freeing the result changed the original: " << d);
    osl_statement_free(s);
  }
}
static void scop(Case& c) {
  GScop g = options(c);
  MScops m = gen_scops(c.s, g), want;
  if (g.e.nil && c.s.pct(5)) m[0].language = T::nil("language");
  m[0].version = c.s.range(0, 3);
  bool many = false;
  for (auto& x : m)
    for (auto& s : x.stmts) unite(c.s, s);
  want = m;
  for (auto& x : want) {
    std::vector<MStmt> v;
    for (auto& s : x.stmts) {
      std::vector<MStmt> e = expected(s);
      many = many || e.size() > 1;
      v.insert(v.end(), e.begin(), e.end());
    }
    x.stmts = v;
  }
  c.nontrivial = many && m[0].stmts.size() > 1;
  if (c.rendering) c.log << show(tree(m));
  osl_scop_t* s = build(m);
  osl_scop_t* r = osl_scop_remove_unions(s);
  std::string d = tdiff(snap(r), want);
  CHECK(d.empty(), "combinations", "the scop made: " << d);
  d = tdiff(snap(s), m);
  CHECK(d.empty(), "unchanged", "the scop given changed: " << d);
  // removing unions again changes nothing
  osl_scop_t* r2 = osl_scop_remove_unions(r);
  d = tdiff(snap(r2), want);
  CHECK(d.empty(), "again", "removing unions from a scop without unions: " << d);
  osl_scop_free(s);
  d = tdiff(snap(r), want);
  CHECK(d.empty(), "independent", "freeing the original changed the result: " << d);
  osl_scop_free(r);
  osl_scop_free(r2);
}
Property pbt::property = {
    "P14",
    "a statement with a union, or a scop of several statements of which one has a union",
    {{"statement", statement, 30000, 1500000, true}, {"scop", scop, 10000, 1200000, true}},
};
