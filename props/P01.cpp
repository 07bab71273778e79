// P01: writing a scop and reading it back gives an equal scop.
#include "scop.h"
using namespace pbt;

static GScop options(Case& c) {
  GScop g;
  g.e.prec = ALLPREC[c.s.below(3)];
  g.e.big = c.s.pct(8);
  g.loose = c.s.pct(15);
  return g;
}
static bool nontrivial(const MScops& m) {
  size_t n = 0, x = 0;
  for (auto& s : m) {
    n += s.stmts.size();
    x += s.ext.size() + s.params.size();
    for (auto& t : s.stmts) x += t.ext.size();
  }
  return n > 0 && x > 0;
}
static void labels(const MScops& m) {
  label("scops " + std::to_string(m.size()));
  for (auto& s : m) {
    for (auto& e : s.ext) label("extension " + e.name);
    for (auto& t : s.stmts) {
      for (auto& e : t.ext) label("statement extension " + e.name);
      if (t.dom.size() > 1 || t.scat.size() > 1) label("union in a statement");
    }
  }
}
static void roundtrip(Case& c) {
  GScop g = options(c);
  MScops m = gen_scops(c.s, g);
  c.nontrivial = nontrivial(m);
  if (c.rendering) c.log << precname(g.e.prec) << "\n" << show(tree(m));
  labels(m);
  osl_scop_t* s = build(m);
  std::string text = print_to_string([&](FILE* f) { osl_scop_print(f, s); });
  if (c.rendering) c.log << "---- printed\n" << text;
  osl_scop_t* r = read_text(text, g.e.prec);
  MScops back = snap(r);
  std::string d = tdiff(back, m);
  CHECK(d.empty(), "roundtrip", "after writing and reading: " << d);
  CHECK(osl_scop_equal(s, r), "equal", "the library says that the scop read is not equal to the one written");
  CHECK(osl_scop_equal(r, s), "equal", "the library says that the scop written is not equal to the one read");
  osl_scop_free(s);
  osl_scop_free(r);
}
// The same for a scop of any size: many statements, rows, columns.
static void large(Case& c) {
  GScop g;
  g.e.prec = ALLPREC[c.s.below(3)];
  g.e.big = true;
  g.maxparams = 12;
  g.maxdepth = 8;
  g.maxstmts = 12;
  g.maxacc = 8;
  MScop m = gen_scop(c.s, g);
  if (c.s.pct(30)) {  // a very wide and tall relation
    MRel r = gen_rel(c.s, g.e.prec, OSL_TYPE_CONTEXT, 0, 0, 0, 100 + c.s.below(600), 0, false);
    int rows = 1 + c.s.small(10);
    for (int i = 0; i < rows; i++) {
      std::vector<Z> row(r.cols);
      for (int j = 1; j < r.cols; j++) row[j] = (long)((j * 37 + i * 101) % 2001) - 1000;
      row[0] = i & 1;
      r.m.push_back(row);
      r.rows++;
    }
    m.ctx = {r};
    m.params.clear();
    m.stmts.clear();
  }
  MScops v = {m};
  c.nontrivial = nontrivial(v) || !m.ctx[0].m.empty();
  if (c.rendering) c.log << precname(g.e.prec) << "\n" << show(tree(v));
  osl_scop_t* s = build(v);
  std::string text = print_to_string([&](FILE* f) { osl_scop_print(f, s); });
  osl_scop_t* r = read_text(text, g.e.prec);
  std::string d = tdiff(snap(r), v);
  CHECK(d.empty(), "roundtrip", "after writing and reading: " << d);
  CHECK(osl_scop_equal(s, r), "equal", "the library says that the scop read is not equal to the one written");
  osl_scop_free(s);
  osl_scop_free(r);
}
// A statement list on its own.
static void statement(Case& c) {
  GScop g = options(c);
  g.e.big = false;
  std::vector<MStmt> v;
  v.push_back(gen_stmt(c.s, g, c.s.small(3)));
  c.nontrivial = !v[0].ext.empty() && (!v[0].dom.empty() || !v[0].acc.empty());
  if (c.rendering) c.log << precname(g.e.prec) << "\n" << show(tree(v));
  osl_statement_t* s = build(v);
  std::string text = print_to_string([&](FILE* f) { osl_statement_print(f, s); });
  if (c.rendering) c.log << "---- printed\n" << text;
  set_env(g.e.prec);
  FILE* f = file_of(text);
  osl_statement_t* r = osl_statement_read(f);
  fclose(f);
  std::string d = tdiff(snap(r), v);
  CHECK(d.empty(), "roundtrip", "after writing and reading: " << d);
  CHECK(osl_statement_equal(s, r), "equal", "the library says that the statement read is not equal to the one written");
  osl_statement_free(s);
  osl_statement_free(r);
}
Property pbt::property = {
    "P01",
    "a scop with at least one statement and at least one extension, body or parameter list is written and read back",
    {{"roundtrip", roundtrip, 60000, 1500000, true},
     {"statement", statement, 40000, 800000, true},
     {"large", large, 3000, 60000, true}},
};
